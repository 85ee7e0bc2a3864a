package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// joinDiamond merges an undecided branch on a single bit whose arms only choose between
// integers or truth values: each bit of the merged value is 0, 1, the condition or its
// complement. (The trace partition is split only where the arms differ in effect.)
func (e *Engine) joinDiamond(fr *frame, it *item, b Bool, loop *loopInfo) (*item, bool) {
	if b.op != 'b' || b.bit.konst {
		return nil, false
	}
	yes, no := it.b.Succs[0], it.b.Succs[1]
	arm := func(x *ssa.BasicBlock) (*ssa.BasicBlock, bool) {
		if len(x.Preds) != 1 || len(x.Succs) != 1 || fr.fi.loops[x] != nil {
			return nil, false
		}
		for _, in := range x.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				switch in.Op {
				case token.ADD, token.OR, token.AND, token.XOR, token.AND_NOT, token.SHL, token.SHR:
				default:
					return nil, false
				}
			case *ssa.Convert:
				if !isInteger(in.Type()) || !isInteger(in.X.Type()) {
					return nil, false
				}
			case *ssa.Jump, *ssa.DebugRef:
			default:
				return nil, false
			}
		}
		return x.Succs[0], true
	}
	join := func() *ssa.BasicBlock {
		if j, ok := arm(yes); ok && j == no {
			return no
		}
		if j, ok := arm(no); ok && j == yes {
			return yes
		}
		j1, ok1 := arm(yes)
		j2, ok2 := arm(no)
		if ok1 && ok2 && j1 == j2 {
			return j1
		}
		return nil
	}()
	if join == nil || fr.fi.loops[join] != nil || loop != nil && (join == loop.header || !loop.body[join]) {
		return nil, false
	}
	run := func(x *ssa.BasicBlock) (*item, bool) {
		n := it.clone(it.st.fork())
		n.prev, n.b, n.i = it.b, x, 0
		if x == join {
			return n, true
		}
		for _, in := range x.Instrs {
			if _, jump := in.(*ssa.Jump); jump {
				break
			}
			v, isV := in.(ssa.Value)
			if !isV {
				continue
			}
			f0 := e.forks
			res := e.step(fr, n, in)
			if len(res) != 1 || res[0].panic != "" || e.forks != f0 {
				return nil, false
			}
			n.st = res[0].st
			n.env[fr.fi.idx[v]] = res[0].val
		}
		n.prev, n.b = x, join
		return n, true
	}
	y, ok1 := run(yes)
	n, ok2 := run(no)
	if !ok1 || !ok2 {
		return nil, false
	}
	at := func(m *item) int {
		for k, p := range join.Preds {
			if p == m.prev {
				return k
			}
		}
		return -1
	}
	ky, kn := at(y), at(n)
	out := it.clone(it.st)
	out.b, out.prev = join, y.prev
	i := 0
	for ; i < len(join.Instrs); i++ {
		p, ok := join.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		v, ok := e.choose(it.st, b, e.val(fr, y, p.Edges[ky]), e.val(fr, n, p.Edges[kn]))
		if !ok {
			return nil, false
		}
		out.env[fr.fi.idx[p]] = v
	}
	if i == 0 {
		return nil, false
	}
	out.i = i
	out.st.trace = out.st.trace*1099511628211 + uint64(join.Index) + 7
	return out, true
}

// choose is x where b holds and y elsewhere.
func (e *Engine) choose(st *State, b Bool, x, y Value) (Value, bool) {
	switch p := x.(type) {
	case Bool:
		q, ok := y.(Bool)
		if !ok {
			return nil, false
		}
		switch {
		case p.op == q.op && (p.op == 'T' || p.op == 'F'):
			return p, true
		case p.op == 'T' && q.op == 'F':
			return b, true
		case p.op == 'F' && q.op == 'T':
			return b.not(), true
		}
	case Int:
		q, ok := y.(Int)
		if !ok {
			return nil, false
		}
		lp, lq := st.norm(p.Lin), st.norm(q.Lin)
		if lp.eq(lq) {
			return Int{lp}, true
		}
		wide := func(l Lin) bool {
			if l.isC() {
				return l.c >= 0 && l.c < 1<<32
			}
			return isBitsSym(st, l) || bitwise(st, l) && st.rangeWidth(l) > 0
		}
		if !wide(lp) || !wide(lq) {
			return nil, false
		}
		bp, bq := st.toBits(lp, 32), st.toBits(lq, 32)
		out := make([]Bit, 32)
		for i := range out {
			switch {
			case bp[i] == bq[i]:
				out[i] = bp[i]
			case bp[i] == bit1 && bq[i] == bit0:
				out[i] = b.bit
			case bp[i] == bit0 && bq[i] == bit1:
				out[i] = b.bit
				out[i].neg = !out[i].neg
			default:
				return nil, false
			}
		}
		return Int{st.fromBits(out)}, true
	}
	return nil, false
}

// execLoop analyses a loop entered by it. While the partition decides the guard, iterations
// are followed. At the first undecided guard the loop is summarised for every iteration count
// at once (accelerate): an invariant "the first k iterations did this" is guessed from one
// iteration and checked to be inductive. Where that fails the iterations are followed for
// e.unroll undecided guards; what lies beyond is left undecided and counted in loopsCut.
func (e *Engine) execLoop(fr *frame, li *loopInfo, it *item, depth int) (outs []Outcome, exits []*item) {
	type job struct {
		it    *item
		open  int // iterations whose guard was open
		n     int
		phase int // summaries gone through
	}
	it.st.loopD++
	jobs := []job{{it: it}}
	for len(jobs) > 0 {
		j := jobs[len(jobs)-1]
		jobs = jobs[:len(jobs)-1]
		var saved *item
		if !e.noAccel && j.open <= 1 && (e.unrollFn == nil || !e.unrollFn(fr.fi.fn)) {
			saved = j.it.clone(j.it.st.fork())
		}
		f0 := e.forks
		o, backs, ex := e.run(fr, []*item{j.it}, li)
		open := j.open
		if e.forks != f0 && len(backs) > 0 && (len(ex) > 0 || len(o) > 0) {
			open++
		}
		if len(backs) > 1 && open == j.open {
			open++ // several ways round
		}
		outs = append(outs, o...)
		exits = append(exits, ex...)
		if saved != nil && open > j.open {
			if o, ex, on, ok := e.accelerate(fr, li, saved, backs); ok && (len(on) == 0 || j.phase < 3) {
				e.loopsAccel++
				outs = append(outs, o...)
				exits = append(exits, ex...)
				for k := len(on) - 1; k >= 0; k-- {
					jobs = append(jobs, job{on[k], 0, j.n + 1, j.phase + 1})
				}
				continue
			}
		}
		for k := len(backs) - 1; k >= 0; k-- {
			_, lost := backs[k].st.tainted()
			if open > e.unroll || j.n > 5000 || lost && open > 1 {
				e.loopsCut++
				if debugEnv("CUT") {
					fmt.Println("cut:", fr.fi.fn, e.t.Pos(li.header.Instrs[0].Pos()))
				}
				continue
			}
			jobs = append(jobs, job{backs[k], open, j.n + 1, j.phase})
		}
	}
	for _, x := range exits {
		x.st.loopD--
	}
	for _, o := range outs {
		o.st.loopD--
	}
	return
}

// phiVals are the values of the loop header's phis on the edge it arrives by.
func (e *Engine) phiVals(fr *frame, li *loopInfo, it *item) []Value {
	k := -1
	for i, p := range li.header.Preds {
		if p == it.prev {
			k = i
		}
	}
	if k < 0 {
		return nil
	}
	var out []Value
	for _, p := range li.phis {
		out = append(out, e.val(fr, it, p.Edges[k]))
	}
	return out
}

// ivValue is how a value develops over the iterations: unchanged, or by a constant step.
type accel struct {
	e     *Engine
	fr    *frame
	li    *loopInfo
	entry *item
	v0    []Value // phis on entry
	why   string
	// steps of header phis and of heap places, found in the first iteration
	phiStep []stepVal
	objStep map[int]stepVal
	newObj  int // objects from here on are the loop's own
	newSym  int
	approx  bool
	lost    bool     // a way round of the generic iteration was left out
	first   []*State // the ways the first iteration came back
}

// stepVal describes v(k) given v(0): same shape, integer leaves advancing by constants,
// strings growing by a fixed piece.
type stepVal struct {
	d   []int64 // per integer leaf
	cat []Str   // per string leaf
}

func (a *accel) fail(why string) bool {
	if a.why == "" {
		a.why = why
	}
	return false
}

// steps compares the values before and after one iteration.
func (a *accel) steps(st *State, x, y Value, out *stepVal) bool {
	switch p := x.(type) {
	case Int:
		q, ok := y.(Int)
		if !ok {
			return false
		}
		d := st.norm(q.Lin.sub(p.Lin))
		if !d.isC() {
			return false
		}
		out.d = append(out.d, d.c)
		return true
	case Str:
		q, ok := y.(Str)
		if !ok {
			return false
		}
		// y must be x followed by something
		px, py := p.p, q.p
		if textRun(p) {
			if !textRun(q) || px[0].id != py[0].id {
				return false
			}
			for _, l := range [][2]Lin{{px[0].off, py[0].off}, {px[0].lin, py[0].lin}} {
				d := st.norm(l[1].sub(l[0]))
				if !d.isC() {
					return false
				}
				out.d = append(out.d, d.c)
			}
			return true
		}
		if len(py) < len(px) {
			return false
		}
		grown := Str{}
		for i := range px {
			if pieceSame(st, px[i], py[i]) {
				continue
			}
			if i == len(px)-1 && px[i].kind == 'c' && py[i].kind == 'c' && strings.HasPrefix(py[i].s, px[i].s) {
				grown = strC(py[i].s[len(px[i].s):])
				continue
			}
			return false
		}
		grown = strCat(grown, Str{p: py[len(px):]})
		out.cat = append(out.cat, grown)
		return true
	case Struct:
		q, ok := y.(Struct)
		if !ok || len(p.f) != len(q.f) {
			return false
		}
		for i := range p.f {
			if !a.steps(st, p.f[i], q.f[i], out) {
				return false
			}
		}
		return true
	case Arr:
		q, ok := y.(Arr)
		if !ok || len(p.e) != len(q.e) {
			return false
		}
		for i := range p.e {
			if !a.steps(st, p.e[i], q.e[i], out) {
				return false
			}
		}
		return true
	case Slice:
		q, ok := y.(Slice)
		if !ok || p.obj != q.obj || !samePath(st, p.path, q.path) {
			return false
		}
		for _, l := range [][2]Lin{{p.off, q.off}, {p.len, q.len}, {p.cap, q.cap}} {
			d := st.norm(l[1].sub(l[0]))
			if !d.isC() {
				return false
			}
			out.d = append(out.d, d.c)
		}
		return true
	}
	return a.e.valKey(st, x, 1<<60) == a.e.valKey(st, y, 1<<60)
}

// textRun: a stretch of one-byte characters.
func textRun(s Str) bool { return len(s.p) == 1 && s.p[0].kind == 't' && s.p[0].cl == nil }

// at is v(0) advanced by k iterations.
func (a *accel) at(st *State, v Value, s stepVal, k Lin) (Value, bool) {
	di, ci := 0, 0
	ok := true
	var walk func(v Value) Value
	walk = func(v Value) Value {
		switch p := v.(type) {
		case Int:
			d := s.d[di]
			di++
			return Int{p.Lin.add(k.scale(d))}
		case Str:
			if textRun(p) {
				t := p.p[0]
				t.off, t.lin = t.off.add(k.scale(s.d[di])), t.lin.add(k.scale(s.d[di+1]))
				di += 2
				return Str{p: []Piece{t}}
			}
			c := s.cat[ci]
			ci++
			if len(c.p) == 0 {
				return p
			}
			if k.isC() && k.c == 0 {
				return p
			}
			if len(c.p) == 1 && c.p[0].kind != 't' {
				return strCat(p, Str{p: []Piece{{kind: 'p', n: k, sub: c.p}}})
			}
			ok = false
			return p
		case Struct:
			f := make([]Value, len(p.f))
			for i := range f {
				f[i] = walk(p.f[i])
			}
			return Struct{f}
		case Arr:
			f := make([]Value, len(p.e))
			for i := range f {
				f[i] = walk(p.e[i])
			}
			return Arr{f}
		case Slice:
			n := p
			n.off, n.len, n.cap = p.off.add(k.scale(s.d[di])), p.len.add(k.scale(s.d[di+1])), p.cap.add(k.scale(s.d[di+2]))
			di += 3
			return n
		}
		return v
	}
	return walk(v), ok
}

func samePath(st *State, p, q []PathElem) bool {
	if len(p) != len(q) {
		return false
	}
	for i := range p {
		if (p[i].idx == nil) != (q[i].idx == nil) {
			return false
		}
		if p[i].idx == nil {
			if p[i].field != q[i].field {
				return false
			}
		} else if !st.norm(p[i].idx.sub(*q[i].idx)).eq(Lin{}) {
			return false
		}
	}
	return true
}

// arrWrites are the elements one iteration writes to a symbolic array.
type arrWrites struct {
	obj   int
	nodes []*LogNode // newest first
}

// effects compares the heap after an iteration with the one before.
func (a *accel) effects(st *State, before map[int]*Object) (ws []arrWrites, steps map[int]stepVal, ok bool) {
	steps = map[int]stepVal{}
	var ids []int
	for id, o := range st.heap {
		if before[id] != o && before[id] != nil {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		o, p := st.heap[id], before[id]
		switch {
		case o.arr != nil && p.arr != nil:
			w := arrWrites{obj: id}
			n := o.arr.log
			for n != nil && n != p.arr.log {
				w.nodes = append(w.nodes, n)
				n = n.next
			}
			if n != p.arr.log {
				return nil, nil, a.fail("an element written before the loop is overwritten")
			}
			if len(w.nodes) > 0 {
				ws = append(ws, w)
			}
		case o.arr == nil && p.arr == nil && len(o.mp) == 0 && len(p.mp) == 0:
			var s stepVal
			if !a.steps(st, p.val, o.val, &s) {
				return nil, nil, a.fail("object " + o.name + " changes irregularly")
			}
			steps[id] = s
		default:
			return nil, nil, a.fail("an object changes its nature")
		}
	}
	return ws, steps, true
}

// accelerate summarises all iterations after the first. saved is the item at the loop header,
// backs the ways the first iteration comes back to it.
//
// One way round is summarised: an iteration that goes that way has the effects and the
// conditions of a generic one, so the first n iterations that all go that way are described by
// n alone. An iteration that goes another way ends the stretch; the items it leaves at the
// header are returned in on and analysed as the start of a new loop.
func (e *Engine) accelerate(fr *frame, li *loopInfo, saved *item, backs []*item) (outs []Outcome, exits, on []*item, ok bool) {
	why := "no way round"
	defer func() {
		if !ok && debugEnv("ACCEL") {
			fmt.Println("not accelerated:", fr.fi.fn, e.t.Pos(li.header.Instrs[0].Pos()), why)
		}
	}()
	for i, b := range backs {
		a := &accel{e: e, fr: fr, li: li, entry: saved, newObj: e.nextObj + 1, newSym: len(e.syms)}
		for _, x := range backs {
			a.first = append(a.first, x.st)
		}
		outs, exits, on, covered, ok := a.summarise(b)
		if !ok {
			why = a.why
			continue
		}
		for k, x := range backs {
			if k != i && !covered[k] {
				on = append(on, x)
			}
		}
		return outs, exits, on, true
	}
	return nil, nil, nil, false
}

// covers: the conditions of iteration k of the summarised way hold in iteration at of st.
func (a *accel) covers(st *State, conds []loopCond, k Sym, at Lin) bool {
	for _, c := range conds {
		s := st.fork()
		l := s.replaceSym(c.l, k, at)
		held := false
		switch c.op {
		case 'g':
			held = s.entailsGE(l)
		case 'e':
			held = s.entailsEQ(l)
		case 'n':
			held = s.impossibleEQ(l)
		}
		if !held {
			return false
		}
	}
	return true
}

func (a *accel) summarise(back *item) (outs []Outcome, exits, on []*item, covered []bool, ok bool) {
	e, fr, li, saved := a.e, a.fr, a.li, a.entry
	no := func(why string) ([]Outcome, []*item, []*item, []bool, bool) {
		a.fail(why)
		return nil, nil, nil, nil, false
	}
	if len(saved.defers) > 0 {
		return no("defers")
	}
	st0 := saved.st
	if _, bad := st0.tainted(); bad {
		return no("tainted")
	}
	a.v0 = e.phiVals(fr, li, saved)
	v1 := e.phiVals(fr, li, back)
	if a.v0 == nil && len(li.phis) > 0 || v1 == nil && len(li.phis) > 0 {
		return no("phi")
	}
	bst := back.st
	for i := range a.v0 {
		var s stepVal
		if !a.steps(bst, a.v0[i], v1[i], &s) {
			return no("variable " + li.phis[i].Name() + " develops irregularly: " + e.showVal(a.v0[i]) + " then " + e.showVal(v1[i]))
		}
		a.phiStep = append(a.phiStep, s)
	}
	_, a.objStep, ok = a.effects(bst, st0.heap)
	if !ok || len(bst.out.p) != len(st0.out.p) {
		return no("output inside the loop")
	}
	// the effect of a generic iteration k, taking earlier ones to have changed only steps
	k := e.newSym("iter")
	st1 := st0.fork()
	st1.addGE(linS(k))
	bs1, _, _, ok := a.generic(st1, linS(k), true)
	if !ok {
		return no("no generic iteration")
	}
	var b1 *item
	var w1 []arrWrites
	var conds []loopCond
	for _, b := range bs1 {
		w, s, ok := a.effects(b.st, st1.heap)
		if !ok || !sameSteps(s, a.objStep) || !a.samePhis(b, linS(k).plus(1)) {
			continue
		}
		a.approx = false
		c := a.conds(st1, b.st, k)
		if len(bs1) > 1 || len(a.first) > 1 || a.lost {
			if a.approx || !a.covers(bst, c, k, Lin{}) {
				continue
			}
		}
		b1, w1, conds = b, w, c
		break
	}
	if b1 == nil {
		return no("the steps differ between iterations")
	}
	covered = make([]bool, len(a.first))
	for i, s := range a.first {
		covered[i] = len(a.first) == 1 || a.covers(s, conds, k, Lin{})
	}
	// iteration n>=1 after n iterations with those effects
	st2 := st0.fork()
	n := linS(k)
	if !st2.addGE(n.plus(-1)) {
		return nil, nil, nil, covered, true // never
	}
	for _, c := range conds {
		for _, at := range []Lin{n.plus(-1), {}} {
			l := st2.replaceSym(c.l, k, at)
			okc := true
			switch c.op {
			case 'g':
				okc = st2.addGE(l)
			case 'e':
				okc = st2.addEQ(l)
			case 'n':
				okc = st2.addNE(l)
			}
			if !okc {
				return nil, nil, nil, covered, true // no second iteration
			}
		}
	}
	for b, v := range b1.st.bits {
		if _, had := st1.bits[b]; !had {
			if e.mentions(b.s, k) || int(b.s) >= a.newSym {
				a.approx = true
				continue
			}
			if len(st2.assume(Bool{op: 'b', bit: Bit{s: b.s, i: b.i, neg: !v}})) == 0 {
				return nil, nil, nil, covered, true
			}
		}
	}
	var iterObjs []int
	for _, w := range w1 {
		io, ok := a.install(st2, b1.st, w, k)
		if !ok {
			return no("writes cannot be summarised")
		}
		iterObjs = append(iterObjs, io...)
	}
	if a.approx {
		st2.ghost["approx"] = strC("loop in " + fr.fi.fn.Name())
	}
	bs2, o2, ex2, ok := a.generic(st2, n, false)
	if !ok {
		return no("no generic iteration")
	}
	var b2 *item
	for _, b := range bs2 {
		w2, s2, ok := a.effects(b.st, a.stepHeap(st2, n).heap)
		if len(bs2) > 1 && (!ok || !a.covers(b.st, conds, k, n)) {
			on = append(on, b)
			continue
		}
		switch {
		case !ok:
			return no("")
		case !sameSteps(s2, a.objStep):
			return no("the steps are not inductive")
		case !a.sameWrites(b1.st, b.st, w1, w2):
			return no("the effects are not inductive")
		case !a.samePhis(b, n.plus(1)):
			return no("the variables are not inductive")
		case b2 != nil:
			return no("several generic iterations")
		}
		b2 = b
	}
	if b2 == nil && len(on) > 0 {
		return no("no inductive way round")
	}
	// events of the iterations gone by
	var evs []Event
	n0 := len(st0.events)
	if b2 != nil && len(b2.st.events) > n0 {
		evs = b2.st.events[n0:]
	} else if b2 == nil && len(b1.st.events) > n0 {
		return no("events without a generic iteration")
	}
	fix := func(s *State) {
		if len(evs) == 0 {
			return
		}
		ne := append([]Event{}, s.events[:n0]...)
		ne = append(ne, Event{kind: "loop", loop: &LoopEvent{n: n, g: k, ev: evs}})
		s.events = append(ne, s.events[n0:]...)
	}
	for _, o := range o2 {
		fix(o.st)
		outs = append(outs, o)
	}
	for _, x := range ex2 {
		fix(x.st)
		exits = append(exits, x)
	}
	for _, x := range on {
		fix(x.st)
	}
	_ = iterObjs
	return outs, exits, on, covered, true
}

// samePhis: the loop variables on the way back are those of iteration n.
func (a *accel) samePhis(b *item, n Lin) bool {
	v := a.e.phiVals(a.fr, a.li, b)
	for i := range a.v0 {
		want, ok := a.at(b.st, a.v0[i], a.phiStep[i], n)
		if !ok || a.e.valKey(b.st, want, 1<<60) != a.e.valKey(b.st, v[i], 1<<60) {
			return a.fail("variable " + a.li.phis[i].Name() + " is not inductive")
		}
	}
	return true
}

// stepHeap advances the regularly changing objects by n iterations.
func (a *accel) stepHeap(st *State, n Lin) *State {
	var ids []int
	for id := range a.objStep {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	s := st.fork()
	for _, id := range ids {
		o := *a.entry.st.heap[id]
		v, ok := a.at(s, o.val, a.objStep[id], n)
		if !ok {
			return nil
		}
		o.val = v
		s.setObj(&o)
	}
	return s
}

// generic runs iteration n from the loop header; lenient leaves out the ways round that the
// analysis lost track of (the caller picks one of them).
func (a *accel) generic(st *State, n Lin, lenient bool) (backs []*item, outs []Outcome, exits []*item, ok bool) {
	s := a.stepHeap(st, n)
	if s == nil {
		return nil, nil, nil, a.fail("a string grows irregularly")
	}
	// effects are compared with the stepped heap
	st.heap, st.shared = s.heap, true
	s.shared = true
	it := a.entry.clone(s)
	it.b, it.i = a.li.header, 0
	for it.i < len(it.b.Instrs) {
		if _, ok := it.b.Instrs[it.i].(*ssa.Phi); !ok {
			break
		}
		it.i++
	}
	for i, p := range a.li.phis {
		v, ok := a.at(s, a.v0[i], a.phiStep[i], n)
		if !ok {
			return nil, nil, nil, a.fail("a string variable grows irregularly")
		}
		it.env[a.fr.fi.idx[p]] = v
	}
	// the first block may consist of phis only
	o, backs, ex := a.e.run(a.fr, []*item{it}, a.li)
	clean := backs[:0]
	for _, back := range backs {
		if w, bad := back.st.tainted(); bad {
			if lenient && len(backs) > 1 {
				a.lost = true
				continue
			}
			return nil, nil, nil, a.fail("tainted: " + w)
		}
		clean = append(clean, back)
		if len(back.st.out.p) != len(a.entry.st.out.p) {
			return nil, nil, nil, a.fail("output inside the loop")
		}
	}
	if len(backs) == 0 && a.phiStep == nil && a.objStep == nil {
		return nil, nil, nil, a.fail("no way round")
	}
	return clean, o, ex, true
}

type loopCond struct {
	op byte
	l  Lin
}

// conds are the conditions under which iteration k goes round.
func (a *accel) conds(before, after *State, k Sym) []loopCond {
	var out []loopCond
	had := map[string]bool{}
	for _, c := range before.cons {
		had[c.key()] = true
	}
	fresh := func(l Lin) bool {
		for _, t := range l.t {
			if int(t.s) >= a.newSym && t.s != k && a.e.syms[t.s].uf == "" {
				return true
			}
		}
		return false
	}
	add := func(op byte, l Lin) {
		if fresh(l) {
			a.approx = true
			return
		}
		if a.e.linMentions(l.sub(linS(k).scale(l.coef(k))), k) {
			a.approx = true // not linear in k: known at the ends only
		}
		out = append(out, loopCond{op, l})
	}
	for i, x := range after.sub {
		if i < len(before.sub) && before.sub[i].s == x.s {
			if d := x.e.sub(before.sub[i].e); len(d.t) == 0 && d.c == 0 {
				continue
			}
		}
		add('e', linS(x.s).sub(x.e))
	}
	for _, c := range after.cons {
		if !had[c.key()] {
			add('g', c)
		}
	}
	for i, c := range after.ne {
		if i < len(before.ne) && before.ne[i].eq(c) {
			continue
		}
		add('n', c)
		if c.coef(k) != 0 {
			a.approx = true
		}
	}
	return out
}

func (e *Engine) mentions(t, s Sym) bool { return t == s || e.ufMentions(t, s) }

func (e *Engine) linMentions(l Lin, s Sym) bool {
	for _, t := range l.t {
		if e.mentions(t.s, s) {
			return true
		}
	}
	return false
}

func sameSteps(x, y map[int]stepVal) bool {
	key := func(s stepVal) string { return fmt.Sprint(s.d, s.cat) }
	zero := func(s stepVal) bool {
		for _, d := range s.d {
			if d != 0 {
				return false
			}
		}
		for _, c := range s.cat {
			if len(c.p) > 0 {
				return false
			}
		}
		return true
	}
	for id, s := range x {
		if t, ok := y[id]; ok {
			if key(s) != key(t) {
				return false
			}
		} else if !zero(s) {
			return false
		}
	}
	for id, s := range y {
		if _, ok := x[id]; !ok && !zero(s) {
			return false
		}
	}
	return true
}

// install adds what k iterations with the writes w (templates in k) do to an array of st.
func (a *accel) install(st, tmpl *State, w arrWrites, k Sym) (iterObjs []int, ok bool) {
	e := a.e
	o := *st.obj(w.obj)
	arr := *o.arr
	n := linS(k)
	var first *LogNode
	for i := len(w.nodes) - 1; i >= 0; i-- {
		x := w.nodes[i]
		if first == nil {
			first = x
		} else if !st.norm(tmpl.norm(x.lo.sub(first.lo))).eq(Lin{}) || !st.norm(tmpl.norm(x.hi.sub(first.hi))).eq(Lin{}) {
			return nil, a.fail("several elements of an array written per iteration")
		}
		lo, hi := tmpl.norm(x.lo), tmpl.norm(x.hi)
		if d := hi.sub(lo); !d.isC() || d.c != 1 {
			if e.linMentions(lo, k) || e.linMentions(hi, k) {
				return nil, a.fail("moving ranges written")
			}
		}
		b := lo.coef(k)
		rest := lo.sub(n.scale(b))
		if e.linMentions(rest, k) || b < -1 || b > 1 {
			return nil, a.fail("elements written irregularly")
		}
		var val Value
		var ref *LogRef
		node := &LogNode{n: arr.log.length() + 1, next: arr.log, rsym: x.rsym, csym: x.csym, clo: tmpl.norm(x.clo), chi: tmpl.norm(x.chi), two: x.two}
		conv := func(with Lin) bool {
			f := func(l Lin) Lin { return st.replaceSym(tmpl.norm(l), k, with) }
			node.clo, node.chi = f(node.clo), f(node.chi)
			if x.ref != nil {
				if x.ref.arr == nil {
					return false
				}
				r := *x.ref
				r.row, r.col = f(r.row), f(r.col)
				ref = &r
				return true
			}
			v, objs, ok := a.abstractNew(st, tmpl, x.val, k)
			if !ok {
				return false
			}
			iterObjs = append(iterObjs, objs...)
			if a.freshIn(v, k) {
				return a.fail("a value depends on something the loop does not determine")
			}
			val = mapLin(v, f)
			return true
		}
		switch b {
		case 0:
			// every iteration writes the same place: the last one counts
			if !conv(n.plus(-1)) {
				return nil, a.fail("reference")
			}
			node.lo, node.hi = lo, hi
		default:
			if x.rsym != 0 {
				return nil, a.fail("nested template")
			}
			r := e.newSym("elem")
			node.rsym = r
			if b == 1 {
				node.lo, node.hi = rest, rest.add(n)
				if !conv(linS(r).sub(rest)) {
					return nil, a.fail("reference")
				}
			} else {
				node.lo, node.hi = rest.sub(n).plus(1), rest.plus(1)
				if !conv(rest.sub(linS(r))) {
					return nil, a.fail("reference")
				}
			}
		}
		node.val, node.ref = val, ref
		arr.log = node
	}
	o.arr = &arr
	st.setObj(&o)
	return iterObjs, true
}

// freshIn: v depends on symbols created inside the loop.
func (a *accel) freshIn(v Value, k Sym) bool {
	found := false
	mapLin(v, func(l Lin) Lin {
		for _, t := range l.t {
			if int(t.s) >= a.newSym && t.s != k && a.e.syms[t.s].uf == "" && a.e.syms[t.s].bits == nil {
				found = true
			}
		}
		return l
	})
	return found
}

// abstractNew turns the objects an iteration allocates into one object per iteration.
func (a *accel) abstractNew(st, tmpl *State, v Value, k Sym) (Value, []int, bool) {
	e := a.e
	done := map[int]int{}
	var made []int
	ok := true
	var conv func(v Value) Value
	obj := func(id int) int {
		if n, seen := done[id]; seen {
			return n
		}
		o := tmpl.heap[id]
		if o == nil || o.arr != nil || len(o.mp) > 0 {
			ok = false
			return id
		}
		n := e.newObjID()
		done[id] = n
		body := conv(mapLin(o.val, tmpl.norm))
		if a.freshIn(body, k) {
			ok = false
		}
		st.setObj(&Object{id: n, name: "per iteration", arr: &SymArr{rows: linC(1 << 40), name: "per iteration", base: func(e *Engine, st *State, r, c Lin) Value {
			return mapLin(body, func(l Lin) Lin { return st.replaceSym(l, k, r) })
		}}})
		made = append(made, n)
		return n
	}
	pre := func(path []PathElem) []PathElem {
		i := linS(k)
		return append([]PathElem{{idx: &i}}, path...)
	}
	conv = func(v Value) Value {
		switch x := v.(type) {
		case Ptr:
			if x.obj >= a.newObj {
				return Ptr{obj(x.obj), pre(x.path)}
			}
		case Slice:
			if x.obj >= a.newObj {
				n := x
				n.obj, n.path = obj(x.obj), pre(x.path)
				return n
			}
		case Struct:
			f := make([]Value, len(x.f))
			for i := range f {
				f[i] = conv(x.f[i])
			}
			return Struct{f}
		case Arr:
			f := make([]Value, len(x.e))
			for i := range f {
				f[i] = conv(x.e[i])
			}
			return Arr{f}
		case Iface:
			return Iface{x.t, conv(x.v)}
		case MapV:
			if x.obj >= a.newObj {
				ok = false
			}
		case Func:
			for _, f := range x.free {
				if p, isP := f.(Ptr); isP && p.obj >= a.newObj {
					ok = false
				}
			}
		}
		return v
	}
	out := conv(v)
	return out, made, ok
}

// sameWrites: both iterations write the same elements with the same values.
func (a *accel) sameWrites(s1, s2 *State, w1, w2 []arrWrites) bool {
	if len(w1) != len(w2) {
		return false
	}
	for i := range w1 {
		if w1[i].obj != w2[i].obj || len(w1[i].nodes) != len(w2[i].nodes) {
			return false
		}
		for j := range w1[i].nodes {
			x, y := w1[i].nodes[j], w2[i].nodes[j]
			if (x.ref == nil) != (y.ref == nil) {
				return false
			}
			if x.ref != nil {
				// a copy: it must not see what the loop itself wrote
				ox := a.entry.st.heap
				base := (*LogNode)(nil)
				if w1[i].obj != 0 && ox[w1[i].obj] != nil && ox[w1[i].obj].arr != nil {
					base = ox[w1[i].obj].arr.log
				}
				if x.ref.arr.log != base {
					return a.fail("a copy of an element written in the same iteration")
				}
				n := y.ref.arr.log
				for n != nil && n != base {
					at := y.ref.row
					if y.rsym != 0 || s2.decide(condAll(condGE(at, n.lo), condLT(at, n.hi))) != 0 {
						return a.fail("a copy of an element written in an earlier iteration")
					}
					n = n.next
				}
				if n != base {
					return a.fail("a copy from a changed array")
				}
			}
			key := func(st *State, n *LogNode) string {
				f := func(l Lin) string { return s2.norm(st.norm(l)).key() }
				out := f(n.lo) + "|" + f(n.hi) + "|" + f(n.clo) + "|" + f(n.chi) + "|"
				if n.ref != nil {
					return out + "ref" + f(n.ref.row) + "," + f(n.ref.col)
				}
				v := mapLin(n.val, func(l Lin) Lin { return s2.norm(st.norm(l)) })
				return out + a.e.valKey2(st, s2, v, a.newObj)
			}
			if key(s1, x) != key(s2, y) {
				if debugEnv("ACCEL") {
					fmt.Println(key(s1, x), "\n", key(s2, y))
				}
				return false
			}
		}
	}
	return true
}

// valKey is a canonical text of a value; objects from newObj on are shown by content.
func (e *Engine) valKey(st *State, v Value, newObj int) string { return e.valKey2(st, st, v, newObj) }

func (e *Engine) valKey2(st, nst *State, v Value, newObj int) string {
	var sb strings.Builder
	seen := map[int]bool{}
	lin := func(l Lin) { sb.WriteString(nst.norm(st.norm(l)).key()); sb.WriteByte(' ') }
	var val func(v Value)
	path := func(p []PathElem) {
		for _, x := range p {
			if x.idx != nil {
				sb.WriteByte('[')
				lin(*x.idx)
				sb.WriteByte(']')
			} else {
				fmt.Fprintf(&sb, ".%d", x.field)
			}
		}
	}
	obj := func(id int) {
		if id < newObj {
			fmt.Fprintf(&sb, "@%d", id)
			return
		}
		if seen[id] {
			sb.WriteString("@again")
			return
		}
		seen[id] = true
		if o := st.heap[id]; o != nil && o.arr == nil {
			sb.WriteString("@{")
			val(o.val)
			sb.WriteByte('}')
			return
		}
		fmt.Fprintf(&sb, "@%d", id)
	}
	var pieces func(ps []Piece)
	pieces = func(ps []Piece) {
		for _, p := range ps {
			fmt.Fprintf(&sb, "<%c %q %d ", p.kind, p.s, p.id)
			lin(p.lin)
			lin(p.off)
			lin(p.n)
			if p.cl != nil {
				fmt.Fprintf(&sb, "cl%d ", p.cl.id)
			}
			pieces(p.sub)
			sb.WriteByte('>')
		}
	}
	var row func(r *Row)
	row = func(r *Row) {
		if r == nil {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(&sb, "row%c%d ", r.kind, r.arr)
		lin(r.idx)
		lin(r.w)
		lin(r.x)
		lin(r.n)
		for _, s := range r.list {
			val(s)
		}
		sb.WriteByte('/')
		for _, s := range r.ins {
			val(s)
		}
		fmt.Fprintf(&sb, "%d(", r.npad)
		row(r.parent)
		sb.WriteByte(')')
	}
	val = func(v Value) {
		switch x := v.(type) {
		case Int:
			lin(x.Lin)
		case Bool:
			b := mapBool(x, func(l Lin) Lin { return nst.norm(st.norm(l)) })
			fmt.Fprintf(&sb, "%c", b.op)
			lin(b.lin)
			fmt.Fprint(&sb, b.bit)
			for _, y := range b.list {
				val(y)
			}
		case Str:
			fmt.Fprintf(&sb, "s%v", x.isNil)
			pieces(x.p)
		case Struct:
			sb.WriteByte('{')
			for _, y := range x.f {
				val(y)
				sb.WriteByte(',')
			}
			sb.WriteByte('}')
		case Arr:
			sb.WriteByte('[')
			for _, y := range x.e {
				val(y)
				sb.WriteByte(',')
			}
			sb.WriteByte(']')
		case Ptr:
			sb.WriteString("p")
			obj(x.obj)
			path(x.path)
		case Slice:
			sb.WriteString("sl")
			obj(x.obj)
			path(x.path)
			lin(x.off)
			lin(x.len)
			lin(x.cap)
		case Iface:
			sb.WriteString("if" + x.t.String())
			val(x.v)
		case RowSpans:
			row(x.row)
		case Func:
			fmt.Fprintf(&sb, "fn%v%s", x.fn, x.name)
			for _, y := range x.free {
				val(y)
			}
		case MapV:
			obj(x.obj)
		case Native:
			fmt.Fprintf(&sb, "n%s%d%v", x.kind, x.id, x.data)
		case Nil:
			sb.WriteString("nil")
		case Unknown:
			fmt.Fprintf(&sb, "?%p", &x)
		default:
			fmt.Fprintf(&sb, "%T%v", v, v)
		}
	}
	val(v)
	return sb.String()
}
