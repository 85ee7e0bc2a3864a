package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Object is one heap object; val is its contents, or arr when its length is symbolic.
type Object struct {
	id   int
	typ  types.Type
	val  Value
	arr  *SymArr
	mp   []mapEntry
	name string
}

type mapEntry struct{ k, v Value }

// SymArr is an array of symbolic length, one- or two-dimensional: initial contents plus a
// log of range writes, newest first.
type SymArr struct {
	rows Lin
	cols *Lin
	log  *LogNode
	base func(e *Engine, st *State, r, c Lin) Value
	elem types.Type
	name string
}

// LogNode says: elements [lo,hi) (x [clo,chi)) were set to val, a template in rsym/csym, or
// copied from another log.
type LogNode struct {
	lo, hi   Lin
	clo, chi Lin
	val      Value
	rsym     Sym
	csym     Sym
	ref      *LogRef
	next     *LogNode
	two      bool // limited to columns [clo,chi)
	n        int
}

// LogRef is a copy of elements as they were in arr, at (row, col), templates in rsym/csym.
type LogRef struct {
	arr      *SymArr
	row, col Lin
}

func (l *LogNode) length() int {
	if l == nil {
		return 0
	}
	return l.n
}

type subEntry struct {
	s Sym
	e Lin
}

// Event is something the analysed code did that its environment can see.
type Event struct {
	kind string
	args []Value
	snap map[int]*Object
	alt  Value // terminal's active-screen flag at the time
	loop *LoopEvent
}

// LoopEvent stands for the events of n iterations; in iteration g (0<=g<n) they are ev.
type LoopEvent struct {
	n  Lin
	g  Sym
	ev []Event
}

// State is an abstract state on one trace partition.
type State struct {
	e      *Engine
	cons   []Lin
	sub    []subEntry
	ne     []Lin
	bits   map[Bit]bool
	heap   map[int]*Object
	shared bool
	ax     map[Sym]bool
	axSh   bool
	events []Event
	out    Str // bytes written to the backend
	trace  uint64
	path   []string
	loopD  int
	ghost  map[string]Value
}

func (st *State) fork() *State {
	inTime()
	st.shared, st.axSh = true, true
	n := *st
	n.cons = st.cons[:len(st.cons):len(st.cons)]
	n.sub = st.sub[:len(st.sub):len(st.sub)]
	n.ne = st.ne[:len(st.ne):len(st.ne)]
	n.events = st.events[:len(st.events):len(st.events)]
	n.path = st.path[:len(st.path):len(st.path)]
	st.cons = n.cons
	st.sub = n.sub
	st.ne = n.ne
	st.events = n.events
	st.path = n.path
	n.bits = make(map[Bit]bool, len(st.bits))
	for k, v := range st.bits {
		n.bits[k] = v
	}
	n.ghost = make(map[string]Value, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	return &n
}

func (st *State) setObj(o *Object) {
	if st.shared {
		h := make(map[int]*Object, len(st.heap)+4)
		for k, v := range st.heap {
			h[k] = v
		}
		st.heap = h
		st.shared = false
	}
	st.heap[o.id] = o
}

// norm applies the solved equalities.
func (st *State) norm(l Lin) Lin {
	if len(l.t) == 0 || len(st.sub) == 0 {
		return l
	}
	for _, x := range st.sub {
		l = l.subst(x.s, x.e)
		if len(l.t) == 0 {
			break
		}
	}
	return l
}

func (st *State) normV(v Value) Value { return mapLin(v, st.norm) }

// possible: may l >= 0 hold?
func (st *State) possible(l Lin) bool {
	l = st.norm(l).tighten()
	if l.isC() {
		return l.c >= 0
	}
	return st.e.consistentMemo(st.cons, l)
}

func (st *State) entailsGE(l Lin) bool { // l >= 0 certain
	return !st.possible(l.neg().plus(-1))
}

func (st *State) entailsEQ(l Lin) bool {
	l = st.norm(l)
	if l.isC() {
		return l.c == 0
	}
	return st.entailsGE(l) && st.entailsGE(l.neg())
}

// decide evaluates a condition: 1 certain, 0 impossible, -1 open.
func (st *State) decide(b Bool) int {
	switch b.op {
	case 'T':
		return 1
	case 'F':
		return 0
	case 'g':
		l := st.norm(b.lin)
		if l.isC() {
			return b2i(l.c >= 0)
		}
		if st.entailsGE(l) {
			return 1
		}
		if !st.possible(l) {
			return 0
		}
		return -1
	case 'e', 'n':
		l := st.norm(b.lin)
		r := -1
		if l.isC() {
			r = b2i(l.c == 0)
		} else if st.impossibleEQ(l) {
			r = 0
		} else if st.entailsGE(l) && st.entailsGE(l.neg()) {
			r = 1
		}
		if r >= 0 && b.op == 'n' {
			return 1 - r
		}
		return r
	case 'b':
		v, ok := st.bitVal(b.bit)
		if ok {
			return b2i(v)
		}
		return -1
	case 'A':
		r := 1
		for _, x := range b.list {
			switch st.decide(x) {
			case 0:
				return 0
			case -1:
				r = -1
			}
		}
		return r
	case 'O':
		r := 0
		for _, x := range b.list {
			switch st.decide(x) {
			case 1:
				return 1
			case -1:
				r = -1
			}
		}
		return r
	}
	panic("decide")
}

func (st *State) impossibleEQ(l Lin) bool {
	// integrality: gcd of coefficients must divide the constant
	g := int64(0)
	for _, x := range l.t {
		g = gcd64(g, x.k)
	}
	if g > 1 && l.c%g != 0 {
		return true
	}
	if !st.possible(l) || !st.possible(l.neg()) {
		return true
	}
	for _, n := range st.ne {
		n = st.norm(n)
		if n.eq(l) || n.eq(l.neg()) {
			return true
		}
	}
	// l == 0 added to the constraints
	cons := append(append([]Lin{}, st.cons...), l, l.neg())
	return !consistent(connected(cons, l), nil)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (st *State) bitVal(b Bit) (bool, bool) {
	if b.konst {
		return b.neg, true
	}
	k := Bit{s: b.s, i: b.i}
	if v, ok := st.bits[k]; ok {
		return v != b.neg, true
	}
	// a symbol with a known value
	l := st.norm(linS(b.s))
	if l.isC() {
		return (l.c>>uint(b.i)&1 == 1) != b.neg, true
	}
	if l.eq(linS(b.s)) {
		return false, false
	}
	bs := st.toBits(l, b.i+1)
	if b.i < len(bs) {
		x := bs[b.i]
		if x.konst {
			return x.neg != b.neg, true
		}
		if x.s != b.s {
			v, ok := st.bitVal(x)
			return v != b.neg, ok
		}
	}
	return false, false
}

// assume adds a condition; the result is the list of partitions it is true in.
func (st *State) assume(b Bool) []*State {
	switch b.op {
	case 'T':
		return []*State{st}
	case 'F':
		return nil
	case 'g':
		if st.addGE(b.lin) {
			return []*State{st}
		}
		return nil
	case 'e':
		if st.addEQ(b.lin) {
			return []*State{st}
		}
		return nil
	case 'n':
		if st.addNE(b.lin) {
			return []*State{st}
		}
		return nil
	case 'b':
		v, ok := st.bitVal(b.bit)
		if ok {
			if v {
				return []*State{st}
			}
			return nil
		}
		st.bits[Bit{s: b.bit.s, i: b.bit.i}] = !b.bit.neg
		return []*State{st}
	case 'A':
		sts := []*State{st}
		for _, x := range b.list {
			var next []*State
			for _, s := range sts {
				next = append(next, s.assume(x)...)
			}
			sts = next
		}
		return sts
	case 'O':
		var out []*State
		cur := []*State{st}
		for _, x := range b.list {
			var rest []*State
			for _, s := range cur {
				switch s.decide(x) {
				case 1:
					out = append(out, s)
				case 0:
					rest = append(rest, s)
				default:
					o := s.fork()
					out = append(out, o.assume(x)...)
					rest = append(rest, s.assume(x.not())...)
				}
			}
			cur = rest
		}
		return out
	}
	panic("assume")
}

func (st *State) addGE(l Lin) bool {
	l = st.norm(l).tighten()
	if l.isC() {
		return l.c >= 0
	}
	if !st.e.consistentMemo(st.cons, l) {
		return false
	}
	st.pushCon(l)
	if !st.e.consistentMemo(st.cons, l.plus(-1)) {
		// l is forced to 0
		return st.addEQ(l)
	}
	return st.recheckNE(l)
}

func (st *State) pushCon(l Lin) {
	k := l.vecKey()
	for i, c := range st.cons {
		if len(c.t) == len(l.t) && c.vecKey() == k {
			if l.c < c.c {
				nc := append([]Lin{}, st.cons...)
				nc[i] = l
				st.cons = nc
			}
			return
		}
	}
	st.cons = append(st.cons[:len(st.cons):len(st.cons)], l)
}

// recheckNE tightens bounds against disequalities: x>=0 and x!=0 is x>=1.
func (st *State) recheckNE(touched Lin) bool {
	for i := 0; i < len(st.ne); i++ {
		n := st.norm(st.ne[i])
		if n.isC() {
			if n.c == 0 {
				return false
			}
			st.ne = append(append([]Lin{}, st.ne[:i]...), st.ne[i+1:]...)
			i--
			continue
		}
		share := false
		for _, x := range n.t {
			if touched.coef(x.s) != 0 {
				share = true
			}
		}
		if !share && len(touched.t) > 0 {
			continue
		}
		if st.entailsGE(n) {
			st.ne = append(append([]Lin{}, st.ne[:i]...), st.ne[i+1:]...)
			return st.addGE(n.plus(-1))
		}
		if st.entailsGE(n.neg()) {
			st.ne = append(append([]Lin{}, st.ne[:i]...), st.ne[i+1:]...)
			return st.addGE(n.neg().plus(-1))
		}
	}
	return true
}

func (st *State) addNE(l Lin) bool {
	l = st.norm(l)
	if l.isC() {
		return l.c != 0
	}
	if st.entailsGE(l) {
		return st.addGE(l.plus(-1))
	}
	if st.entailsGE(l.neg()) {
		return st.addGE(l.neg().plus(-1))
	}
	st.ne = append(st.ne[:len(st.ne):len(st.ne)], l)
	return true
}

func (st *State) addEQ(l Lin) bool {
	l = st.norm(l)
	if l.isC() {
		return l.c == 0
	}
	if st.impossibleEQ(l) {
		return false
	}
	// solve for the newest symbol with a unit coefficient
	best := -1
	for i, x := range l.t {
		if x.k == 1 || x.k == -1 {
			best = i
		}
	}
	if best < 0 {
		st.pushCon(l.tighten())
		st.pushCon(l.neg().tighten())
		return st.recheckNE(Lin{})
	}
	x := l.t[best]
	rest := l.addk(Lin{t: []linTerm{{x.s, 1}}}, -x.k)
	e := rest.scale(-x.k) // x.k*s + rest == 0  ->  s == -rest/x.k
	// keep the substitution idempotent
	ns := make([]subEntry, 0, len(st.sub)+1)
	for _, y := range st.sub {
		ns = append(ns, subEntry{y.s, y.e.subst(x.s, e)})
	}
	st.sub = append(ns, subEntry{x.s, e})
	old := st.cons
	st.cons = nil
	for _, c := range old {
		nc := c
		if c.coef(x.s) != 0 {
			nc = c.subst(x.s, e).tighten()
		}
		if nc.isC() {
			if nc.c < 0 {
				return false
			}
			continue
		}
		st.pushCon(nc)
	}
	return st.recheckNE(Lin{})
}

// ---- symbols

type symInfo struct {
	name  string
	bits  []Bit // definition as bits, when it has one
	width int   // number of value bits, 0 unknown
	uf    string
}

func (e *Engine) newSym(name string) Sym {
	e.syms = append(e.syms, symInfo{name: name})
	return Sym(len(e.syms) - 1)
}

func (e *Engine) symName(s Sym) string { return e.syms[s].name }

// uf returns the symbol standing for f(args); ax lists inequalities that always hold for it.
func (st *State) uf(f string, args []Lin, ax func(s Lin) []Lin) Lin {
	var sb strings.Builder
	sb.WriteString(f)
	nargs := make([]Lin, len(args))
	for i, a := range args {
		nargs[i] = st.norm(a)
		sb.WriteString("|")
		sb.WriteString(nargs[i].key())
	}
	k := sb.String()
	s, ok := st.e.ufs[k]
	if !ok {
		var names []string
		for _, a := range nargs {
			names = append(names, a.str(st.e.symName))
		}
		s = st.e.newSym(f + "(" + strings.Join(names, ",") + ")")
		st.e.syms[s].uf = f
		st.e.ufs[k] = s
		st.e.ufArgs[s] = ufDef{f: f, args: nargs, ax: ax}
	}
	l := linS(s)
	st.axiom(s, ax)
	return st.norm(l)
}

type ufDef struct {
	f    string
	args []Lin
	ax   func(s Lin) []Lin
	mk   func(st *State, args []Lin) Lin // rebuilds the term for other arguments
}

func (st *State) axiom(s Sym, ax func(Lin) []Lin) {
	if st.ax[s] || ax == nil {
		return
	}
	if st.axSh {
		n := make(map[Sym]bool, len(st.ax)+4)
		for k, v := range st.ax {
			n[k] = v
		}
		st.ax = n
		st.axSh = false
	}
	st.ax[s] = true
	for _, l := range ax(linS(s)) {
		l = st.norm(l).tighten()
		if !l.isC() {
			st.pushCon(l)
		}
	}
}

// replaceSym substitutes s by x in l, through uninterpreted terms.
func (st *State) replaceSym(l Lin, s Sym, x Lin) Lin {
	out := Lin{c: l.c}
	for _, t := range l.t {
		if t.s == s {
			out = out.addk(x, t.k)
			continue
		}
		if d, ok := st.e.ufArgs[t.s]; ok && st.e.ufMentions(t.s, s) {
			args := make([]Lin, len(d.args))
			for i, a := range d.args {
				args[i] = st.replaceSym(a, s, x)
			}
			var r Lin
			if d.mk != nil {
				r = d.mk(st, args)
			} else {
				r = st.uf(d.f, args, nil)
			}
			out = out.addk(r, t.k)
			continue
		}
		out = out.addk(linS(t.s), t.k)
	}
	return out
}

func (e *Engine) ufMentions(t, s Sym) bool {
	d, ok := e.ufArgs[t]
	if !ok {
		return t == s
	}
	for _, a := range d.args {
		for _, x := range a.t {
			if x.s == s || e.ufMentions(x.s, s) {
				return true
			}
		}
	}
	return false
}

// ufm is uf with a constructor, so that the term can be rebuilt for other arguments.
func (st *State) ufm(f string, args []Lin, mk func(st *State, args []Lin) Lin, ax func(s Lin, args []Lin) []Lin) Lin {
	nargs := make([]Lin, len(args))
	for i, a := range args {
		nargs[i] = st.norm(a)
	}
	l := st.uf(f, nargs, func(s Lin) []Lin { return ax(s, nargs) })
	if len(l.t) == 1 {
		if d, ok := st.e.ufArgs[l.t[0].s]; ok && d.mk == nil {
			d.mk = mk
			st.e.ufArgs[l.t[0].s] = d
		}
	}
	return l
}

// shr is floor(l / 2^k) for any l.
func (st *State) divFloor(l Lin, k int64) Lin {
	l = st.norm(l)
	if l.isC() {
		return linC(floorDiv(l.c, k))
	}
	ok := l.c%k == 0
	for _, t := range l.t {
		if t.k%k != 0 {
			ok = false
		}
	}
	if ok {
		out := Lin{c: l.c / k}
		for _, t := range l.t {
			out.t = append(out.t, linTerm{t.s, t.k / k})
		}
		return out
	}
	return st.ufm(fmt.Sprintf("div%d", k), []Lin{l}, func(st *State, a []Lin) Lin { return st.divFloor(a[0], k) },
		func(s Lin, a []Lin) []Lin {
			return []Lin{a[0].addk(s, -k), s.scale(k).plus(k - 1).sub(a[0])}
		})
}

// toBits views l as w bits (w <= 64).
func (st *State) toBits(l Lin, w int) []Bit {
	l = st.norm(l)
	out := make([]Bit, w)
	for i := range out {
		out[i] = bit0
	}
	if l.isC() {
		for i := 0; i < w; i++ {
			if l.c>>uint(i)&1 == 1 {
				out[i] = bit1
			}
		}
		return out
	}
	// a disjoint sum of shifted bit fields
	if len(l.t) >= 1 && l.c >= 0 {
		used := uint64(0)
		okAll := true
		for i := 0; i < w; i++ {
			if l.c>>uint(i)&1 == 1 {
				out[i] = bit1
				used |= 1 << uint(i)
			}
		}
		for _, t := range l.t {
			sh := 0
			for k := t.k; k > 1 && k&1 == 0; k >>= 1 {
				sh++
			}
			if t.k <= 0 || t.k != 1<<uint(sh) {
				okAll = false
				break
			}
			sw := st.symWidth(t.s)
			if sw == 0 {
				if len(l.t) == 1 && l.c == 0 {
					sw = w - sh
				} else {
					okAll = false
					break
				}
			}
			def := st.e.syms[t.s].bits
			for i := 0; i < sw && i+sh < w; i++ {
				if used>>uint(i+sh)&1 == 1 {
					okAll = false
					break
				}
				used |= 1 << uint(i+sh)
				b := Bit{s: t.s, i: i}
				if def != nil {
					b = bit0
					if i < len(def) {
						b = def[i]
					}
				}
				out[i+sh] = st.resolveBit(b)
			}
		}
		if okAll {
			return out
		}
	}
	// an alias symbol for the expression
	a := st.uf("val", []Lin{l}, func(s Lin) []Lin { return []Lin{s.sub(l), l.sub(s)} })
	if len(a.t) == 1 && a.c == 0 && a.t[0].k == 1 {
		s := a.t[0].s
		for i := range out {
			out[i] = st.resolveBit(Bit{s: s, i: i})
		}
		if sw := st.rangeWidth(l); sw > 0 {
			for i := sw; i < w; i++ {
				out[i] = bit0
			}
		}
	} else {
		s := st.e.aliasSym(l)
		for i := range out {
			out[i] = st.resolveBit(Bit{s: s, i: i})
		}
		if sw := st.rangeWidth(l); sw > 0 {
			for i := sw; i < w; i++ {
				out[i] = bit0
			}
		}
	}
	return out
}

func (e *Engine) aliasSym(l Lin) Sym {
	k := "alias|" + l.key()
	s, ok := e.ufs[k]
	if !ok {
		s = e.newSym("(" + l.str(e.symName) + ")")
		e.ufs[k] = s
	}
	return s
}

func (st *State) resolveBit(b Bit) Bit {
	if b.konst {
		return b
	}
	if v, ok := st.bits[Bit{s: b.s, i: b.i}]; ok {
		if v != b.neg {
			return bit1
		}
		return bit0
	}
	return b
}

// symWidth: the number of bits the symbol's value needs, 0 if unknown.
func (st *State) symWidth(s Sym) int {
	if w := st.e.syms[s].width; w > 0 {
		return w
	}
	if d := st.e.syms[s].bits; d != nil {
		return len(d)
	}
	return st.rangeWidth(linS(s))
}

func (st *State) rangeWidth(l Lin) int {
	if !st.entailsGE(l) {
		return 0
	}
	for _, w := range []int{1, 2, 3, 4, 5, 6, 7, 8, 16, 21, 24, 32} {
		if st.entailsGE(linC(1<<uint(w) - 1).sub(l)) {
			return w
		}
	}
	return 0
}

// fromBits is the integer the bits denote.
func (st *State) fromBits(b []Bit) Lin {
	for i := range b {
		b[i] = st.resolveBit(b[i])
	}
	n := len(b)
	for n > 0 && b[n-1] == bit0 {
		n--
	}
	b = b[:n]
	c := int64(0)
	all := true
	for i, x := range b {
		if !x.konst {
			all = false
			break
		}
		if x.neg && i < 63 {
			c |= 1 << uint(i)
		}
	}
	if all {
		return linC(c)
	}
	// a sum of one-bit symbols
	sum, single := Lin{}, true
	for i, x := range b {
		switch {
		case x.konst:
			if x.neg {
				sum = sum.plus(1 << uint(i))
			}
		case x.i == 0 && st.e.syms[x.s].width == 1 && st.e.syms[x.s].bits == nil && i < 62:
			if x.neg {
				sum = sum.plus(1 << uint(i)).add(linS(x.s).scale(-1 << uint(i)))
			} else {
				sum = sum.add(linS(x.s).scale(1 << uint(i)))
			}
		default:
			single = false
		}
	}
	if single {
		return st.norm(sum)
	}
	// exactly one symbol's bits in place, possibly shifted
	first := 0
	for b[first] == bit0 {
		first++
	}
	if x := b[first]; !x.konst && !x.neg && x.i == 0 {
		same := true
		for i := first; i < n; i++ {
			if y := b[i]; y.konst || y.neg || y.s != x.s || y.i != i-first {
				same = false
			}
		}
		w := st.e.syms[x.s].width
		if w == 0 {
			w = st.rangeWidth(linS(x.s))
		}
		if same && w > 0 && n-first >= w {
			return linS(x.s).scale(1 << uint(first))
		}
	}
	key := "bits|" + bitsKey(b)
	s, ok := st.e.ufs[key]
	if !ok {
		s = st.e.newSym("bits" + bitsName(st.e, b))
		st.e.ufs[key] = s
		st.e.syms[s].bits = append([]Bit{}, b...)
		st.e.syms[s].width = n
	}
	max := int64(1)<<uint(n) - 1
	st.axiom(s, func(s Lin) []Lin { return []Lin{s, linC(max).sub(s)} })
	return st.norm(linS(s))
}

func bitsName(e *Engine, b []Bit) string {
	var sb strings.Builder
	sb.WriteByte('[')
	for i := len(b) - 1; i >= 0; {
		x := b[i]
		if x.konst {
			sb.WriteString(map[bool]string{true: "1", false: "0"}[x.neg])
			i--
			continue
		}
		j := i
		for j > 0 && !b[j-1].konst && b[j-1].s == x.s && b[j-1].i == b[j].i-1 && b[j-1].neg == x.neg {
			j--
		}
		if x.neg {
			sb.WriteByte('~')
		}
		fmt.Fprintf(&sb, "<%s:%d..%d>", e.symName(x.s), x.i, b[j].i)
		i = j - 1
	}
	sb.WriteByte(']')
	return sb.String()
}

// ---- heap access

func (st *State) obj(id int) *Object {
	o := st.heap[id]
	if o == nil {
		panic(fmt.Sprintf("dangling object %d", id))
	}
	return o
}

func (e *Engine) newObjID() int {
	e.nextObj++
	return e.nextObj
}

func (st *State) alloc(t types.Type, v Value) int {
	id := st.e.newObjID()
	st.setObj(&Object{id: id, typ: t, val: v})
	return id
}

// describe lists what is known on this partition, for reports.
func (st *State) describe() string {
	var xs []string
	for _, x := range st.sub {
		if st.e.syms[x.s].uf == "" {
			xs = append(xs, st.e.symName(x.s)+" = "+x.e.str(st.e.symName))
		}
	}
	for _, c := range st.cons {
		xs = append(xs, c.str(st.e.symName)+" >= 0")
	}
	for _, c := range st.ne {
		xs = append(xs, c.str(st.e.symName)+" != 0")
	}
	var bs []string
	for b, v := range st.bits {
		bs = append(bs, fmt.Sprintf("bit %d of %s is %v", b.i, st.e.symName(b.s), v))
	}
	sort.Strings(bs)
	xs = append(xs, bs...)
	if len(xs) > 40 {
		xs = xs[:40]
	}
	return strings.Join(xs, ", ")
}
