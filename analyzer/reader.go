package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// The token reader, decided against the byte stream it reads. The stream is an arbitrary
// sequence of characters (ASCII, multi-byte, invalid bytes; clusters in grapheme mode) and
// control bytes; the reader starts in any state its methods can leave it in, every read of the
// source returns any number of bytes, and the bytes returned by the methods must be the stream.

// srItem is one token or control byte of the stream.
type srItem struct {
	kind  byte
	pos   Lin // where it starts
	size  Lin // bytes
	width Lin
	runes []srRune
	first Lin // the first byte
	merge bool
}

type srRune struct {
	pos, size, need Lin
	val             Lin
	mn              bool
}

type streamWorld struct {
	w       *World
	e       *Engine
	c       *scnCtx
	items   []srItem
	first   map[string]Lin
	end     Lin // position of the last item, a control byte
	mode    int64
	fault   int  // the read that reports an error, -1 for none
	data    bool // the error comes with data
	empty   int  // how many reads return nothing at all
	obj     int
	errV    Value
	invalid int // how many invalid bytes follow the item being added
}

// at is byte i of the stream.
func (sw *streamWorld) at(st *State, i Lin) Lin {
	i = st.norm(i)
	for _, it := range sw.items {
		if st.entailsEQ(i.sub(it.pos)) {
			return st.norm(it.first)
		}
	}
	return st.ufm("stream", []Lin{i}, func(st *State, a []Lin) Lin { return sw.at(st, a[0]) },
		func(s Lin, a []Lin) []Lin { return []Lin{s, linC(255).sub(s)} })
}

// add appends an item of the given kind to the stream.
func (sw *streamWorld) add(st *State, kind byte) {
	w := sw.w
	k := len(sw.items)
	name := func(s string) string { return fmt.Sprintf("%s%d", s, k+1) }
	rng := func(l Lin, lo, hi int64) {
		if lo == hi {
			st.addEQ(l.plus(-lo))
			return
		}
		st.pushCon(l.plus(-lo))
		st.pushCon(linC(hi).sub(l))
	}
	it := srItem{kind: kind, pos: st.norm(sw.end), size: linC(1), first: w.sym(name("byte "))}
	rng(it.first, 0, 255)
	rn := func(off, size Lin, lo, hi int64, mn bool) {
		r := srRune{pos: it.pos.add(off), size: size, need: size, val: w.sym(name("char ")), mn: mn}
		rng(r.val, lo, hi)
		it.runes = append(it.runes, r)
	}
	multi := func() Lin {
		z := w.sym(name("size "))
		rng(z, 2, 4)
		rng(it.first, 0xc2, 0xf4)
		return z
	}
	switch kind {
	case 'c':
		rng(it.first, 0, 31)
	case 'd':
		rng(it.first, 127, 127)
	case 'A':
		rng(it.first, 32, 126)
		it.width = linC(1)
		it.runes = []srRune{{pos: it.pos, size: linC(1), need: linC(1), val: it.first}}
	case 'I': // not valid UTF-8
		rng(it.first, 128, 255)
		it.width = linC(1)
		need := w.sym(name("need "))
		rng(need, 1, min(4, int64(sw.invalid)+2))
		it.runes = []srRune{{pos: it.pos, size: linC(1), need: need, val: linC(0xfffd)}}
	case 'M', 'N', 'O': // a multi-byte character
		z := multi()
		lo := map[byte][2]int64{'M': {0x80, 0x200c}, 'N': {0x200e, 0xfdff}, 'O': {0x1f200, 0xe00ff}}[kind]
		if sw.mode == 0 {
			lo = [2]int64{0x80, 0x10ffff}
		}
		rn(Lin{}, z, lo[0], lo[1], false)
		it.size = z
		it.width = w.sym(name("width "))
		rng(it.width, 1, 2)
	case 'C': // a base character with a combining mark
		z, z2 := multi(), w.sym(name("mark size "))
		rng(z2, 2, 4)
		rn(Lin{}, z, 0x200e, 0xfdff, false)
		rn(z, z2, 0x300, 0x36f, true)
		it.size = z.add(z2)
		it.width = w.sym(name("width "))
		rng(it.width, 1, 2)
	case 'n': // a combining mark alone
		z := multi()
		rn(Lin{}, z, 0x300, 0x36f, true)
		it.size, it.merge = z, true
	case 'z': // a zero-width joiner alone
		z := linC(3)
		rng(it.first, 0xe1, 0xe2)
		rn(Lin{}, z, 0x200d, 0x200d, false)
		it.size, it.merge = z, true
	case 'v': // a variation selector alone
		z := linC(3)
		rng(it.first, 0xee, 0xef)
		rn(Lin{}, z, 0xfe00, 0xfe0f, true)
		it.size, it.merge = z, true
	case 'R': // one regional indicator
		rng(it.first, 0xf0, 0xf1)
		rn(Lin{}, linC(4), 0x1f1e6, 0x1f1ff, false)
		it.size = linC(4)
		it.width = w.sym(name("width "))
		rng(it.width, 1, 2)
	case 'F': // a flag
		rng(it.first, 0xf0, 0xf1)
		rn(Lin{}, linC(4), 0x1f1e6, 0x1f1ff, false)
		rn(linC(4), linC(4), 0x1f1e6, 0x1f1ff, false)
		it.size, it.width = linC(8), linC(2)
	}
	sw.items = append(sw.items, it)
	sw.end = it.pos.add(it.size)
}

func (it srItem) control() bool { return it.kind == 'c' || it.kind == 'd' }

// newStream makes a world whose source delivers the given items, the last a control byte.
func newStream(c *scnCtx, st *State, kinds string, mode int64) *streamWorld {
	w, e := c.w, c.w.e
	sw := &streamWorld{w: w, e: e, c: c, mode: mode, fault: -1}
	for i := 0; i < len(kinds); i++ {
		sw.invalid = len(kinds[i+1:]) - len(strings.TrimLeft(kinds[i+1:], "I"))
		sw.add(st, kinds[i])
	}
	sw.end = sw.items[len(sw.items)-1].pos
	e.noAccel, e.unroll = true, 60
	e.maxStep = 60_000_000
	sw.errV = errOf(c.w, st, c.sc.err)
	e.nat["stream"] = func(e *Engine, st *State, n Native, method string, args []Value) []Outcome {
		if method != "Read" {
			st.taint("source." + method)
			return one(st, Unknown{"source"})
		}
		return sw.read(st, args[0])
	}
	st.ghost["delivered"], st.ghost["reads"], st.ghost["empties"] = Int{}, Int{}, Int{}
	sw.natives()
	return sw
}

func ghostInt(st *State, k string) Lin {
	i, _ := st.ghost[k].(Int)
	return st.norm(i.Lin)
}

// read is the source: it fills any part of p with the next bytes of the stream.
func (sw *streamWorld) read(st *State, p Value) []Outcome {
	e := sw.e
	s, ok := p.(Slice)
	if !ok {
		st.taint("read into an unknown buffer")
		return one(st, Struct{[]Value{Unknown{"n"}, Unknown{"err"}}})
	}
	k := ghostInt(st, "reads")
	st.ghost["reads"] = Int{k.plus(1)}
	ret := func(st *State, n Lin, err Value) Outcome {
		return Outcome{st: st, val: Struct{[]Value{Int{n}, err}}}
	}
	if sw.fault >= 0 && k.c >= int64(sw.fault) {
		st.ghost["failed"] = Int{linC(1)}
		if !sw.data || k.c > int64(sw.fault) {
			return []Outcome{ret(st, Lin{}, sw.errV)}
		}
	}
	var outs []Outcome
	if sw.c != nil {
		// a read of no bytes can not make progress, whatever the source has
		sw.c.prove(st, condGE(s.len, linC(1)), "stream", func() string {
			return "the source is read into an empty buffer: nothing more can arrive"
		})
	}
	yes, no := e.branch(st, condGE(s.len, linC(1)))
	for _, x := range no {
		outs = append(outs, ret(x, Lin{}, Nil{}))
	}
	for _, x := range yes {
		if em := ghostInt(x, "empties"); em.c < int64(sw.empty) {
			z := x.fork()
			z.ghost["empties"] = Int{em.plus(1)}
			outs = append(outs, ret(z, Lin{}, Nil{}))
		}
		n := sw.w.sym(fmt.Sprintf("read %d", k.c+1))
		x.pushCon(n.plus(-1))
		x.pushCon(x.norm(s.len).sub(n))
		d := ghostInt(x, "delivered")
		if !sw.put(x, s, n, func(r Lin) Lin { return d.add(r) }) {
			return one(st, Struct{[]Value{Unknown{"n"}, Unknown{"err"}}})
		}
		now := x.norm(d.add(n))
		x.ghost["delivered"] = Int{now}
		var err Value = Nil{}
		if sw.fault >= 0 && k.c == int64(sw.fault) {
			err = sw.errV
		}
		for _, y := range sw.boundary(x, now) {
			if feasible(y) {
				outs = append(outs, ret(y, n, err))
			}
		}
	}
	return outs
}

// boundary: in grapheme mode the source does not cut inside a cluster.
func (sw *streamWorld) boundary(st *State, at Lin) []*State {
	if sw.mode == 0 {
		return []*State{st}
	}
	var outs []*State
	cur := []*State{st}
	for _, it := range sw.items {
		var next []*State
		for _, s := range cur {
			yes, no := sw.e.branch(s, condEQ(at, it.pos))
			outs = append(outs, yes...)
			next = append(next, no...)
		}
		cur = next
	}
	for _, s := range cur {
		yes, _ := sw.e.branch(s, condGT(at, sw.end))
		outs = append(outs, yes...)
	}
	return outs
}

// put writes the bytes of the stream from f(0) on to p[:n].
func (sw *streamWorld) put(st *State, p Slice, n Lin, f func(r Lin) Lin) bool {
	if p.obj == 0 || len(p.path) != 0 {
		st.taint("read into an unknown buffer")
		return false
	}
	o := *st.obj(p.obj)
	if o.arr == nil {
		a, ok := o.val.(Arr)
		if !ok {
			st.taint("read into an unknown buffer")
			return false
		}
		o.arr = sw.junk(linC(int64(len(a.e))))
		o.val = nil
	}
	arr := *o.arr
	r := sw.e.newSym("i")
	lo := st.norm(p.off)
	arr.log = &LogNode{lo: lo, hi: st.norm(lo.add(n)), rsym: r, val: Int{sw.generic(st, f(linS(r).sub(lo)))}, next: arr.log, n: arr.log.length() + 1}
	o.arr = &arr
	st.setObj(&o)
	return true
}

// generic is the stream at a position that depends on a template variable.
func (sw *streamWorld) generic(st *State, i Lin) Lin {
	return st.ufm("stream", []Lin{i}, func(st *State, a []Lin) Lin { return sw.at(st, a[0]) },
		func(s Lin, a []Lin) []Lin { return []Lin{s, linC(255).sub(s)} })
}

func (sw *streamWorld) junk(n Lin) *SymArr {
	id := sw.e.newObjID()
	return &SymArr{rows: n, elem: types.Typ[types.Byte], name: "bytes", base: func(e *Engine, st *State, r, c Lin) Value {
		return Int{st.ufm("junk", []Lin{linC(int64(id)), r}, nil, func(s Lin, a []Lin) []Lin { return []Lin{s, linC(255).sub(s)} })}
	}}
}

// where finds the stream position of a byte sequence: its first byte is byte d of the stream,
// and the next n follow in order.
func (sw *streamWorld) where(st *State, v Value) (d, n Lin, ok bool) {
	var arr *SymArr
	var off Lin
	switch x := v.(type) {
	case Slice:
		if x.obj == 0 {
			return Lin{}, Lin{}, true
		}
		o := st.obj(x.obj)
		if o.arr == nil || len(x.path) != 0 {
			return
		}
		arr, off, n = o.arr, st.norm(x.off), st.norm(x.len)
	case Str:
		if len(x.p) == 0 {
			return Lin{}, Lin{}, true
		}
		if len(x.p) != 1 || x.p[0].kind != 'a' {
			return
		}
		arr, off, n = x.p[0].arr, st.norm(x.p[0].off), st.norm(x.p[0].lin)
	default:
		return
	}
	if st.entailsEQ(n) {
		return Lin{}, n, true
	}
	f := st.fork()
	f.pushCon(n.plus(-1))
	var cands []Lin
	for i, o := range sw.e.arrRead(f.fork(), arr, off) {
		var keep []Lin
		for _, p := range sw.posOf(o.st, o.val) {
			old := i == 0
			for _, c := range cands {
				old = old || st.entailsEQ(p.sub(c))
			}
			if old {
				keep = append(keep, p)
			}
		}
		if cands = keep; len(cands) == 0 {
			return Lin{}, n, false
		}
	}
	k := sw.w.sym("k")
	f.pushCon(k)
	f.pushCon(n.sub(k).plus(-1))
	rest := sw.e.arrRead(f, arr, off.add(k))
	for _, d := range cands {
		ok = true
		for _, o := range rest {
			v, isInt := o.val.(Int)
			if !isInt {
				return Lin{}, n, false
			}
			if feasible(o.st) && o.st.decide(condEQ(v.Lin, sw.at(o.st, d.add(k)))) != 1 {
				ok = false
				break
			}
		}
		if ok {
			return d, n, true
		}
	}
	if len(cands) > 1 {
		return Lin{}, n, false
	}
	// not a part of the stream: a definite mixture of its bytes?
	for _, o := range rest {
		v := o.val.(Int)
		ps := sw.posOf(o.st, v)
		if feasible(o.st) && (len(ps) == 1 || sw.isJunk(o.st, v)) {
			same := bFalse
			if len(ps) == 1 {
				same = condEQ(ps[0], cands[0].add(k))
			}
			sw.c.prove(o.st, same, "stream", func() string {
				return "bytes that do not follow each other in the stream are taken for one character"
			})
		}
	}
	return Lin{}, n, false
}

// isJunk: a byte of the buffer that was never read from the source.
func (sw *streamWorld) isJunk(st *State, v Int) bool {
	l := st.norm(v.Lin)
	if len(l.t) != 1 {
		return false
	}
	d, ok := sw.e.ufArgs[l.t[0].s]
	return ok && d.f == "junk"
}

// posOf lists the stream positions a byte can come from.
func (sw *streamWorld) posOf(st *State, v Value) (ps []Lin) {
	i, ok := v.(Int)
	if !ok {
		return nil
	}
	l := st.norm(i.Lin)
	if len(l.t) == 1 && l.t[0].k == 1 && l.c == 0 {
		if d, ok := sw.e.ufArgs[l.t[0].s]; ok && d.f == "stream" {
			return []Lin{st.norm(d.args[0])}
		}
	}
	for _, it := range sw.items {
		if st.norm(it.first).eq(l) {
			ps = append(ps, st.norm(it.pos))
		}
	}
	return ps
}

// runeAt finds the character that starts at position d.
func (sw *streamWorld) runeAt(st *State, d Lin) (*srRune, bool) {
	for _, it := range sw.items {
		for i := range it.runes {
			if st.entailsEQ(d.sub(it.runes[i].pos)) {
				return &it.runes[i], true
			}
		}
		if it.control() && st.entailsEQ(d.sub(it.pos)) {
			return &srRune{pos: it.pos, size: linC(1), need: linC(1), val: it.first}, true
		}
	}
	return nil, false
}

// natives are the models of the UTF-8 and segmentation functions on parts of the stream.
func (sw *streamWorld) natives() {
	e := sw.e
	over := func(name string, f func(st *State, args []Value, d, n Lin, r *srRune) []Outcome) {
		old := e.intr[name]
		e.intr[name] = func(e *Engine, st *State, args []Value) []Outcome {
			if d, n, ok := sw.where(st, args[0]); ok {
				r, ok := sw.runeAt(st, d)
				if st.entailsEQ(n) {
					r, ok = &srRune{need: linC(1)}, true
				}
				if ok {
					return f(st, args, d, n, r)
				}
			}
			if old != nil {
				return old(e, st, args)
			}
			st.taint(name)
			return one(st, Unknown{name})
		}
	}
	over("unicode/utf8.FullRune", func(st *State, args []Value, d, n Lin, r *srRune) []Outcome {
		return one(st, condGE(n, r.need))
	})
	dec := func(st *State, args []Value, d, n Lin, r *srRune) []Outcome {
		var outs []Outcome
		res := func(s *State, v, z Lin) {
			outs = append(outs, Outcome{st: s, val: Struct{[]Value{Int{s.norm(v)}, Int{s.norm(z)}}}})
		}
		full, part := e.branch(st, condGE(n, r.need))
		for _, s := range full {
			res(s, r.val, r.size)
		}
		for _, s := range part {
			some, none := e.branch(s, condGE(n, linC(1)))
			for _, s := range some {
				res(s, linC(0xfffd), linC(1))
			}
			for _, s := range none {
				res(s, linC(0xfffd), Lin{})
			}
		}
		return outs
	}
	over("unicode/utf8.DecodeRune", dec)
	over("unicode/utf8.DecodeRuneInString", dec)
	count := func(st *State, args []Value, d, n Lin, r *srRune) []Outcome {
		k := int64(0)
		for _, it := range sw.items {
			for _, q := range it.runes {
				if st.entailsGE(q.pos.sub(d)) && st.entailsGE(d.add(n).sub(q.pos).sub(q.size)) {
					k++
				} else if !st.entailsGE(d.sub(q.pos).sub(q.size)) && !st.entailsGE(q.pos.sub(d).sub(n)) {
					st.taint("RuneCount")
					return one(st, Unknown{"RuneCount"})
				}
			}
		}
		return one(st, Int{linC(k)})
	}
	over("unicode/utf8.RuneCount", count)
	over("unicode/utf8.RuneCountInString", count)
	over("github.com/rivo/uniseg.Step", func(st *State, args []Value, d, n Lin, r *srRune) []Outcome {
		bad := func() []Outcome {
			st.taint("uniseg.Step")
			return one(st, Struct{[]Value{Unknown{"cluster"}, Unknown{"rest"}, Unknown{"boundaries"}, Unknown{"state"}}})
		}
		buf, ok := args[0].(Slice)
		state, ok2 := args[1].(Int)
		if !ok || !ok2 {
			return bad()
		}
		if st.entailsEQ(n) {
			return one(st, Struct{[]Value{Nil{}, Nil{}, Int{}, args[1]}})
		}
		for k, it := range sw.items {
			if !st.entailsEQ(d.sub(it.pos)) {
				continue
			}
			gs := st.norm(linS(sw.gstate(k)))
			if !st.entailsEQ(state.Lin.plus(1)) && !st.entailsEQ(state.Lin.sub(gs)) {
				return bad()
			}
			yes, _ := e.branch(st, condGE(n, it.size))
			var outs []Outcome
			for _, s := range yes {
				z := s.norm(it.size)
				fl := sw.w.sym("boundary flags")
				s.pushCon(fl)
				s.pushCon(linC(15).sub(fl))
				cl := Slice{buf.obj, buf.path, buf.off, z, s.norm(buf.cap)}
				rest := Slice{buf.obj, buf.path, s.norm(buf.off.add(z)), s.norm(n.sub(z)), s.norm(buf.cap.sub(z))}
				outs = append(outs, Outcome{st: s, val: Struct{[]Value{cl, rest, Int{s.norm(it.width.scale(16).add(fl))}, Int{linS(sw.gstate(k + 1))}}}})
			}
			return outs
		}
		return bad()
	})
	e.intr["github.com/rivo/uniseg.StringWidth"] = func(e *Engine, st *State, args []Value) []Outcome {
		if s, ok := args[0].(Str); ok {
			if len(s.p) == 1 && s.p[0].kind == 'r' {
				for _, it := range sw.items {
					for _, r := range it.runes {
						if st.entailsEQ(r.val.sub(s.p[0].lin)) {
							return one(st, Int{st.norm(it.width)})
						}
					}
				}
			}
			if c, ok := s.constVal(); ok && c == "\ufffd" {
				return one(st, Int{linC(1)})
			}
		}
		st.taint("StringWidth")
		return one(st, Unknown{"StringWidth"})
	}
	e.intr["unicode.Is"] = func(e *Engine, st *State, args []Value) []Outcome {
		g, ok1 := args[0].(Native)
		i, ok2 := args[1].(Int)
		name, _ := g.data.(string)
		if ok1 && ok2 {
			l := st.norm(i.Lin)
			for _, it := range sw.items {
				for _, r := range it.runes {
					if st.entailsEQ(r.val.sub(l)) {
						switch {
						case strings.HasSuffix(name, "unicode.Mn"):
							return one(st, boolC(r.mn))
						case strings.HasSuffix(name, "unicode.Me"):
							return one(st, bFalse)
						}
					}
				}
			}
			if l.eq(linC(0xfffd)) {
				return one(st, bFalse)
			}
		}
		st.taint("unicode.Is " + name)
		return one(st, Unknown{"unicode.Is"})
	}
}

// gstate is the segmenter's state after the first k items.
func (sw *streamWorld) gstate(k int) Sym {
	key := fmt.Sprintf("gstate|%d", k)
	s, ok := sw.e.ufs[key]
	if !ok {
		s = sw.e.newSym(fmt.Sprintf("segmenter state %d", k))
		sw.e.ufs[key] = s
	}
	return s
}

// want is what the reader must make of item k after the items before it: width 0 for a merge.
func (sw *streamWorld) merges() []bool {
	out := make([]bool, len(sw.items))
	force, ri := false, false
	for k, it := range sw.items {
		if it.control() {
			force, ri = false, false
			continue
		}
		if sw.mode == 0 {
			continue
		}
		m := force
		force = false
		switch it.kind {
		case 'n', 'v':
			m = true
		case 'z':
			m, force = true, true
		case 'R':
			if ri {
				m, ri = true, false
			} else {
				ri = true
			}
		default:
			ri = false
		}
		out[k] = m
	}
	return out
}

// anyReader is a reader in an arbitrary state: it has buffered any part of what follows.
func (sw *streamWorld) anyReader(st *State, fresh bool) (*State, Ptr) {
	e := sw.e
	t := e.typeNamed("GraphemeReader")
	src := nativeIface("stream", 0)
	if fresh {
		outs := e.call(st, e.mustFunc("NewGraphemeReaderWithMode"), []Value{src, Int{linC(sw.mode)}}, nil)
		s := single(outs, "NewGraphemeReaderWithMode")
		p, ok := outs[0].val.(Ptr)
		if !ok {
			panic(anchorErr{"NewGraphemeReaderWithMode's result"})
		}
		return s, p
	}
	outs := e.call(st, e.mustFunc("NewGraphemeReaderWithMode"), []Value{src, Int{linC(sw.mode)}}, nil)
	st = single(outs, "NewGraphemeReaderWithMode")
	p, ok := outs[0].val.(Ptr)
	if !ok {
		panic(anchorErr{"NewGraphemeReaderWithMode's result"})
	}
	if fieldIdx(t, "data") >= 0 && fieldIdx(t, "start") >= 0 && fieldIdx(t, "end") >= 0 {
		sw.anyBuffer(st, p, Lin{})
	}
	return st, p
}

// anyBuffer replaces the reader's buffer: any capacity, any part of the stream from pos on.
func (sw *streamWorld) anyBuffer(st *State, p Ptr, pos Lin) {
	e, w := sw.e, sw.w
	t := e.typeNamed("GraphemeReader")
	L, s, n := w.sym("capacity"), w.sym("start"), w.sym("buffered")
	st.pushCon(L.plus(-1))
	st.pushCon(s)
	st.pushCon(n)
	st.pushCon(L.sub(s).sub(n))
	id := e.newObjID()
	st.setObj(&Object{id: id, name: "buffer", arr: sw.junk(L)})
	sl := Slice{obj: id, len: L, cap: L}
	sub := Slice{obj: id, off: s, len: n, cap: L.sub(s)}
	sw.put(st, sub, n, func(r Lin) Lin { return pos.add(r) })
	st.ghost["delivered"] = Int{st.norm(pos.add(n))}
	w.set(st, p.obj, t, "data", sl)
	w.set(st, p.obj, t, "start", Int{s})
	w.set(st, p.obj, t, "end", Int{s.add(n)})
}

// settled: the reader holds exactly the delivered bytes from item next on, so any later call
// depends on its buffer as from any other such state. key describes the rest of its state.
func (sw *streamWorld) settled(st *State, p Ptr, next int) (key string, ok bool) {
	e := sw.e
	o := st.obj(p.obj)
	v, ok := o.val.(Struct)
	if !ok {
		return "", false
	}
	t := e.typeNamed("GraphemeReader")
	di, si, ei := fieldIdx(t, "data"), fieldIdx(t, "start"), fieldIdx(t, "end")
	if di < 0 || si < 0 || ei < 0 {
		return "", false
	}
	s, ok1 := v.f[si].(Int)
	en, ok2 := v.f[ei].(Int)
	if !ok1 || !ok2 {
		return "", false
	}
	data, isSlice := v.f[di].(Slice)
	if !isSlice && !isNilVal(v.f[di]) {
		return "", false
	}
	pos := sw.items[next].pos
	n := st.norm(en.Lin.sub(s.Lin))
	if !st.entailsGE(s.Lin) || !st.entailsGE(n) || !st.entailsGE(data.len.sub(en.Lin)) || !st.entailsEQ(data.cap.sub(data.len)) ||
		!st.entailsEQ(ghostInt(st, "delivered").sub(pos).sub(n)) {
		return "", false
	}
	if data.obj != 0 {
		sub := Slice{data.obj, data.path, st.norm(data.off.add(s.Lin)), n, n}
		d, _, ok := sw.where(st, sub)
		if !ok || !st.entailsEQ(n) && !st.entailsEQ(d.sub(pos)) {
			return "", false
		}
	}
	key = fmt.Sprint(next)
	for i, f := range v.f {
		if i != di && i != si && i != ei {
			key += "|" + e.valKey(st, f, 1<<30)
		}
	}
	_, failed := st.ghost["failed"]
	return key + fmt.Sprint("|", ghostInt(st, "reads").c, ghostInt(st, "empties").c, failed), true
}

// srRun is one reader being drained.
type srRun struct {
	st   *State
	next int // the item read next
}

// drainScenario reads a whole stream through the given method.
func drainScenario(kinds string, mode int64, tokens, fresh bool, fault int, data bool, empty int) *scenario {
	m := "ReadPrintableBytes"
	if tokens {
		m = "ReadPrintableTokens"
	}
	sc := &scenario{name: m, class: "reader", noAlt: true, mode: mode}
	how := "any buffer state"
	if fresh {
		how = "new reader"
	}
	if fault >= 0 {
		how += fmt.Sprintf(", read %d fails", fault+1)
		if data {
			how += " with data"
		}
	}
	if empty > 0 {
		how += ", an empty read anywhere"
	}
	sc.label = fmt.Sprintf("stream of %q (%s mode, %s)", kinds, []string{"rune", "grapheme"}[mode], how)
	sc.direct = func(c *scnCtx) {
		e := c.w.e
		st := c.w.base.fork()
		sw := newStream(c, st, kinds, mode)
		c.w.base = st.fork()
		sw.fault, sw.data, sw.empty = fault, data, empty
		st, p := sw.anyReader(st, fresh)
		var starts []*State
		if fresh {
			starts = []*State{st}
		} else {
			starts = sw.boundary(st, ghostInt(st, "delivered"))
		}
		var jobs []srRun
		for _, s := range starts {
			jobs = append(jobs, srRun{st: s})
		}
		seen := map[string]bool{}
		base := c.w.base
		push := func(st *State, p Ptr, next int) {
			key, ok := sw.settled(st, p, next)
			if !ok {
				jobs = append(jobs, srRun{st, next})
				return
			}
			if sw.fault < 0 && sw.empty == 0 {
				st.ghost["reads"] = Int{}
				key, _ = sw.settled(st, p, next)
			}
			if seen[key] {
				return
			}
			seen[key] = true
			n := base.fork()
			for k, v := range st.ghost {
				n.ghost[k] = v
			}
			o := *st.obj(p.obj)
			n.setObj(&o)
			sw.anyBuffer(n, p, sw.items[next].pos)
			for _, s := range sw.boundary(n, ghostInt(n, "delivered")) {
				jobs = append(jobs, srRun{s, next})
			}
		}
		read, rb := e.mustFunc("(*GraphemeReader)."+m), e.mustFunc("(*GraphemeReader).ReadByte")
		last := len(sw.items) - 1
		for len(jobs) > 0 {
			j := jobs[len(jobs)-1]
			jobs = jobs[:len(jobs)-1]
			mw := Lin{}
			if !tokens {
				mw = c.w.sym("limit")
			}
			for _, o := range e.call(j.st, read, []Value{p, Int{mw}}, nil) {
				c.outs++
				if o.panic != "" {
					c.panicked(o)
					continue
				}
				c.add("panic", 1, "")
				if _, lost := o.st.tainted(); lost {
					c.add("stream", -1, "")
					continue
				}
				r, ok := o.val.(Struct)
				if !ok {
					c.add("stream", -1, "")
					continue
				}
				if err := r.f[len(r.f)-1]; !isNilVal(err) {
					sw.checkErr(o.st, err, j.next, m)
					continue
				}
				to := sw.took(o.st, r, j.next, mw, tokens)
				switch {
				case to < 0:
				case to > j.next:
					if to < last {
						push(o.st, p, to)
					}
				default:
					// nothing printable: the next byte is a control byte
					it := sw.items[j.next]
					c.prove(o.st, boolC(it.control()), "stream", func() string {
						return fmt.Sprintf("%s returns nothing although the next byte of the stream is printable", m)
					})
					if !it.control() {
						continue
					}
					for _, b := range e.call(o.st, rb, []Value{p}, nil) {
						if b.panic != "" {
							c.panicked(b)
							continue
						}
						t, ok := b.val.(Struct)
						if !ok || len(t.f) != 2 {
							c.add("stream", -1, "")
							continue
						}
						if !isNilVal(t.f[1]) {
							sw.checkErr(b.st, t.f[1], j.next, "ReadByte")
							continue
						}
						c.proveV(b.st, t.f[0], Int{it.first}, "stream", "the byte returned by ReadByte")
						if j.next < last {
							push(b.st, p, j.next+1)
						}
					}
				}
			}
		}
	}
	return sc
}

func isNilVal(v Value) bool {
	_, ok := v.(Nil)
	return ok
}

// checkErr: an error may only be reported when the source failed and nothing complete is left.
func (sw *streamWorld) checkErr(st *State, err Value, next int, m string) {
	c := sw.c
	_, failed := st.ghost["failed"]
	c.prove(st, boolC(failed), "error", func() string {
		return m + " reports an error although the source has not failed"
	})
	if !failed {
		return
	}
	if u, ok := err.(Unknown); ok {
		_ = u
		c.add("error", -1, "")
		return
	}
	it := sw.items[next]
	need := it.size
	if sw.mode == 0 || it.control() {
		need = linC(1)
		if len(it.runes) > 0 {
			need = it.runes[0].need
		}
	}
	d := ghostInt(st, "delivered")
	c.prove(st, condLT(d.sub(it.pos), need), "error", func() string {
		return fmt.Sprintf("%s reports the error although %s has been read from the source and not been returned", m, sw.show(it))
	})
}

func sameErr(a, b Value) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func (sw *streamWorld) show(it srItem) string {
	return map[byte]string{'c': "a control byte", 'd': "a control byte", 'A': "an ASCII character", 'I': "an invalid byte", 'M': "a multi-byte character"}[it.kind] + fmt.Sprintf(" (%q)", string(it.kind))
}

// took checks what a read returned against the items from next on and gives the item after.
func (sw *streamWorld) took(st *State, r Struct, next int, mw Lin, tokens bool) int {
	c, e := sw.c, sw.e
	want := sw.merges()
	bytes := func(v Value, from Lin, what string) bool {
		s, ok := e.asBytes(st, v)
		if !ok {
			c.add("stream", -1, "")
			return false
		}
		// every byte is the stream's
		f := st.fork()
		n := e.strLen(f, s)
		k := sw.w.sym("k")
		f.pushCon(k)
		f.pushCon(n.sub(k).plus(-1))
		if !feasible(f) {
			return true
		}
		good := true
		for _, o := range e.strIndex(f, s, k, token.NoPos, nil) {
			if o.panic != "" || !feasible(o.st) {
				continue
			}
			got, ok := o.val.(Int)
			if !ok {
				c.add("stream", -1, "")
				continue
			}
			good = c.prove(o.st, condEQ(got.Lin, sw.at(o.st, from.add(k))), "stream", func() string {
				return fmt.Sprintf("byte %s of %s is not byte %s of the stream", k.str(e.symName), what, from.add(k).str(e.symName))
			}) && good
		}
		return good
	}
	if tokens {
		sl, ok := r.f[0].(Slice)
		if isNilVal(r.f[0]) {
			return next
		}
		els, ok2 := e.elems(st, sl)
		if !ok || !ok2 {
			c.add("stream", -1, "")
			return -1
		}
		tt := e.typeNamed("GraphemeToken")
		for _, v := range els {
			t, ok := v.(Struct)
			if !ok || next >= len(sw.items) {
				c.add("stream", -1, "")
				return -1
			}
			it := sw.items[next]
			s, ok := e.asBytes(st, t.f[mustField(tt, "Bytes")])
			if !ok {
				c.add("stream", -1, "")
				return -1
			}
			if !c.prove(st, condAll(boolC(!it.control()), condEQ(e.strLen(st, s), it.size)), "stream", func() string {
				return fmt.Sprintf("a token of %s bytes is returned where the stream has %s of %s", e.strLen(st, s).str(e.symName), sw.show(it), it.size.str(e.symName))
			}) {
				return -1
			}
			bytes(s, it.pos, "the token")
			m, ok := t.f[mustField(tt, "Merge")].(Bool)
			if !ok {
				c.add("stream", -1, "")
				return -1
			}
			c.proveV(st, m, boolC(want[next]), "stream", "the token's Merge")
			w := it.width
			if want[next] {
				w = Lin{}
			}
			c.proveV(st, t.f[mustField(tt, "Width")], Int{w}, "stream", "the token's Width")
			next++
		}
		return next
	}
	s, ok := e.asBytes(st, r.f[0])
	if !ok {
		c.add("stream", -1, "")
		return -1
	}
	n := st.norm(e.strLen(st, s))
	from := sw.items[next].pos
	if st.entailsEQ(n) {
		return next
	}
	to := -1
	cond := bFalse
	for k := next; k < len(sw.items) && (k == next || !sw.items[k-1].control()); k++ {
		if k > next {
			if st.entailsEQ(n.sub(sw.items[k].pos.sub(from))) {
				to = k
			}
			cond = condAny(cond, condEQ(n, sw.items[k].pos.sub(from)))
		}
	}
	if to < 0 {
		c.prove(st, cond, "stream", func() string {
			return fmt.Sprintf("%s bytes of text are returned, which are not whole characters of the stream", n.str(e.symName))
		})
		return -1
	}
	c.add("stream", 1, "")
	bytes(s, from, "the text")
	w := Lin{}
	allMerge := true
	for k := next; k < to; k++ {
		if !want[k] {
			w = w.add(sw.items[k].width)
			allMerge = false
		}
	}
	c.proveV(st, r.f[1], Int{w}, "stream", "the width of the text")
	if want[next] {
		// fragments belong to the cell before and are returned apart
		c.prove(st, boolC(allMerge), "stream", func() string { return "text is returned in one run with fragments that belong to the cell before it" })
	}
	if m, ok := r.f[2].(Bool); ok {
		c.prove(st, bIff(m, boolC(allMerge)), "stream", func() string { return "the text is reported to be a fragment of the cell before it, or not, wrongly" })
	} else {
		c.add("stream", -1, "")
	}
	if to > next+1 && !allMerge {
		c.prove(st, condAny(condLE(mw, Lin{}), condLE(w, mw)), "stream", func() string {
			return fmt.Sprintf("text of width %s is returned for a limit of %s", w.str(e.symName), mw.str(e.symName))
		})
	}
	return to
}

func bIff(a, b Bool) Bool { return condAny(condAll(a, b), condAll(a.not(), b.not())) }

// streams lists the streams of up to n items over an alphabet, each ended by a control byte.
func streams(alphabet string, n int, ok func(string) bool) []string {
	var out []string
	var rec func(s string)
	rec = func(s string) {
		if s != "" && ok(s) {
			out = append(out, s+"c")
		}
		if len(s) < n {
			for _, k := range alphabet {
				rec(s + string(k))
			}
		}
	}
	rec("")
	return append(out, "c")
}

// validClusters: marks, joiners and selectors alone only start a run; two single regional
// indicators in a row would be a flag.
func validClusters(s string) bool {
	for i := range s {
		start := i == 0 || s[i-1] == 'c'
		if strings.IndexByte("nzv", s[i]) >= 0 && !start || s[i] == 'R' && !start && s[i-1] == 'R' {
			return false
		}
	}
	return true
}

func readerScenarios() []*scenario {
	var scs []*scenario
	n := 2
	if thorough() {
		n = 3
	}
	for _, tokens := range []bool{false, true} {
		for _, k := range streams("AMIc", n, func(s string) bool { return true }) {
			scs = append(scs, drainScenario(k, 0, tokens, false, -1, false, 0), drainScenario(k, 0, tokens, true, -1, false, 0))
		}
		for _, k := range streams("AMNOCnzvRFc", n, validClusters) {
			scs = append(scs, drainScenario(k, 1, tokens, false, -1, false, 0))
		}
		if !thorough() {
			// what is remembered from one token to the next
			for _, k := range streams("ARCMc", 3, func(s string) bool { return len(s) == 3 && strings.Contains(s, "R") && validClusters(s) }) {
				scs = append(scs, drainScenario(k, 1, tokens, false, -1, false, 0))
			}
		}
		for _, k := range []string{"RcRc", "zcAc", "RcMRc", "nAcnc", "FRFc", "vRcR", "zARc", "RcnRc", "IAMc", "AAAc", "MMcA", "dAd"} {
			k += "c"
			scs = append(scs, drainScenario(k, 1, tokens, false, -1, false, 0), drainScenario(k, 1, tokens, true, -1, false, 0))
		}
		scs = append(scs, drainScenario("AAAc", 0, tokens, false, -1, false, 0), drainScenario("AdMd", 0, tokens, false, -1, false, 0))
	}
	return scs
}

func faultScenarios() []*scenario {
	var scs []*scenario
	for _, tokens := range []bool{false, true} {
		for _, k := range []string{"c", "Ac", "Mc", "Ic", "AMc", "MAc", "AcMc", "ccc"} {
			for f := 0; f < 3; f++ {
				for _, data := range []bool{false, true} {
					for _, fresh := range []bool{false, true} {
						scs = append(scs, drainScenario(k, 0, tokens, fresh, f, data, 0))
					}
				}
			}
			if len(k) < 3 || thorough() {
				scs = append(scs, drainScenario(k, 0, tokens, false, -1, false, 1), drainScenario(k, 0, tokens, true, 1, true, 1))
			}
		}
		for _, k := range []string{"Mc", "CAc", "nRc"} {
			for f := 0; f < 2; f++ {
				scs = append(scs, drainScenario(k, 1, tokens, false, f, f == 1, 0))
			}
		}
		for _, err := range errKinds {
			for _, k := range []string{"Ac", "Mc"} {
				for i := 0; i < 4; i++ {
					sc := drainScenario(k, 0, tokens, i < 2, i%2, i > 0, 0)
					sc.err = err
					sc.label += ", " + err
					scs = append(scs, sc)
				}
			}
		}
	}
	return scs
}

func feasible(st *State) bool { return consistent(st.cons, nil) }
