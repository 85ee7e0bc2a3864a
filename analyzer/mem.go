package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Memory: loads, stores, slices and indexing over heap objects.

// StrElem is the address of one element of an immutable byte sequence.
type StrElem struct {
	s Str
	i Lin
}

func panicOut(st *State, why string, pos token.Pos, fn *ssa.Function) []Outcome {
	return []Outcome{{st: st, panic: why, pos: pos, in: fn}}
}

func (e *Engine) load(st *State, x Value, t types.Type, pos token.Pos, fn *ssa.Function) []Outcome {
	switch p := x.(type) {
	case Nil:
		return panicOut(st, "nil dereference", pos, fn)
	case StrElem:
		return e.strIndex(st, p.s, p.i, pos, fn)
	case Ptr:
		return e.readPath(st, p)
	}
	return one(st, Unknown{fmt.Sprintf("load through %T", x)})
}

func (e *Engine) readPath(st *State, p Ptr) []Outcome {
	o := st.obj(p.obj)
	if o.arr == nil {
		return e.readVal(st, o.val, p.path)
	}
	if len(p.path) == 0 || p.path[0].idx == nil {
		st.taint("whole symbolic array read")
		return one(st, Unknown{"array"})
	}
	var outs []Outcome
	for _, x := range e.arrRead(st, o.arr, *p.path[0].idx) {
		outs = append(outs, e.readVal(x.st, x.val, p.path[1:])...)
	}
	return outs
}

// readVal follows a path inside a value.
func (e *Engine) readVal(st *State, v Value, path []PathElem) []Outcome {
	for k, pe := range path {
		if pe.idx == nil {
			s, ok := v.(Struct)
			if !ok {
				return one(st, Unknown{fmt.Sprintf("field of %T", v)})
			}
			v = s.f[pe.field]
			continue
		}
		a, ok := v.(Arr)
		if !ok {
			return one(st, Unknown{fmt.Sprintf("element of %T", v)})
		}
		i := st.norm(*pe.idx)
		if i.isC() {
			if i.c < 0 || int(i.c) >= len(a.e) {
				return panicOut(st, "index out of range", token.NoPos, nil)
			}
			v = a.e[i.c]
			continue
		}
		var outs []Outcome
		for _, o := range e.enumerate(st, i, 0, int64(len(a.e)-1), func(s *State, n int64) Value { return a.e[n] }) {
			outs = append(outs, e.readVal(o.st, o.val, path[k+1:])...)
		}
		return outs
	}
	return one(st, v)
}

// getPath follows a path with known indices.
func (e *Engine) getPath(st *State, v Value, path []PathElem) (Value, bool) {
	for _, pe := range path {
		if pe.idx == nil {
			s, ok := v.(Struct)
			if !ok {
				return nil, false
			}
			v = s.f[pe.field]
			continue
		}
		a, ok := v.(Arr)
		i := st.norm(*pe.idx)
		if !ok || !i.isC() || i.c < 0 || int(i.c) >= len(a.e) {
			return nil, false
		}
		v = a.e[i.c]
	}
	return v, true
}

// arrRead reads element i of a symbolic array.
func (e *Engine) arrRead(st *State, a *SymArr, i Lin) []Outcome {
	var outs []Outcome
	type job struct {
		st *State
		n  *LogNode
	}
	jobs := []job{{st, a.log}}
	for len(jobs) > 0 {
		j := jobs[len(jobs)-1]
		jobs = jobs[:len(jobs)-1]
		if j.n == nil {
			outs = append(outs, Outcome{st: j.st, val: a.base(e, j.st, i, Lin{})})
			continue
		}
		in := condAll(condGE(i, j.n.lo), condLT(i, j.n.hi))
		switch j.st.decide(in) {
		case 1:
			outs = append(outs, e.nodeRead(j.st, j.n, i)...)
			continue
		case 0:
			jobs = append(jobs, job{j.st, j.n.next})
			continue
		}
		yes, no := e.branch(j.st, in)
		for _, s := range no {
			jobs = append(jobs, job{s, j.n.next})
		}
		for _, s := range yes {
			outs = append(outs, e.nodeRead(s, j.n, i)...)
		}
	}
	return outs
}

func (e *Engine) nodeRead(st *State, n *LogNode, i Lin) []Outcome {
	if n.ref != nil && n.rsym == 0 {
		return e.arrRead(st, n.ref.arr, n.ref.row)
	}
	if n.ref != nil {
		return e.arrRead(st, n.ref.arr, st.replaceSym(n.ref.row, n.rsym, i))
	}
	if n.rsym == 0 {
		return one(st, n.val)
	}
	return one(st, mapLin(n.val, func(l Lin) Lin { return st.replaceSym(l, n.rsym, i) }))
}

func (e *Engine) store(st *State, addr, v Value, pos token.Pos, fn *ssa.Function) []Outcome {
	if el, ok := v.(Elem); ok {
		if p, isP := addr.(Ptr); isP && len(p.path) == 1 && p.path[0].idx != nil {
			if o := st.obj(p.obj); o.arr != nil && o.arr.cols == nil {
				e.arrWrite(st, p.obj, *p.path[0].idx, el)
				return one(st, nil)
			}
		}
		var outs []Outcome
		for _, r := range e.arrRead(st, el.arr, el.i) {
			outs = append(outs, e.store(r.st, addr, r.val, pos, fn)...)
		}
		return outs
	}
	switch p := addr.(type) {
	case Nil:
		return panicOut(st, "nil dereference", pos, fn)
	case Ptr:
		return e.writePath(st, p, v)
	}
	st.taint(fmt.Sprintf("store through %T", addr))
	return one(st, nil)
}

func (e *Engine) writePath(st *State, p Ptr, v Value) []Outcome {
	o := st.obj(p.obj)
	if o.arr == nil {
		var outs []Outcome
		for _, w := range e.updated(st, o.val, p.path, v) {
			if w.panic != "" {
				outs = append(outs, w)
				continue
			}
			n := *w.st.obj(p.obj)
			n.val = w.val
			w.st.setObj(&n)
			outs = append(outs, Outcome{st: w.st})
		}
		return outs
	}
	if len(p.path) == 0 || p.path[0].idx == nil {
		st.taint("whole symbolic array write")
		return one(st, nil)
	}
	i := *p.path[0].idx
	if len(p.path) == 1 {
		e.arrWrite(st, p.obj, i, v)
		return one(st, nil)
	}
	var outs []Outcome
	for _, x := range e.arrRead(st, o.arr, i) {
		for _, w := range e.updated(x.st, x.val, p.path[1:], v) {
			if w.panic != "" {
				outs = append(outs, w)
				continue
			}
			e.arrWrite(w.st, p.obj, i, w.val)
			outs = append(outs, Outcome{st: w.st})
		}
	}
	return outs
}

func (e *Engine) arrWrite(st *State, obj int, i Lin, v Value) {
	o := *st.obj(obj)
	a := *o.arr
	i = st.norm(i)
	next := a.log
	for st.loopD == 0 && next != nil && next.ref == nil && next.rsym == 0 && next.hi.eq(next.lo.plus(1)) && st.norm(next.lo).eq(i) {
		next = next.next
	}
	a.log = &LogNode{lo: i, hi: i.plus(1), val: v, next: next, n: next.length() + 1}
	if el, ok := v.(Elem); ok {
		a.log.val, a.log.ref = nil, &LogRef{arr: el.arr, row: el.i}
	}
	o.arr = &a
	st.setObj(&o)
}

// updated is v with the place at path replaced.
func (e *Engine) updated(st *State, v Value, path []PathElem, nv Value) []Outcome {
	if len(path) == 0 {
		return one(st, nv)
	}
	pe := path[0]
	if pe.idx == nil {
		s, ok := v.(Struct)
		if !ok {
			st.taint(fmt.Sprintf("store to a field of %T", v))
			return one(st, v)
		}
		var outs []Outcome
		for _, o := range e.updated(st, s.f[pe.field], path[1:], nv) {
			if o.panic == "" {
				f := append([]Value(nil), s.f...)
				f[pe.field] = o.val
				o.val = Struct{f}
			}
			outs = append(outs, o)
		}
		return outs
	}
	a, ok := v.(Arr)
	if !ok {
		st.taint(fmt.Sprintf("store to an element of %T", v))
		return one(st, v)
	}
	i := st.norm(*pe.idx)
	set := func(st *State, k int64) []Outcome {
		var outs []Outcome
		for _, o := range e.updated(st, a.e[k], path[1:], nv) {
			if o.panic == "" {
				el := append([]Value(nil), a.e...)
				el[k] = o.val
				o.val = Arr{el}
			}
			outs = append(outs, o)
		}
		return outs
	}
	if i.isC() {
		if i.c < 0 || int(i.c) >= len(a.e) {
			return panicOut(st, "index out of range", token.NoPos, nil)
		}
		return set(st, i.c)
	}
	var outs []Outcome
	for _, o := range e.enumerate(st, i, 0, int64(len(a.e)-1), func(s *State, n int64) Value { return Int{linC(n)} }) {
		if k, ok := o.val.(Int); ok {
			outs = append(outs, set(o.st, k.c)...)
		} else {
			outs = append(outs, o)
		}
	}
	return outs
}

func (e *Engine) indexAddr(st *State, x, idx Value, xt types.Type, pos token.Pos, fn *ssa.Function) []Outcome {
	iv, ok := idx.(Int)
	if !ok {
		st.taint("unknown index in " + fn.Name())
		return one(st, Unknown{"index"})
	}
	i := iv.Lin
	var n, off Lin
	var obj int
	var path []PathElem
	switch s := x.(type) {
	case Slice:
		n, off, obj, path = s.len, s.off, s.obj, s.path
	case Ptr:
		at, ok := types.Unalias(xt).Underlying().(*types.Pointer)
		if !ok {
			return one(st, Unknown{"index"})
		}
		n, obj, path = linC(at.Elem().Underlying().(*types.Array).Len()), s.obj, s.path
	case Str:
		yes, no := e.branch(st, condAll(condGE(i, linC(0)), condLT(i, e.strLen(st, s))))
		var outs []Outcome
		for _, b := range no {
			outs = append(outs, panicOut(b, "index out of range", pos, fn)...)
		}
		for _, b := range yes {
			outs = append(outs, Outcome{st: b, val: StrElem{s, i}})
		}
		return outs
	case Nil:
		return panicOut(st, "nil dereference", pos, fn)
	default:
		st.taint(fmt.Sprintf("indexing %T in %s", x, fn.Name()))
		return one(st, Unknown{"index"})
	}
	yes, no := e.branch(st, condAll(condGE(i, linC(0)), condLT(i, n)))
	var outs []Outcome
	for _, b := range no {
		outs = append(outs, panicOut(b, "index out of range", pos, fn)...)
	}
	for _, b := range yes {
		k := b.norm(off.add(i))
		np := make([]PathElem, 0, len(path)+1)
		np = append(append(np, path...), PathElem{idx: &k})
		outs = append(outs, Outcome{st: b, val: Ptr{obj, np}})
	}
	return outs
}

// pick selects element i of a known list.
func (e *Engine) pick(st *State, els []Value, i Lin, pos token.Pos, fn *ssa.Function) []Outcome {
	i = st.norm(i)
	if i.isC() {
		if i.c < 0 || int(i.c) >= len(els) {
			return panicOut(st, "index out of range", pos, fn)
		}
		return one(st, els[i.c])
	}
	yes, no := e.branch(st, condAll(condGE(i, linC(0)), condLT(i, linC(int64(len(els))))))
	var outs []Outcome
	for _, b := range no {
		outs = append(outs, panicOut(b, "index out of range", pos, fn)...)
	}
	for _, b := range yes {
		outs = append(outs, e.enumerate(b, i, 0, int64(len(els)-1), func(s *State, n int64) Value { return els[n] })...)
	}
	return outs
}

func (e *Engine) makeSlice(st *State, in *ssa.MakeSlice, n, c Value, fn *ssa.Function) []Outcome {
	ni, ok1 := n.(Int)
	ci, ok2 := c.(Int)
	if !ok1 || !ok2 {
		st.taint("make with an unknown length")
		return one(st, Unknown{"make"})
	}
	var outs []Outcome
	yes, no := e.branch(st, condAll(condGE(ni.Lin, linC(0)), condGE(ci.Lin, ni.Lin)))
	for _, b := range no {
		outs = append(outs, panicOut(b, "make: length out of range", in.Pos(), fn)...)
	}
	el := in.Type().Underlying().(*types.Slice).Elem()
	if e.small {
		yes = e.fix(e.fix(yes, ci.Lin, 64), ni.Lin, 64)
	}
	for _, b := range yes {
		nl, cl := b.norm(ni.Lin), b.norm(ci.Lin)
		if cl.isC() && cl.c <= 1<<16 {
			els := make([]Value, cl.c)
			z := e.zero(el)
			for i := range els {
				els[i] = z
			}
			id := b.alloc(types.NewArray(el, cl.c), Arr{els})
			outs = append(outs, Outcome{st: b, val: Slice{obj: id, len: nl, cap: cl}})
			continue
		}
		id := e.newObjID()
		z := e.zero(el)
		b.setObj(&Object{id: id, typ: in.Type(), arr: &SymArr{rows: cl, elem: el, name: "make", base: func(e *Engine, st *State, r, c Lin) Value { return z }}})
		outs = append(outs, Outcome{st: b, val: Slice{obj: id, len: nl, cap: cl}})
	}
	return outs
}

// fix splits the states by the value of l, 0 to max.
func (e *Engine) fix(sts []*State, l Lin, max int64) []*State {
	var outs []*State
	for _, s := range sts {
		if s.norm(l).isC() {
			outs = append(outs, s)
			continue
		}
		for _, o := range e.enumerate(s, l, 0, max, func(s *State, k int64) Value { return Int{linC(k)} }) {
			if k, ok := o.val.(Int); ok {
				if o.st.addEQ(l.sub(k.Lin)) {
					outs = append(outs, o.st)
				}
			} else if _, open := o.st.witness(); open {
				outs = append(outs, o.st)
			}
		}
	}
	return outs
}

func (e *Engine) slice(st *State, x Value, xt types.Type, lo, hi, mx Value, pos token.Pos, fn *ssa.Function) []Outcome {
	l := Lin{}
	if lo != nil {
		i, ok := lo.(Int)
		if !ok {
			st.taint("slice bound")
			return one(st, Unknown{"slice"})
		}
		l = i.Lin
	}
	var h *Lin
	if hi != nil {
		i, ok := hi.(Int)
		if !ok {
			st.taint("slice bound")
			return one(st, Unknown{"slice"})
		}
		h = &i.Lin
	}
	var outs []Outcome
	switch s := x.(type) {
	case Str:
		n := e.strLen(st, s)
		hh := n
		if h != nil {
			hh = *h
		}
		yes, no := e.branch(st, condAll(condGE(l, linC(0)), condGE(hh, l), condGE(n, hh)))
		for _, b := range no {
			outs = append(outs, panicOut(b, "slice bounds out of range", pos, fn)...)
		}
		for _, b := range yes {
			outs = append(outs, e.strSlice(b, s, l, hh)...)
		}
		return outs
	case RowSpans:
		if hh := h; hh != nil && st.decide(condEQ(*hh, linC(0))) == 1 {
			return one(st, RowSpans{&Row{kind: 'E'}})
		}
		st.taint("slicing the spans of a row")
		return one(st, Unknown{"row slice"})
	case Ptr:
		at, ok := types.Unalias(xt).Underlying().(*types.Pointer)
		if !ok {
			break
		}
		arr, ok := at.Elem().Underlying().(*types.Array)
		if !ok {
			break
		}
		n := linC(arr.Len())
		hh := n
		if h != nil {
			hh = *h
		}
		yes, no := e.branch(st, condAll(condGE(l, linC(0)), condGE(hh, l), condGE(n, hh)))
		for _, b := range no {
			outs = append(outs, panicOut(b, "slice bounds out of range", pos, fn)...)
		}
		for _, b := range yes {
			outs = append(outs, Outcome{st: b, val: Slice{s.obj, s.path, b.norm(l), b.norm(hh.sub(l)), b.norm(n.sub(l))}})
		}
		return outs
	case Slice:
		hh := s.len
		if h != nil {
			hh = *h
		}
		cp := s.cap
		if m, ok := mx.(Int); ok {
			cp = m.Lin
		}
		yes, no := e.branch(st, condAll(condGE(l, linC(0)), condGE(hh, l), condGE(s.cap, hh)))
		for _, b := range no {
			outs = append(outs, panicOut(b, "slice bounds out of range", pos, fn)...)
		}
		if e.small && st.norm(s.cap).isC() && st.norm(s.cap).c <= 64 {
			yes = e.fix(e.fix(yes, l, 64), hh, 64)
		}
		for _, b := range yes {
			outs = append(outs, Outcome{st: b, val: Slice{s.obj, s.path, b.norm(s.off.add(l)), b.norm(hh.sub(l)), b.norm(cp.sub(l))}})
		}
		return outs
	case Nil:
		return one(st, Slice{})
	}
	st.taint(fmt.Sprintf("slicing %T in %s", x, fn.Name()))
	return one(st, Unknown{"slice"})
}

func (e *Engine) lookup(st *State, x, idx Value, in *ssa.Lookup) []Outcome {
	if s, ok := x.(Str); ok {
		i, ok := idx.(Int)
		if !ok {
			return one(st, Unknown{"lookup"})
		}
		yes, no := e.branch(st, condAll(condGE(i.Lin, linC(0)), condLT(i.Lin, e.strLen(st, s))))
		var outs []Outcome
		for _, b := range no {
			outs = append(outs, panicOut(b, "index out of range", in.Pos(), in.Parent())...)
		}
		for _, b := range yes {
			outs = append(outs, e.strIndex(b, s, i.Lin, in.Pos(), in.Parent())...)
		}
		return outs
	}
	mt, ok := types.Unalias(in.X.Type()).Underlying().(*types.Map)
	if !ok {
		return one(st, Unknown{"lookup"})
	}
	res := func(v Value, found bool) Value {
		if in.CommaOk {
			return Struct{[]Value{v, boolC(found)}}
		}
		return v
	}
	var ents []mapEntry
	if m, ok := x.(MapV); ok {
		ents = st.obj(m.obj).mp
	} else if _, isNil := x.(Nil); !isNil {
		st.taint("lookup in an unknown map")
		return one(st, res(Unknown{"lookup"}, false))
	}
	var outs []Outcome
	cur := []*State{st}
	for k := len(ents) - 1; k >= 0; k-- {
		var rest []*State
		for _, s := range cur {
			c, ok := e.equal(s, ents[k].k, idx).(Bool)
			if !ok {
				s.taint("map key comparison")
				outs = append(outs, Outcome{st: s, val: res(Unknown{"lookup"}, false)})
				continue
			}
			yes, no := e.branch(s, c)
			for _, y := range yes {
				outs = append(outs, Outcome{st: y, val: res(ents[k].v, true)})
			}
			rest = append(rest, no...)
		}
		cur = rest
	}
	for _, s := range cur {
		outs = append(outs, Outcome{st: s, val: res(e.zero(mt.Elem()), false)})
	}
	return outs
}

func (e *Engine) typeAssert(st *State, x Value, in *ssa.TypeAssert, fn *ssa.Function) []Outcome {
	okV := func(v Value, ok bool) []Outcome {
		if in.CommaOk {
			return one(st, Struct{[]Value{v, boolC(ok)}})
		}
		if !ok {
			return panicOut(st, "failed type assertion", in.Pos(), fn)
		}
		return one(st, v)
	}
	switch i := x.(type) {
	case Nil:
		return okV(e.zero(in.AssertedType), false)
	case Iface:
		if n, ok := i.v.(Native); ok {
			if n.data == "read error" && in.CommaOk {
				// an error of any type
				outs := okV(e.zero(in.AssertedType), false)
				if types.IsInterface(in.AssertedType) {
					outs = append(outs, one(st.fork(), Struct{[]Value{i, bTrue}})...)
				}
				return outs
			}
			return okV(e.zero(in.AssertedType), false)
		}
		if types.IsInterface(in.AssertedType) {
			it := in.AssertedType.Underlying().(*types.Interface)
			if types.Implements(i.t, it) {
				return okV(i, true)
			}
			return okV(Nil{}, false)
		}
		if types.Identical(i.t, in.AssertedType) {
			return okV(i.v, true)
		}
		return okV(e.zero(in.AssertedType), false)
	}
	st.taint("type assertion on an unknown value")
	v := Value(Unknown{"assert"})
	if in.CommaOk {
		return one(st, Struct{[]Value{v, Unknown{"assert"}}})
	}
	return one(st, v)
}

// next advances a map or string iteration.
func (e *Engine) next(st *State, it Value, in *ssa.Next) []Outcome {
	n, ok := it.(Native)
	if !ok || n.kind != "range" {
		st.taint("range over an unknown value")
		return one(st, Struct{[]Value{Unknown{"next"}, Unknown{"next"}, Unknown{"next"}}})
	}
	o := *st.obj(n.id)
	pos := o.val.(Int).c
	done := Struct{[]Value{bFalse, Int{}, Int{}}}
	switch x := n.data.(type) {
	case Str:
		c, ok := x.constVal()
		if !ok {
			st.taint("range over a non-constant string")
			return one(st, done)
		}
		if int(pos) >= len(c) {
			return one(st, done)
		}
		for i, r := range c[pos:] {
			if i > 0 {
				break
			}
			o.val = Int{linC(pos + int64(len(string(r))))}
			st.setObj(&o)
			return one(st, Struct{[]Value{bTrue, Int{linC(pos)}, Int{linC(int64(r))}}})
		}
	case MapV:
		ents := st.obj(x.obj).mp
		if int(pos) >= len(ents) {
			return one(st, Struct{[]Value{bFalse, Nil{}, Nil{}}})
		}
		o.val = Int{linC(pos + 1)}
		st.setObj(&o)
		return one(st, Struct{[]Value{bTrue, ents[pos].k, ents[pos].v}})
	}
	st.taint("range over an unknown value")
	return one(st, done)
}

// builtin executes a builtin function.
func (e *Engine) builtin(st *State, name string, args []Value, c *ssa.CallCommon, pos token.Pos, fn *ssa.Function) []Outcome {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case Str:
			return one(st, Int{e.strLen(st, x)})
		case Slice:
			if name == "cap" {
				return one(st, Int{st.norm(x.cap)})
			}
			return one(st, Int{st.norm(x.len)})
		case RowSpans:
			return one(st, Int{e.rowSpanCount(st, x.row)})
		case Nil:
			return one(st, Int{})
		case MapV:
			return one(st, Int{linC(int64(len(st.obj(x.obj).mp)))})
		case Arr:
			return one(st, Int{linC(int64(len(x.e)))})
		case Ptr:
			if c != nil {
				if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
					if a, ok := p.Elem().Underlying().(*types.Array); ok {
						return one(st, Int{linC(a.Len())})
					}
				}
			}
		}
	case "append":
		return e.appendTo(st, args[0], args[1], c)
	case "copy":
		return e.copyTo(st, args[0], args[1])
	case "min", "max":
		cur := []Outcome{{st: st, val: args[0]}}
		for _, a := range args[1:] {
			var next []Outcome
			for _, o := range cur {
				x, ok1 := o.val.(Int)
				y, ok2 := a.(Int)
				if !ok1 || !ok2 {
					next = append(next, Outcome{st: o.st, val: Unknown{name}})
					continue
				}
				yes, no := e.branch(o.st, condLE(x.Lin, y.Lin))
				lo, hi := x, y
				if name == "max" {
					lo, hi = y, x
				}
				for _, s := range yes {
					next = append(next, Outcome{st: s, val: lo})
				}
				for _, s := range no {
					next = append(next, Outcome{st: s, val: hi})
				}
			}
			cur = next
		}
		return cur
	case "print", "println", "close", "clear":
		if name != "clear" {
			return one(st, nil)
		}
	case "delete":
		st.taint("delete")
		return one(st, nil)
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "recover":
		return one(st, Nil{})
	}
	st.taint("builtin " + name)
	return one(st, Unknown{"builtin " + name})
}

func isByteSlice(t types.Type) bool {
	s, ok := types.Unalias(t).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// asBytes views a []byte value as an immutable byte sequence.
func (e *Engine) asBytes(st *State, v Value) (Str, bool) {
	switch x := v.(type) {
	case Str:
		return x, true
	case Nil:
		return Str{}, true
	case Slice:
		return e.sliceToStr(st, x, false)
	}
	return Str{}, false
}

func (e *Engine) appendTo(st *State, a, b Value, c *ssa.CallCommon) []Outcome {
	if c != nil && isByteSlice(c.Args[0].Type()) {
		x, ok1 := e.asBytes(st, a)
		y, ok2 := e.asBytes(st, b)
		if !ok1 || !ok2 {
			st.taint("append of unknown bytes")
			return one(st, Unknown{"append"})
		}
		return one(st, strCat(x, y))
	}
	var els []Value
	switch y := b.(type) {
	case Slice:
		var ok bool
		els, ok = e.elems(st, y)
		if !ok {
			st.taint("append of an unknown slice")
			return one(st, Unknown{"append"})
		}
	case Nil:
	default:
		st.taint(fmt.Sprintf("append of %T", b))
		return one(st, Unknown{"append"})
	}
	switch x := a.(type) {
	case RowSpans:
		row := x.row
		for _, v := range els {
			row = e.rowAppend(st, row, v)
		}
		return one(st, RowSpans{row})
	case Slice:
		old, ok := e.elems(st, x)
		if !ok {
			st.taint("append to an unknown slice")
			return one(st, Unknown{"append"})
		}
		n := len(old) + len(els)
		if x.obj != 0 && st.norm(x.cap).isC() && int64(n) <= st.norm(x.cap).c && n > len(old) {
			// in place, as the runtime does when the capacity suffices
			off := st.norm(x.off).c
			cur := []*State{st}
			for k, v := range els {
				i := linC(off + int64(len(old)+k))
				var next []*State
				for _, s := range cur {
					p := append(append([]PathElem{}, x.path...), PathElem{idx: &i})
					for _, o := range e.writePath(s, Ptr{x.obj, p}, v) {
						next = append(next, o.st)
					}
				}
				cur = next
			}
			var outs []Outcome
			for _, s := range cur {
				outs = append(outs, Outcome{st: s, val: Slice{x.obj, x.path, x.off, linC(int64(n)), x.cap}})
			}
			return outs
		}
		if n == 0 {
			return one(st, x)
		}
		el := append(append([]Value{}, old...), els...)
		var et types.Type
		if c != nil {
			et = c.Args[0].Type().Underlying().(*types.Slice).Elem()
		} else {
			et = types.Typ[types.Int]
		}
		id := st.alloc(types.NewArray(et, int64(n)), Arr{el})
		return one(st, Slice{obj: id, len: linC(int64(n)), cap: linC(int64(n))})
	}
	st.taint(fmt.Sprintf("append to %T", a))
	return one(st, Unknown{"append"})
}

// copyTo is the builtin copy.
func (e *Engine) copyTo(st *State, a, b Value) []Outcome {
	d, ok := a.(Slice)
	if !ok {
		if _, isNil := a.(Nil); isNil {
			return one(st, Int{})
		}
		st.taint("copy")
		return one(st, Unknown{"copy"})
	}
	if s, ok := b.(Slice); ok {
		src, ok1 := e.elems(st, s)
		if dl := st.norm(d.len); ok1 && dl.isC() && st.norm(d.off).isC() {
			n := int64(len(src))
			if dl.c < n {
				n = dl.c
			}
			src = append([]Value{}, src...)
			cur := []*State{st}
			for k := int64(0); k < n; k++ {
				i := linC(st.norm(d.off).c + k)
				var next []*State
				for _, s := range cur {
					p := append(append([]PathElem{}, d.path...), PathElem{idx: &i})
					for _, o := range e.writePath(s, Ptr{d.obj, p}, src[k]) {
						next = append(next, o.st)
					}
				}
				cur = next
			}
			var outs []Outcome
			for _, s := range cur {
				outs = append(outs, Outcome{st: s, val: Int{linC(n)}})
			}
			return outs
		}
		return e.copySym(st, d, s)
	}
	if s, ok := b.(Str); ok {
		if outs, ok := e.copyStr(st, d, s); ok {
			return outs
		}
	}
	st.taint("copy")
	return one(st, Unknown{"copy"})
}

// copySym copies between symbolic one-dimensional arrays as one range write.
func (e *Engine) copySym(st *State, d, s Slice) []Outcome {
	if d.obj == 0 || s.obj == 0 {
		return one(st, Int{})
	}
	od, os := st.obj(d.obj), st.obj(s.obj)
	for _, o := range []*Object{od, os} { // same elements throughout: a new array
		a, ok := o.val.(Arr)
		if o.arr != nil || !ok || len(a.e) == 0 {
			continue
		}
		z, same := a.e[0], true
		for _, x := range a.e {
			xi, ok1 := x.(Int)
			zi, ok2 := z.(Int)
			same = same && ok1 && ok2 && xi.Lin.eq(zi.Lin)
		}
		if same {
			n := *o
			n.val, n.arr = nil, &SymArr{rows: linC(int64(len(a.e))), name: o.name, base: func(e *Engine, st *State, r, c Lin) Value { return z }}
			st.setObj(&n)
		}
	}
	od, os = st.obj(d.obj), st.obj(s.obj)
	if od.arr == nil || os.arr == nil || len(d.path) != 0 || len(s.path) != 0 {
		st.taint("copy between arrays of unknown length")
		return one(st, Unknown{"copy"})
	}
	var outs []Outcome
	yes, no := e.branch(st, condLE(d.len, s.len))
	do := func(s1 *State, n Lin) {
		o := *s1.obj(d.obj)
		arr := *o.arr
		src := *s1.obj(s.obj).arr
		r := e.newSym("i")
		lo := s1.norm(d.off)
		arr.log = &LogNode{lo: lo, hi: s1.norm(lo.add(n)), rsym: r, ref: &LogRef{arr: &src, row: linS(r).sub(lo).add(s1.norm(s.off))}, next: arr.log, n: arr.log.length() + 1}
		o.arr = &arr
		s1.setObj(&o)
		outs = append(outs, Outcome{st: s1, val: Int{n}})
	}
	for _, x := range yes {
		do(x, d.len)
	}
	for _, x := range no {
		do(x, s.len)
	}
	return outs
}

func (e *Engine) copyStr(st *State, d Slice, s Str) ([]Outcome, bool) {
	c, ok := s.constVal()
	dl, off := st.norm(d.len), st.norm(d.off)
	if !ok || !dl.isC() || !off.isC() {
		return nil, false
	}
	n := len(c)
	if int(dl.c) < n {
		n = int(dl.c)
	}
	cur := []*State{st}
	for k := 0; k < n; k++ {
		i := linC(off.c + int64(k))
		var next []*State
		for _, s := range cur {
			p := append(append([]PathElem{}, d.path...), PathElem{idx: &i})
			for _, o := range e.writePath(s, Ptr{d.obj, p}, Int{linC(int64(c[k]))}) {
				next = append(next, o.st)
			}
		}
		cur = next
	}
	var outs []Outcome
	for _, s := range cur {
		outs = append(outs, Outcome{st: s, val: Int{linC(int64(n))}})
	}
	return outs, true
}
