package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Rows of the span screen. The contents of a row that was there before the analysed operation
// are arbitrary (kind 'B'); replaceRange is analysed on its own against this contract and is
// summarised by it everywhere else.

// RowSpans is the value of a row's span list.
type RowSpans struct{ row *Row }

// Row is the content of a row.
type Row struct {
	kind   byte // 'B' as it was before; 'L' list of spans; 'S' splice; 'E' empty
	arr    int
	idx    Lin
	w      Lin
	list   []Struct
	parent *Row
	x, n   Lin
	ins    []Struct
	npad   int // of ins, the leading (1) and trailing (2) elements are blanks for cut characters
	back   int // identity of the backing array for a list row
	bidx   Lin // and, for one of an array of them, which
}

func mapRow(r *Row, f func(Lin) Lin) *Row {
	if r == nil {
		return nil
	}
	n := *r
	n.idx, n.w, n.x, n.n, n.bidx = f(r.idx), f(r.w), f(r.x), f(r.n), f(r.bidx)
	n.list = mapStructs(r.list, f)
	n.ins = mapStructs(r.ins, f)
	n.parent = mapRow(r.parent, f)
	return &n
}

func mapStructs(xs []Struct, f func(Lin) Lin) []Struct {
	if len(xs) == 0 {
		return nil
	}
	out := make([]Struct, len(xs))
	for i, x := range xs {
		out[i] = mapLin(x, f).(Struct)
	}
	return out
}

// layout finds the fields of the row types.
type layout struct {
	spStyle, spText, spRune, spWidth int
	lnSpans, lnWidth                 int
	spanT, lineT                     types.Type
}

func (e *Engine) typeNamed(name string) types.Type {
	o := e.t.lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func fieldIdx(t types.Type, name string) int {
	if t == nil {
		return -1
	}
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := types.Unalias(t).Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if r := renamed.fields[n.Obj().Name()][name]; r != "" && r != name {
			return fieldIdx(t, r)
		}
	}
	return -1
}

func mustField(t types.Type, name string) int {
	i := fieldIdx(t, name)
	if i < 0 {
		panic(anchorErr{"field " + name + " of " + t.String() + " not found"})
	}
	return i
}

// anchorErr: a construct the specification is anchored in is missing.
type anchorErr struct{ what string }

func (a anchorErr) Error() string { return "unresolved anchor: " + a.what }

func (e *Engine) lay() *layout {
	if e.layc != nil {
		return e.layc
	}
	sp, ln := e.typeNamed("Span"), e.typeNamed("spanLine")
	if sp == nil || ln == nil {
		panic(anchorErr{"types Span and spanLine"})
	}
	e.layc = &layout{mustField(sp, "Style"), mustField(sp, "Text"), mustField(sp, "Rune"), mustField(sp, "Width"), mustField(ln, "spans"), mustField(ln, "width"), sp, ln}
	return e.layc
}

func (e *Engine) spanWidth(s Struct) Lin {
	if i, ok := s.f[e.lay().spWidth].(Int); ok {
		return i.Lin
	}
	return linS(e.newSym("unknown width"))
}

func (e *Engine) mkSpan(style Value, text Str, r Lin, w Lin) Struct {
	l := e.lay()
	s := e.zero(l.spanT).(Struct)
	f := append([]Value{}, s.f...)
	f[l.spStyle], f[l.spText], f[l.spRune], f[l.spWidth] = style, text, Int{r}, Int{w}
	return Struct{f}
}

func (e *Engine) rowWidth(st *State, r *Row) Lin {
	switch r.kind {
	case 'B':
		return st.norm(r.w)
	case 'L':
		n := Lin{}
		for _, s := range r.list {
			n = n.add(e.spanWidth(s))
		}
		return st.norm(n)
	case 'S':
		n := e.rowWidth(st, r.parent).sub(r.n)
		for _, s := range r.ins {
			n = n.add(e.spanWidth(s))
		}
		return st.norm(n)
	}
	return Lin{}
}

// rowSpanCount is the number of spans of a row; all that is known is whether it is empty.
func (e *Engine) rowSpanCount(st *State, r *Row) Lin {
	switch r.kind {
	case 'E':
		return Lin{}
	case 'L':
		return linC(int64(len(r.list)))
	}
	// between one cell and the whole row per span: none exactly when the row has no cells
	w := e.rowWidth(st, r)
	if w.isC() && w.c == 0 {
		return Lin{}
	}
	e.opaque++
	s := e.newSym("spans")
	st.addGE(linS(s))
	st.addGE(w.sub(linS(s)))
	st.addGE(linS(s).scale(1 << 22).sub(w))
	return linS(s)
}

func (e *Engine) rowAppend(st *State, r *Row, v Value) *Row {
	s, ok := v.(Struct)
	if !ok {
		st.taint("append of an unknown span")
		return r
	}
	switch r.kind {
	case 'E':
		return &Row{kind: 'L', list: []Struct{s}}
	case 'L':
		return &Row{kind: 'L', list: append(append([]Struct{}, r.list...), s)}
	}
	return &Row{kind: 'S', parent: r, x: e.rowWidth(st, r), ins: []Struct{s}}
}

// rowOf views a span list value as a row.
func (e *Engine) rowOf(st *State, v Value) (*Row, bool) {
	switch x := v.(type) {
	case RowSpans:
		return x.row, true
	case Nil:
		return &Row{kind: 'E'}, true
	case Slice:
		els, ok := e.elems(st, x)
		if !ok {
			return nil, false
		}
		if len(els) == 0 {
			return &Row{kind: 'E'}, true
		}
		r := &Row{kind: 'L', back: x.obj}
		if len(x.path) > 0 && x.path[0].idx != nil {
			r.bidx = *x.path[0].idx
		}
		for _, v := range els {
			s, ok := v.(Struct)
			if !ok {
				return nil, false
			}
			r.list = append(r.list, s)
		}
		return r, true
	}
	return nil, false
}

// spliceHook is the contract of replaceRange(line, x, n, insert, mode).
func (e *Engine) spliceHook(st *State, args []Value, sig *types.Signature) []Outcome {
	l := e.lay()
	p, ok1 := args[0].(Ptr)
	xv, ok2 := args[1].(Int)
	nv, ok3 := args[2].(Int)
	ins, ok4 := args[3].(Struct)
	if !ok1 || !ok2 || !ok3 || !ok4 {
		st.taint("replaceRange on unknown arguments")
		return one(st, e.unknownResult(sig))
	}
	var outs []Outcome
	for _, o := range e.readPath(st, p) {
		ln, ok := o.val.(Struct)
		var row *Row
		if ok {
			row, ok = e.rowOf(o.st, ln.f[l.lnSpans])
		}
		if !ok {
			o.st.taint("replaceRange on an unknown row")
			outs = append(outs, Outcome{st: o.st, val: e.unknownResult(sig)})
			continue
		}
		outs = append(outs, e.splice(o.st, p, ln, row, xv.Lin, nv.Lin, ins, sig)...)
	}
	return outs
}

func (e *Engine) splice(st *State, p Ptr, ln Struct, row *Row, x, n Lin, ins Struct, sig *types.Signature) []Outcome {
	l := e.lay()
	iw := e.spanWidth(ins)
	x1, x2 := x, x.add(n)
	result := func(s *State, a, b Lin) Value {
		if sig.Results().Len() == 2 {
			return Struct{[]Value{Int{s.norm(a)}, Int{s.norm(b)}}}
		}
		if sig.Results().Len() == 0 {
			return nil
		}
		return e.unknownResult(sig)
	}
	put := func(s *State, r *Row, a, b Lin) []Outcome {
		f := append([]Value{}, ln.f...)
		f[l.lnSpans] = RowSpans{r}
		f[l.lnWidth] = Int{e.rowWidth(s, r)}
		var outs []Outcome
		for _, o := range e.writePath(s, p, Struct{f}) {
			if o.panic == "" {
				o.val = result(o.st, a, b)
			}
			outs = append(outs, o)
		}
		return outs
	}
	var outs []Outcome
	noop, rest := e.branch(st, condAll(condEQ(n, linC(0)), condEQ(iw, linC(0))))
	for _, s := range noop {
		outs = append(outs, Outcome{st: s, val: result(s, x1, x2)})
	}
	type job struct {
		st   *State
		x, n Lin
	}
	var js []job
	for _, s := range rest {
		if row.kind == 'E' {
			r := &Row{kind: 'E'}
			if s.decide(condGT(iw, linC(0))) != 0 {
				r = &Row{kind: 'L', list: []Struct{ins}}
			}
			outs = append(outs, put(s, r, x1, x2)...)
			continue
		}
		js = append(js, job{s, x, n})
	}
	clampJ := func(cond func(j job) Bool, fix func(j *job)) {
		var next []job
		for _, j := range js {
			yes, no := e.branch(j.st, cond(j))
			for _, s := range yes {
				k := job{s, j.x, j.n}
				fix(&k)
				next = append(next, k)
			}
			for _, s := range no {
				next = append(next, job{s, j.x, j.n})
			}
		}
		js = next
	}
	w := e.rowWidth(st, row)
	clampJ(func(j job) Bool { return condLT(j.x, linC(0)) }, func(j *job) { j.x = linC(0) })
	clampJ(func(j job) Bool { return condLT(j.n, linC(0)) }, func(j *job) { j.n = linC(0) })
	clampJ(func(j job) Bool { return condGT(j.x, w) }, func(j *job) { j.x = w })
	clampJ(func(j job) Bool { return condGT(j.x.add(j.n), w) }, func(j *job) { j.n = w.sub(j.x) })
	style := ins.f[l.spStyle]
	for _, j := range js {
		s := j.st
		// what an earlier splice put in and this one covers is gone
		under := row
		for under.kind == 'S' && under.npad == 0 && !e.wideCuts {
			uw := Lin{}
			for _, sp := range under.ins {
				uw = uw.add(e.spanWidth(sp))
			}
			if s.decide(condAll(condEQ(uw, under.n), condLE(j.x, under.x), condGE(j.x.add(j.n), under.x.add(under.n)))) != 1 {
				break
			}
			under = under.parent
		}
		r := &Row{kind: 'S', parent: under, x: s.norm(j.x), n: s.norm(j.n)}
		if e.wideCuts {
			pl, pr := Lin{}, Lin{}
			text, _ := ins.f[l.spText].(Str)
			if s.decide(condGT(e.strLen(s, text), linC(0))) != 1 && s.decide(condGT(r.x, linC(0))) != 0 {
				pl = linS(e.newSym("cutL"))
				s.pushCon(pl)
				s.pushCon(s.norm(linC(1).sub(pl)))
				s.pushCon(s.norm(r.x.sub(pl)))
			}
			end := r.x.add(r.n)
			if s.decide(condLT(end, w)) != 0 {
				pr = linS(e.newSym("cutR"))
				s.pushCon(pr)
				s.pushCon(s.norm(linC(1).sub(pr)))
				s.pushCon(s.norm(w.sub(end).sub(pr)))
			}
			r.x = s.norm(r.x.sub(pl))
			r.n = s.norm(r.n.add(pl).add(pr))
			r.npad = 1
			r.ins = []Struct{e.mkSpan(style, Str{}, linC(' '), pl), ins, e.mkSpan(style, Str{}, linC(' '), pr)}
			outs = append(outs, put(s, r, s.norm(x1.sub(pl)), s.norm(x2.add(pr)))...)
			continue
		}
		yes, no := e.branch(s, condGT(iw, linC(0)))
		for _, y := range yes {
			r := *r
			r.ins = []Struct{ins}
			outs = append(outs, put(y, &r, x1, x2)...)
		}
		for _, y := range no {
			outs = append(outs, put(y, r, x1, x2)...)
		}
	}
	return outs
}

// Cell is the content of one screen cell.
type Cell struct {
	kind     byte // 'B' the cell of the state before; 'R' rune; 'T' text; '?' unknown
	arr      int
	row, col Lin
	r        Lin
	id       int
	off      Lin
	style    Value
	pad      bool
	why      string
}

type cellOut struct {
	st *State
	c  Cell
}

func unknownCell(why string) Cell { return Cell{kind: '?', why: why} }

// cellAt is the content of column c (known to be in range) of a row.
func (e *Engine) cellAt(st *State, r *Row, c Lin) []cellOut {
	switch r.kind {
	case 'B':
		return []cellOut{{st, Cell{kind: 'B', arr: r.arr, row: st.norm(r.idx), col: st.norm(c)}}}
	case 'L':
		return e.spanCells(st, r.list, c, 0)
	case 'S':
		var outs []cellOut
		pre, rest := e.branch(st, condLT(c, r.x))
		for _, s := range pre {
			outs = append(outs, e.cellAt(s, r.parent, c)...)
		}
		iw := Lin{}
		for _, s := range r.ins {
			iw = iw.add(e.spanWidth(s))
		}
		for _, s := range rest {
			in, post := e.branch(s, condLT(c, r.x.add(iw)))
			for _, y := range in {
				outs = append(outs, e.spanCells(y, r.ins, c.sub(r.x), r.npad)...)
			}
			for _, y := range post {
				outs = append(outs, e.cellAt(y, r.parent, c.sub(iw).add(r.n))...)
			}
		}
		return outs
	}
	return []cellOut{{st, unknownCell("empty row")}}
}

func (e *Engine) spanCells(st *State, list []Struct, c Lin, npad int) []cellOut {
	var outs []cellOut
	at := Lin{}
	cur := []*State{st}
	for i, sp := range list {
		w := e.spanWidth(sp)
		var next []*State
		for _, s := range cur {
			in, out := e.branch(s, condLT(c, at.add(w)))
			for _, y := range in {
				for _, o := range e.spanCell(y, sp, c.sub(at)) {
					o.c.pad = npad > 0 && (i == 0 || i == len(list)-1)
					outs = append(outs, o)
				}
			}
			next = append(next, out...)
		}
		cur = next
		at = at.add(w)
	}
	for _, s := range cur {
		outs = append(outs, cellOut{s, unknownCell("past the end of the row")})
	}
	return outs
}

// spanCell is cell o of a span.
func (e *Engine) spanCell(st *State, sp Struct, o Lin) []cellOut {
	l := e.lay()
	style := sp.f[l.spStyle]
	text, ok := sp.f[l.spText].(Str)
	if !ok {
		return []cellOut{{st, unknownCell("unknown text")}}
	}
	var outs []cellOut
	empty, full := e.branch(st, condEQ(e.strLen(st, text), linC(0)))
	for _, s := range empty {
		r, ok := sp.f[l.spRune].(Int)
		if !ok {
			outs = append(outs, cellOut{s, unknownCell("unknown rune")})
			continue
		}
		outs = append(outs, cellOut{s, Cell{kind: 'R', r: s.norm(r.Lin), style: style}})
	}
	for _, s := range full {
		outs = append(outs, e.textCell(s, text, o, style)...)
	}
	return outs
}

// textCell is cell o of a text: plain text takes one cell per byte, a cluster its width.
func (e *Engine) textCell(st *State, text Str, o Lin, style Value) []cellOut {
	var outs []cellOut
	at := Lin{}
	cur := []*State{st}
	for _, p := range text.p {
		var next []*State
		switch p.kind {
		case 'c':
			for k, r := range []rune(p.s) {
				var nn []*State
				if k == 0 {
					next = cur
				}
				for _, s := range next {
					in, out := e.branch(s, condLT(o, at.plus(int64(k)+1)))
					for _, y := range in {
						outs = append(outs, cellOut{y, Cell{kind: 'R', r: linC(int64(r)), style: style}})
					}
					nn = append(nn, out...)
				}
				next = nn
			}
			at = at.plus(int64(len([]rune(p.s))))
			cur = next
			continue
		case 'p':
			if len(p.sub) != 1 {
				break
			}
			q := p.sub[0]
			c, isC := Str{p: p.sub}.constVal()
			if q.kind != 'c' || !isC || len(c) != 1 {
				break
			}
			for _, s := range cur {
				in, out := e.branch(s, condLT(o, at.add(p.n)))
				for _, y := range in {
					outs = append(outs, cellOut{y, Cell{kind: 'R', r: linC(int64(c[0])), style: style}})
				}
				next = append(next, out...)
			}
			at = at.add(p.n)
			cur = next
			continue
		case 'r':
			for _, s := range cur {
				in, out := e.branch(s, condLT(o, at.plus(1)))
				for _, y := range in {
					outs = append(outs, cellOut{y, Cell{kind: 'R', r: y.norm(p.lin), style: style}})
				}
				next = append(next, out...)
			}
			at = at.plus(1)
			cur = next
			continue
		case 't':
			w := p.lin
			if p.cl != nil {
				w = p.cl.width
			}
			for _, s := range cur {
				in, out := e.branch(s, condLT(o, at.add(w)))
				for _, y := range in {
					c := Cell{kind: 'T', id: p.id, off: y.norm(p.off.add(o.sub(at))), style: style}
					if p.cl != nil {
						c.id, c.off = 1<<20+p.cl.id, y.norm(o.sub(at))
					}
					outs = append(outs, cellOut{y, c})
				}
				next = append(next, out...)
			}
			at = at.add(w)
			cur = next
			continue
		}
		for _, s := range cur {
			outs = append(outs, cellOut{s, unknownCell("cell of " + showPiece(e, p))})
		}
		return outs
	}
	for _, s := range cur {
		outs = append(outs, cellOut{s, unknownCell("past the end of the text")})
	}
	return outs
}

// cellEq is the condition for two cells to hold the same content.
func (e *Engine) cellEq(st *State, a, b Cell) (Bool, bool) {
	if a.kind == '?' || b.kind == '?' {
		return bFalse, false
	}
	if a.kind != b.kind {
		return bFalse, true
	}
	switch a.kind {
	case 'B':
		if a.arr != b.arr {
			return bFalse, true
		}
		return condAll(condEQ(a.row, b.row), condEQ(a.col, b.col)), true
	case 'R':
		s, ok := e.equal(st, a.style, b.style).(Bool)
		if !ok {
			return bFalse, false
		}
		return condAll(condEQ(a.r, b.r), s), true
	case 'T':
		if a.id != b.id {
			return bFalse, true
		}
		s, ok := e.equal(st, a.style, b.style).(Bool)
		if !ok {
			return bFalse, false
		}
		return condAll(condEQ(a.off, b.off), s), true
	}
	return bFalse, false
}

func (e *Engine) showCell(c Cell) string {
	switch c.kind {
	case 'B':
		return "the cell that was at row " + c.row.str(e.symName) + ", column " + c.col.str(e.symName) + map[int]string{0: "", 1: " of the other screen"}[c.arr&1]
	case 'R':
		if c.r.isC() {
			return quoteC(string(rune(c.r.c))) + " styled " + e.showVal(c.style)
		}
		return "rune " + c.r.str(e.symName) + " styled " + e.showVal(c.style)
	case 'T':
		return "text cell " + c.off.str(e.symName) + " styled " + e.showVal(c.style)
	}
	return "unknown (" + c.why + ")"
}

var _ = ssa.BuilderMode(0)
