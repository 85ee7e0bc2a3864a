package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rowb.go analyses the row primitives of the span screen on rows of known structure: up to three
// spans, each a repeated rune, plain text of any length, or text with wide and multi-byte
// characters at any place, with any widths, any edit position and any edit width. The outcome is
// compared cell by cell with what the edit must do; everything else uses replaceRange through
// exactly this contract.

type rowGen struct {
	w     *World
	st    *State
	texts int
}

func (g *rowGen) pos(name string, lo int64) Lin {
	l := g.w.sym(name)
	g.st.pushCon(l.plus(-lo))
	g.st.pushCon(linC(1 << 20).sub(l))
	return l
}

// run is plain text: one byte and one cell per character.
func (g *rowGen) run(n Lin) Piece {
	g.texts++
	return Piece{kind: 't', id: 1000 + g.texts, lin: n}
}

// clus is one character of several bytes.
func (g *rowGen) clus(width int64) Piece {
	g.texts++
	b := g.w.sym(fmt.Sprintf("bytes%d", g.texts))
	g.st.pushCon(b.plus(-1 - width))
	hi := int64(4)
	if g.w.mode != 0 {
		hi = 64
	}
	g.st.pushCon(linC(hi).sub(b))
	name := "narrow character"
	if width == 2 {
		name = "wide character"
	}
	return Piece{kind: 't', cl: &Clus{id: 5000 + g.texts, width: linC(width), bytes: b, name: name}, lin: b}
}

// span builds a span of a kind: r repeated rune, b blanks, a plain text, n a narrow multi-byte
// character, w a wide one, p, q and m a wide one before, after and between plain text, v two.
func (g *rowGen) span(kind byte, name string) Struct {
	e := g.w.e
	style := g.w.symStyle(g.st, "style "+name)
	one := func(ps ...Piece) Struct {
		w := Lin{}
		for _, p := range ps {
			if p.cl != nil {
				w = w.add(p.cl.width)
			} else {
				w = w.add(p.lin)
			}
		}
		return e.mkSpan(style, Str{p: ps}, Lin{}, w)
	}
	switch kind {
	case 'r':
		r := g.w.sym("rune " + name)
		g.st.pushCon(r.plus(-32))
		g.st.pushCon(linC(126).sub(r))
		return e.mkSpan(style, Str{}, r, g.pos("width "+name, 1))
	case 'b':
		return e.mkSpan(style, Str{}, linC(' '), g.pos("width "+name, 1))
	case 'a':
		return one(g.run(g.pos("width "+name, 1)))
	case 'n':
		return one(g.clus(1))
	case 'w':
		return one(g.clus(2))
	case 'm':
		return one(g.run(g.pos("before wide "+name, 1)), g.clus(2), g.run(g.pos("after wide "+name, 1)))
	case 'p':
		return one(g.clus(2), g.run(g.pos("after wide "+name, 1)))
	case 'q':
		return one(g.run(g.pos("before wide "+name, 1)), g.clus(2))
	case 'v':
		return one(g.clus(2), g.clus(2))
	}
	panic("span kind")
}

// row builds a line of the given spans in a fresh object; room is spare capacity.
func (g *rowGen) row(kinds string, room int) (list []Struct, line int, width Lin) {
	e := g.w.e
	var els []Value
	for i := range kinds {
		s := g.span(kinds[i], fmt.Sprint(i+1))
		list = append(list, s)
		els = append(els, s)
		width = width.add(e.spanWidth(s))
	}
	return list, g.rowOf(els, room, width), width
}

// rowOf builds a line of the given spans.
func (g *rowGen) rowOf(els []Value, room int, width Lin) int {
	e, l := g.w.e, g.w.e.lay()
	n := len(els)
	for i := 0; i < room; i++ {
		els = append(els, e.zero(l.spanT))
	}
	id := e.newObjID()
	g.st.setObj(&Object{id: id, name: "spans", val: Arr{els}})
	f := append([]Value{}, e.zero(l.lineT).(Struct).f...)
	f[l.lnSpans] = Slice{obj: id, len: linC(int64(n)), cap: linC(int64(n + room))}
	f[l.lnWidth] = Int{width}
	return g.st.alloc(l.lineT, Struct{f})
}

// wides are the columns at which wide characters start.
func (e *Engine) wides(list []Struct) []Lin {
	var out []Lin
	at := Lin{}
	for _, s := range list {
		p := at
		if t, ok := s.f[e.lay().spText].(Str); ok {
			for _, q := range t.p {
				if q.cl == nil {
					p = p.add(q.lin)
					continue
				}
				if q.cl.width.isC() && q.cl.width.c == 2 {
					out = append(out, p)
				}
				p = p.add(q.cl.width)
			}
		}
		at = at.add(e.spanWidth(s))
	}
	return out
}

// inWide splits st by whether column c is the second half of a wide character.
func (e *Engine) inWide(st *State, starts []Lin, c Lin) (yes, no []*State) {
	no = []*State{st}
	for _, s := range starts {
		var next []*State
		for _, x := range no {
			y, n := e.branch(x, condEQ(s.plus(1), c))
			yes = append(yes, y...)
			next = append(next, n...)
		}
		no = next
	}
	return
}

// sound checks the row a function left: spans of at least one cell, text as wide as its span,
// a line width that is the sum. It returns the spans.
func (c *scnCtx) sound(st *State, line int, want *Lin) ([]Struct, bool) {
	e, l := c.w.e, c.w.e.lay()
	s, ok := st.obj(line).val.(Struct)
	var row *Row
	if ok {
		row, ok = e.rowOf(st, s.f[l.lnSpans])
	}
	if !ok || row.kind != 'L' && row.kind != 'E' {
		c.add("shape", -1, "")
		return nil, false
	}
	sum := Lin{}
	for i, sp := range row.list {
		sw := e.spanWidth(sp)
		sum = sum.add(sw)
		cond := condGE(sw, linC(1))
		what := fmt.Sprintf("span %d of the row has no cells", i+1)
		c.prove(st, cond, "shape", func() string { return what })
		t, isStr := sp.f[l.spText].(Str)
		if !isStr {
			c.add("shape", -1, "")
			return nil, false
		}
		if tw, ok := e.textWidth(st, t); ok {
			text := condAny(condEQ(e.strLen(st, t), Lin{}), condEQ(tw, sw))
			c.prove(st, text, "shape", func() string {
				return fmt.Sprintf("span %d is %s cells wide but its text %s takes %s", i+1, st.norm(sw).str(e.symName), showStr(e, t), st.norm(tw).str(e.symName))
			})
		} else {
			c.add("shape", -1, "")
		}
	}
	if w, ok := s.f[l.lnWidth].(Int); ok {
		c.prove(st, condEQ(w.Lin, sum), "shape", func() string {
			return fmt.Sprintf("the row's width is recorded as %s, its spans take %s", st.norm(w.Lin).str(e.symName), st.norm(sum).str(e.symName))
		})
	}
	if want != nil {
		c.prove(st, condEQ(sum, *want), "shape", func() string {
			return fmt.Sprintf("the row has %s cells, it must have %s", st.norm(sum).str(e.symName), st.norm(*want).str(e.symName))
		})
	}
	return row.list, true
}

// textWidth is the number of cells a text takes.
func (e *Engine) textWidth(st *State, t Str) (Lin, bool) {
	n := Lin{}
	for _, p := range t.p {
		switch {
		case p.kind == 't' && p.cl != nil:
			n = n.add(p.cl.width)
		case p.kind == 't':
			n = n.add(p.lin)
		case p.kind == 'c' && isASCII(p.s):
			n = n.plus(int64(len(p.s)))
		case p.kind == 'r':
			n = n.plus(1)
		case p.kind == 'p' && len(p.sub) == 1 && p.sub[0].kind == 'c' && len(p.sub[0].s) == 1:
			n = n.add(p.n)
		default:
			return Lin{}, false
		}
	}
	return n, true
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 32 || s[i] > 126 {
			return false
		}
	}
	return true
}

// piecewise is a row described as consecutive stretches.
type stretch struct {
	n    Lin
	cell func(st *State, o Lin) []cellOut // content of its cell o
}

// cellsAre compares every cell of got with the stretches; it stops at upto columns.
func (c *scnCtx) cellsAre(st *State, got []Struct, want []stretch, aspect string) {
	e := c.w.e
	col := linS(e.newSym("column"))
	at := Lin{}
	for _, w := range want {
		s := st.fork()
		if !s.addGE(col.sub(at)) || !s.addGE(at.add(w.n).plus(-1).sub(col)) {
			at = at.add(w.n)
			continue
		}
		if w.cell != nil {
			for _, x := range w.cell(s, col.sub(at)) {
				for _, g := range e.spanCells(x.st, got, col, 0) {
					cond, ok := e.cellEq(g.st, g.c, x.c)
					if !ok {
						c.add(aspect, -1, "")
						continue
					}
					x := x
					c.prove(g.st, cond, aspect, func() string {
						return fmt.Sprintf("a cell of the row is %s, it must be %s", e.showCell(g.c), e.showCell(x.c))
					})
				}
			}
		}
		at = at.add(w.n)
	}
}

func replaceScenario(kinds string, ins byte, room int, mode int64) *scenario {
	what := map[byte]string{'r': "blanks", 'a': "plain text", 'n': "a narrow character", 'w': "a wide character", 'p': "text with a wide character", 'd': "nothing", 'i': "blanks between cells"}[ins]
	sc := &scenario{name: "replaceRange", class: "row", noAlt: true, mode: mode}
	sc.label = fmt.Sprintf("row of spans %q, replaced by %s (spare capacity %d, %s mode)", kinds, what, room, []string{"rune", "grapheme"}[mode])
	sc.direct = func(c *scnCtx) {
		w, e := c.w, c.w.e
		e.realRows = true
		l := e.lay()
		g := &rowGen{w: w, st: w.base.fork()}
		list, line, W := g.row(kinds, room)
		x, n := w.sym("x"), w.sym("n")
		g.st.pushCon(x)
		g.st.pushCon(n)
		g.st.pushCon(W.sub(x).sub(n))
		var insert Struct
		switch ins {
		case 'd':
			insert = e.mkSpan(w.symStyle(g.st, "new style"), Str{}, Lin{}, Lin{})
		case 'i':
			insert = g.span('b', "new")
		default:
			k := ins
			if k == 'r' {
				k = 'b'
			}
			insert = g.span(k, "new")
		}
		iw := e.spanWidth(insert)
		switch ins {
		case 'i':
			g.st.pushCon(n.neg())
		case 'd':
			g.st.pushCon(n.plus(-1))
		default:
			g.st.pushCon(n.sub(iw))
			g.st.pushCon(iw.sub(n))
		}
		if _, ok := g.st.witness(); !ok {
			return
		}
		style := insert.f[l.spStyle]
		starts := e.wides(list)
		blank := func(st *State, o Lin) []cellOut { return []cellOut{{st, blankCell(style)}} }
		old := func(from Lin) func(*State, Lin) []cellOut {
			return func(st *State, o Lin) []cellOut { return e.spanCells(st, list, from.add(o), 0) }
		}
		new := func(st *State, o Lin) []cellOut { return e.spanCells(st, []Struct{insert}, o, 0) }
		text := ins != 'r' && ins != 'd' && ins != 'i'
		for _, o := range e.call(g.st, e.mustFunc("replaceRange"), []Value{Ptr{obj: line}, Int{x}, Int{n}, insert, Int{linC(mode)}}, nil) {
			c.outs++
			if o.panic != "" {
				c.panicked(o)
				continue
			}
			c.add("panic", 1, "")
			changed := func(st *State, from, to Lin) {
				t, ok := o.val.(Struct)
				if !ok || len(t.f) != 2 {
					return
				}
				a, ok1 := t.f[0].(Int)
				b, ok2 := t.f[1].(Int)
				if !ok1 || !ok2 {
					c.add("range", -1, "")
					return
				}
				cond := condAll(condLE(a.Lin, from), condGE(a.Lin, Lin{}))
				if ins != 'd' && ins != 'i' {
					cond = condAll(cond, condGE(b.Lin, to), condLE(b.Lin, W))
				}
				c.prove(st, cond, "range", func() string {
					return fmt.Sprintf("columns %s to %s are reported as changed, %s to %s were", st.norm(a.Lin).str(e.symName), st.norm(b.Lin).str(e.symName), st.norm(from).str(e.symName), st.norm(to).str(e.symName))
				})
			}
			cutL, whole := e.inWide(o.st, starts, x)
			end := x.add(n)
			for li, ls := range [][]*State{whole, cutL} {
				for _, st := range ls {
					if li == 1 && text {
						// the character stays, the text goes after it and what is pushed out is lost
						got, ok := c.sound(st, line, &W)
						if ok {
							for _, s := range split(e, st, condLE(x.plus(1).add(iw), W)) {
								if s.decide(condLE(x.plus(1).add(iw), W)) == 1 {
									c.cellsAre(s, got, []stretch{{x.plus(1), old(Lin{})}, {iw, new}}, "content")
								} else {
									c.cellsAre(s, got, []stretch{{x.plus(1), old(Lin{})}}, "content")
								}
							}
						}
						changed(st, x.plus(1), W)
						continue
					}
					pl := linC(int64(li))
					cutR, clean := e.inWide(st, starts, end)
					for ri, rs := range [][]*State{clean, cutR} {
						pr := linC(int64(ri))
						for _, s := range rs {
							nw := W.sub(n).add(iw)
							got, ok := c.sound(s, line, &nw)
							if ok {
								c.cellsAre(s, got, []stretch{{x.sub(pl), old(Lin{})}, {pl, blank}, {iw, new}, {pr, blank}, {W.sub(end).sub(pr), old(end.add(pr))}}, "content")
							}
							changed(s, x.sub(pl), end.add(pr))
						}
					}
				}
			}
		}
	}
	return sc
}

func split(e *Engine, st *State, b Bool) []*State {
	y, n := e.branch(st, b)
	return append(y, n...)
}

var rowKinds = []string{"r", "a", "n", "p", "q", "w", "v"}

func rowShapes() []string {
	var out []string
	out = append(append(out, rowKinds...), "m")
	for _, a := range rowKinds {
		for _, b := range rowKinds {
			out = append(out, a+b)
		}
	}
	for _, s := range []string{"rrr", "rar", "ara", "qrp", "rqr", "apr", "wrw", "rwr", "awa", "aaa", "qpq", "nwn", "vrv", "wwr"} {
		out = append(out, s)
	}
	return out
}

func replaceScenarios() []*scenario { return replaceBy("ranwpdi") }

// replaceBy are the edits inserting the given kinds of span.
func replaceBy(inserts string) []*scenario {
	var scs []*scenario
	for i, k := range rowShapes() {
		heavy := strings.Count(k, "q")*2+strings.Count(k, "p") > 1
		if !thorough() && (k == "m" || heavy && len(k) == 3) {
			continue
		}
		for _, ins := range inserts {
			for _, room := range []int{0, 4} {
				for mode := int64(0); mode < 2; mode++ {
					if mode == 1 && (room == 0) != (len(k)%2 == 0) || len(k) == 3 && strings.ContainsRune("nwi", ins) && room == 0 {
						continue
					}
					if !thorough() && (heavy && !strings.ContainsRune("ar", ins) || len(k) > 1 && (room == 0) != (mode == 0) || heavy && (room == 0) != (i%2 == 0)) {
						continue
					}
					scs = append(scs, replaceScenario(k, byte(ins), room, mode))
				}
			}
		}
	}
	return scs
}

// oneRow makes the main screen a single row of the given spans.
func (g *rowGen) oneRow(kinds string) (list []Struct, arr int, W Lin) {
	w, e := g.w, g.w.e
	list, line, W := g.row(kinds, 0)
	arr = e.newObjID()
	g.st.setObj(&Object{id: arr, name: "lines", val: Arr{[]Value{g.st.obj(line).val}}})
	w.set(g.st, w.scr[0], w.scrT, "lines", Slice{obj: arr, len: linC(1), cap: linC(1)})
	w.set(g.st, w.scr[0], w.scrT, "size", w.pos(W, linC(1)))
	w.set(g.st, w.scr[0], w.scrT, "textMode", Int{linC(w.mode)})
	return
}

// screenFunc is a method of the screen type in use.
func (w *World) screenFunc(name string) *ssa.Function {
	n, ok := types.Unalias(w.scrT).(*types.Named)
	if !ok {
		panic(anchorErr{"screen type"})
	}
	return w.e.mustFunc("(*" + n.Obj().Name() + ")." + name)
}

// firstRow copies row 0 of the main screen, as left by the operation, into an object of its own.
func (c *scnCtx) firstRow(st *State) (int, bool) {
	outs := c.w.rowAt(st, 0, Lin{})
	if len(outs) != 1 || outs[0].st != st {
		return 0, false
	}
	return st.alloc(c.w.e.lay().lineT, outs[0].val), true
}

func shapeLabel(kinds string, mode int64) string {
	return fmt.Sprintf("row of spans %q, (%s mode)", kinds, []string{"rune", "grapheme"}[mode])
}

// mergeScenario: combining characters, delivered by one read or one by one, are stored in order
// after the character before the cursor.
func mergeScenario(kinds string, mode int64, reads int) *scenario {
	sc := &scenario{name: "mergeIntoPreviousCell", label: shapeLabel(kinds, mode), class: "row", noAlt: true, mode: mode}
	if reads > 1 {
		sc.label += " two reads"
	}
	sc.direct = func(c *scnCtx) {
		w, e := c.w, c.w.e
		e.realRows = true
		g := &rowGen{w: w, st: w.base.fork()}
		list, _, W := g.oneRow(kinds)
		x := w.sym("x")
		g.st.pushCon(x)
		g.st.pushCon(W.sub(x).plus(-1))
		w.set(g.st, w.scr[0], w.scrT, "cursorPos", w.pos(x, Lin{}))
		m := []Piece{g.clus(0), g.clus(0)}[:reads]
		for _, p := range m {
			p.cl.name = "combining mark"
		}
		starts := e.wides(list)
		merge := w.screenFunc("mergeIntoPreviousCell")
		outs := e.call(g.st, merge, []Value{Ptr{obj: w.scr[0]}, Str{p: m[:1]}}, nil)
		if reads > 1 {
			first := outs
			outs = nil
			for _, o := range first {
				if o.panic != "" {
					outs = append(outs, o)
					continue
				}
				outs = append(outs, e.call(o.st, merge, []Value{Ptr{obj: w.scr[0]}, Str{p: m[1:]}}, nil)...)
			}
		}
		for _, o := range outs {
			c.outs++
			if o.panic != "" {
				c.panicked(o)
				continue
			}
			c.add("panic", 1, "")
			line, ok := c.firstRow(o.st)
			if !ok {
				c.add("content", -1, "")
				continue
			}
			in, out := e.inWide(o.st, starts, x)
			for i, ss := range [][]*State{out, in} {
				for _, st := range ss {
					got, ok := c.sound(st, line, &W)
					if !ok {
						continue
					}
					c.cellsAre(st, got, []stretch{{W, func(st *State, o Lin) []cellOut { return e.spanCells(st, list, o, 0) }}}, "content")
					at, n := Lin{}, 0
					for _, sp := range got {
						p := at
						t, _ := sp.f[e.lay().spText].(Str)
						for _, q := range t.p {
							if q.cl != nil && q.cl.width.isC() && q.cl.width.c == 0 {
								c.prove(st, boolC(n < reads && q.cl.id == m[n%reads].cl.id), "content", func() string {
									return "the combining marks are not stored once each in the order they came"
								})
								n++
								want := x.plus(int64(i))
								c.prove(st, condAll(condEQ(p, want), condGT(p, at)), "content", func() string {
									return fmt.Sprintf("the combining mark is stored after column %s of its row, it must be after column %s", st.norm(p.plus(-1)).str(e.symName), st.norm(want.plus(-1)).str(e.symName))
								})
								continue
							}
							if tw, ok := e.textWidth(st, Str{p: []Piece{q}}); ok {
								p = p.add(tw)
							}
						}
						at = at.add(e.spanWidth(sp))
					}
					cond := boolC(n == reads)
					if n == 0 {
						cond = condEQ(x, Lin{})
					}
					c.prove(st, cond, "content", func() string {
						return fmt.Sprintf("%d combining marks are stored, there were %d", n, reads)
					})
					if n == reads {
						c.touched(st, x.plus(int64(i-1)), x.plus(int64(i)), W)
					}
				}
			}
		}
	}
	return sc
}

// touched: some notification covers the given columns of row 0 and none leaves the screen.
func (c *scnCtx) touched(st *State, from, to, W Lin) {
	e := c.w.e
	rt := e.typeNamed("Region")
	covered := bFalse
	for _, ev := range st.events {
		if ev.kind != "RegionChanged" {
			continue
		}
		r, ok := ev.args[0].(Struct)
		if !ok {
			c.add("range", -1, "")
			return
		}
		f := func(name string) Lin { i, _ := r.f[mustField(rt, name)].(Int); return i.Lin }
		covered = condAny(covered, condAll(condLE(f("X"), from), condGE(f("X2"), to), condLE(f("Y"), Lin{}), condGE(f("Y2"), linC(1))))
	}
	c.prove(st, covered, "range", func() string {
		return fmt.Sprintf("no notification covers the changed columns %s to %s", st.norm(from).str(e.symName), st.norm(to).str(e.symName))
	})
}

func mergeScenarios() []*scenario {
	var scs []*scenario
	for _, k := range rowShapes() {
		for mode := int64(0); mode < 2; mode++ {
			scs = append(scs, mergeScenario(k, mode, 1))
			if len(k) < 3 && mode == 1 {
				scs = append(scs, mergeScenario(k, mode, 2))
			}
		}
	}
	return scs
}

// sliceScenario: StyledLine(x, w, 0) is the row's columns [x, x+w), to the end for w < 0 and at
// most to the end; a wide character cut by either edge shows as a blank.
func sliceScenario(kinds string, mode int64) *scenario {
	sc := &scenario{name: "StyledLine", label: shapeLabel(kinds, mode), class: "row", noAlt: true, mode: mode}
	sc.direct = func(c *scnCtx) {
		w, e := c.w, c.w.e
		e.realRows = true
		g := &rowGen{w: w, st: w.base.fork()}
		list, _, W := g.oneRow(kinds)
		x, n := w.sym("x"), w.sym("w")
		for _, l := range []Lin{x, W.sub(x), n.plus(1), linC(1 << 21).sub(n)} {
			g.st.pushCon(l)
		}
		starts := e.wides(list)
		lt := e.typeNamed("Line")
		for _, o := range e.call(g.st, w.screenFunc("StyledLine"), []Value{Ptr{obj: w.scr[0]}, Int{x}, Int{n}, Int{}}, nil) {
			c.outs++
			if o.panic != "" {
				c.panicked(o)
				continue
			}
			c.add("panic", 1, "")
			v, ok := o.val.(Struct)
			if !ok {
				c.add("content", -1, "")
				continue
			}
			row, ok1 := e.rowOf(o.st, v.f[mustField(lt, "Spans")])
			lw, ok2 := v.f[mustField(lt, "Width")].(Int)
			if !ok1 || !ok2 || row.kind != 'L' && row.kind != 'E' {
				c.add("content", -1, "")
				continue
			}
			got := row.list
			rest, fits := e.branch(o.st, condAny(condLT(n, Lin{}), condGT(x.add(n), W)))
			for k, ss := range [][]*State{fits, rest} {
				width := n
				if k == 1 {
					width = W.sub(x)
				}
				for _, s := range ss {
					sum := Lin{}
					for _, sp := range got {
						sum = sum.add(e.spanWidth(sp))
					}
					c.prove(s, condAll(condEQ(lw.Lin, width), condEQ(sum, width)), "content", func() string {
						return fmt.Sprintf("the line has width %s and spans of %s cells, it must have %s", s.norm(lw.Lin).str(e.symName), s.norm(sum).str(e.symName), s.norm(width).str(e.symName))
					})
					some, _ := e.branch(s, condGT(width, Lin{}))
					for _, s := range some {
						inL, outL := e.inWide(s, starts, x)
						for li, ls := range [][]*State{outL, inL} {
							for _, s := range ls {
								inR, outR := e.inWide(s, starts, x.add(width))
								for ri, rs := range [][]*State{outR, inR} {
									l, r := int64(li), int64(ri)
									for _, s := range rs {
										if l+r == 2 {
											// a single wide character cannot be cut on both sides by one cell
											if s.decide(condEQ(width, linC(0))) == 1 {
												continue
											}
										}
										blank := func(from Lin) func(*State, Lin) []cellOut {
											return func(st *State, o Lin) []cellOut {
												var outs []cellOut
												for _, b := range e.spanCells(st, list, from, 0) {
													outs = append(outs, cellOut{b.st, blankCell(b.c.style)})
												}
												return outs
											}
										}
										c.cellsAre(s, got, []stretch{{linC(l), blank(x)}, {width.plus(-l - r), func(st *State, o Lin) []cellOut { return e.spanCells(st, list, x.plus(l).add(o), 0) }}, {linC(r), blank(x.add(width).plus(-1))}}, "content")
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return sc
}

// rowText is the text of a row as pieces.
func (e *Engine) rowText(list []Struct) Str {
	l := e.lay()
	out := Str{}
	for _, sp := range list {
		if t, ok := sp.f[l.spText].(Str); ok && len(t.p) > 0 {
			out = strCat(out, t)
			continue
		}
		r := sp.f[l.spRune].(Int)
		sub := Piece{kind: 'r', lin: r.Lin}
		if r.isC() {
			sub = Piece{kind: 'c', s: string(rune(r.c))}
		}
		out = strCat(out, Str{p: []Piece{{kind: 'p', n: e.spanWidth(sp), sub: []Piece{sub}}}})
	}
	return out
}

// lineScenario: Line(0) is the text of the row.
func lineScenario(kinds string, mode int64) *scenario {
	sc := &scenario{name: "Line", label: shapeLabel(kinds, mode), class: "row", noAlt: true, mode: mode}
	sc.direct = func(c *scnCtx) {
		w, e := c.w, c.w.e
		e.realRows = true
		g := &rowGen{w: w, st: w.base.fork()}
		list, _, _ := g.oneRow(kinds)
		want := e.rowText(list)
		for _, fn := range []*ssa.Function{w.screenFunc("Line"), e.mustFunc("(*terminal).Line")} {
			recv := Ptr{obj: w.scr[0]}
			if fn.Name() == "Line" && fn != w.screenFunc("Line") {
				recv = Ptr{obj: w.term}
			}
			for _, o := range e.call(g.st.fork(), fn, []Value{recv, Int{}}, nil) {
				c.outs++
				if o.panic != "" {
					c.panicked(o)
					continue
				}
				c.add("panic", 1, "")
				s, ok := e.asBytes(o.st, o.val)
				if !ok {
					c.add("content", -1, "")
					continue
				}
				eq, ok := e.strEqual(o.st, s, want).(Bool)
				if !ok {
					c.add("content", -1, "")
					continue
				}
				c.prove(o.st, eq, "content", func() string {
					return fmt.Sprintf("%s is %s, it must be %s", fn.Name(), showStr(e, s), showStr(e, want))
				})
			}
		}
	}
	return sc
}

func sliceScenarios() []*scenario {
	var scs []*scenario
	for _, k := range rowShapes() {
		for mode := int64(0); mode < 2; mode++ {
			scs = append(scs, sliceScenario(k, mode), lineScenario(k, mode))
		}
	}
	return scs
}

// textRows and eraseRows are the row primitives behind writing text and behind erasing.
func textRows() []*scenario {
	return append(append(replaceBy("anwp"), mergeScenarios()...), sliceScenarios()...)
}

func eraseRows() []*scenario { return replaceBy("rdi") }

func allRows() []*scenario { return append(replaceScenarios(), mergeScenarios()...) }

func everyRow() []*scenario { return append(allRows(), sliceScenarios()...) }
