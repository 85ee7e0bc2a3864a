package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// grid.go models the cell-grid screen buffer on screens of fixed size and compares it with
// the span buffer (C20).

// gridInit remembers the cells a grid screen started with.
type gridInit struct {
	w, h  int
	chars [][]Lin
	id    [][]int // text of the cell
	width [][]int // 0: the second half of a wide character
	style [][]Value
}

// gridFields are the two-dimensional arrays of the grid buffer.
var gridFields = []string{"chars", "cellText", "cellWidth", "cellCont", "cellStyles"}

// gridLayouts are the arrangements of wide characters in a row of w cells, as widths.
func gridLayouts(w int) [][]int {
	if w == 0 {
		return [][]int{nil}
	}
	var outs [][]int
	for _, l := range gridLayouts(w - 1) {
		outs = append(outs, append([]int{1}, l...))
	}
	if w >= 2 {
		for _, l := range gridLayouts(w - 2) {
			outs = append(outs, append([]int{2, 0}, l...))
		}
	}
	return outs
}

// onGrid says that fn is a method of the grid buffer.
func (w *World) onGrid(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if r := fn.Signature.Recv(); r != nil {
		return types.Identical(derefT(r.Type()), w.scrT)
	}
	return false
}

func (w *World) installGrid(st *State, i int, s Scr) {
	e := w.e
	W, H := st.norm(s.W), st.norm(s.H)
	if !W.isC() || !H.isC() {
		panic("grid screens have a fixed size")
	}
	g := &gridInit{w: int(W.c), h: int(H.c)}
	w.ginit[i] = g
	lays := gridLayouts(g.w)
	cols := map[string][][]Value{}
	for r := 0; r < g.h; r++ {
		lay := lays[(r*w.glay[1]+w.glay[0])%len(lays)]
		var ch []Lin
		var id []int
		var sty []Value
		row := map[string][]Value{}
		for c := 0; c < g.w; c++ {
			name := fmt.Sprintf("cell(%d,%d)%s", r, c, []string{"", "'"}[i])
			n := 1<<16 + i<<12 + r<<6 + c
			switch lay[c] {
			case 0:
				ch, id, sty = append(ch, Lin{}), append(id, 0), append(sty, sty[c-1])
				row["cellText"] = append(row["cellText"], Str{})
			default:
				b := w.sym("bytes of " + name)
				st.pushCon(b.plus(-1))
				st.pushCon(linC(64).sub(b))
				x := w.sym("first rune of " + name)
				st.pushCon(x.plus(-32))
				st.pushCon(linC(0x10ffff).sub(x))
				ch, id = append(ch, x), append(id, n)
				sty = append(sty, w.symStyle(st, "style of "+name))
				row["cellText"] = append(row["cellText"], Str{p: []Piece{{kind: 't', id: n, lin: b, cl: &Clus{id: n, width: linC(int64(lay[c])), bytes: b, name: name}}}})
			}
			row["chars"] = append(row["chars"], Int{ch[c]})
			row["cellWidth"] = append(row["cellWidth"], Int{linC(int64(lay[c]))})
			row["cellCont"] = append(row["cellCont"], boolC(lay[c] == 0))
			row["cellStyles"] = append(row["cellStyles"], sty[c])
		}
		g.chars, g.id, g.style, g.width = append(g.chars, ch), append(g.id, id), append(g.style, sty), append(g.width, lay)
		for f, v := range row {
			cols[f] = append(cols[f], v)
		}
	}
	for _, f := range gridFields {
		var rows []Value
		for _, v := range cols[f] {
			o := e.newObjID()
			st.setObj(&Object{id: o, name: f, val: Arr{v}})
			rows = append(rows, Slice{obj: o, len: W, cap: W})
		}
		o := e.newObjID()
		st.setObj(&Object{id: o, name: f, val: Arr{rows}})
		w.set(st, w.scr[i], w.scrT, f, Slice{obj: o, len: H, cap: H})
	}
}

// gridAt reads the five components of a cell at known coordinates.
func (w *World) gridAt(st *State, i, r, c int) (map[string]Value, bool) {
	out := map[string]Value{}
	for _, f := range gridFields {
		s, ok := w.get(st, w.scr[i], w.scrT, f).(Slice)
		if !ok {
			return nil, false
		}
		rows, ok := w.e.elems(st, s)
		if !ok || r >= len(rows) {
			return nil, false
		}
		s, ok = rows[r].(Slice)
		if !ok {
			return nil, false
		}
		els, ok := w.e.elems(st, s)
		if !ok || c >= len(els) {
			return nil, false
		}
		out[f] = els[c]
	}
	return out, true
}

// gridAlias: no two rows of a grid buffer share an array.
func (c *scnCtx) gridAlias(st *State, i int, name string) {
	w := c.w
	for _, f := range gridFields {
		s, ok := w.get(st, w.scr[i], w.scrT, f).(Slice)
		if !ok {
			c.add("alias", -1, "")
			return
		}
		rows, ok := w.e.elems(st, s)
		if !ok {
			c.add("alias", -1, "")
			return
		}
		for r, v := range rows {
			row, ok := v.(Slice)
			if !ok {
				c.add("alias", -1, "")
				return
			}
			for q := range r {
				o := rows[q].(Slice)
				if o.obj != row.obj {
					continue
				}
				if len(o.path) > 0 || len(row.path) > 0 {
					c.add("alias", -1, "")
					return
				}
				apart := condAny(condLE(o.off.add(o.len), row.off), condLE(row.off.add(row.len), o.off))
				c.prove(st, apart, "alias", func() string {
					return fmt.Sprintf("rows %d and %d of the %s%s share their storage: writing one changes the other", q, r, name, f)
				})
			}
			c.add("alias", 1, "")
		}
	}
}

// gridCell is the content of a cell, or a broken one when its components disagree.
func (w *World) gridCell(st *State, i int, r, c Lin) []cellOut {
	e := w.e
	W, H, ok := w.posGet(st, w.scr[i], "size")
	if W, H = st.norm(W), st.norm(H); !ok || !W.isC() || !H.isC() {
		return []cellOut{{st, unknownCell("size")}}
	}
	var outs []cellOut
	for _, o := range e.enumerate(st, r, 0, H.c-1, func(s *State, k int64) Value { return Int{linC(k)} }) {
		rk, ok := o.val.(Int)
		if !ok {
			outs = append(outs, cellOut{o.st, unknownCell("row")})
			continue
		}
		for _, p := range e.enumerate(o.st, c, 0, W.c-1, func(s *State, k int64) Value { return Int{linC(k)} }) {
			ck, ok := p.val.(Int)
			if !ok {
				outs = append(outs, cellOut{p.st, unknownCell("column")})
				continue
			}
			outs = append(outs, w.gridCellAt(p.st, i, int(rk.c), int(ck.c))...)
		}
	}
	return outs
}

func (w *World) gridCellAt(st *State, i, r, c int) []cellOut {
	e := w.e
	bad := func(st *State, why string) cellOut { return cellOut{st, Cell{kind: 'M', why: why}} }
	at, ok := w.gridAt(st, i, r, c)
	if !ok {
		return []cellOut{{st, unknownCell("grid cell")}}
	}
	cont, ok1 := at["cellCont"].(Bool)
	wid, ok2 := at["cellWidth"].(Int)
	ch, ok3 := at["chars"].(Int)
	txt, ok4 := at["cellText"].(Str)
	if !ok1 || !ok2 || !ok3 || !ok4 {
		return []cellOut{{st, unknownCell("grid cell")}}
	}
	var outs []cellOut
	second, first := e.branch(st, cont)
	for _, s := range second {
		// the second half of the character before
		if c == 0 || s.decide(condAll(condEQ(wid.Lin, Lin{}), condEQ(ch.Lin, Lin{}))) != 1 || len(txt.p) != 0 {
			outs = append(outs, bad(s, "a second half with text of its own"))
			continue
		}
		b, ok := w.gridAt(s, i, r, c-1)
		if !ok {
			outs = append(outs, cellOut{s, unknownCell("grid cell")})
			continue
		}
		bc, ok1 := b["cellCont"].(Bool)
		bw, ok2 := b["cellWidth"].(Int)
		if !ok1 || !ok2 || s.decide(condAll(bc.not(), condEQ(bw.Lin, linC(2)))) != 1 {
			outs = append(outs, bad(s, "a second half without a first"))
			continue
		}
		outs = append(outs, w.gridBase(s, i, b, at["cellStyles"], 1)...)
	}
	for _, s := range first {
		if s.decide(condEQ(wid.Lin, linC(1))) != 1 {
			if s.decide(condEQ(wid.Lin, linC(2))) != 1 {
				outs = append(outs, bad(s, "a width of "+s.norm(wid.Lin).str(e.symName)))
				continue
			}
			n, ok := w.gridAt(s, i, r, c+1)
			nc, ok1 := n["cellCont"].(Bool)
			if !ok || !ok1 || s.decide(nc) != 1 {
				outs = append(outs, bad(s, "the first half of a wide character alone"))
				continue
			}
		}
		outs = append(outs, w.gridBase(s, i, at, at["cellStyles"], 0)...)
	}
	return outs
}

// gridBase says what the character stored in a cell is; off is the half looked at.
func (w *World) gridBase(st *State, i int, at map[string]Value, style Value, off int64) []cellOut {
	e := w.e
	txt, ch := at["cellText"].(Str), at["chars"].(Int)
	width := st.norm(at["cellWidth"].(Int).Lin)
	check := func(cond Bool, c Cell, why string) []cellOut {
		var outs []cellOut
		yes, no := e.branch(st, cond)
		for _, s := range yes {
			outs = append(outs, cellOut{s, c})
		}
		for _, s := range no {
			outs = append(outs, cellOut{s, Cell{kind: 'M', why: why}})
		}
		return outs
	}
	if s, ok := txt.constVal(); ok {
		if len(s) != 1 {
			return []cellOut{{st, Cell{kind: 'M', why: fmt.Sprintf("the text %q", s)}}}
		}
		return check(condAll(condEQ(ch.Lin, linC(int64(s[0]))), condEQ(width, linC(1))), Cell{kind: 'R', r: linC(int64(s[0])), style: style}, "a rune that is not the text's")
	}
	if len(txt.p) != 1 {
		return []cellOut{{st, unknownCell("text of several pieces")}}
	}
	p := txt.p[0]
	if p.kind != 't' {
		return []cellOut{{st, unknownCell("text")}}
	}
	if p.id >= 1<<16 && p.id < 1<<17 {
		n := p.id - 1<<16
		j, r, c := n>>12, n>>6&63, n&63
		g := w.ginit[j]
		eq, ok := e.equal(st, style, g.style[r][c]).(Bool)
		if !ok {
			return []cellOut{{st, unknownCell("style")}}
		}
		return check(condAll(condEQ(ch.Lin, g.chars[r][c]), condEQ(width, linC(int64(g.width[r][c]))), eq), Cell{kind: 'B', arr: j, row: linC(int64(r)), col: linC(int64(c) + off)}, fmt.Sprintf("parts of different cells (text of row %d, column %d)", r, c))
	}
	id, o := p.id, st.norm(p.off)
	if p.cl != nil {
		id, o = 1<<20+p.cl.id, linC(off)
		if !st.norm(p.cl.width).eq(width) {
			return []cellOut{{st, Cell{kind: 'M', why: "a character stored with another width"}}}
		}
	}
	return check(condEQ(ch.Lin, e.firstRune(st, p)), Cell{kind: 'T', id: id, off: o, style: style}, "a rune that is not the text's first")
}

// firstRune is the first rune of a piece of text.
func (e *Engine) firstRune(st *State, p Piece) Lin {
	key := fmt.Sprint(p.id, "/", st.norm(p.off).str(e.symName))
	s, ok := e.firstRunes[key]
	if !ok {
		s = e.newSym("rune")
		if e.firstRunes == nil {
			e.firstRunes = map[string]Sym{}
		}
		e.firstRunes[key] = s
	}
	l := linS(s)
	st.pushCon(l.plus(-32))
	st.pushCon(linC(0x10ffff).sub(l))
	return l
}

// kept is what must be at (row, col) given that it is expected to be as before: half of a
// wide character whose other half is gone is blank.
// Where the buffers may differ nothing is expected.
func (c *scnCtx) kept(x *Exp, i int, want cellOut, r, k Lin) []cellOut {
	w, e := c.w, c.w.e
	st := want.st
	d := int64(0)
	if want.c.kind == 'T' {
		o := st.norm(want.c.off)
		if want.c.id < 1<<20 || x.in.wide[want.c.id-1<<20] != 2 || !o.isC() {
			return []cellOut{want}
		}
		d = 1 - 2*o.c
	} else {
		g := w.ginit[want.c.arr]
		wr, wc := st.norm(want.c.row), st.norm(want.c.col)
		if g == nil || !wr.isC() || !wc.isC() || int(wr.c) >= g.h || int(wc.c) >= g.w {
			return []cellOut{want}
		}
		switch g.width[wr.c][wc.c] {
		case 2:
			d = 1
		case 0:
			d = -1
		default:
			return []cellOut{want}
		}
	}
	nk := st.norm(k.plus(d))
	blank := func(s *State) cellOut { return cellOut{s, blankCell(x.s[i].style)} }
	if W := st.norm(x.s[i].W); nk.isC() && (nk.c < 0 || nk.c >= W.c) {
		return []cellOut{blank(st)}
	}
	var outs []cellOut
	for _, o := range x.cells(i, st, r, nk) {
		same := bFalse
		if want.c.kind == 'T' && o.c.kind == 'T' && o.c.id == want.c.id {
			same = condEQ(o.c.off, want.c.off.plus(d))
		} else if want.c.kind == 'B' && o.c.kind == 'B' && o.c.arr == want.c.arr {
			same = condAll(condEQ(o.c.row, want.c.row), condEQ(o.c.col, want.c.col.plus(d)))
		}
		var yes, no []*State
		yes, no = e.branch(o.st, same)
		for _, s := range yes {
			outs = append(outs, cellOut{s, want.c})
		}
		for _, s := range no {
			if d == 1 && o.c.kind == 'T' {
				continue // text over the second half
			}
			outs = append(outs, blank(s))
		}
	}
	return outs
}

func (c *scnCtx) keptAll(x *Exp, i int, wants []cellOut, r, k Lin) []cellOut {
	var outs []cellOut
	for _, want := range wants {
		if want.c.kind == 'B' || want.c.kind == 'T' {
			outs = append(outs, c.kept(x, i, want, r, k)...)
		} else {
			outs = append(outs, want)
		}
	}
	return outs
}

// tokens is ReadPrintableTokens: the characters of the text one by one.
func (e *Engine) tokens(st *State, obj int, text, rest Str, sig *types.Signature) []Outcome {
	sl, ok := sig.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok {
		panic(anchorErr{"ReadPrintableTokens"})
	}
	tt := sl.Elem()
	tok := func(s Str, width Lin) Value {
		v := e.zero(tt).(Struct)
		f := append([]Value{}, v.f...)
		f[mustField(tt, "Bytes")] = s
		f[mustField(tt, "Width")] = Int{width}
		return Struct{f}
	}
	type job struct {
		st   *State
		toks []Value
	}
	jobs := []job{{st: st}}
	for _, p := range text.p {
		var next []job
		for _, j := range jobs {
			if p.kind != 't' {
				j.st.taint("tokens")
				next = append(next, j)
				continue
			}
			if p.cl != nil {
				next = append(next, job{j.st, append(append([]Value{}, j.toks...), tok(Str{p: []Piece{p}}, p.cl.width))})
				continue
			}
			for _, s := range e.fix([]*State{j.st}, p.lin, 12) {
				n := s.norm(p.lin)
				if !n.isC() {
					s.taint("tokens")
					continue
				}
				t := append([]Value{}, j.toks...)
				for k := int64(0); k < n.c; k++ {
					q := p
					q.off, q.lin = s.norm(p.off.plus(k)), linC(1)
					t = append(t, tok(Str{p: []Piece{q}}, linC(1)))
				}
				next = append(next, job{s, t})
			}
		}
		jobs = next
	}
	var outs []Outcome
	for _, j := range jobs {
		n := *j.st.obj(obj)
		n.val = Struct{[]Value{Str{}, rest, Int{}}}
		j.st.setObj(&n)
		l := linC(int64(len(j.toks)))
		id := e.newObjID()
		j.st.setObj(&Object{id: id, name: "tokens", val: Arr{j.toks}})
		outs = append(outs, Outcome{st: j.st, val: Struct{[]Value{Slice{obj: id, len: l, cap: l}, Nil{}}}})
	}
	return outs
}

// gridScenarios are the operations both buffers implement, on a screen of fixed size with
// arbitrary contents, cursor, region and parameters.
func gridScenarios(grid bool) []*scenario {
	var outs []*scenario
	for _, sz := range gridSizes() {
		lays := 1
		if grid && sz[0] > 1 {
			lays = len(gridLayouts(int(sz[0])))
		}
		for l := 0; l < lays; l++ {
			var set []*scenario
			for _, f := range append(append([]func() []*scenario{}, baseSets...), textScenarios, sgrScenarios) {
				set = append(set, f()...)
			}
			for _, to := range [][2]int64{{1, 1}, {2, 3}, {4, 2}, {3, 3}} {
				sc := resizeTo(0, &to)
				sc.name = "Resize"
				set = append(set, sc)
			}
			for _, sc := range set {
				if sc.class == "sgr" && l > 0 || !gridSample(sc) {
					continue
				}
				n := *sc
				n.grid, n.noAlt = grid, true
				n.opt.fixed, n.opt.glay = sz, [2]int{l, 1}
				n.label = fmt.Sprintf("%dx%d, row layout %d", sz[0], sz[1], l)
				if n.text != nil {
					text := n.text
					n.run = func(w *World, in *Init) []Outcome {
						t, l := text(w, in)
						in.st.addGE(linC(sz[0] + 2).sub(l))
						return w.texts(in, []Str{t}, []Lin{l})
					}
				}
				outs = append(outs, &n)
			}
		}
	}
	return outs
}

func gridSizes() [][2]int64 {
	if thorough() {
		return [][2]int64{{1, 1}, {2, 2}, {3, 3}, {4, 2}, {5, 2}}
	}
	return [][2]int64{{1, 2}, {3, 3}}
}

// gridSample leaves out the parameter forms that only the common parser tells apart.
func gridSample(sc *scenario) bool {

	if sc.cuts > 1 && !thorough() {
		return false
	}
	if i := strings.IndexByte(sc.name, '('); i > 0 && sc.class != "text" {
		return thorough() || strings.Contains(sc.name, "(1 digits") && !strings.Contains(sc.name, "omitted") && !strings.Contains(sc.name, "3 digits") && !strings.Contains(sc.name, "overlong")
	}
	return true
}

// tally sums up the obligations of one scenario and aspect.
type tally struct {
	ok, bad, open int
	text          string
}

func tallies(res []scnResult, key func(x scnResult, aspect string) string) map[string]*tally {
	out := map[string]*tally{}
	for _, x := range res {
		if x.err != "" || x.anch != "" {
			continue
		}
		for _, o := range x.obls {
			k := key(x, o.aspect)
			t := out[k]
			if t == nil {
				t = &tally{}
				out[k] = t
			}
			switch o.verdict {
			case 1:
				t.ok++
			case 0:
				if t.bad == 0 {
					t.text = o.text
				}
				t.bad++
			default:
				t.open++
			}
		}
	}
	return out
}

// differ reports where one side breaks the common specification and the other is shown to
// keep it: there the two behave differently. Where both break it the fault is elsewhere.
func differ(r *Report, a, b map[string]*tally, nameA, nameB string) {
	none := &tally{}
	for _, p := range []struct {
		x, y   map[string]*tally
		nx, ny string
	}{{a, b, nameA, nameB}, {b, a, nameB, nameA}} {
		for k, t := range p.x {
			o := p.y[k]
			if o == nil {
				o = none
			}
			if t.bad > 0 && o.bad == 0 && o.open == 0 && o.ok > 0 {
				r.violate(k, fmt.Sprintf("%s: %s differs from %s, which is shown to do what is required: %s", k, p.nx, p.ny, t.text))
			}
		}
	}
	for k, t := range a {
		o := b[k]
		if o == nil {
			o = none
		}
		if t.bad == 0 && o.bad == 0 {
			r.ok(t.ok)
		}
		if t.bad > 0 && o.bad > 0 {
			r.Notes = append(r.Notes, k+": both break the specification")
		}
	}
}

func gridCheck(t *Target, r *Report) {
	r.Rules = append(r.Rules,
		"Both buffers are analysed against one specification of every text, cursor, erase, scroll and SGR operation, on screens of fixed small sizes with arbitrary contents (any text and attributes; every arrangement of double-width characters), cursor, saved cursor, scroll region, attributes and parameters; every component array of the grid is interpreted. Both keeping it means they agree; a violation is a case where one breaks it and the other is shown to keep it.",
		"The specification fixes each cell's text and attributes, the cursor, region, attributes and autowrap, the notifications (replaying them gives the screen) and what is printed; what remains of a cut double-width character is a blank in the current attributes, except where text starts on its second half.",
		"The token reader gives the grid buffer the same characters as the span buffer: both read methods return the stream.",
	)
	r.Assumptions = append(r.Assumptions, commonAssumptions...)
	r.Assumptions = append(r.Assumptions, "Screens of the analysed sizes stand for all sizes (the span buffer is analysed for every size by C03-C07).")
	asp := aspectSet("cursor", "saved", "size", "margins", "style", "wrap", "content", "told", "events", "out", "panic", "alias")
	key := func(x scnResult, a string) string { return x.sc.name + "/" + a }
	gs, ss := gridScenarios(true), gridScenarios(false)
	g, s := collect(t, gs, asp, nil), collect(t, ss, asp, nil)
	count := func(res []scnResult) {
		for _, x := range res {
			r.Counts["scenarios"]++
			r.Counts["paths through the analysed functions"] += x.outs
			r.Counts["loop partitions cut"] += x.cuts
			if x.err != "" || x.anch != "" {
				r.Counts["scenarios given up"]++
				r.Notes = append(r.Notes, x.sc.name+" "+x.sc.label+": "+x.err+x.anch)
			}
			for _, o := range x.obls {
				if o.verdict < 0 {
					r.Counts["obligations undecided"]++
				}
			}
		}
	}
	count(g)
	count(s)
	differ(r, tallies(g, key), tallies(s, key), "the grid buffer", "the span buffer")
	// the row edits of the span buffer, if the grid buffer is what the specification says
	rows := collect(t, append(textRows(), eraseRows()...), aspectSet("content"), nil)
	count(rows)
	all := func(x scnResult, a string) string { return "row edits/" + a }
	gt := tallies(g, all)
	differ(r, tallies(rows, all), map[string]*tally{"row edits/content": gt["row edits/content"]}, "the span buffer", "the grid buffer")
	// the accessors
	var cuts []*scenario
	for _, sc := range sliceScenarios() {
		if sc.name == "StyledLine" {
			cuts = append(cuts, sc)
		}
	}
	gc, sc := collect(t, gridSlices(), aspectSet("content", "panic"), nil), collect(t, cuts, aspectSet("content", "panic"), nil)
	count(gc)
	count(sc)
	differ(r, tallies(gc, key), tallies(sc, key), "the grid buffer", "the span buffer")
	// reading
	var toks, runs []*scenario
	for _, sc := range readerScenarios() {
		switch sc.name {
		case "ReadPrintableTokens":
			toks = append(toks, sc)
		case "ReadPrintableBytes":
			runs = append(runs, sc)
		}
	}
	a, b := collect(t, toks, aspectSet("stream", "error"), nil), collect(t, runs, aspectSet("stream", "error"), nil)
	count(a)
	count(b)
	label := func(x scnResult, asp string) string { return x.sc.label + "/" + asp }
	differ(r, tallies(a, label), tallies(b, label), "ReadPrintableTokens", "ReadPrintableBytes")
}

func init() { checks["C20"] = check{run: gridCheck} }
