package main

import "fmt"

// rowop.go: whole control functions on a screen of one explicit row, with the real body of every
// function they call: code that looks into the spans of a row itself is analysed as it is.

type rowOp struct {
	name, pre, final string
	param            bool // a parameter of one digit
	del              bool
}

func rowOps() []rowOp {
	out := []rowOp{{name: "DCH", pre: "\x1b[", final: "P", param: true, del: true}, {name: "ECH", pre: "\x1b[", final: "X", param: true}}
	for i, n := range []string{"0", "1", "2"} {
		out = append(out, rowOp{name: fmt.Sprint("EL ", i), pre: "\x1b[" + n, final: "K"}, rowOp{name: fmt.Sprint("ED ", i), pre: "\x1b[" + n, final: "J"})
	}
	return out
}

func opRow(op rowOp, kinds string, mode int64) *scenario {
	sc := &scenario{name: op.name + " on a row", label: shapeLabel(kinds, mode), class: "row", noAlt: true, mode: mode}
	sc.direct = func(c *scnCtx) {
		w, e := c.w, c.w.e
		e.realRows = true
		g := &rowGen{w: w, st: w.base.fork()}
		list, _, W := g.oneRow(kinds)
		x := w.sym("x")
		g.st.pushCon(x)
		g.st.pushCon(W.sub(x).plus(-1))
		w.set(g.st, w.scr[0], w.scrT, "cursorPos", w.pos(x, Lin{}))
		w.set(g.st, w.scr[0], w.scrT, "topMargin", Int{Lin{}})
		w.set(g.st, w.scr[0], w.scrT, "bottomMargin", Int{Lin{}})
		style := w.symStyle(g.st, "new style")
		w.set(g.st, w.scr[0], w.scrT, "style", style)
		seq, from, end := strC(op.pre), x, W
		var starting []*State
		switch {
		case op.param:
			d := w.sym("digit")
			g.st.pushCon(d.plus(-1))
			g.st.pushCon(linC(9).sub(d))
			seq = strCat(seq, Str{p: []Piece{{kind: 'b', lin: d.plus('0')}}})
			starting = split(e, g.st, condLE(x.add(d), W))
			end = x.add(d)
		default:
			starting = []*State{g.st}
			switch op.name[len(op.name)-1] {
			case '1':
				from, end = Lin{}, x.plus(1)
			case '2':
				from = Lin{}
			}
		}
		seq = strCat(seq, strC(op.final))
		starts := e.wides(list)
		blank := func(st *State, o Lin) []cellOut { return []cellOut{{st, blankCell(style)}} }
		old := func(from Lin) func(*State, Lin) []cellOut {
			return func(st *State, o Lin) []cellOut { return e.spanCells(st, list, from.add(o), 0) }
		}
		for _, s0 := range starting {
			if _, ok := s0.witness(); !ok {
				continue
			}
			end := end
			if op.param && s0.decide(condLE(end, W)) != 1 {
				end = W
			}
			for _, o := range w.feed(s0, seq) {
				c.outs++
				if o.panic != "" {
					c.panicked(o)
					continue
				}
				c.add("panic", 1, "")
				line, ok := c.firstRow(o.st)
				if !ok {
					c.add("content", -1, "")
					continue
				}
				whole, cut := e.inWideBoth(o.st, starts, from)
				for li, ls := range [][]*State{whole, cut} {
					pl := linC(int64(li))
					for _, st := range ls {
						clean, cutR := e.inWideBoth(st, starts, end)
						for ri, rs := range [][]*State{clean, cutR} {
							pr := linC(int64(ri))
							for _, s := range rs {
								got, ok := c.sound(s, line, &W)
								if !ok {
									continue
								}
								n := end.sub(from)
								if op.del {
									c.cellsAre(s, got, []stretch{{from.sub(pl), old(Lin{})}, {pl, blank}, {pr, blank}, {W.sub(end).sub(pr), old(end.add(pr))}, {n, blank}}, "content")
									c.touched(s, from.sub(pl), W, W)
								} else {
									c.cellsAre(s, got, []stretch{{from.sub(pl), old(Lin{})}, {pl.add(n).add(pr), blank}, {W.sub(end).sub(pr), old(end.add(pr))}}, "content")
									c.touched(s, from.sub(pl), end.add(pr), W)
								}
							}
						}
					}
				}
			}
		}
	}
	return sc
}

// inWideBoth is inWide with the states that do not cut a wide character first.
func (e *Engine) inWideBoth(st *State, starts []Lin, c Lin) (whole, cut []*State) {
	cut, whole = e.inWide(st, starts, c)
	return
}

func opRows() []*scenario {
	var out []*scenario
	for i, k := range rowShapes() {
		if len(k) == 3 && i%2 == 0 && !thorough() || k == "m" {
			continue
		}
		for j, op := range rowOps() {
			if !thorough() && len(k) > 1 && j > 1 && (i+j)%3 != 0 {
				continue
			}
			out = append(out, opRow(op, k, int64((i+j)%2)))
		}
	}
	return out
}

// textRow: a character written on an explicit row, autowrap off, where it fits.
func textRow(ch string, cw int64, kinds string, mode int64) *scenario {
	sc := &scenario{name: "writing on a row", label: fmt.Sprintf("a character of %d; %s", cw, shapeLabel(kinds, mode)), class: "row", noAlt: true, mode: mode}
	sc.direct = func(c *scnCtx) {
		w, e := c.w, c.w.e
		e.realRows = true
		g := &rowGen{w: w, st: w.base.fork()}
		list, _, W := g.oneRow(kinds)
		x := w.sym("x")
		g.st.pushCon(x)
		g.st.pushCon(W.sub(x).plus(-cw))
		if _, ok := g.st.witness(); !ok {
			return
		}
		w.set(g.st, w.scr[0], w.scrT, "cursorPos", w.pos(x, Lin{}))
		w.set(g.st, w.scr[0], w.scrT, "topMargin", Int{Lin{}})
		w.set(g.st, w.scr[0], w.scrT, "bottomMargin", Int{Lin{}})
		w.set(g.st, w.scr[0], w.scrT, "autoWrap", bFalse)
		style := w.symStyle(g.st, "new style")
		w.set(g.st, w.scr[0], w.scrT, "style", style)
		starts := e.wides(list)
		l := e.lay()
		text := strC(ch)
		if ch == "" {
			text = Str{p: []Piece{g.clus(cw)}}
		}
		insert := e.mkSpan(style, text, Lin{}, linC(cw))
		new := func(st *State, o Lin) []cellOut { return e.spanCells(st, []Struct{insert}, o, 0) }
		blank := func(st *State, o Lin) []cellOut { return []cellOut{{st, blankCell(insert.f[l.spStyle])}} }
		old := func(from Lin) func(*State, Lin) []cellOut {
			return func(st *State, o Lin) []cellOut { return e.spanCells(st, list, from.add(o), 0) }
		}
		end := x.plus(cw)
		for _, o := range w.feedText(g.st, text, linC(cw), Str{}) {
			c.outs++
			if o.panic != "" {
				c.panicked(o)
				continue
			}
			c.add("panic", 1, "")
			line, ok := c.firstRow(o.st)
			if !ok {
				c.add("content", -1, "")
				continue
			}
			whole, cut := e.inWideBoth(o.st, starts, x)
			for _, st := range cut {
				// the wide character stays and the text goes after it
				if got, ok := c.sound(st, line, &W); ok {
					for _, s := range split(e, st, condLE(end.plus(1), W)) {
						if s.decide(condLE(end.plus(1), W)) == 1 {
							c.cellsAre(s, got, []stretch{{x.plus(1), old(Lin{})}, {linC(cw), new}}, "content")
						} else {
							c.cellsAre(s, got, []stretch{{x.plus(1), old(Lin{})}}, "content")
						}
						c.touched(s, x.plus(1), W, W)
					}
				}
			}
			for _, st := range whole {
				clean, cutR := e.inWideBoth(st, starts, end)
				for ri, rs := range [][]*State{clean, cutR} {
					pr := linC(int64(ri))
					for _, s := range rs {
						if got, ok := c.sound(s, line, &W); ok {
							c.cellsAre(s, got, []stretch{{x, old(Lin{})}, {linC(cw), new}, {pr, blank}, {W.sub(end).sub(pr), old(end.add(pr))}}, "content")
							c.touched(s, x, end.add(pr), W)
						}
					}
				}
			}
		}
	}
	return sc
}

// resizeRow: Resize to any width keeps what fits of an explicit row.
func resizeRow(kinds string, mode int64) *scenario {
	sc := &scenario{name: "Resize of a row", label: shapeLabel(kinds, mode), class: "row", noAlt: true, mode: mode}
	sc.direct = func(c *scnCtx) {
		w, e := c.w, c.w.e
		e.realRows = true
		g := &rowGen{w: w, st: w.base.fork()}
		list, _, W := g.oneRow(kinds)
		w.set(g.st, w.scr[0], w.scrT, "topMargin", Int{Lin{}})
		w.set(g.st, w.scr[0], w.scrT, "bottomMargin", Int{Lin{}})
		alt := e.newObjID()
		g.st.setObj(&Object{id: alt, name: "lines", val: Arr{[]Value{g.st.obj(g.rowOf([]Value{e.mkSpan(w.symStyle(g.st, "alt style"), Str{}, linC(' '), W)}, 0, W)).val}}})
		w.set(g.st, w.scr[1], w.scrT, "lines", Slice{obj: alt, len: linC(1), cap: linC(1)})
		w.set(g.st, w.scr[1], w.scrT, "size", w.pos(W, linC(1)))
		w.set(g.st, w.scr[1], w.scrT, "topMargin", Int{Lin{}})
		w.set(g.st, w.scr[1], w.scrT, "bottomMargin", Int{Lin{}})
		n := w.sym("newW")
		g.st.pushCon(n.plus(-1))
		g.st.pushCon(linC(1 << 20).sub(n))
		starts := e.wides(list)
		old := func(st *State, o Lin) []cellOut { return e.spanCells(st, list, o, 0) }
		style := w.get(g.st, w.scr[0], w.scrT, "style")
		blank := func(st *State, o Lin) []cellOut { return []cellOut{{st, blankCell(style)}} }
		for _, s0 := range split(e, g.st, condLE(n, W)) {
			grown := s0.decide(condLE(n, W)) != 1
			for _, o := range e.call(s0, e.mustFunc("(*terminal).Resize"), []Value{Ptr{obj: w.term}, Int{n}, Int{linC(1)}}, nil) {
				c.outs++
				if o.panic != "" {
					c.panicked(o)
					continue
				}
				c.add("panic", 1, "")
				line, ok := c.firstRow(o.st)
				if !ok {
					c.add("content", -1, "")
					continue
				}
				if grown {
					if got, ok := c.sound(o.st, line, &n); ok {
						c.cellsAre(o.st, got, []stretch{{W, old}, {n.sub(W), blank}}, "content")
					}
					continue
				}
				whole, cut := e.inWideBoth(o.st, starts, n)
				for li, ls := range [][]*State{whole, cut} {
					pl := linC(int64(li))
					for _, st := range ls {
						if got, ok := c.sound(st, line, &n); ok {
							c.cellsAre(st, got, []stretch{{n.sub(pl), old}, {pl, blank}}, "content")
						}
					}
				}
			}
		}
	}
	return sc
}

func writeRows() []*scenario {
	var out []*scenario
	for i, k := range rowShapes() {
		if len(k) == 3 && i%2 == 0 && !thorough() || k == "m" {
			continue
		}
		for j, ch := range []string{"x", "", ""} {
			if !thorough() && len(k) > 1 && (i+j)%2 != 0 {
				continue
			}
			out = append(out, textRow(ch, []int64{1, 2, 1}[j], k, int64((i+j/2)%2)))
		}
	}
	return out
}

func resizeRows() []*scenario {
	var out []*scenario
	for i, k := range rowShapes() {
		if k != "m" {
			out = append(out, resizeRow(k, int64(i%2)))
		}
	}
	return out
}

// wholeRows are control functions, writing and resizing on explicit rows.
func wholeRows() []*scenario { return append(append(opRows(), writeRows()...), resizeRows()...) }
