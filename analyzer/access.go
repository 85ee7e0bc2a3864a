package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// access.go: the accessors a user reads the screen through.

// gridPut replaces one component of a cell.
func (w *World) gridPut(st *State, i int, f string, r, c int, v Value) bool {
	s, ok := w.get(st, w.scr[i], w.scrT, f).(Slice)
	if !ok {
		return false
	}
	rows, ok := w.e.elems(st, s)
	if !ok || r >= len(rows) {
		return false
	}
	row, ok := rows[r].(Slice)
	if !ok {
		return false
	}
	o := st.obj(row.obj)
	a, ok := o.val.(Arr)
	if !ok || c >= len(a.e) {
		return false
	}
	n := *o
	n.val = Arr{append([]Value{}, a.e...)}
	n.val.(Arr).e[c] = v
	st.setObj(&n)
	return true
}

// gridSliceScenario: StyledLine(x, n, 0) of the grid buffer shows columns [x, x+n) of the row; a
// double-width character cut by either end shows as blanks. Of the characters, those in
// the mask are single runes, the others are clusters of several.
func gridSliceScenario(width int64, lay int, mask int) *scenario {
	sc := &scenario{name: "StyledLine", label: fmt.Sprintf("grid buffer, %d columns, row layout %d, single runes %b", width, lay, mask), class: "grid", noAlt: true, grid: true}
	sc.opt.fixed, sc.opt.glay = [2]int64{width, 1}, [2]int{lay, 1}
	sc.direct = func(c *scnCtx) {
		w, e := c.w, c.w.e
		in := w.symbolic(sc.opt)
		g := w.ginit[0]
		for k := range int(width) {
			cell, ok := w.gridAt(in.st, 0, 0, k)
			t, ok1 := cell["cellText"].(Str)
			if !ok || !ok1 {
				c.add("content", -1, "")
				return
			}
			switch one := mask>>k&1 == 1; {
			case g.width[0][k] == 0:
				continue
			case one && g.width[0][k] == 1:
				t = Str{p: []Piece{{kind: 'r', lin: cell["chars"].(Int).Lin}}}
			default:
				cl := *t.p[0].cl
				if cl.multi = !one; one {
					r := cell["chars"].(Int).Lin
					cl.rune = &r
				}
				p := t.p[0]
				p.cl = &cl
				t = Str{p: []Piece{p}}
			}
			w.gridPut(in.st, 0, "cellText", 0, k, t)
		}
		for x := int64(0); x <= width; x++ {
			for n := int64(-1); n <= width-x+1; n++ {
				for _, o := range e.call(in.st.fork(), w.screenFunc("StyledLine"), []Value{Ptr{obj: w.scr[0]}, Int{linC(x)}, Int{linC(n)}, Int{}}, nil) {
					c.outs++
					if o.panic != "" {
						c.panicked(o)
						continue
					}
					c.add("panic", 1, "")
					c.gridSlice(o, x, n, width)
				}
			}
		}
	}
	return sc
}

func (c *scnCtx) gridSlice(o Outcome, x, n, width int64) {
	w, e := c.w, c.w.e
	lt := e.typeNamed("Line")
	v, ok := o.val.(Struct)
	if !ok {
		c.add("content", -1, "")
		return
	}
	row, ok1 := e.rowOf(o.st, v.f[mustField(lt, "Spans")])
	lw, ok2 := v.f[mustField(lt, "Width")].(Int)
	if !ok1 || !ok2 || row.kind != 'L' && row.kind != 'E' {
		c.add("content", -1, "")
		return
	}
	if n < 0 || x+n > width {
		n = width - x
	}
	sum := Lin{}
	for _, sp := range row.list {
		sum = sum.add(e.spanWidth(sp))
	}
	c.prove(o.st, condAll(condEQ(lw.Lin, linC(n)), condEQ(sum, linC(n))), "content", func() string {
		return fmt.Sprintf("the line has width %s and spans of %s cells, it must have %d", o.st.norm(lw.Lin).str(e.symName), o.st.norm(sum).str(e.symName), n)
	})
	if n == 0 {
		return
	}
	g := w.ginit[0]
	first, last := x, x+n // columns whose character is whole inside
	if g.width[0][x] == 0 {
		first++
	}
	if g.width[0][x+n-1] == 2 {
		last--
	}
	blank := func(at int64) func(*State, Lin) []cellOut {
		return func(st *State, _ Lin) []cellOut {
			cell, ok := w.gridAt(st, 0, 0, int(at))
			if !ok {
				return []cellOut{{st, unknownCell("grid cell")}}
			}
			return []cellOut{{st, blankCell(cell["cellStyles"])}}
		}
	}
	c.cellsAre(o.st, row.list, []stretch{
		{linC(first - x), blank(x)},
		{linC(max(last-first, 0)), func(st *State, o Lin) []cellOut { return w.gridText(st, 0, int(width), o.plus(first)) }},
		{linC(x + n - max(last, first)), blank(x + n - 1)},
	}, "content")
}

func gridSlices() []*scenario {
	var scs []*scenario
	top := int64(3)
	if thorough() {
		top = 5
	}
	for width := int64(1); width <= top; width++ {
		for l := range gridLayouts(int(width)) {
			for mask := range 1 << width {
				skip := false
				for k, cells := range gridLayouts(int(width))[l] {
					skip = skip || cells == 0 && mask>>k&1 == 1
				}
				if skip {
					continue
				}
				scs = append(scs, gridSliceScenario(width, l, mask))
			}
		}
	}
	return scs
}

// linesScenario: StyledLines(r) is StyledLine(r.X, r.X2-r.X, y) of the rows y of r, in order;
// the terminal's accessors are those of the active screen.
func linesScenario(grid bool, height int64) *scenario {
	sc := &scenario{name: "StyledLines", label: fmt.Sprintf("%d rows, grid buffer %v", height, grid), class: "access", noAlt: true, grid: grid}
	if grid {
		sc.opt.fixed = [2]int64{3, 3}
	}
	sc.direct = func(c *scnCtx) {
		w, e := c.w, c.w.e
		in := w.symbolic(sc.opt)
		lt, rt := e.typeNamed("Line"), e.typeNamed("Region")
		of := w.screenFunc("StyledLine")
		one1, both := of, []*ssa.Function{w.screenFunc("StyledLines"), e.mustFunc("(*terminal).StyledLines")}
		prev := e.hook
		defer func() { e.hook = prev }()
		e.hook = func(e *Engine, st *State, fn *ssa.Function, args []Value) ([]Outcome, bool) {
			if fn != one1 || len(args) != 4 {
				return prev(e, st, fn, args)
			}
			old, _ := st.ghost["asked"].(Struct)
			id := w.sym("line")
			st.ghost["asked"] = Struct{append(append([]Value{}, old.f...), Struct{append([]Value{Int{id}}, args...)})}
			f := append([]Value{}, e.zero(lt).(Struct).f...)
			f[mustField(lt, "Width")] = Int{id}
			return one(st, Struct{f}), true
		}
		x, wd, y := w.sym("x"), w.sym("width"), w.sym("y")
		for _, l := range []Lin{x, wd, y, in.s[0].W.sub(x).sub(wd), in.s[0].H.sub(y).plus(-height)} {
			in.st.pushCon(l)
		}
		asked := func(st *State, k int64, recv int, x, n, y Lin, got Value) {
			old, _ := st.ghost["asked"].(Struct)
			if int(k) >= len(old.f) {
				c.add("content", -1, "")
				return
			}
			a := old.f[k].(Struct).f
			p, ok := a[1].(Ptr)
			l, ok1 := got.(Struct)
			if !ok || !ok1 {
				c.add("content", -1, "")
				return
			}
			c.prove(st, boolC(p.obj == recv), "content", func() string { return "the line is one of the other screen" })
			for j, want := range []Lin{x, n, y} {
				c.proveV(st, a[2+j], Int{want}, "content", fmt.Sprintf("argument %d of StyledLine for line %d", j+1, k))
			}
			c.proveV(st, l.f[mustField(lt, "Width")], a[0], "content", fmt.Sprintf("line %d", k))
		}
		rf := append([]Value{}, e.zero(rt).(Struct).f...)
		for f, v := range map[string]Lin{"X": x, "Y": y, "X2": x.add(wd), "Y2": y.plus(height)} {
			rf[mustField(rt, f)] = Int{v}
		}
		for k, fn := range both {
			recv, act := Ptr{obj: w.scr[0]}, 0
			for alt := 0; alt <= k; alt++ {
				st := in.st.fork()
				if k == 1 {
					recv, act = Ptr{obj: w.term}, alt
					w.set(st, w.term, w.termT, "onAltScreen", boolC(alt == 1))
				}
				for _, o := range e.call(st.fork(), fn, []Value{recv, Struct{rf}}, nil) {
					c.outs++
					if o.panic != "" {
						c.panicked(o)
						continue
					}
					c.add("panic", 1, "")
					rec, _ := o.st.ghost["asked"].(Struct)
					els, ok := []Value(nil), true
					if s, isS := o.val.(Slice); isS {
						els, ok = e.elems(o.st, s)
					}
					if !ok || len(rec.f) != len(els) {
						c.add("content", -1, "")
						continue
					}
					c.prove(o.st, boolC(int64(len(els)) == height), "content", func() string {
						return fmt.Sprintf("StyledLines gives %d lines for a region of %d rows", len(els), height)
					})
					for j := int64(0); j < min(height, int64(len(els))); j++ {
						asked(o.st, j, w.scr[act], x, wd, y.plus(j), els[j])
					}
				}
				if k == 0 {
					continue
				}
				for _, o := range e.call(st.fork(), e.mustFunc("(*terminal).StyledLine"), []Value{recv, Int{x}, Int{wd}, Int{y}}, nil) {
					c.outs++
					if o.panic != "" {
						c.panicked(o)
						continue
					}
					c.add("panic", 1, "")
					asked(o.st, 0, w.scr[act], x, wd, y, o.val)
				}
			}
		}
	}
	return sc
}

func accessScenarios() []*scenario {
	var scs []*scenario
	for _, grid := range []bool{false, true} {
		for h := int64(0); h <= 3; h++ {
			scs = append(scs, linesScenario(grid, h))
		}
	}
	return scs
}
