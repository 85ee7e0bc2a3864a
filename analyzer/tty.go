package main

import (
	"fmt"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// tty.go interprets renderings: the pieces of an output are walked by a model of the terminal they
// are sent to, which yields what is painted where, in which style.

// mark is an escape produced by rendering a style: opaque in the output, known to the interpreter.
type mark struct {
	to   Value
	from Value // nil: from any style
}

type marker struct {
	w     *World
	marks map[int]mark
	undo  func()
}

// markStyles makes style renderings opaque.
func markStyles(w *World) *marker {
	m := &marker{w: w, marks: map[int]mark{}}
	e := w.e
	st := e.typeNamed("Style")
	prev := e.hook
	m.undo = func() { e.hook = prev }
	e.hook = func(e *Engine, s *State, fn *ssa.Function, args []Value) ([]Outcome, bool) {
		if r := fn.Signature.Recv(); r != nil && types.Identical(derefT(r.Type()), st) && len(args) > 0 {
			to := args[0]
			if p, ok := to.(Ptr); ok {
				outs := e.readPath(s, p)
				if len(outs) != 1 {
					return prev(e, s, fn, args)
				}
				to = outs[0].val
			}
			mk := mark{to: to}
			switch e.t.nameOf(fn) {
			case "ANSIEscapeFrom":
				mk.from = args[1]
			case "ANSIEscape":
			default:
				return prev(e, s, fn, args)
			}
			id := 7000 + len(m.marks)
			m.marks[id] = mk
			n := w.sym("escape length")
			s.pushCon(n)
			if mk.from == nil {
				s.pushCon(n.plus(-1))
			}
			return one(s, Str{p: []Piece{{kind: 'x', id: id, s: "style escape", lin: n}}}), true
		}
		return prev(e, s, fn, args)
	}
	return m
}

// painted is a run of cells drawn from one place on.
type painted struct {
	x, y  Lin
	width Lin
	spans []Struct
	wrap  bool
}

// outer is the terminal that interprets a rendering.
type outer struct {
	x, y, sx, sy Lin
	at, saved    bool // position known
	wrap         bool
	vis          int // cursor: 1 shown, 0 hidden
	style        Value
	runs         []painted
	open         bool
	froms        [][2]Value // style assumed, style in force
	cmds         int
}

func (o *outer) moved() { o.open = false }

// interpret feeds s to the terminal o; false if something in it is not understood.
func (m *marker) interpret(st *State, o *outer, s Str) bool {
	w, e := m.w, m.w.e
	state := byte(0)
	var params []Lin
	var has []bool
	private := byte(0)
	num := ""
	flush := func() {
		if num != "" {
			n, _ := strconv.ParseInt(num, 10, 64)
			params, has, num = append(params, linC(n)), append(has, true), ""
		} else {
			params, has = append(params, Lin{}), append(has, false)
		}
	}
	dec := false // a symbolic parameter has just been read
	paint := func(text Str, r Lin, n Lin) {
		o.cmds++
		if !o.open {
			o.runs = append(o.runs, painted{x: o.x, y: o.y, wrap: o.wrap})
			o.open = true
		}
		run := &o.runs[len(o.runs)-1]
		run.spans = append(append([]Struct{}, run.spans...), e.mkSpan(o.style, text, r, n))
		run.width = run.width.add(n)
		o.x = o.x.add(n)
	}
	for _, p := range s.p {
		if p.kind == 'd' {
			if state != 2 || num != "" || dec {
				return false
			}
			params, has, dec = append(params, st.norm(p.lin)), append(has, true), true
			continue
		}
		if p.kind != 'c' {
			if state != 0 {
				return false
			}
			switch {
			case p.kind == 'x':
				mk, ok := m.marks[p.id]
				if !ok {
					return false
				}
				if mk.from != nil {
					o.froms = append(o.froms, [2]Value{mk.from, o.style})
				}
				o.style = mk.to
			case p.kind == 't' || p.kind == 'p' && len(p.sub) == 1 && p.sub[0].kind == 'c' && len(p.sub[0].s) == 1:
				n, ok := e.textWidth(st, Str{p: []Piece{p}})
				if !ok {
					return false
				}
				if p.kind == 'p' {
					c := p.sub[0].s[0]
					if c < 32 || c > 126 {
						return false
					}
					paint(Str{}, linC(int64(c)), n)
					continue
				}
				paint(Str{p: []Piece{p}}, Lin{}, n)
			case p.kind == 'r' || p.kind == 'p' && len(p.sub) == 1 && p.sub[0].kind == 'r':
				r, n := p.lin, linC(1)
				if p.kind == 'p' {
					r, n = p.sub[0].lin, p.n
				}
				if !st.entailsGE(r.plus(-32)) || !st.entailsGE(linC(126).sub(r)) {
					return false
				}
				paint(Str{}, st.norm(r), st.norm(n))
			default:
				return false
			}
			continue
		}
		for i := 0; i < len(p.s); i++ {
			b := p.s[i]
			switch state {
			case 0:
				switch {
				case b == 27:
					state = 1
				case b >= 32 && b < 127:
					paint(Str{}, linC(int64(b)), linC(1))
				case b == '\r':
					o.cmds++
					o.x = Lin{}
					o.moved()
				default:
					return false
				}
			case 1:
				if b != '[' {
					return false
				}
				state, params, has, num, private, dec = 2, nil, nil, "", 0, false
			case 2:
				switch {
				case b >= '0' && b <= '9':
					if dec {
						return false
					}
					num += string(b)
				case b == ';':
					if !dec {
						flush()
					}
					dec = false
				case b == '?' && len(params) == 0 && num == "" && private == 0:
					private = b
				case b >= 0x40 && b < 0x7f:
					if num != "" || !dec && len(params) > 0 {
						flush()
					}
					state = 0
					o.cmds++
					if !m.control(o, private, b, params, has) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	_ = w
	return state == 0
}

func (m *marker) control(o *outer, private, final byte, params []Lin, has []bool) bool {
	arg := func(i int) Lin {
		if i < len(params) && has[i] {
			return params[i]
		}
		return linC(1)
	}
	zero := len(params) == 0 || len(params) == 1 && params[0].isC() && params[0].c == 0
	switch {
	case private == '?' && (final == 'h' || final == 'l') && len(params) == 1 && params[0].isC():
		switch params[0].c {
		case 7:
			o.wrap = final == 'h'
			if o.open {
				o.open = false
			}
		case 25:
			o.vis = 0
			if final == 'h' {
				o.vis = 1
			}
		default:
			return false
		}
	case private != 0:
		return false
	case final == 's' && len(params) == 0:
		o.sx, o.sy, o.saved = o.x, o.y, o.at
	case final == 'u' && len(params) == 0:
		o.x, o.y, o.at = o.sx, o.sy, o.saved
		o.moved()
	case (final == 'H' || final == 'f') && len(params) <= 2:
		o.y, o.x, o.at = arg(0).plus(-1), arg(1).plus(-1), true
		o.moved()
	case final == 'd' && len(params) <= 1:
		o.y = arg(0).plus(-1)
		o.moved()
	case (final == 'G' || final == '`') && len(params) <= 1:
		o.x = arg(0).plus(-1)
		o.moved()
	case final == 'm' && zero:
		_, v := m.w.one(m.w.base.fork(), "NewStyle")
		o.style = v
	default:
		return false
	}
	return true
}

// renderScenario: what ANSILine renders for a row, interpreted, is that row.
func renderScenario(kinds string, mode int64) *scenario {
	sc := &scenario{name: "ANSILine", label: shapeLabel(kinds, mode), class: "row", noAlt: true, mode: mode}
	sc.direct = func(c *scnCtx) {
		w, e := c.w, c.w.e
		e.realRows = true
		m := markStyles(w)
		g := &rowGen{w: w, st: w.base.fork()}
		list, line, W := g.row(kinds, 0)
		arr := e.newObjID()
		lt := e.lay().lineT
		first := Struct{append([]Value{}, e.zero(lt).(Struct).f...)}
		id := e.newObjID()
		g.st.setObj(&Object{id: id, name: "spans", val: Arr{[]Value{e.mkSpan(w.symStyle(g.st, "style of the other row"), Str{p: []Piece{g.run(W)}}, Lin{}, W)}}})
		first.f[e.lay().lnSpans] = Slice{obj: id, len: linC(1), cap: linC(1)}
		first.f[e.lay().lnWidth] = Int{W}
		g.st.setObj(&Object{id: arr, name: "lines", val: Arr{[]Value{first, g.st.obj(line).val}}})
		w.set(g.st, w.scr[0], w.scrT, "lines", Slice{obj: arr, len: linC(2), cap: linC(2)})
		w.set(g.st, w.scr[0], w.scrT, "size", w.pos(W, linC(2)))
		w.set(g.st, w.scr[0], w.scrT, "textMode", Int{linC(w.mode)})
		_, plain := w.one(w.base.fork(), "NewStyle")
		any := w.symStyle(g.st, "style in force")
		for _, o := range e.call(g.st, e.mustFunc("(*terminal).ANSILine"), []Value{Ptr{obj: w.term}, Int{linC(1)}}, nil) {
			c.outs++
			if o.panic != "" {
				c.panicked(o)
				continue
			}
			s, ok := e.asBytes(o.st, o.val)
			if !ok {
				c.add("content", -1, "unknown rendering")
				continue
			}
			m.compare(c, o.st, s, plain, any, W, func(st *State, at Lin) []cellOut { return e.spanCells(st, list, at, 0) })
		}
	}
	return sc
}

// compare decides that s, the rendering of a row, is that row when interpreted.
func (m *marker) compare(c *scnCtx, st *State, s Str, plain, any Value, W Lin, cells func(st *State, at Lin) []cellOut) {
	e := c.w.e
	start := plain
	for round := 0; round < 2; round++ {
		t := &outer{style: start, at: true}
		if !m.interpret(st, t, s) {
			c.add("content", -1, "rendering not understood: "+showStr(e, s))
			return
		}
		if len(t.runs) != 1 {
			c.prove(st, boolC(len(t.runs) == 1), "content", func() string { return "a row is rendered as " + showStr(e, s) })
			return
		}
		run := t.runs[0]
		for _, f := range t.froms {
			c.proveV(st, f[1], f[0], "content", "the style in force where only a difference of styles is sent")
		}
		c.prove(st, condEQ(run.width, W), "content", func() string {
			return fmt.Sprintf("the rendering %s has %s cells, the row has %s", showStr(e, s), st.norm(run.width).str(e.symName), st.norm(W).str(e.symName))
		})
		c.cellsAre(st, run.spans, []stretch{{W, cells}}, "content")
		if eq, ok := e.equal(st, st.normV(t.style), st.normV(plain)).(Bool); ok && st.decide(eq) == 1 {
			break // every row ends in the style the first one starts in
		}
		start = any
	}
}

// gridRenderScenario: the same for the grid buffer on a screen of fixed size.
func gridRenderScenario(sz [2]int64, lay int) *scenario {
	sc := &scenario{name: "ANSILine of the grid buffer", label: fmt.Sprintf("%dx%d, row layout %d", sz[0], sz[1], lay), class: "grid", noAlt: true, grid: true}
	sc.opt.fixed, sc.opt.glay = sz, [2]int{lay, lay}
	sc.direct = func(c *scnCtx) {
		w, e := c.w, c.w.e
		m := markStyles(w)
		defer m.undo()
		in := w.symbolic(sc.opt)
		_, plain := w.one(w.base.fork(), "NewStyle")
		any := w.symStyle(in.st, "style in force")
		for y := int64(0); y < sz[1]; y++ {
			for _, o := range e.call(in.st.fork(), e.mustFunc("(*terminal).ANSILine"), []Value{Ptr{obj: w.term}, Int{linC(y)}}, nil) {
				c.outs++
				if o.panic != "" {
					c.panicked(o)
					continue
				}
				s, ok := e.asBytes(o.st, o.val)
				if !ok {
					c.add("content", -1, "unknown rendering")
					continue
				}
				m.compare(c, o.st, s, plain, any, linC(sz[0]), func(st *State, at Lin) []cellOut { return w.gridText(st, int(y), int(sz[0]), at) })
			}
		}
	}
	return sc
}

// gridText is a cell of the grid buffer by the text stored for it.
func (w *World) gridText(st *State, y, width int, at Lin) []cellOut {
	e := w.e
	var outs []cellOut
	for _, o := range e.enumerate(st, at, 0, int64(width)-1, func(s *State, k int64) Value { return Int{linC(k)} }) {
		x := int(o.val.(Int).c)
		cell, ok := w.gridAt(o.st, 0, y, x)
		cont, ok1 := cell["cellCont"].(Bool)
		if !ok || !ok1 {
			outs = append(outs, cellOut{o.st, unknownCell("grid cell")})
			continue
		}
		second, first := e.branch(o.st, cont)
		for half, ss := range [][]*State{first, second} {
			for _, s := range ss {
				from := cell
				if half == 1 {
					if from, ok = w.gridAt(s, 0, y, x-1); !ok {
						outs = append(outs, cellOut{s, unknownCell("grid cell")})
						continue
					}
				}
				t, ok := from["cellText"].(Str)
				if !ok {
					outs = append(outs, cellOut{s, unknownCell("grid cell")})
					continue
				}
				outs = append(outs, e.textCell(s, t, linC(int64(half)), cell["cellStyles"])...)
			}
		}
	}
	return outs
}

func gridRenders() []*scenario {
	var scs []*scenario
	for _, sz := range [][2]int64{{1, 1}, {2, 2}, {3, 1}, {4, 1}} {
		for l := range gridLayouts(int(sz[0])) {
			scs = append(scs, gridRenderScenario(sz, l))
		}
	}
	return scs
}

func renderScenarios() []*scenario {
	var scs []*scenario
	for _, k := range rowShapes() {
		for mode := int64(0); mode < 2; mode++ {
			scs = append(scs, renderScenario(k, mode))
		}
	}
	return scs
}
