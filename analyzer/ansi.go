package main

import (
	"fmt"
	"strings"
)

// ansi.go decides the ANSI renderings: what a style is serialised to is parsed back to that
// style; what a row and a mirrored region are rendered to is, interpreted again, that row or region.

// explode writes out the decimal numbers of a rendering digit by digit.
func (w *World) explode(st *State, s Str) []strOut {
	cur := []strOut{{st, Str{}}}
	for _, p := range s.p {
		var next []strOut
		for _, c := range cur {
			if p.kind != 'd' {
				next = append(next, strOut{c.st, strCat(c.s, Str{p: []Piece{p}})})
				continue
			}
			next = append(next, w.digitsOf(c, c.st.norm(p.lin))...)
		}
		cur = next
	}
	return cur
}

type strOut struct {
	st *State
	s  Str
}

func (w *World) digitsOf(c strOut, v Lin) []strOut {
	if v.isC() {
		return []strOut{{c.st, strCat(c.s, strC(fmt.Sprint(v.c)))}}
	}
	var outs []strOut
	for n, lo := range []int64{0, 10, 100} {
		s := c.st.fork()
		if !s.addGE(v.plus(-lo)) || n < 2 && !s.addGE(linC(10*max64(lo, 1)-1).sub(v)) {
			continue
		}
		rest, out := v, c.s
		for k := n; k > 0; k-- {
			d := w.sym("digit")
			low := int64(0)
			if k == n {
				low = 1
			}
			s.pushCon(d.plus(-low))
			s.pushCon(linC(9).sub(d))
			rest = rest.sub(d.scale([]int64{1, 10, 100}[k]))
			out = strCat(out, Str{p: []Piece{{kind: 'b', lin: d.plus('0')}}})
		}
		if !s.addGE(rest) || !s.addGE(linC(9).sub(rest)) {
			continue
		}
		outs = append(outs, strOut{s, strCat(out, Str{p: []Piece{{kind: 'b', lin: rest.plus('0')}}})})
	}
	return outs
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// feed has the terminal interpret seq to its end.
func (w *World) feed(st *State, seq Str) []Outcome { return w.feedText(st, Str{}, Lin{}, seq) }

// feedText delivers a run of printable text of n cells, then seq.
func (w *World) feedText(st *State, text Str, n Lin, seq Str) []Outcome {
	e := w.e
	id := e.newObjID()
	st.setObj(&Object{id: id, name: "input", val: Struct{[]Value{text, seq, Int{n}}}})
	fn := e.mustFunc("(*terminal).ptyReadOne")
	cur := []*State{st}
	var outs []Outcome
	for n := 0; len(cur) > 0; n++ {
		var next []*State
		for _, s := range cur {
			left, ok := s.obj(id).val.(Struct).f[1].(Str)
			if t, ok := s.obj(id).val.(Struct).f[0].(Str); ok && len(t.p) > 0 {
				left = strCat(t, left)
			}
			_, bad := s.tainted()
			if !ok || bad || n > 40 || len(left.p) == 0 || s.entailsEQ(e.strLen(s, left)) {
				if n > 40 {
					s.taint("input not consumed")
				}
				outs = append(outs, Outcome{st: s})
				continue
			}
			for _, o := range e.call(s, fn, []Value{Ptr{obj: w.term}, Ptr{obj: id}}, nil) {
				if _, isNil := o.val.(Nil); o.panic != "" || !isNil {
					outs = append(outs, o)
					continue
				}
				next = append(next, o.st)
			}
		}
		cur = next
	}
	return outs
}

// colourKinds are the kinds of colour; a digit is that bright colour.
var colourKinds = []string{"default", "256", "RGB", "0", "1", "2", "3", "4", "5", "6", "7"}

// mkStyle builds a style through the public setters.
func (w *World) mkStyle(st *State, fg, bg string, modes []string) (*State, Value, bool) {
	st, s := w.one(st, "NewStyle")
	for i, k := range []string{fg, bg} {
		comp := Int{linC(w.e.constOf(components[i]))}
		var op styleOp
		v := func(name string, max int64) Value {
			x := w.sym(components[i] + " " + name)
			w.e.syms[x.t[0].s].width = 8
			st.pushCon(x)
			st.pushCon(linC(max).sub(x))
			return Int{x}
		}
		switch k {
		case "default":
			continue
		case "256":
			op = styleOp{"SetColor256", []Value{comp, v("index", 255)}}
		default:
			op = styleOp{"SetColorBright", []Value{comp, Int{linC(int64(k[0] - '0'))}}}
		case "RGB":
			op = styleOp{"SetColorRGB", []Value{comp, v("red", 255), v("green", 255), v("blue", 255)}}
		}
		var ok bool
		if st, s, ok = w.applyStyle(st, s, op); !ok {
			return nil, nil, false
		}
	}
	if len(modes) > 0 {
		var ok bool
		if st, s, ok = w.applyStyle(st, s, styleOp{"SetMode", []Value{w.modeSlice(st, modes...)}}); !ok {
			return nil, nil, false
		}
	}
	return st, s, true
}

// styleScenario: the rendering of a style, interpreted under any earlier style, is that style.
func styleScenario(fg, bg string, sets [][]string, label string) *scenario {
	sc := &scenario{name: "Style.ANSIEscape", class: "style", noAlt: true, label: fmt.Sprintf("foreground %s, background %s, %s", fg, bg, label)}
	sc.direct = func(c *scnCtx) {
		w, e := c.w, c.w.e
		in := w.symbolic(initOpt{})
		for _, modes := range sets {
			st, s, ok := w.mkStyle(in.st.fork(), fg, bg, modes)
			if !ok {
				c.add("style", -1, "a setter splits")
				continue
			}
			for _, o := range e.call(st, e.mustFunc("(Style).ANSIEscape"), []Value{s}, nil) {
				if o.panic != "" {
					c.panicked(o)
					continue
				}
				text, ok := e.asBytes(o.st, o.val)
				if !ok {
					c.add("style", -1, "unknown rendering")
					continue
				}
				for _, x := range w.explode(o.st, text) {
					for _, f := range w.feed(x.st, x.s) {
						c.outs++
						if f.panic != "" {
							c.panicked(f)
							continue
						}
						c.proveV(f.st, w.get(f.st, w.scr[0], w.scrT, "style"), s, "style", fmt.Sprintf("the style set by interpreting %s, the rendering of a style with modes %v,", showStr(e, text), modes))
					}
				}
			}
		}
	}
	return sc
}

func modeSets(thorough bool) [][][]string {
	var groups [][][]string
	var cur [][]string
	for m := 0; m < 1<<13; m++ {
		var set []string
		for i := range modeNames {
			if m>>i&1 == 1 {
				set = append(set, modeNames[i])
			}
		}
		if n := len(set); thorough || n <= 2 || n >= 11 {
			cur = append(cur, set)
		}
		if len(cur) >= 64 {
			groups, cur = append(groups, cur), nil
		}
	}
	if len(cur) > 0 {
		groups = append(groups, cur)
	}
	return groups
}

func styleScenarios() []*scenario {
	var scs []*scenario
	for _, fg := range colourKinds {
		for _, bg := range colourKinds {
			sets := [][]string{nil, {"ModeBold"}, {"ModeFramed"}, {"ModeReverse", "ModeStrike"}, modeNames}
			scs = append(scs, styleScenario(fg, bg, sets, "five mode sets"))
		}
	}
	for i, g := range modeSets(thorough()) {
		scs = append(scs, styleScenario("default", "default", g, fmt.Sprintf("mode sets %d", i+1)))
		scs = append(scs, styleScenario("256", "RGB", g[:1], fmt.Sprintf("mode set {%s}", strings.Join(g[0], " "))))
	}
	return scs
}

// fromScenario: the rendering of the difference from an earlier style, interpreted under it, is the style.
func fromScenario(prev, fg string, before, modes []string, comp int) *scenario {
	sc := &scenario{name: "Style.ANSIEscapeFrom", class: "style", noAlt: true, label: fmt.Sprintf("%s colour after %s, modes %v after %v", fg, prev, modes, before)}
	sc.direct = func(c *scnCtx) {
		w, e := c.w, c.w.e
		in := w.symbolic(initOpt{})
		pick := func(k string) (string, string) {
			if comp == 0 {
				return k, "256"
			}
			return "256", k
		}
		a, b := pick(prev)
		st, old, ok1 := w.mkStyle(in.st.fork(), a, b, before)
		if !ok1 {
			c.add("style", -1, "a setter splits")
			return
		}
		a, b = pick(fg)
		st, s, ok2 := w.mkStyle(st, a, b, modes)
		if !ok2 {
			c.add("style", -1, "a setter splits")
			return
		}
		for _, o := range e.call(st, e.mustFunc("(Style).ANSIEscapeFrom"), []Value{s, old}, nil) {
			if o.panic != "" {
				c.panicked(o)
				continue
			}
			text, ok := e.asBytes(o.st, o.val)
			if _, isNil := o.val.(Nil); isNil {
				text, ok = Str{}, true
			}
			if !ok {
				c.add("style", -1, "unknown rendering")
				continue
			}
			for _, x := range w.explode(o.st, text) {
				w.set(x.st, w.scr[0], w.scrT, "style", old)
				for _, f := range w.feed(x.st, x.s) {
					c.outs++
					if f.panic != "" {
						c.panicked(f)
						continue
					}
					c.proveV(f.st, w.get(f.st, w.scr[0], w.scrT, "style"), s, "style", "the style after "+showStr(e, text)+", the rendering of a difference of styles that a row rendering depends on,")
				}
			}
		}
	}
	return sc
}

func fromScenarios() []*scenario {
	var scs []*scenario
	kinds := []string{"default", "256", "RGB", "3"}
	for _, p := range kinds {
		for _, k := range kinds {
			for comp := 0; comp < 2; comp++ {
				scs = append(scs, fromScenario(p, k, nil, nil, comp), fromScenario(p, k, []string{"ModeBold"}, []string{"ModeItalic"}, comp))
			}
		}
	}
	return scs
}
