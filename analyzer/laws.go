package main

import "fmt"

// laws.go decides algebraic laws of methods on arbitrary values.

// lawSet collects obligations that belong to no scenario.
type lawSet struct {
	w *World
	c *scnCtx
}

func newLaws(t *Target, name string) *lawSet {
	w := newWorld(t, 0, false)
	return &lawSet{w: w, c: &scnCtx{sc: &scenario{name: name}, w: w}}
}

// law proves a condition under a name.
func (l *lawSet) law(name string, st *State, cond Value, text string) {
	n := len(l.c.obls)
	b, ok := cond.(Bool)
	if !ok {
		l.c.add("", -1, "")
	} else {
		l.c.prove(st, b, "", func() string { return text })
	}
	for i := n; i < len(l.c.obls); i++ {
		l.c.obls[i].key = l.c.sc.name + "/" + name
	}
}

func (l *lawSet) equal(name string, st *State, got, want Value, what string) {
	g, w := st.normV(got), st.normV(want)
	l.law(name, st, l.w.e.equal(st, g, w), fmt.Sprintf("%s is %s, it must be %s", what, l.w.e.showVal(g), l.w.e.showVal(w)))
}

// fold adds the obligations to the report.
func (l *lawSet) fold(r *Report) { foldObls(r, l.c.obls, "laws") }

func foldObls(r *Report, obls []obligation, what string) int {
	decided := 0
	for _, o := range obls {
		switch o.verdict {
		case 1:
			r.ok(1)
			decided++
		case 0:
			r.violate(o.key, o.text)
			decided++
		default:
			r.Counts["obligations undecided"]++
		}
	}
	r.Counts[what+" decided"] += decided
	return decided
}

// guard runs f and turns a failure of the analysis into a note, an unresolved anchor into a
// violation.
func guard(r *Report, what string, f func()) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case anchorErr:
			r.undecided("a construct this property is anchored in is not found (" + what + "): " + p.what)
		default:
			r.Counts["scenarios given up"]++
			r.Notes = append(r.Notes, fmt.Sprintf("%s: %v", what, p))
		}
	}()
	f()
}

var modeNames = []string{"ModeBold", "ModeDim", "ModeItalic", "ModeUnderline", "ModeBlink", "ModeReverse", "ModeInvisible",
	"ModeStrike", "ModeOverline", "ModeDoubleUnderline", "ModeFramed", "ModeEncircled", "ModeRapidBlink"}

// obs is everything the observers report about a style.
type styleObs struct {
	modes [13]Value
	val   [3]Value
	rgb   [3]Value
}

var components = []string{"ComponentFG", "ComponentBG", "ComponentUnderline"}

func (w *World) one(st *State, fn string, args ...Value) (*State, Value) {
	outs := w.e.call(st, w.e.mustFunc(fn), args, nil)
	if len(outs) != 1 {
		panic(fmt.Sprintf("%s has %d outcomes", fn, len(outs)))
	}
	if outs[0].panic != "" {
		panic(fn + " panics: " + outs[0].panic)
	}
	return outs[0].st, outs[0].val
}

func (w *World) observe(st *State, style Value) (*State, styleObs) {
	var o styleObs
	id := st.alloc(w.e.typeNamed("Style"), style)
	for i, m := range modeNames {
		st, o.modes[i] = w.one(st, "(*Style).TestMode", Ptr{obj: id}, Int{linC(w.e.constOf(m))})
	}
	for i, c := range components {
		// the type of a colour is decided by its bits: split them away by merging outcomes
		outs := w.e.call(st, w.e.mustFunc("(*Style).GetColor"), []Value{Ptr{obj: id}, Int{linC(w.e.constOf(c))}}, nil)
		if len(outs) == 1 {
			t := outs[0].val.(Struct)
			st, o.val[i], o.rgb[i] = outs[0].st, t.f[0], t.f[1]
		}
	}
	return st, o
}

func styleLaws(t *Target, r *Report) {
	type setter struct {
		name string
		comp int // component changed; -1: none, 3: all
		mode int // mode changed; -1: none, 13: all
		on   bool
		op   func(l *lawSet, st *State) (styleOp, func(o styleObs) (val, rgb Value))
	}
	var ss []setter
	for i, m := range modeNames {
		for _, on := range []bool{true, false} {
			fn := "ResetMode"
			if on {
				fn = "SetMode"
			}
			m := m
			ss = append(ss, setter{fn + "(" + m + ")", -1, i, on, func(l *lawSet, st *State) (styleOp, func(styleObs) (Value, Value)) {
				return styleOp{fn, []Value{l.w.modeSlice(st, m)}}, nil
			}})
		}
	}
	bounded := func(l *lawSet, st *State, name string, max int64) Lin {
		v := l.w.sym(name)
		l.w.e.syms[v.t[0].s].width = 8
		st.pushCon(v)
		st.pushCon(linC(max).sub(v))
		return v
	}
	for ci, c := range components {
		c := c
		cv := func(l *lawSet) Value { return Int{linC(l.w.e.constOf(c))} }
		ss = append(ss,
			setter{"SetColor256(" + c + ")", ci, -1, false, func(l *lawSet, st *State) (styleOp, func(styleObs) (Value, Value)) {
				n := bounded(l, st, "index", 255)
				return styleOp{"SetColor256", []Value{cv(l), Int{n}}}, func(styleObs) (Value, Value) { return Int{n}, bFalse }
			}},
			setter{"SetColorRGB(" + c + ")", ci, -1, false, func(l *lawSet, st *State) (styleOp, func(styleObs) (Value, Value)) {
				cr, g, b := bounded(l, st, "red", 255), bounded(l, st, "green", 255), bounded(l, st, "blue", 255)
				return styleOp{"SetColorRGB", []Value{cv(l), Int{cr}, Int{g}, Int{b}}}, func(styleObs) (Value, Value) {
					return Int{cr.scale(65536).add(g.scale(256)).add(b)}, bTrue
				}
			}},
			setter{"SetColorBright(" + c + ")", ci, -1, false, func(l *lawSet, st *State) (styleOp, func(styleObs) (Value, Value)) {
				n := bounded(l, st, "index", 7)
				return styleOp{"SetColorBright", []Value{cv(l), Int{n}}}, func(styleObs) (Value, Value) { return nil, bFalse }
			}},
			setter{"SetColorDefault(" + c + ")", ci, -1, false, func(l *lawSet, st *State) (styleOp, func(styleObs) (Value, Value)) {
				return styleOp{"SetColorDefault", []Value{cv(l)}}, func(styleObs) (Value, Value) { return nil, bFalse }
			}},
		)
	}
	for _, s := range ss {
		s := s
		guard(r, s.name, func() {
			l := newLaws(t, s.name)
			in := l.w.symbolic(initOpt{})
			st := in.st
			style := in.s[0].style
			// known colour kinds, so that the observers do not split
			st, before := l.w.observe(st, style)
			op, res := s.op(l, st)
			st, style2, ok := l.w.applyStyle(st, style, op)
			if !ok {
				panic("more than one outcome")
			}
			st, after := l.w.observe(st, style2)
			for i, m := range modeNames {
				want := before.modes[i]
				if i == s.mode {
					want = boolC(s.on)
				}
				l.equal("TestMode", st, after.modes[i], want, "TestMode("+m+") after "+s.name)
			}
			for i, c := range components {
				if i == s.comp {
					v, rgb := res(before)
					if v != nil && after.val[i] != nil {
						l.equal("GetColor", st, after.val[i], v, "the value of GetColor("+c+") after "+s.name)
					}
					if after.rgb[i] != nil {
						l.equal("GetColor", st, after.rgb[i], rgb, "the kind reported by GetColor("+c+") after "+s.name)
					}
					continue
				}
				if after.val[i] != nil && before.val[i] != nil {
					l.equal("GetColor", st, after.val[i], before.val[i], "the value of GetColor("+c+") after "+s.name)
					l.equal("GetColor", st, after.rgb[i], before.rgb[i], "the kind reported by GetColor("+c+") after "+s.name)
				}
			}
			// a setter applied twice changes nothing more
			_, style3, ok := l.w.applyStyle(st, style2, op)
			if ok {
				l.equal("idempotent", st, style3, style2, "the style after "+s.name+" twice")
			}
			l.fold(r)
		})
	}
	// the last colour wins and different colours are different styles
	kinds := []string{"SetColorDefault", "SetColor256", "SetColorBright", "SetColorRGB"}
	args := func(l *lawSet, st *State, c, k, tag string) ([]Value, []Lin) {
		a := []Value{Int{linC(l.w.e.constOf(c))}}
		var v []Lin
		n, max := map[string]int{"SetColor256": 1, "SetColorBright": 1, "SetColorRGB": 3}[k], int64(255)
		if k == "SetColorBright" {
			max = 7
		}
		for i := 0; i < n; i++ {
			x := bounded(l, st, fmt.Sprint(tag, i), max)
			v = append(v, x)
			a = append(a, Int{x})
		}
		return a, v
	}
	for _, c := range components[:2] {
		for i, k1 := range kinds {
			for j, k2 := range kinds {
				c, k1, k2, i, j := c, k1, k2, i, j
				guard(r, k1+" then "+k2, func() {
					l := newLaws(t, fmt.Sprintf("%s then %s (%s)", k1, k2, c))
					in := l.w.symbolic(initOpt{})
					st, style := in.st, in.s[0].style
					a1, v1 := args(l, st, c, k1, "a")
					a2, v2 := args(l, st, c, k2, "b")
					st, s1, ok1 := l.w.applyStyle(st, style, styleOp{k1, a1})
					if !ok1 {
						panic("more than one outcome")
					}
					st, s12, ok2 := l.w.applyStyle(st, s1, styleOp{k2, a2})
					if !ok2 {
						panic("more than one outcome")
					}
					st, s2, ok3 := l.w.applyStyle(st, style, styleOp{k2, a2})
					if !ok3 {
						panic("more than one outcome")
					}
					l.equal("last colour wins", st, s12, s2, "the style")
					eq, ok := l.w.e.equal(st, st.normV(s1), st.normV(s2)).(Bool)
					if ok && i != j {
						l.law("kinds are distinct", st, eq.not(), fmt.Sprintf("%s and %s give equal styles: %s", k1, k2, l.w.e.showVal(s1)))
					} else if ok && len(v1) > 0 {
						same := bTrue
						for k := range v1 {
							same = condAll(same, l.w.e.eqInt(st, v1[k], v2[k]))
						}
						for _, s := range st.fork().assume(same.not()) {
							if eq, ok := l.w.e.equal(s, s.normV(s1), s.normV(s2)).(Bool); ok {
								l.law("values are distinct", s, eq.not(), k1+" with different values gives equal styles")
							}
						}
					}
					l.fold(r)
				})
			}
		}
	}
	guard(r, "ResetAll", func() {
		l := newLaws(t, "ResetAll")
		in := l.w.symbolic(initOpt{})
		st, v := l.w.one(in.st, "NewStyle")
		st, s, ok := l.w.applyStyle(st, in.s[0].style, styleOp{"ResetAll", nil})
		if ok {
			l.equal("is the default style", st, s, v, "the style after ResetAll")
		}
		st, o := l.w.observe(st, v)
		for i, m := range modeNames {
			l.equal("TestMode", st, o.modes[i], bFalse, "TestMode("+m+") of the default style")
		}
		id := st.alloc(l.w.e.typeNamed("Style"), v)
		for _, c := range components {
			p := st.fork()
			_, err := l.w.one(p, "(*Style).SetColorDefault", Ptr{obj: id}, Int{linC(l.w.e.constOf(c))})
			_ = err
			l.equal("colours are default", p, p.obj(id).val, v, "the default style after SetColorDefault("+c+")")
		}
		l.fold(r)
	})
}
