package main

// resize.go: Resize(w, h) keeps the overlap of old and new screen and leaves a valid state.

func resizeScenarios() []*scenario {
	var scs []*scenario
	for i := 0; i < 2; i++ {
		scs = append(scs, resizeScenario(i))
	}
	sz := &scenario{name: "Size", class: "resize"}
	sz.run = func(w *World, in *Init) []Outcome { return w.method(in, "Size") }
	sz.spec = func(x *Exp) []*Exp {
		if v, ok := x.val.(Struct); ok && len(v.f) == 2 {
			a, ok1 := v.f[0].(Int)
			b, ok2 := v.f[1].(Int)
			if ok1 && ok2 {
				x.must = []claim{{condAll(condEQ(a.Lin, x.cur().W), condEQ(b.Lin, x.cur().H)), "Size does not report the size of the screen"}}
				return just(x)
			}
		}
		return just(x)
	}
	return append(scs, sz)
}

// resizeScenario: one screen is arbitrary, the other at rest.
func resizeScenario(i int) *scenario { return resizeTo(i, nil) }

// resizeTo is a resize to the given size, or to any.
func resizeTo(i int, to *[2]int64) *scenario {
	sc := &scenario{name: "Resize of the " + []string{"main", "alternate"}[i] + " screen", class: "resize", opt: initOpt{still: 2 - i}}
	sc.run = func(w *World, in *Init) []Outcome {
		nw, nh := w.sym("newW"), w.sym("newH")
		if to != nil {
			nw, nh = linC(to[0]), linC(to[1])
		}
		for _, l := range []Lin{nw, nh} {
			in.st.pushCon(l.plus(-1))
			in.st.pushCon(linC(1 << 20).sub(l))
		}
		in.args = []Lin{nw, nh}
		w.e.backend = func(e *Engine, st *State, method string, args []Value) ([]Outcome, bool) {
			if method == "SetSize" && len(args) == 2 {
				if old, ok := st.ghost["SetSize"]; ok {
					args = append(append([]Value{}, old.(Struct).f...), args...)
				}
				st.ghost["SetSize"] = Struct{args}
			}
			return nil, false
		}
		return w.method(in, "Resize", Int{nw}, Int{nh})
	}
	sc.spec = func(x *Exp) []*Exp {
		W, H := x.in.args[0], x.in.args[1]
		sent, _ := x.st.ghost["SetSize"].(Struct)
		x.fail = "Resize does not forward the size to the backend exactly once"
		if len(sent.f) == 2 {
			a, ok1 := sent.f[0].(Int)
			b, ok2 := sent.f[1].(Int)
			x.fail = ""
			if ok1 && ok2 {
				x.must = []claim{{condAll(condEQ(a.Lin, W), condEQ(b.Lin, H)), "Resize forwards a size other than (w, h) to the backend"}}
			}
		}
		xs := []*Exp{x}
		for i := 0; i < 2; i++ {
			i := i
			var next []*Exp
			for _, x := range xs {
				old := x.s[i]
				x.s[i].W, x.s[i].H = W, H
				style := old.style
				x.cell[i] = func(st *State, r, c Lin) []cellOut {
					var outs []cellOut
					in, out := x.w.e.branch(st, condAll(condLT(r, old.H), condLT(c, old.W)))
					for _, s := range in {
						outs = append(outs, x.before(i, s, r, c)...)
					}
					for _, s := range out {
						outs = append(outs, cellOut{s, blankCell(style)})
					}
					return outs
				}
				// a region that was the whole screen stays the whole screen; any other must be valid
				whole := condAll(condEQ(old.top, Lin{}), condEQ(old.bot, old.H.plus(-1)))
				ys := x.on(whole, func(x *Exp) []*Exp { x.s[i].top, x.s[i].bot = Lin{}, H.plus(-1); return just(x) }, func(x *Exp) []*Exp {
					x.anyRegion[i] = true
					return just(x)
				})
				for _, y := range ys {
					next = append(next, y.resized(i, old)...)
				}
			}
			xs = next
		}
		return xs
	}
	return sc
}

// resized brings the cursor and the saved cursor inside the new screen.
func (x *Exp) resized(i int, old Scr) []*Exp {
	W, H := x.s[i].W.plus(-1), x.s[i].H.plus(-1)
	type set func(s *Scr, v Lin)
	xs := []*Exp{x}
	for _, f := range []struct {
		v, hi Lin
		set   set
	}{
		{old.cx, W, func(s *Scr, v Lin) { s.cx = v }}, {old.cy, H, func(s *Scr, v Lin) { s.cy = v }},
		{old.sx, W, func(s *Scr, v Lin) { s.sx = v }}, {old.sy, H, func(s *Scr, v Lin) { s.sy = v }},
	} {
		var next []*Exp
		for _, x := range xs {
			next = append(next, minLin(x, f.v, f.hi, func(x *Exp, m Lin) []*Exp { f.set(&x.s[i], m); return just(x) })...)
		}
		xs = next
	}
	return xs
}
