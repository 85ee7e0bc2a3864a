package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mirror.go decides TTYFrontend: it is driven through its public methods with an arbitrary inner
// terminal; everything it writes is interpreted as a terminal would.

type mirror struct {
	c      *scnCtx
	m      *marker
	W, H   Lin
	shape  string
	term   Value
	recs   []inner
	tty    Ptr
	region [4]Lin // the attached region
	cx, cy Lin
	show   Bool
}

// inner is a part of the inner screen that has been read.
type inner struct {
	x, y, w Lin
	list    []Struct
}

// reaches says which functions lead to an interface call of the method.
func reaches(t *Target, method string) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, fn := range t.Funcs {
			if out[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if c.Common().IsInvoke() && c.Common().Method.Name() == method || c.Common().StaticCallee() != nil && out[c.Common().StaticCallee()] {
						out[fn], changed = true, true
					}
				}
			}
		}
	}
	return out
}

func (r *mirror) region4(v [4]Lin) Value {
	e := r.c.w.e
	rt := e.typeNamed("Region")
	f := append([]Value{}, e.zero(rt).(Struct).f...)
	for i, n := range []string{"X", "Y", "X2", "Y2"} {
		f[mustField(rt, n)] = Int{v[i]}
	}
	return Struct{f}
}

// start makes the frontend: a fresh one on a terminal of any width and up to three rows.
func startMirror(c *scnCtx, st *State, shape string, rows int64) (*mirror, []*State) {
	w, e := c.w, c.w.e
	e.realRows = true
	r := &mirror{c: c, m: markStyles(w), shape: shape}
	if deep := reaches(e.t, "StyledLine"); len(deep) > 0 {
		e.unrollFn = func(fn *ssa.Function) bool { return deep[fn] }
	}
	r.W, r.H = w.sym("width"), w.sym("height")
	for _, l := range []Lin{r.W.plus(-1), linC(1 << 20).sub(r.W), r.H.plus(-1), linC(rows).sub(r.H)} {
		st.pushCon(l)
	}
	r.term = nativeIface("terminal", 0)
	st.ghost["op"] = Int{Lin{}}
	e.nat["terminal"] = func(e *Engine, st *State, n Native, method string, args []Value) []Outcome {
		switch method {
		case "Size":
			return one(st, Struct{[]Value{Int{r.W}, Int{r.H}}})
		case "WithLock":
			if f, ok := args[0].(Func); ok {
				return e.callValue(st, f, nil)
			}
		case "Lock", "Unlock":
			return []Outcome{{st: st}}
		case "StyledLine":
			x, ok1 := args[0].(Int)
			wd, ok2 := args[1].(Int)
			y, ok3 := args[2].(Int)
			if ok1 && ok2 && ok3 {
				return r.styled(st, x.Lin, wd.Lin, y.Lin)
			}
		}
		st.taint("terminal." + method)
		return one(st, Unknown{"terminal." + method})
	}
	e.nat["tty"] = func(e *Engine, st *State, n Native, method string, args []Value) []Outcome {
		s, ok := Str{}, false
		if method == "Write" || method == "WriteString" {
			s, ok = e.asBytes(st, args[0])
		}
		if !ok {
			st.taint("tty." + method)
			return one(st, Unknown{"tty." + method})
		}
		k := "tty" + fmt.Sprint(ghostInt(st, "op").c)
		old, _ := st.ghost[k].(Str)
		st.ghost[k] = strCat(old, s)
		return one(st, Struct{[]Value{Int{e.strLen(st, s)}, Nil{}}})
	}
	var states []*State
	for _, o := range e.call(st, e.mustFunc("NewTTYFrontend"), []Value{r.term, nativeIface("tty", 0)}, nil) {
		p, ok := o.val.(Ptr)
		if o.panic != "" || !ok {
			panic(anchorErr{"NewTTYFrontend's result"})
		}
		r.tty = p
		states = append(states, o.st)
	}
	r.show = bTrue
	return r, states
}

// styled is StyledLine of the inner terminal inside the screen.
func (r *mirror) styled(st *State, x, w, y Lin) []Outcome {
	e := r.c.w.e
	ok, out := e.branch(st, condAll(condGE(x, Lin{}), condGT(r.W, x), condGT(w, Lin{}), condGE(y, Lin{}), condGT(r.H, y)))
	var outs []Outcome
	for _, s := range out {
		s.taint("StyledLine outside the screen")
		outs = append(outs, one(s, Unknown{"StyledLine"})...)
	}
	fits, beyond := e.branches(ok, condGE(r.W, x.add(w)))
	in := fits
	for _, s := range beyond {
		outs = append(outs, r.styled(s, x, r.W.sub(x), y)...)
	}
	for _, s := range in {
		g := &rowGen{w: r.c.w, st: s, texts: 100 * len(r.recs)}
		list, line, width := g.row(r.shape, 0)
		if !s.addEQ(width.sub(w)) {
			continue
		}
		ln := s.obj(line).val.(Struct)
		lt := e.typeNamed("Line")
		f := append([]Value{}, e.zero(lt).(Struct).f...)
		f[mustField(lt, "Spans")] = ln.f[e.lay().lnSpans]
		f[mustField(lt, "Width")] = Int{w}
		k := len(r.recs)
		r.recs = append(r.recs, inner{x, y, w, list})
		prev, _ := s.ghost["recs"].(Struct)
		s.ghost["recs"] = Struct{append(append([]Value{}, prev.f...), Int{linC(int64(k))})}
		outs = append(outs, one(s, Struct{f})...)
	}
	return outs
}

// call invokes a method of the frontend as the next step.
func (r *mirror) call(states []*State, name string, args ...Value) []*State {
	e := r.c.w.e
	var out []*State
	for _, st := range states {
		st = st.fork()
		st.ghost["op"] = Int{ghostInt(st, "op").plus(1)}
		for _, o := range e.call(st, e.mustFunc("(*TTYFrontend)."+name), append([]Value{r.tty}, args...), nil) {
			if o.panic != "" {
				r.c.panicked(o)
				continue
			}
			if why, bad := o.st.tainted(); bad {
				r.c.add("content", -1, why)
				continue
			}
			r.c.add("panic", 1, "")
			out = append(out, o.st)
		}
	}
	return out
}

// branches splits several states.
func (e *Engine) branches(sts []*State, c Bool) (yes, no []*State) {
	for _, s := range sts {
		y, n := e.branch(s, c)
		yes, no = append(yes, y...), append(no, n...)
	}
	return
}

func (r *mirror) anyRegion(name string) (v [4]Lin) {
	for i, n := range []string{"X", "Y", "X2", "Y2"} {
		v[i] = r.c.w.sym(name + "." + n)
	}
	return v
}

func (r *mirror) text(st *State, op int64) Str {
	s, _ := st.ghost["tty"+fmt.Sprint(op)].(Str)
	return s
}

// silent: the last step has written nothing but possibly a show-cursor.
func (r *mirror) silent(states []*State, what string) {
	for _, st := range states {
		r.c.outs++
		s := r.text(st, ghostInt(st, "op").c)
		t, _ := s.constVal()
		r.c.prove(st, boolC(len(s.p) == 0 || t == "\x1b[?25h"), "out", func() string {
			return what + " writes " + showStr(r.c.w.e, s)
		})
	}
}

// observe interprets everything written so far; the runs are those of the last step.
func (r *mirror) observe(st *State) (*outer, bool) {
	_, plain := r.c.w.one(r.c.w.base.fork(), "NewStyle")
	t := &outer{style: plain, at: true, vis: 1, wrap: true}
	for op := int64(0); op <= ghostInt(st, "op").c; op++ {
		t.runs, t.open, t.froms, t.cmds = nil, false, nil, 0
		if !r.m.interpret(st, t, r.text(st, op)) {
			return t, false
		}
	}
	return t, true
}

// mirrored: the last step has painted all of need that lies on the attached part of the screen, and
// nothing but what is there.
func (r *mirror) mirrored(states []*State, need [][4]Lin, what string) {
	c, e := r.c, r.c.w.e
	for _, st := range states {
		c.outs++
		if _, bad := st.tainted(); bad {
			c.add("content", -1, "")
			continue
		}
		t, ok := r.observe(st)
		if !ok {
			c.add("content", -1, "output not understood: "+showStr(e, r.text(st, ghostInt(st, "op").c)))
			continue
		}
		for _, f := range t.froms {
			c.proveV(st, f[1], f[0], "content", "the style in force where only a difference of styles is sent")
		}
		for k, run := range t.runs {
			r.paintedRight(st, k, len(t.runs), run, what)
		}
		// every cell that is needed is painted
		px, py := c.w.sym("column"), c.w.sym("row")
		s := st.fork()
		in := []Bool{condGE(px, Lin{}), condGE(py, Lin{}), condGT(r.W, px), condGT(r.H, py)}
		for _, v := range append(need, r.region) {
			in = append(in, condGE(px, v[0]), condGE(py, v[1]), condGT(v[2], px), condGT(v[3], py))
		}
		left := s.assume(condAll(in...))
		for _, run := range t.runs {
			var next []*State
			for _, x := range left {
				_, no := e.branch(x, condAll(condEQ(py, run.y), condGE(px, run.x), condGT(run.x.add(run.width), px)))
				next = append(next, no...)
			}
			left = next
		}
		if len(left) == 0 {
			c.add("content", 1, "")
		}
		for _, x := range left {
			c.prove(x, bFalse, "content", func() string {
				return fmt.Sprintf("%s leaves a changed cell of the region unpainted; it writes %s", what, showStr(e, r.text(st, ghostInt(st, "op").c)))
			})
		}
	}
}

func (r *mirror) paintedRight(st *State, k, n int, run painted, what string) {
	c, e := r.c, r.c.w.e
	where := fmt.Sprintf("%s paints %s cells at column %s of row %s", what, st.norm(run.width).str(e.symName), st.norm(run.x).str(e.symName), st.norm(run.y).str(e.symName))
	end := run.x.add(run.width)
	c.prove(st, condAll(condGE(run.x, r.region[0]), condGE(run.y, r.region[1]), condGE(r.region[2], end), condGT(r.region[3], run.y)), "content", func() string {
		return where + ", outside the attached region"
	})
	c.prove(st, condAll(condGE(run.x, Lin{}), condGE(run.y, Lin{}), condGE(r.W, end), condGT(r.H, run.y)), "content", func() string {
		return where + ", outside the screen"
	})
	if run.wrap {
		c.prove(st, condAny(condGT(r.W, end), condGT(r.H.plus(-1), run.y)), "content", func() string {
			return where + " with wrapping enabled: the last cell of the screen scrolls it"
		})
	}
	ids, _ := st.ghost["recs"].(Struct)
	var recs []inner
	for _, v := range ids.f {
		recs = append(recs, r.recs[v.(Int).c])
	}
	if len(recs) < n {
		c.add("content", -1, "painted from elsewhere")
		return
	}
	recs = recs[len(recs)-n:]
	rec := recs[k]
	for _, x := range recs {
		if st.entailsEQ(x.y.sub(run.y)) && st.entailsGE(run.x.sub(x.x)) && st.entailsGE(x.x.add(x.w).sub(end)) {
			rec = x
		}
	}
	if !c.prove(st, condAll(condEQ(rec.y, run.y), condGE(run.x, rec.x), condGE(rec.x.add(rec.w), end)), "content", func() string {
		return fmt.Sprintf("%s from what is at column %s of row %s", where, st.norm(rec.x).str(e.symName), st.norm(rec.y).str(e.symName))
	}) {
		return
	}
	c.cellsAre(st, run.spans, []stretch{{run.width, func(s *State, at Lin) []cellOut {
		return e.spanCells(s, rec.list, run.x.sub(rec.x).add(at), 0)
	}}}, "content")
}

// cursor: the outer cursor is where the inner one is if that is shown and inside, else hidden.
func (r *mirror) cursor(states []*State, what string) {
	c, e := r.c, r.c.w.e
	for _, st := range states {
		if _, bad := st.tainted(); bad {
			c.add("cursor", -1, "")
			continue
		}
		t, ok := r.observe(st)
		if !ok {
			c.add("cursor", -1, "output not understood")
			continue
		}
		inside := condAll(r.show, condGE(r.cx, r.region[0]), condGE(r.cy, r.region[1]), condGT(r.region[2], r.cx), condGT(r.region[3], r.cy))
		yes, no := e.branch(st, inside)
		for _, s := range no {
			c.prove(s, boolC(t.vis == 0), "cursor", func() string {
				return what + " leaves the cursor shown though it is hidden or outside the region"
			})
		}
		for _, s := range yes {
			c.prove(s, boolC(t.vis == 1), "cursor", func() string { return what + " leaves the cursor hidden though it is shown and inside the region" })
			c.prove(s, boolC(t.at), "cursor", func() string { return what + " leaves the cursor at an unknown place" })
			c.prove(s, condAll(condEQ(t.x, r.cx), condEQ(t.y, r.cy)), "cursor", func() string {
				return fmt.Sprintf("%s leaves the cursor at %s,%s, it must be at %s,%s", what, s.norm(t.x).str(e.symName), s.norm(t.y).str(e.symName), s.norm(r.cx).str(e.symName), s.norm(r.cy).str(e.symName))
			})
		}
	}
}

// onlyShow: the last step has written nothing but a show-cursor.
func (r *mirror) onlyShow(states []*State, what string) {
	for _, st := range states {
		s := r.text(st, ghostInt(st, "op").c)
		eq, ok := r.c.w.e.strEqual(st, s, strC("\x1b[?25h")).(Bool)
		if !ok {
			r.c.add("out", -1, "")
			continue
		}
		r.c.prove(st, eq, "out", func() string { return what + " writes " + showStr(r.c.w.e, s) })
	}
}

// steps of a history: A attach, D detach, C cursor moved, V cursor visibility, R region changed,
// F focus, B blur, o other callbacks, T another terminal set.
func mirrorScenario(steps, shape string, inside bool, rows int64) *scenario {
	names := map[byte]string{'A': "Attach", 'D': "Detach", 'C': "CursorMoved", 'V': "ViewFlagChanged", 'R': "RegionChanged", 'F': "SetFocus(true)", 'B': "SetFocus(false)", 'o': "other callbacks", 'T': "SetTerminal"}
	var hist []string
	for i := range steps {
		hist = append(hist, names[steps[i]])
	}
	sc := &scenario{name: "TTYFrontend", class: "mirror", noAlt: true, label: fmt.Sprintf("%s; rows of %s, up to %d, any regions", strings.Join(hist, ", "), shape, rows)}
	if inside {
		sc.label = strings.TrimSuffix(sc.label, "any regions") + "regions on the screen"
	}
	sc.direct = func(c *scnCtx) {
		w, e := c.w, c.w.e
		r, states := startMirror(c, w.base.fork(), shape, rows)
		focused, attached := true, false
		step := func(name string, args ...Value) { states = r.call(states, name, args...) }
		for i := range steps {
			last := i == len(steps)-1
			what := names[steps[i]]
			switch steps[i] {
			case 'A':
				r.region = r.anyRegion("attached")
				for _, s := range states {
					r.constrain(s, r.region, inside)
				}
				step("Attach", r.region4(r.region))
				attached = true
				r.mirrored(states, nil, what)
			case 'D':
				step("Detach")
				attached = false
				r.onlyShow(states, what)
			case 'C':
				x, y := w.sym("cursor x"), w.sym("cursor y")
				for _, s := range states {
					for _, l := range []Lin{x, y, r.W.plus(-1).sub(x), r.H.plus(-1).sub(y)} {
						s.pushCon(l)
					}
				}
				r.cx, r.cy = x, y
				step("CursorMoved", Int{x}, Int{y})
			case 'V':
				b := w.sym("cursor shown")
				for _, s := range states {
					s.pushCon(b)
					s.pushCon(linC(1).sub(b))
				}
				r.show = condEQ(b, linC(1))
				var next []*State
				for _, s := range states {
					yes, no := e.branch(s, r.show)
					next = append(next, r.call(yes, "ViewFlagChanged", Int{linC(e.constOf("VFShowCursor"))}, bTrue)...)
					next = append(next, r.call(no, "ViewFlagChanged", Int{linC(e.constOf("VFShowCursor"))}, bFalse)...)
				}
				states = next
			case 'R':
				reg := r.anyRegion("changed")
				for _, s := range states {
					r.constrain(s, reg, inside && strings.Count(steps[:i], "R") > 0 || len(steps) > 2)
				}
				why := w.sym("reason")
				step("RegionChanged", r.region4(reg), Int{why})
				if attached {
					r.mirrored(states, [][4]Lin{reg}, what)
				}
			case 'F':
				step("SetFocus", bTrue)
				focused = true
			case 'B':
				step("SetFocus", bFalse)
				focused = false
			case 'T':
				step("SetTerminal", r.term)
			case 'o':
				for _, cb := range []struct {
					name string
					args []Value
				}{{"Bell", nil}, {"ScrollLines", []Value{Int{w.sym("lines")}}}, {"StyleChanged", []Value{w.symStyle(states[0], "new style")}}} {
					if step(cb.name, cb.args...); !attached {
						r.silent(states, cb.name+" while detached")
					}
				}
				for _, f := range []string{"VFBlinkCursor", "VFReportFocus", "VFBracketedPaste"} {
					step("ViewFlagChanged", Int{linC(e.constOf(f))}, bTrue)
					step("ViewFlagChanged", Int{linC(e.constOf(f))}, bFalse)
				}
			}
			if len(states) == 0 {
				return
			}
			if steps[i] != 'D' && !attached && steps[i] != 'B' {
				r.silent(states, what+" while detached")
			}
			if attached && focused && (last || steps[i] != 'T') {
				r.cursor(states, what)
			}
		}
	}
	return sc
}

func (r *mirror) constrain(s *State, v [4]Lin, inside bool) {
	if inside {
		for _, l := range []Lin{v[0], v[1], r.W.sub(v[2]), r.H.sub(v[3]), v[2].sub(v[0]).plus(-1), v[3].sub(v[1]).plus(-1)} {
			s.pushCon(l)
		}
		return
	}
	for i := range v {
		s.pushCon(v[i].plus(1 << 20))
		s.pushCon(linC(1 << 20).sub(v[i]))
	}
}

func mirrorScenarios() []*scenario {
	var scs []*scenario
	for _, h := range []string{"A", "CA", "VA", "AC", "AV", "AD", "DR", "RC", "VF", "o", "TA"} {
		scs = append(scs, mirrorScenario(h, "a", false, 3))
	}
	scs = append(scs, mirrorScenario("AR", "a", false, 1), mirrorScenario("AR", "a", true, 3))
	for _, h := range []string{"CAR", "VAR", "ARR", "ARC", "AVC", "ACR", "ADR", "ADC", "ADV", "ADF", "ADo", "Ao", "ADA", "CADVA", "AA", "AB", "ABF", "ACBCF", "ATR"} {
		scs = append(scs, mirrorScenario(h, "a", true, 2))
	}
	for _, s := range []string{"b", "w", "r", "m", "ra", "an", "aw", "rwa"} {
		scs = append(scs, mirrorScenario("AR", s, true, 2))
	}
	return scs
}
