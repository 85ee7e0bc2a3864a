package main

import (
	"fmt"
	"strings"
)

// sgr.go: the rendition is the fold of the SGR parameters. The expectation is built with the
// package's own Style setters, so it does not depend on how a Style is represented; styleLaws
// separately decides what the setters and observers do.

// styleOp is one setter call on the style.
type styleOp struct {
	fn   string
	args []Value
}

type sgrParam struct {
	name string
	put  func(w *World, in *Init) Str
	ops  func(w *World, in *Init, k int) []styleOp
}

func (w *World) modeSlice(st *State, modes ...string) Value {
	els := make([]Value, len(modes))
	for i, m := range modes {
		els[i] = Int{linC(w.e.constOf(m))}
	}
	id := st.alloc(nil, Arr{els})
	n := linC(int64(len(els)))
	return Slice{obj: id, len: n, cap: n}
}

// applyStyle runs a setter on a style value; ok is false when it does not have one outcome.
func (w *World) applyStyle(st *State, style Value, op styleOp) (*State, Value, bool) {
	e := w.e
	id := st.alloc(e.typeNamed("Style"), style)
	outs := e.call(st, e.mustFunc("(*Style)."+op.fn), append([]Value{Ptr{obj: id}}, op.args...), nil)
	if len(outs) != 1 || outs[0].panic != "" {
		return nil, nil, false
	}
	return outs[0].st, outs[0].st.obj(id).val, true
}

func setModes(modes ...string) func(w *World, in *Init, k int) []styleOp {
	return func(w *World, in *Init, k int) []styleOp {
		return []styleOp{{"SetMode", []Value{w.modeSlice(in.st, modes...)}}}
	}
}

func resetModes(modes ...string) func(w *World, in *Init, k int) []styleOp {
	return func(w *World, in *Init, k int) []styleOp {
		return []styleOp{{"ResetMode", []Value{w.modeSlice(in.st, modes...)}}}
	}
}

func color(fn, comp string, v ...int64) func(w *World, in *Init, k int) []styleOp {
	return func(w *World, in *Init, k int) []styleOp {
		args := []Value{Int{linC(w.e.constOf(comp))}}
		for _, x := range v {
			args = append(args, Int{linC(x)})
		}
		return []styleOp{{fn, args}}
	}
}

func noOps(w *World, in *Init, k int) []styleOp { return nil }

// sgrEffect is the meaning of a constant SGR parameter; nil: not specified here.
func sgrEffect(p int64) func(w *World, in *Init, k int) []styleOp {
	fg, bg := "ComponentFG", "ComponentBG"
	switch {
	case p == 0:
		return func(w *World, in *Init, k int) []styleOp { return []styleOp{{"ResetAll", nil}} }
	case p >= 30 && p <= 37:
		return color("SetColor256", fg, p-30)
	case p >= 40 && p <= 47:
		return color("SetColor256", bg, p-40)
	case p >= 90 && p <= 97:
		return color("SetColorBright", fg, p-90)
	case p >= 100 && p <= 107:
		return color("SetColorBright", bg, p-100)
	case p == 39:
		return color("SetColorDefault", fg)
	case p == 49:
		return color("SetColorDefault", bg)
	case p == 38 || p == 48 || p == 58 || p == 59:
		return nil
	}
	set := map[int64]string{1: "ModeBold", 2: "ModeDim", 3: "ModeItalic", 4: "ModeUnderline", 5: "ModeBlink", 6: "ModeRapidBlink",
		7: "ModeReverse", 8: "ModeInvisible", 9: "ModeStrike", 21: "ModeDoubleUnderline", 51: "ModeFramed", 52: "ModeEncircled", 53: "ModeOverline"}
	if m, ok := set[p]; ok {
		return setModes(m)
	}
	reset := map[int64][]string{22: {"ModeBold", "ModeDim"}, 23: {"ModeItalic"}, 24: {"ModeUnderline", "ModeDoubleUnderline"},
		25: {"ModeBlink", "ModeRapidBlink"}, 27: {"ModeReverse"}, 28: {"ModeInvisible"}, 29: {"ModeStrike"},
		54: {"ModeFramed", "ModeEncircled"}, 55: {"ModeOverline"}}
	if m, ok := reset[p]; ok {
		return resetModes(m...)
	}
	return noOps
}

func sgrConst(p int64) sgrParam {
	return sgrParam{name: fmt.Sprint(p), put: func(w *World, in *Init) Str { return strC(fmt.Sprint(p)) }, ops: sgrEffect(p)}
}

// sgrEmpty is an omitted parameter between separators: 0.
var sgrEmpty = sgrParam{name: "", put: func(w *World, in *Init) Str { return Str{} }, ops: sgrEffect(0)}

// byteParam is a decimal number of n digits not above 255; its value is kept in in.args.
func byteParam(n int) func(w *World, in *Init) Str {
	return func(w *World, in *Init) Str {
		s, v := digits(n, 0).put(w, in)
		in.st.pushCon(linC(255).sub(*v))
		in.args = append(in.args, *v)
		return s
	}
}

// sgrIndexed is 38;5;n or 48;5;n, sgrRGB 38;2;r;g;b or 48;2;r;g;b.
func sgrIndexed(p string, comp string, n int) sgrParam {
	return sgrParam{name: fmt.Sprintf("%s;5;<%d digits>", p, n), put: func(w *World, in *Init) Str {
		return strCat(strC(p+";5;"), byteParam(n)(w, in))
	}, ops: func(w *World, in *Init, k int) []styleOp {
		return []styleOp{{"SetColor256", []Value{Int{linC(w.e.constOf(comp))}, Int{in.args[k]}}}}
	}}
}

func sgrRGB(p string, comp string, n int) sgrParam {
	return sgrParam{name: fmt.Sprintf("%s;2;<r;g;b of %d digits>", p, n), put: func(w *World, in *Init) Str {
		s := strC(p + ";2")
		for i := 0; i < 3; i++ {
			s = strCat(strCat(s, strC(";")), byteParam(n)(w, in))
		}
		return s
	}, ops: func(w *World, in *Init, k int) []styleOp {
		return []styleOp{{"SetColorRGB", []Value{Int{linC(w.e.constOf(comp))}, Int{in.args[k]}, Int{in.args[k+1]}, Int{in.args[k+2]}}}}
	}}
}

var sgrLarge = sgrParam{name: "<3 digits above 107>", put: func(w *World, in *Init) Str {
	s, v := digits(3, 108).put(w, in)
	in.args = append(in.args, *v)
	return s
}, ops: noOps}

func sgrScenario(noAlt bool, ps ...sgrParam) *scenario {
	var names []string
	for _, p := range ps {
		names = append(names, p.name)
	}
	sc := &scenario{name: "SGR " + strings.Join(names, ";"), class: "sgr", noAlt: noAlt}
	starts := func(w *World, in *Init) {}
	_ = starts
	sc.run = func(w *World, in *Init) []Outcome {
		in.args = nil
		var s Str
		for i, p := range ps {
			if i > 0 {
				s = strCat(s, strC(";"))
			}
			in.marks = append(in.marks, len(in.args))
			s = strCat(s, p.put(w, in))
		}
		return w.command(in, strCat(strCat(strC("["), s), strC("m")))
	}
	sc.spec = func(x *Exp) []*Exp {
		w := x.w
		st := x.st
		style := x.cur().style
		for i, p := range ps {
			in2 := *x.in
			in2.st = st
			for _, op := range p.ops(w, &in2, x.in.marks[i]) {
				var ok bool
				st, style, ok = w.applyStyle(st, style, op)
				if !ok {
					panic("the style setter " + op.fn + " has no single outcome")
				}
			}
		}
		y := x.clone(st)
		y.cur().style = style
		return just(y)
	}
	return sc
}

func sgrScenarios() []*scenario {
	out := []*scenario{sgrScenario(false, sgrEmpty)}
	for p := int64(0); p <= 107; p++ {
		if sgrEffect(p) != nil {
			out = append(out, sgrScenario(p > 1, sgrConst(p)))
		}
	}
	fg, bg := "ComponentFG", "ComponentBG"
	ext := []sgrParam{sgrIndexed("38", fg, 1), sgrIndexed("48", bg, 2), sgrIndexed("38", fg, 3), sgrIndexed("48", bg, 3),
		sgrRGB("38", fg, 1), sgrRGB("38", fg, 3), sgrRGB("48", bg, 2), sgrRGB("48", bg, 3), sgrLarge}
	for _, p := range ext {
		out = append(out, sgrScenario(false, p))
	}
	var reps []sgrParam
	for _, p := range []int64{0, 1, 4, 5, 7, 21, 22, 24, 31, 46, 39, 49, 54, 95, 104, 50} {
		reps = append(reps, sgrConst(p))
	}
	reps = append(reps, sgrEmpty, sgrIndexed("38", fg, 3), sgrIndexed("48", bg, 2), sgrRGB("38", fg, 2), sgrRGB("48", bg, 3), sgrLarge)
	for _, p := range reps {
		for _, q := range reps {
			out = append(out, sgrScenario(true, p, q))
		}
	}
	// long lists, including more parameters than any fixed buffer would hold
	c := sgrConst
	out = append(out,
		sgrScenario(true, c(1), c(2), c(3), c(4), c(5), c(6), c(7), c(8), c(9), c(21), c(51), c(52), c(53)),
		sgrScenario(true, c(22), c(23), c(24), c(25), c(27), c(28), c(29), c(54), c(55), c(39), c(49), c(1)),
		sgrScenario(true, sgrRGB("38", fg, 3), sgrRGB("48", bg, 3), c(4), c(7)),
		sgrScenario(true, c(1), c(3), c(4), c(7), sgrRGB("38", fg, 2), sgrIndexed("48", bg, 3), c(9)),
		sgrScenario(true, sgrEmpty, c(1), sgrEmpty, c(31), sgrEmpty, sgrEmpty, c(44), c(93), c(107), c(27)))
	var many []sgrParam
	for i := 0; i < 40; i++ {
		many = append(many, c([]int64{1, 31, 4, 42, 22, 7, 96, 24}[i%8]))
	}
	return append(out, sgrScenario(true, many...))
}
