package main

import "fmt"

// mouse.go: a mouse event causes exactly one well-formed report, or none when the tracking
// mode excludes it.

const (
	mouseNo = iota
	mouseYes
	mouseEither // an event that cannot happen: silence or the one report
)

// mouseWanted says whether a tracking mode reports an event.
func mouseWanted(mode string, btn int64, press bool, motion, wheel bool) int {
	odd := btn == 3 && !motion || wheel && (!press || motion || btn > 1) || motion && !press
	switch mode {
	case "MMNone":
		return mouseNo
	case "MMPress":
		if !press || motion {
			return mouseNo
		}
	case "MMPressRelease":
		if motion {
			return mouseNo
		}
	case "MMPressReleaseMove":
		if motion && btn == 3 && !odd {
			return mouseNo
		}
	}
	if odd {
		return mouseEither
	}
	return mouseYes
}

func mouseScenarios() []*scenario {
	var out []*scenario
	for _, mode := range []string{"MMNone", "MMPress", "MMPressRelease", "MMPressReleaseMove", "MMPressReleaseMoveAll"} {
		for _, enc := range []string{"MEX10", "MEUTF8", "MESGR"} {
			for btn := int64(0); btn < 4; btn++ {
				for _, press := range []bool{true, false} {
					for mods := int64(0); mods < 128; mods += 4 {
						mode, enc, btn, press, mods := mode, enc, btn, press, mods
						motion, wheel := mods&32 != 0, mods&64 != 0
						wanted := mouseWanted(mode, btn, press, motion, wheel)
						sc := &scenario{name: fmt.Sprintf("mouse %s %s button %d press=%v flags %d", mode, enc, btn, press, mods), class: "mouse", noAlt: true}
						sc.prep = func(w *World, in *Init) {
							if !in.st.addEQ(in.mouse.plus(-w.e.constOf(mode))) || !in.st.addEQ(in.enc.plus(-w.e.constOf(enc))) {
								panic("the mode cannot be set")
							}
						}
						sc.run = func(w *World, in *Init) []Outcome {
							x, y := w.sym("x"), w.sym("y")
							for _, v := range []Lin{x, y} {
								in.st.pushCon(v.plus(-1))
								in.st.pushCon(linC(1 << 20).sub(v))
							}
							in.args = []Lin{x, y}
							return w.method(in, "SendMouseRaw", Int{linC(btn)}, boolC(press), Int{linC(mods)}, Int{x}, Int{y})
						}
						sc.spec = func(x *Exp) []*Exp {
							if _, isNil := x.val.(Nil); x.val != nil && !isNil {
								x.fail = "SendMouseRaw returns an error although the write succeeded"
							}
							if wanted == mouseNo {
								return just(x)
							}
							x.maySilent = wanted == mouseEither
							cb := btn | mods
							if !press && enc != "MESGR" {
								cb |= 3
							}
							a, b := x.in.args[0], x.in.args[1]
							switch enc {
							case "MESGR":
								final := "m"
								if press {
									final = "M"
								}
								x.out = strCat(strC(fmt.Sprintf("\x1b[<%d;", cb)), strCat(strCat(strDec(x.st, a), strC(";")), strCat(strDec(x.st, b), strC(final))))
								return just(x)
							case "MEX10":
								return minLin(x, a, linC(223), func(x *Exp, a Lin) []*Exp {
									return minLin(x, b, linC(223), func(x *Exp, b Lin) []*Exp {
										x.out = strCat(strCat(strC("\x1b[M"+string([]byte{byte(32 + cb)})), strB(a.plus(32))), strB(b.plus(32)))
										return just(x)
									})
								})
							}
							in := func(v Lin, f func(x *Exp) []*Exp) func(x *Exp) []*Exp {
								return func(x *Exp) []*Exp {
									return x.on(condLE(v, linC(2015)), f, func(x *Exp) []*Exp { x.skip["out"] = true; return just(x) })
								}
							}
							return in(a, in(b, func(x *Exp) []*Exp {
								x.out = strCat(strCat(strC("\x1b[M"+string(rune(32+cb))), Str{p: []Piece{{kind: 'r', lin: a.plus(32)}}}), Str{p: []Piece{{kind: 'r', lin: b.plus(32)}}})
								return just(x)
							}))(x)
						}
						out = append(out, sc)
						if mods == 0 && wanted == mouseYes {
							out = append(out, mouseFailure(*sc))
						}
					}
				}
			}
		}
	}
	return out
}

// mouseFailure is the event with a backend that fails every write.
func mouseFailure(sc scenario) *scenario {
	sc.name += " with a failing backend"
	run := sc.run
	sc.run = func(w *World, in *Init) []Outcome {
		w.e.backend = func(e *Engine, st *State, method string, args []Value) ([]Outcome, bool) {
			if method != "Write" {
				return nil, false
			}
			return []Outcome{{st: st, val: Struct{[]Value{Int{}, errVal("write error")}}}}, true
		}
		return run(w, in)
	}
	sc.spec = func(x *Exp) []*Exp {
		if _, isNil := x.val.(Nil); isNil {
			x.fail = "a failed write is not returned as an error"
		}
		return just(x)
	}
	return &sc
}
