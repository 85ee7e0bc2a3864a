package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

type ssaFunction = ssa.Function

// param is a numeric parameter as written in a control sequence.
type param struct {
	name string
	put  func(w *World, in *Init) (Str, *Lin) // bytes and value; nil value: omitted
	huge bool
}

// digits is an arbitrary decimal number of n digits, at least min.
func digits(n int, min int64) param {
	return param{name: fmt.Sprintf("%d digits", n), put: func(w *World, in *Init) (Str, *Lin) {
		var s Str
		v := Lin{}
		for i := 0; i < n; i++ {
			d := w.sym(fmt.Sprintf("digit%d", i))
			in.st.pushCon(d)
			in.st.pushCon(linC(9).sub(d))
			s = strCat(s, Str{p: []Piece{{kind: 'b', lin: d.plus('0')}}})
			v = v.scale(10).add(d)
		}
		in.st.addGE(v.plus(-min))
		return s, &v
	}}
}

func konst(s string, v int64) param {
	return param{name: s, put: func(w *World, in *Init) (Str, *Lin) { l := linC(v); return strC(s), &l }}
}

var (
	omitted = param{name: "omitted", put: func(w *World, in *Init) (Str, *Lin) { return Str{}, nil }}
	huge    = param{name: "overlong", huge: true, put: func(w *World, in *Init) (Str, *Lin) { l := linC(1 << 40); return strC("99999999999999999999"), &l }}
)

// more is p followed by further parameters, which a control function that takes none ignores.
func more(p param, n int) param {
	return param{name: fmt.Sprintf("%s and %d more", p.name, n), huge: p.huge, put: func(w *World, in *Init) (Str, *Lin) {
		s, v := p.put(w, in)
		for i := 0; i < n; i++ {
			d := w.sym("extra")
			in.st.pushCon(d)
			in.st.pushCon(linC(9).sub(d))
			s = strCat(s, Str{p: []Piece{{kind: 'c', s: ";"}, {kind: 'b', lin: d.plus('0')}}})
		}
		return s, v
	}}
}

// csi makes scenarios for a control sequence with the given parameter forms.
func csi(name, class, pre, final string, ps []param, def int64, spec func(x *Exp, n Lin) []*Exp) []*scenario {
	var out []*scenario
	for _, p := range ps {
		p := p
		var n Lin
		vals := map[*Init]Lin{}
		_ = n
		sc := &scenario{name: name + " (" + p.name + ")", class: class}
		sc.run = func(w *World, in *Init) []Outcome {
			s, v := p.put(w, in)
			l := linC(def)
			if v != nil {
				l = *v
			}
			in.args = []Lin{l}
			return w.command(in, strCat(strCat(strC("["+pre), s), strC(final)))
		}
		_ = vals
		sc.spec = func(x *Exp) []*Exp { return spec(x, x.in.args[0]) }
		out = append(out, sc)
	}
	return out
}

// csi2 is csi for two parameters.
func csi2(name, class, pre, final string, ps [][2]param, def [2]func(x *Exp) Lin, spec func(x *Exp, a, b Lin) []*Exp) []*scenario {
	var out []*scenario
	for _, p := range ps {
		p := p
		sc := &scenario{name: name + " (" + p[0].name + ", " + p[1].name + ")", class: class}
		var given [2]bool
		given[0] = p[0].name != "omitted"
		given[1] = p[1].name != "omitted"
		sc.run = func(w *World, in *Init) []Outcome {
			in.args = make([]Lin, 2)
			s, v := p[0].put(w, in)
			if v != nil {
				in.args[0] = *v
			}
			q := strCat(strC("["+pre), s)
			if given[1] {
				s, v := p[1].put(w, in)
				in.args[1] = *v
				q = strCat(strCat(q, strC(";")), s)
			}
			return w.command(in, strCat(q, strC(final)))
		}
		sc.spec = func(x *Exp) []*Exp {
			a, b := x.in.args[0], x.in.args[1]
			if !given[0] {
				a = def[0](x)
			}
			if !given[1] {
				b = def[1](x)
			}
			return spec(x, a, b)
		}
		out = append(out, sc)
	}
	return out
}

// ctl makes the scenario of a control character.
func ctl(name, class string, b string, spec func(x *Exp) []*Exp) *scenario {
	return &scenario{name: name, class: class, spec: spec, run: func(w *World, in *Init) []Outcome {
		return w.input(in, Str{}, Lin{}, strC(b))
	}}
}

func esc(name, class, b string, spec func(x *Exp) []*Exp) *scenario {
	return &scenario{name: name, class: class, spec: spec, run: func(w *World, in *Init) []Outcome { return w.command(in, strC(b)) }}
}

var oneParam = []param{omitted, digits(1, 1), digits(3, 1), huge, more(digits(1, 1), 1), more(digits(2, 1), 9)}

func minLin(x *Exp, a, b Lin, f func(x *Exp, m Lin) []*Exp) []*Exp {
	return x.on(condLE(a, b), func(x *Exp) []*Exp { return f(x, a) }, func(x *Exp) []*Exp { return f(x, b) })
}

func motionScenarios() []*scenario {
	var out []*scenario
	mv := func(name, final string, dx, dy int64) {
		out = append(out, csi(name, "motion", "", final, oneParam, 1, func(x *Exp, n Lin) []*Exp {
			s := x.cur()
			return x.moveTo(s.cx.add(n.scale(dx)), s.cy.add(n.scale(dy)))
		})...)
	}
	mv("CUU", "A", 0, -1)
	mv("CUD", "B", 0, 1)
	mv("CUF", "C", 1, 0)
	mv("CUB", "D", -1, 0)
	out = append(out, csi("CHA", "motion", "", "G", oneParam, 1, func(x *Exp, n Lin) []*Exp { return x.moveTo(n.plus(-1), x.cur().cy) })...)
	out = append(out, csi("VPA", "motion", "", "d", oneParam, 1, func(x *Exp, n Lin) []*Exp { return x.moveTo(x.cur().cx, n.plus(-1)) })...)
	one := func(x *Exp) Lin { return linC(1) }
	for _, f := range []struct{ n, f string }{{"CUP", "H"}, {"HVP", "f"}} {
		out = append(out, csi2(f.n, "motion", "", f.f, [][2]param{
			{omitted, omitted}, {digits(1, 1), omitted}, {digits(2, 1), digits(2, 1)}, {digits(3, 1), digits(1, 1)}, {huge, huge}, {huge, digits(1, 1)}, {digits(1, 1), more(digits(2, 1), 1)}, {digits(2, 1), more(digits(1, 1), 8)},
		}, [2]func(x *Exp) Lin{one, one}, func(x *Exp, a, b Lin) []*Exp { return x.moveTo(b.plus(-1), a.plus(-1)) })...)
	}
	// an empty first parameter
	out = append(out, csi2("CUP", "motion", ";", "H", [][2]param{{digits(2, 1), omitted}}, [2]func(x *Exp) Lin{one, one}, func(x *Exp, a, b Lin) []*Exp {
		return x.moveTo(a.plus(-1), Lin{})
	})...)
	out = append(out, esc("SCP", "motion", "[s", func(x *Exp) []*Exp {
		s := x.cur()
		s.sx, s.sy = s.cx, s.cy
		return just(x)
	}), esc("RCP", "motion", "[u", func(x *Exp) []*Exp {
		s := x.cur()
		s.cx, s.cy = s.sx, s.sy
		return just(x)
	}), esc("IND", "motion", "D", func(x *Exp) []*Exp { return x.index() }),
		esc("RI", "motion", "M", func(x *Exp) []*Exp { return x.reverseIndex() }),
		ctl("BS", "motion", "\b", func(x *Exp) []*Exp { s := x.cur(); return x.moveTo(s.cx.plus(-1), s.cy) }),
		ctl("DEL", "motion", "\x7f", func(x *Exp) []*Exp { s := x.cur(); return x.moveTo(s.cx.plus(-1), s.cy) }),
		ctl("HT", "motion", "\t", func(x *Exp) []*Exp {
			s := x.cur()
			return x.moveTo(x.st.divFloor(s.cx, 8).plus(1).scale(8), s.cy)
		}),
		ctl("CR", "motion", "\r", func(x *Exp) []*Exp { return x.moveTo(Lin{}, x.cur().cy) }),
		ctl("LF", "motion", "\n", func(x *Exp) []*Exp { x.cur().cx = Lin{}; return x.index() }),
		ctl("FF", "motion", "\f", func(x *Exp) []*Exp { return x.index() }),
		ctl("NUL", "nothing", "\x00", just),
		ctl("BEL", "bell", "\a", func(x *Exp) []*Exp { x.bell = 1; return just(x) }),
	)
	return out
}

func eraseScenarios() []*scenario {
	var out []*scenario
	el := func(name, seq string, f func(s Scr, r, c Lin) Bool) {
		out = append(out, esc(name, "erase", seq, func(x *Exp) []*Exp {
			s := *x.cur()
			return x.blankWhere(func(r, c Lin) Bool { return f(s, r, c) })
		}))
	}
	right := func(s Scr, r, c Lin) Bool { return condAll(condEQ(r, s.cy), condGE(c, s.cx)) }
	left := func(s Scr, r, c Lin) Bool { return condAll(condEQ(r, s.cy), condLE(c, s.cx)) }
	el("EL", "[K", right)
	el("EL 0", "[0K", right)
	el("EL 1", "[1K", left)
	el("EL 2", "[2K", func(s Scr, r, c Lin) Bool { return condEQ(r, s.cy) })
	below := func(s Scr, r, c Lin) Bool { return condAny(right(s, r, c), condGT(r, s.cy)) }
	el("ED", "[J", below)
	el("ED 0", "[0J", below)
	el("ED 1", "[1J", func(s Scr, r, c Lin) Bool { return condAny(left(s, r, c), condLT(r, s.cy)) })
	out = append(out, esc("ED 2", "erase", "[2J", func(x *Exp) []*Exp {
		x.cur().cx, x.cur().cy = Lin{}, Lin{}
		return x.blankWhere(func(r, c Lin) Bool { return bTrue })
	}))
	out = append(out, csi("ECH", "erase", "", "X", oneParam, 1, func(x *Exp, n Lin) []*Exp {
		s := *x.cur()
		return x.blankWhere(func(r, c Lin) Bool {
			return condAll(condEQ(r, s.cy), condGE(c, s.cx), condLT(c, s.cx.add(n)))
		})
	})...)
	out = append(out, csi("DCH", "erase", "", "P", oneParam, 1, func(x *Exp, n Lin) []*Exp {
		s := *x.cur()
		i := x.act()
		e := x.w.e
		x.cell[i] = func(st *State, r, c Lin) []cellOut {
			yes, no := e.branch(st, condAll(condEQ(r, s.cy), condGE(c, s.cx)))
			var outs []cellOut
			for _, q := range no {
				outs = append(outs, x.before(i, q, r, c)...)
			}
			for _, q := range yes {
				keep, gone := e.branch(q, condLT(c.add(n), s.W))
				for _, y := range keep {
					outs = append(outs, x.before(i, y, r, c.add(n))...)
				}
				for _, y := range gone {
					outs = append(outs, cellOut{y, blankCell(s.style)})
				}
			}
			return outs
		}
		return just(x)
	})...)
	return out
}

func scrollScenarios() []*scenario {
	var out []*scenario
	ps := []param{omitted, digits(1, 1), digits(2, 1), huge, more(digits(1, 1), 1), more(digits(2, 1), 9)}
	out = append(out, csi("SU", "scroll", "", "S", ps, 1, func(x *Exp, n Lin) []*Exp {
		s := x.cur()
		return x.scrollRows(s.top, s.bot, n, true)
	})...)
	// (with five parameters CSI T is mouse highlighting)
	out = append(out, csi("SD", "scroll", "", "T", ps[:5], 1, func(x *Exp, n Lin) []*Exp {
		s := x.cur()
		return x.scrollRows(s.top, s.bot, n, false)
	})...)
	lines := func(name, final string, up bool) {
		for _, sc := range csi(name, "scroll", "", final, ps, 1, func(x *Exp, n Lin) []*Exp {
			s := x.cur()
			x.skip["cursor"] = true
			return x.on(condAll(condGE(s.cy, s.top), condLE(s.cy, s.bot)), func(x *Exp) []*Exp {
				s := x.cur()
				xs := x.scrollRows(s.cy, s.bot, n, up)
				for _, y := range xs {
					y.scrolled = nil // whether deleting lines feeds the scrollback is not specified
				}
				return xs
			}, just)
		}) {
			out = append(out, sc)
		}
	}
	lines("IL", "L", false)
	lines("DL", "M", true)
	one := func(x *Exp) Lin { return linC(1) }
	height := func(x *Exp) Lin { return x.cur().H }
	out = append(out, csi2("DECSTBM", "scroll", "", "r", [][2]param{
		{omitted, omitted}, {digits(1, 1), omitted}, {digits(1, 1), digits(1, 1)}, {digits(3, 1), digits(3, 1)}, {digits(1, 1), huge}, {konst("1", 1), digits(2, 1)}, {digits(1, 1), konst("0", 0)},
	}, [2]func(x *Exp) Lin{one, height}, func(x *Exp, a, b Lin) []*Exp {
		x.skip["cursor"] = true
		if b.isC() && b.c == 0 {
			b = x.cur().H
		}
		return minLin(x, b, x.cur().H, func(x *Exp, b Lin) []*Exp {
			return x.on(condGT(a, x.cur().H), func(x *Exp) []*Exp {
				// a region wholly below the screen: clamped or ignored
				x.skip["margins"] = true
				return just(x)
			}, func(x *Exp) []*Exp {
				return x.on(condEQ(a, b), func(x *Exp) []*Exp {
					// a region of one row: accepted or ignored
					if b.isC() && b.c == 1 || x.st.decide(condEQ(x.cur().H, linC(1))) == 1 {
						x.skip["margins"] = true
					}
					x.cur().top, x.cur().bot = a.plus(-1), b.plus(-1)
					return just(x)
				}, func(x *Exp) []*Exp {
					return x.on(condGT(a, b), just, func(x *Exp) []*Exp {
						x.cur().top, x.cur().bot = a.plus(-1), b.plus(-1)
						return just(x)
					})
				})
			})
		})
	})...)
	return out
}
