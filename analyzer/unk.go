package main

import (
	"fmt"
	"strings"
)

// unk.go: control sequences are consumed whole; unrecognised ones change nothing.

// tailText follows every sequence in the input; it must be what is left.
const tailText = "mZ7;[q"

// seqScenario feeds ESC, the sequence and more input to the terminal.
func seqScenario(name, class string, put func(w *World, in *Init) Str, spec func(x *Exp) []*Exp) *scenario {
	return &scenario{name: name, class: class, noAlt: true,
		run: func(w *World, in *Init) []Outcome {
			s := put(w, in)
			return w.input(in, Str{}, Lin{}, strCat(strCat(strC("\x1b"), s), strC(tailText)))
		},
		spec: func(x *Exp) []*Exp {
			t := strC(tailText)
			x.rest = &t
			return spec(x)
		}}
}

// someByte is an arbitrary byte in [lo, hi] other than the excluded ones.
func (w *World) someByte(in *Init, name string, lo, hi int64, not ...int64) Lin {
	b := w.sym(name)
	w.e.syms[b.t[0].s].width = 8
	in.st.pushCon(b.plus(-lo))
	in.st.pushCon(linC(hi).sub(b))
	for _, n := range not {
		in.st.addNE(b.plus(-n))
	}
	return b
}

func strB(l Lin) Str {
	if l.isC() {
		return strC(string([]byte{byte(l.c)}))
	}
	return Str{p: []Piece{{kind: 'b', lin: l}}}
}

// any leaves every effect open: only the consumption is specified.
func anyEffect(x *Exp) []*Exp {
	for _, a := range []string{"cursor", "saved", "size", "margins", "style", "wrap", "content", "kbd", "alt", "out", "modes", "events", "told", "other"} {
		x.skip[a] = true
	}
	return just(x)
}

func unknownScenarios() []*scenario {
	var out []*scenario
	add := func(s *scenario) { out = append(out, s) }
	str := func(s string) func(w *World, in *Init) Str { return func(*World, *Init) Str { return strC(s) } }
	show := func(s string) string { return strings.Trim(fmt.Sprintf("%q", s), `"`) }

	// CSI with every prefix, final byte and several parameter lists
	known := map[string]string{"": "ABCDGHJKLMPSTXcdfhlmnrstu", "?": "hlu", ">": "cmu", "=": "u", "<": "u"}
	for _, pre := range []string{"", "?", ">", "<", "="} {
		for f := byte(0x40); f <= 0x7e; f++ {
			rec := strings.IndexByte(known[pre], f) >= 0
			for _, p := range []string{"", "1", "2;3", ";;12345678901;0"} {
				spec := just
				if rec {
					spec = anyEffect
				}
				s := "[" + pre + p + string(f)
				add(seqScenario("unknown CSI "+show(s[1:]), "csi", str(s), spec))
			}
			// an intermediate byte makes it another function
			for n := 1; n <= 2; n++ {
				n, f, pre := n, f, pre
				for _, p := range []string{"", "1", "4;2"} {
					p := p
					add(seqScenario(fmt.Sprintf("CSI %s%s with %d intermediates and final %c", pre, p, n, f), "csi", func(w *World, in *Init) Str {
						s := strC("[" + pre + p)
						for k := 0; k < n; k++ {
							s = strCat(s, strB(w.someByte(in, fmt.Sprint("intermediate", k), 0x20, 0x2f)))
						}
						return strCat(s, strC(string(f)))
					}, just))
				}
			}
		}
	}
	// private parameter bytes where no prefix belongs: consumed whole whatever they are
	for _, f := range "AHJKmru@~hl" {
		for n := 1; n <= 3; n++ {
			n, f := n, f
			add(seqScenario(fmt.Sprintf("CSI with %d arbitrary parameter bytes and final %c", n, f), "csi", func(w *World, in *Init) Str {
				s := strC("[")
				for k := 0; k < n; k++ {
					s = strCat(s, strB(w.someByte(in, fmt.Sprint("parameter", k), 0x30, 0x3f)))
				}
				return strCat(s, strC(string(f)))
			}, anyEffect))
		}
	}
	// modes and reports that do not exist
	for _, pre := range []string{"", "?"} {
		for _, f := range "hl" {
			for n := 1; n <= 5; n++ {
				n, f, pre := n, f, pre
				add(seqScenario(fmt.Sprintf("CSI %s<unknown mode of %d digits>%c", pre, n, f), "csi", func(w *World, in *Init) Str {
					d, v := digits(n, 0).put(w, in)
					for _, k := range []int64{1, 4, 7, 9, 12, 25, 1000, 1002, 1003, 1004, 1005, 1006, 1015, 1034, 1049, 2004} {
						in.st.addNE(v.plus(-k))
					}
					return strCat(strCat(strC("["+pre), d), strC(string(f)))
				}, just))
			}
		}
	}
	for _, f := range "nJKcgi" {
		f := f
		add(seqScenario(fmt.Sprintf("CSI <unknown selector>%c", f), "csi", func(w *World, in *Init) Str {
			d, v := digits(3, 3).put(w, in)
			in.st.addNE(v.plus(-5))
			in.st.addNE(v.plus(-6))
			return strCat(strCat(strC("["), d), strC(string(f)))
		}, just))
	}
	// a long parameter list
	add(seqScenario("CSI with 400 parameter bytes", "csi", str("["+strings.Repeat("7;", 200)+"y"), just))

	// an ESC before the sequence's own
	for _, q := range []string{"\x1b[y", "\x1b\x1b[1;2y", "\x1b#!z"} {
		add(seqScenario("ESC "+show(q), "esc", str(q), just))
	}

	// ESC with and without intermediates
	for f := byte(0x30); f <= 0x7e; f++ {
		f := f
		switch f {
		case '[', ']', 'P', 'X', '^', '_':
			continue
		}
		spec := just
		if strings.IndexByte("DM=>c78NO", f) >= 0 {
			spec = anyEffect
		}
		add(seqScenario(fmt.Sprintf("ESC %c", f), "esc", str(string(f)), spec))
	}
	for n := 1; n <= 3; n++ {
		n := n
		add(seqScenario(fmt.Sprintf("ESC with %d intermediates", n), "esc", func(w *World, in *Init) Str {
			s := Str{}
			for k := 0; k < n; k++ {
				s = strCat(s, strB(w.someByte(in, fmt.Sprint("intermediate", k), 0x20, 0x2f)))
			}
			return strCat(s, strB(w.someByte(in, "final", 0x30, 0x7e)))
		}, just))
	}

	// OSC and DCS
	type term struct{ name, s string }
	st := term{"ST", "\x1b\\"}
	for _, end := range []term{{"BEL", "\a"}, st} {
		for _, c := range []struct {
			n, view string
		}{{"0", "VSWindowTitle"}, {"2", "VSWindowTitle"}, {"6", "VSCurrentDirectory"}, {"7", "VSCurrentFile"},
			{"1", ""}, {"3", ""}, {"4", ""}, {"5", ""}, {"8", ""}, {"9", ""}, {"10", ""}, {"11", ""}, {"22", ""}, {"52", ""}, {"60", ""}, {"104", ""}, {"777", ""}, {"99999999999999999999", ""}} {
			end, c := end, c
			max := 4
			if c.view == "" {
				max = 2
			}
			for n := 0; n <= max+1; n++ {
				n := n
				what := fmt.Sprintf("%d payload bytes", n)
				if n == max+1 {
					what = "a long payload"
				}
				add(seqScenario(fmt.Sprintf("OSC %s with %s ended by %s", c.n, what, end.name), "osc", func(w *World, in *Init) Str {
					var p Str
					if n == max+1 {
						p = strC(strings.Repeat("/a;b\x01\t\\[m0;é日\n", 40))
					} else {
						for k := 0; k < n; k++ {
							p = strCat(p, strB(w.someByte(in, fmt.Sprint("payload", k), 0, 255, 7, 27)))
						}
					}
					in.text = p
					return strCat(strCat(strC("]"+c.n+";"), p), strC(end.s))
				}, func(x *Exp) []*Exp {
					if c.view != "" {
						x.setStr(x.w.e.constOf(c.view), x.in.text)
					}
					return just(x)
				}))
			}
		}
		for _, s := range []string{"]", "]x", "]l title", "];x", "]0", "]P1234567"} {
			end := end
			add(seqScenario("OSC "+show(s[1:])+" ended by "+end.name, "osc", str(s+end.s), anyEffect))
		}
	}
	for n := 0; n <= 4; n++ {
		n := n
		add(seqScenario(fmt.Sprintf("DCS with %d bytes", n), "dcs", func(w *World, in *Init) Str {
			s := strC("P")
			for k := 0; k < n; k++ {
				s = strCat(s, strB(w.someByte(in, fmt.Sprint("data", k), 0, 255, 27)))
			}
			return strCat(s, strC(st.s))
		}, just))
	}
	add(seqScenario("a long DCS", "dcs", str("P1$r"+strings.Repeat("#0;2;0;0;0~~@@vv$-\a\n", 100)+"\x1b\\"), just))
	return out
}

// garbageScenarios feeds arbitrary bytes after ESC: whatever they are, nothing panics and the
// screens stay well formed.
func garbageScenarios() []*scenario {
	var out []*scenario
	for _, pre := range []string{"", "[", "[?", "[1;", "]", "P", "]0;"} {
		for n := 0; n <= 3; n++ {
			pre, n := pre, n
			if pre == "" && n == 3 {
				continue
			}
			out = append(out, &scenario{name: fmt.Sprintf("ESC %s and %d arbitrary bytes", pre, n), class: "garbage", run: func(w *World, in *Init) []Outcome {
				s := strC("\x1b" + pre)
				for k := 0; k < n; k++ {
					s = strCat(s, strB(w.someByte(in, fmt.Sprint("byte", k), 0, 255)))
				}
				return w.input(in, Str{}, Lin{}, s)
			}, spec: anyEffect})
		}
	}
	return out
}
