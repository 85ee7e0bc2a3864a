package main

import (
	"fmt"
	"go/token"
	"strings"
)

// ---- modes

func (x *Exp) setFlag(k int64, v Value) { x.flag[int(k)] = v; x.tell("ViewFlagChanged", k, v) }
func (x *Exp) setInt(k int64, v Value)  { x.ints[int(k)] = v; x.tell("ViewIntChanged", k, v) }
func (x *Exp) setStr(k int64, v Value)  { x.strs[int(k)] = v; x.tell("ViewStringChanged", k, v) }

// told is a notification the operation must send.
type told struct {
	kind string
	id   int64
	v    Value
}

func (x *Exp) tell(kind string, id int64, v Value) {
	x.told = append(append([]told{}, x.told...), told{kind, id, v})
}

// constant reads an integer constant of the package.
func (e *Engine) constant(name string) int64 { return e.constOf(name) }

type modeDef struct {
	p   int
	set func(x *Exp, on bool)
}

func modeDefs() []modeDef {
	flag := func(name string) func(x *Exp, on bool) {
		return func(x *Exp, on bool) { x.setFlag(x.w.e.constant(name), boolC(on)) }
	}
	num := func(kind, on, off string) func(x *Exp, on bool) {
		return func(x *Exp, b bool) {
			v := off
			if b {
				v = on
			}
			x.setInt(x.w.e.constant(kind), Int{linC(x.w.e.constant(v))})
		}
	}
	return []modeDef{
		{1, flag("VFAppCursorKeys")},
		{7, func(x *Exp, on bool) { x.cur().wrap = boolC(on) }},
		{9, num("VIMouseMode", "MMPress", "MMNone")},
		{12, flag("VFBlinkCursor")},
		{25, flag("VFShowCursor")},
		{1000, num("VIMouseMode", "MMPressRelease", "MMNone")},
		{1002, num("VIMouseMode", "MMPressReleaseMove", "MMNone")},
		{1003, num("VIMouseMode", "MMPressReleaseMoveAll", "MMNone")},
		{1004, flag("VFReportFocus")},
		{1005, num("VIMouseEncoding", "MEUTF8", "MEX10")},
		{1006, num("VIMouseEncoding", "MESGR", "MEX10")},
		{1049, func(x *Exp, on bool) { x.alt = on }},
		{2004, flag("VFBracketedPaste")},
	}
}

// modeScenarios: the DEC private modes, alone and combined in one sequence.
func modeScenarios() []*scenario {
	var out []*scenario
	defs := modeDefs()
	letter := map[bool]string{true: "h", false: "l"}
	word := map[bool]string{true: "set", false: "reset"}
	for _, d := range defs {
		for _, on := range []bool{true, false} {
			d, on := d, on
			out = append(out, esc(fmt.Sprintf("%s mode %d", word[on], d.p), "mode", fmt.Sprintf("[?%d%s", d.p, letter[on]), func(x *Exp) []*Exp {
				d.set(x, on)
				return just(x)
			}))
		}
	}
	for i, a := range defs {
		for j, b := range defs {
			if i == j || (a.p != 1049 && b.p != 1049 && a.p != 7 && b.p != 7 && (i+2*j)%5 != 0) {
				continue
			}
			for _, on := range []bool{true, false} {
				a, b, on := a, b, on
				out = append(out, esc(fmt.Sprintf("%s modes %d and %d", word[on], a.p, b.p), "mode", fmt.Sprintf("[?%d;%d%s", a.p, b.p, letter[on]), func(x *Exp) []*Exp {
					a.set(x, on)
					b.set(x, on)
					return just(x)
				}))
			}
		}
	}
	for _, on := range []bool{true, false} {
		on := on
		// several more modes than fit a small array
		q, n := "", 0
		var ds []modeDef
		for _, d := range defs {
			if n > 0 {
				q += ";"
			}
			q += fmt.Sprint(d.p)
			ds, n = append(ds, d), n+1
		}
		out = append(out, esc(word[on]+" all modes", "mode", "[?"+q+letter[on], func(x *Exp) []*Exp {
			for _, d := range ds {
				d.set(x, on)
			}
			return just(x)
		}))
		out = append(out, esc("application keypad "+word[on], "mode", map[bool]string{true: "=", false: ">"}[on], func(x *Exp) []*Exp {
			x.setFlag(x.w.e.constant("VFAppKeypad"), boolC(on))
			return just(x)
		}))
	}
	for _, n := range []int64{0, 1, 2} {
		n := n
		out = append(out, esc(fmt.Sprintf("modifyOtherKeys %d", n), "mode", fmt.Sprintf("[>4;%dm", n), func(x *Exp) []*Exp {
			x.setInt(x.w.e.constant("VIModifyOtherKeys"), Int{linC(n)})
			return just(x)
		}))
	}
	out = append(out, esc("modifyOtherKeys reset", "mode", "[>4m", func(x *Exp) []*Exp {
		x.setInt(x.w.e.constant("VIModifyOtherKeys"), Int{})
		return just(x)
	}))
	return out
}

// ---- queries

func queryScenarios() []*scenario {
	reply := func(name, seq string, f func(x *Exp) Str) *scenario {
		return esc(name, "query", seq, func(x *Exp) []*Exp { x.out = strCat(x.out, f(x)); return just(x) })
	}
	k := func(s string) func(x *Exp) Str { return func(*Exp) Str { return strC(s) } }
	dec := func(l Lin) Str {
		if l.isC() {
			return strC(fmt.Sprint(l.c))
		}
		return Str{p: []Piece{{kind: 'd', lin: l}}}
	}
	out := []*scenario{
		reply("device status", "[5n", k("\x1b[0n")),
		reply("cursor position", "[6n", func(x *Exp) Str {
			s := x.cur()
			return strCat(strCat(strCat(strC("\x1b["), dec(s.cy.plus(1))), strCat(strC(";"), dec(s.cx.plus(1)))), strC("R"))
		}),
		reply("keyboard flags query", "[?u", func(x *Exp) Str {
			return strCat(strCat(strC("\x1b[?"), dec(x.kf[x.act()])), strC("u"))
		}),
	}
	// device attributes: some constant reply of the right form
	for _, q := range []struct{ name, seq, pre string }{
		{"primary device attributes", "[c", "\x1b[?"}, {"primary device attributes 0", "[0c", "\x1b[?"},
		{"secondary device attributes", "[>c", "\x1b[>"}, {"secondary device attributes 0", "[>0c", "\x1b[>"},
	} {
		q := q
		out = append(out, esc(q.name, "query", q.seq, func(x *Exp) []*Exp {
			x.outLike = func(s string) string {
				if len(s) < len(q.pre)+2 || s[:len(q.pre)] != q.pre || s[len(s)-1] != 'c' {
					return fmt.Sprintf("one report %q...c", q.pre)
				}
				for i, b := range []byte(s[len(q.pre) : len(s)-1]) {
					if !(b >= '0' && b <= '9' || b == ';' && i > 0) {
						return fmt.Sprintf("one report %q...c", q.pre)
					}
				}
				return ""
			}
			return just(x)
		}))
	}
	for _, p := range []string{"[0n", "[n", "[1c", "[?6n", "[?5n", "[>5n", "[=c", "[<c", "[?1u", "[7n", "[1n", "[2n", "[3n", "[4n", "[8n", "[15n"} {
		q := p
		if q == "[?1u" {
			continue
		}
		if q == "[1c" {
			continue
		}
		out = append(out, esc("no query "+q, "query", q, just))
	}
	return out
}

// ---- keyboard flags

func kbdScenarios() []*scenario {
	var out []*scenario
	set := func(x *Exp, v Lin) { x.kf[x.act()] = v }
	add := func(name, seq string, depth int, spec func(x *Exp) []*Exp) {
		sc := esc(fmt.Sprintf("%s with %d stored", name, depth), "keyboard", seq, spec)
		sc.opt.stack = depth
		out = append(out, sc)
	}
	for _, m := range []string{"", ";1"} {
		for _, p := range []param{digits(1, 0), digits(2, 0), omitted} {
			for _, sc := range csi("assign keyboard flags"+m, "keyboard", "=", m+"u", []param{p}, 0, func(x *Exp, n Lin) []*Exp { set(x, n); return just(x) }) {
				sc.opt.stack = 1
				out = append(out, sc)
			}
		}
	}
	for f := int64(0); f < 32; f++ {
		for m, op := range map[int]token.Token{2: token.OR, 3: token.AND_NOT} {
			f, op := f, op
			add(fmt.Sprintf("change keyboard flags %d;%d", f, m), fmt.Sprintf("[=%d;%du", f, m), 1, func(x *Exp) []*Exp {
				var outs []*Exp
				it := x.w.e.intType()
				for _, o := range x.w.e.binop(x.st, op, Int{x.kf[x.act()]}, Int{linC(f)}, it, it, 0, nil) {
					y := x.clone(o.st)
					if v, ok := o.val.(Int); ok {
						set(y, v.Lin)
					}
					outs = append(outs, y)
				}
				return outs
			})
		}
	}
	push := func(x *Exp, n Lin) []*Exp {
		i := x.act()
		if len(x.ks[i]) >= 32 {
			x.ks[i] = x.ks[i][len(x.ks[i])-31:]
		}
		x.ks[i] = append(append([]Value{}, x.ks[i]...), Int{x.kf[i]})
		set(x, n)
		return just(x)
	}
	for _, d := range []int{0, 1, 2, 3, 30, 31, 32} {
		for _, p := range []param{omitted, digits(1, 0), digits(2, 0)} {
			for _, sc := range csi("push keyboard flags", "keyboard", ">", "u", []param{p}, 0, push) {
				sc.opt.stack = d
				sc.name += fmt.Sprintf(" with %d stored", d)
				out = append(out, sc)
			}
		}
	}
	pop := func(x *Exp, n int) []*Exp {
		i := x.act()
		for ; n > 0; n-- {
			k := len(x.ks[i])
			if k == 0 {
				set(x, Lin{})
				break
			}
			set(x, x.ks[i][k-1].(Int).Lin)
			x.ks[i] = append([]Value{}, x.ks[i][:k-1]...)
		}
		return just(x)
	}
	for _, d := range []int{0, 1, 2, 3, 31, 32} {
		d := d
		add("pop keyboard flags", "[<u", d, func(x *Exp) []*Exp { return pop(x, 1) })
		for _, n := range []int{1, 2, 3, 4, 31, 32, 33, 99999} {
			if d == n || (n > 4) != (d > 4) && n != 99999 {
				continue // popping exactly as many as stored: whether the flags are reset is left open
			}
			n := n
			add(fmt.Sprintf("pop keyboard flags %d", n), fmt.Sprintf("[<%du", n), d, func(x *Exp) []*Exp { return pop(x, n) })
		}
	}
	// as many as are stored: all entries leave the stack
	for _, d := range []int{1, 2, 3, 32} {
		d := d
		add(fmt.Sprintf("pop keyboard flags %d", d), fmt.Sprintf("[<%du", d), d, func(x *Exp) []*Exp {
			i := x.act()
			set(x, x.ks[i][0].(Int).Lin)
			x.ks[i] = nil
			return just(x)
		})
	}
	return out
}

// ---- text

func textScenarios() []*scenario {
	var out []*scenario
	// written says that n cells from (cx, cy) on show f(offset).
	put := func(x *Exp, r0, c0, n Lin, f func(o Lin) Cell) {
		i := x.act()
		prev := x.cell[i]
		style := x.cur().style
		x.cell[i] = func(st *State, r, c Lin) []cellOut {
			yes, no := x.w.e.branch(st, condAll(condEQ(r, r0), condGE(c, c0), condLT(c, c0.add(n))))
			var outs []cellOut
			for _, s := range yes {
				k := f(s.norm(c.sub(c0)))
				k.style = style
				outs = append(outs, cellOut{s, k})
			}
			for _, s := range no {
				if prev != nil {
					outs = append(outs, prev(s, r, c)...)
				} else {
					outs = append(outs, x.before(i, s, r, c)...)
				}
			}
			return outs
		}
	}
	nextLine := func(x *Exp) []*Exp { x.cur().cx = Lin{}; return x.index() }
	wrapOn := func(v bool) func(w *World, in *Init) {
		return func(w *World, in *Init) {
			i := 0
			if in.alt {
				i = 1
			}
			in.s[i].wrap = boolC(v)
			w.set(in.st, w.scr[i], w.scrT, "autoWrap", boolC(v))
		}
	}
	// a run of single-width characters that fits, as the reader delivers it
	run := &scenario{name: "text that fits", class: "text", prep: wrapOn(true)}
	run.text = func(w *World, in *Init) (Str, Lin) {
		n := w.sym("n")
		in.args = []Lin{n}
		s := in.cur()
		in.st.addGE(n.plus(-1))
		in.st.addGE(s.W.sub(s.cx).sub(n))
		return Str{p: []Piece{{kind: 't', id: 1, lin: n}}}, n
	}
	run.spec = func(x *Exp) []*Exp {
		n := x.in.args[0]
		s := *x.cur()
		put(x, s.cy, s.cx, n, func(o Lin) Cell { return Cell{kind: 'T', id: 1, off: o} })
		return x.on(condEQ(s.cx.add(n), s.W), nextLine, func(x *Exp) []*Exp { x.cur().cx = s.cx.add(n); return just(x) })
	}
	out = append(out, run)
	// autowrap off: a run that fits
	nowrap := &scenario{name: "text without autowrap", class: "text", prep: wrapOn(false), text: run.text}
	nowrap.spec = func(x *Exp) []*Exp {
		n := x.in.args[0]
		s := *x.cur()
		put(x, s.cy, s.cx, n, func(o Lin) Cell { return Cell{kind: 'T', id: 1, off: o} })
		return x.on(condEQ(s.cx.add(n), s.W), func(x *Exp) []*Exp { x.cur().cx = s.W.plus(-1); return just(x) }, func(x *Exp) []*Exp { x.cur().cx = s.cx.add(n); return just(x) })
	}
	out = append(out, nowrap)
	// and one that does not
	over := &scenario{name: "text beyond the edge without autowrap", class: "text", prep: wrapOn(false)}
	over.text = func(w *World, in *Init) (Str, Lin) {
		n := w.sym("n")
		in.args = []Lin{n}
		s := in.cur()
		in.st.addGE(n.sub(s.W.sub(s.cx)).plus(-1))
		return Str{p: []Piece{{kind: 't', id: 1, lin: n}}}, n
	}
	over.spec = func(x *Exp) []*Exp {
		n := x.in.args[0]
		s := *x.cur()
		put(x, s.cy, s.cx, s.W.sub(s.cx).plus(-1), func(o Lin) Cell { return Cell{kind: 'T', id: 1, off: o} })
		put(x, s.cy, s.W.plus(-1), linC(1), func(o Lin) Cell { return Cell{kind: 'T', id: 1, off: n.plus(-1)} })
		x.cur().cx = s.W.plus(-1)
		return just(x)
	}
	out = append(out, over)
	// autowrap on: a run that continues on the next line
	around := &scenario{name: "text around the edge", class: "text", prep: wrapOn(true)}
	around.text = func(w *World, in *Init) (Str, Lin) {
		n := w.sym("n")
		in.args = []Lin{n}
		s := in.cur()
		in.st.addGE(n.sub(s.W.sub(s.cx)).plus(-1))
		in.st.addGE(s.W.sub(s.cx).add(s.W).sub(n))
		return Str{p: []Piece{{kind: 't', id: 1, lin: n}}}, n
	}
	around.spec = func(x *Exp) []*Exp {
		n := x.in.args[0]
		s := *x.cur()
		first := s.W.sub(s.cx)
		put(x, s.cy, s.cx, first, func(o Lin) Cell { return Cell{kind: 'T', id: 1, off: o} })
		var outs []*Exp
		for _, x := range nextLine(x) {
			put(x, x.cur().cy, Lin{}, n.sub(first), func(o Lin) Cell { return Cell{kind: 'T', id: 1, off: first.add(o)} })
			outs = append(outs, x.on(condEQ(n.sub(first), s.W), nextLine, func(x *Exp) []*Exp { x.cur().cx = n.sub(first); return just(x) })...)
		}
		return outs
	}
	out = append(out, around)
	// sequences of characters of given widths
	var seqs [][]int64
	for _, a := range []int64{1, 2} {
		seqs = append(seqs, []int64{a})
		for _, b := range []int64{1, 2} {
			seqs = append(seqs, []int64{a, b})
			for _, c := range []int64{1, 2} {
				seqs = append(seqs, []int64{a, b, c})
			}
		}
	}
	for _, ws := range seqs {
		for _, wrap := range []bool{true, false} {
			ws, wrap := ws, wrap
			sc := &scenario{name: fmt.Sprintf("characters of widths %v, autowrap %v", ws, wrap), class: "text", prep: wrapOn(wrap)}
			sc.text = func(w *World, in *Init) (Str, Lin) {
				var text Str
				total := Lin{}
				in.wide = map[int]int64{}
				for k, cw := range ws {
					in.wide[10+k] = cw
					b := w.sym(fmt.Sprintf("bytes%d", k))
					in.st.addGE(b.plus(-1))
					in.st.addGE(linC(64).sub(b))
					text.p = append(text.p, Piece{kind: 't', id: 10 + k, lin: b, cl: &Clus{id: 10 + k, width: linC(cw), bytes: b, name: fmt.Sprintf("char%d", k)}})
					total = total.plus(cw)
				}
				if s := in.cur(); wrap && len(ws) > 2 && !thorough() {
					in.st.addGE(s.W.sub(s.cx).sub(total))
				}
				return text, total
			}
			sc.spec = func(x *Exp) []*Exp {
				cur := []*Exp{x}
				for k, cw := range ws {
					k, cw := k, cw
					var next []*Exp
					for _, y := range cur {
						write := func(y *Exp) []*Exp {
							s := *y.cur()
							put(y, s.cy, s.cx, linC(cw), func(o Lin) Cell { return Cell{kind: 'T', id: 1<<20 + 10 + k, off: o} })
							return y.on(condGE(s.cx.plus(cw), s.W), func(z *Exp) []*Exp {
								if wrap {
									return nextLine(z)
								}
								z.cur().cx = s.W.plus(-1)
								return just(z)
							}, func(z *Exp) []*Exp { z.cur().cx = s.cx.plus(cw); return just(z) })
						}
						next = append(next, y.on(condGT(linC(cw), y.cur().W), func(y *Exp) []*Exp {
							// wider than the screen: what is shown is left open, but it is not half a character
							y.skip["content"], y.skip["cursor"] = true, true
							return nil
						}, func(y *Exp) []*Exp {
							return y.on(condGT(y.cur().cx.plus(cw), y.cur().W), func(y *Exp) []*Exp {
								if wrap {
									var outs []*Exp
									for _, z := range nextLine(y) {
										outs = append(outs, write(z)...)
									}
									return outs
								}
								y.cur().cx = y.cur().W.plus(-cw)
								return write(y)
							}, write)
						})...)
					}
					cur = next
				}
				return cur
			}
			sc.cuts = len(ws) - 1
			out = append(out, sc)
		}
	}
	for _, sc := range out {
		sc := sc
		sc.run = func(w *World, in *Init) []Outcome {
			t, n := sc.text(w, in)
			return w.texts(in, []Str{t}, []Lin{n})
		}
	}
	return out
}

// splitScenarios: text delivered in two reads has the effect it has in one.
func splitScenarios() []*scenario {
	var out []*scenario
	for _, sc := range textScenarios() {
		for k := 0; k < max(1, sc.cuts); k++ {
			if sc.class != "text" || strings.HasPrefix(sc.name, "characters") && sc.cuts == 0 {
				continue
			}
			n, k := *sc, k
			n.name += ", in two reads"
			if sc.cuts > 1 {
				n.name += fmt.Sprintf(" (%d and %d)", k+1, sc.cuts-k)
			}
			n.run = func(w *World, in *Init) []Outcome {
				t, width := sc.text(w, in)
				if len(t.p) > 1 {
					first := Lin{}
					for _, p := range t.p[:k+1] {
						first = first.add(p.cl.width)
					}
					return w.texts(in, []Str{{p: t.p[:k+1]}, {p: t.p[k+1:]}}, []Lin{first, width.sub(first)})
				}
				c := w.sym("cut")
				in.st.pushCon(c.plus(-1))
				if !in.st.addGE(width.sub(c).plus(-1)) {
					return nil
				}
				p := t.p[0]
				return w.texts(in, []Str{{p: []Piece{{kind: 't', id: p.id, lin: c}}}, {p: []Piece{{kind: 't', id: p.id, off: c, lin: width.sub(c)}}}}, []Lin{c, width.sub(c)})
			}
			out = append(out, &n)
		}
	}
	return out
}
