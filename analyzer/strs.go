package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Strings and byte sequences as lists of pieces.

func (e *Engine) pieceLen(st *State, p Piece) Lin {
	switch p.kind {
	case 'c':
		return linC(int64(len(p.s)))
	case 'b':
		return linC(1)
	case 'r':
		l := st.norm(p.lin)
		if l.isC() {
			return linC(int64(len(string(rune(l.c)))))
		}
		if st.entailsGE(l) && st.entailsGE(linC(127).sub(l)) {
			return linC(1)
		}
		return st.ufm("runelen", []Lin{l}, nil, func(s Lin, a []Lin) []Lin { return []Lin{s.plus(-1), linC(4).sub(s)} })
	case 'd':
		l := st.norm(p.lin)
		return st.ufm("declen", []Lin{l}, nil, func(s Lin, a []Lin) []Lin { return []Lin{s.plus(-1), linC(20).sub(s)} })
	case 't':
		if p.cl != nil {
			return st.norm(p.cl.bytes)
		}
		return st.norm(p.lin)
	case 'x', 'a':
		return st.norm(p.lin)
	case 'p':
		n := Lin{}
		for _, q := range p.sub {
			n = n.add(e.pieceLen(st, q))
		}
		if n.isC() {
			return st.norm(p.n).scale(n.c)
		}
		return st.ufm("mul", []Lin{p.n, n}, nil, func(s Lin, a []Lin) []Lin { return []Lin{s} })
	}
	panic("pieceLen")
}

func (e *Engine) strLen(st *State, s Str) Lin {
	n := Lin{}
	for _, p := range s.p {
		n = n.add(e.pieceLen(st, p))
	}
	return st.norm(n)
}

// strIndex is byte i of s; i is known to be in range.
func (e *Engine) strIndex(st *State, s Str, i Lin, pos token.Pos, fn *ssa.Function) []Outcome {
	i = st.norm(i)
	at := Lin{}
	var outs []Outcome
	for _, p := range s.p {
		n := e.pieceLen(st, p)
		in := condLT(i, at.add(n))
		yes, no := e.branch(st, in)
		for _, y := range yes {
			outs = append(outs, e.pieceByte(y, p, y.norm(i.sub(at)))...)
		}
		if len(no) == 0 {
			return outs
		}
		if len(no) > 1 {
			panic("strIndex split")
		}
		st = no[0]
		at = st.norm(at.add(n))
	}
	return append(outs, panicOut(st, "index out of range", pos, fn)...)
}

func (e *Engine) pieceByte(st *State, p Piece, k Lin) []Outcome {
	switch p.kind {
	case 'b':
		return one(st, Int{st.norm(p.lin)})
	case 'c':
		if k.isC() {
			return one(st, Int{linC(int64(p.s[k.c]))})
		}
		return e.enumerate(st, k, 0, int64(len(p.s)-1), func(s *State, n int64) Value { return Int{linC(int64(p.s[n]))} })
	case 't':
		if p.cl == nil {
			return one(st, Int{st.ufm("char", []Lin{linC(int64(p.id)), p.off.add(k)}, nil, func(s Lin, a []Lin) []Lin { return []Lin{s.plus(-32), linC(126).sub(s)} })})
		}
		return one(st, Int{st.ufm("cbyte", []Lin{linC(int64(p.cl.id)), k}, nil, func(s Lin, a []Lin) []Lin { return []Lin{s.plus(-32), linC(255).sub(s)} })})
	case 'r':
		l := st.norm(p.lin)
		if st.entailsGE(l) && st.entailsGE(linC(127).sub(l)) {
			return one(st, Int{l})
		}
	}
	if p.kind == 'a' {
		return e.arrRead(st, p.arr, st.norm(p.off.add(k)))
	}
	st.taint("byte of an opaque piece")
	return one(st, Unknown{"byte"})
}

// strSlice is s[lo:hi] with bounds known to be in range.
func (e *Engine) strSlice(st *State, s Str, lo, hi Lin) []Outcome {
	type job struct {
		st  *State
		k   int
		at  Lin
		out Str
	}
	var outs []Outcome
	jobs := []job{{st: st}}
	for len(jobs) > 0 {
		j := jobs[len(jobs)-1]
		jobs = jobs[:len(jobs)-1]
		if j.k == len(s.p) {
			outs = append(outs, Outcome{st: j.st, val: j.out})
			continue
		}
		p := s.p[j.k]
		n := e.pieceLen(j.st, p)
		end := j.st.norm(j.at.add(n))
		// entirely before lo, or entirely after hi
		before, rest := e.branch(j.st, condLE(end, lo))
		for _, b := range before {
			jobs = append(jobs, job{b, j.k + 1, end, j.out})
		}
		for _, r := range rest {
			after, in := e.branch(r, condGE(j.at, hi))
			for _, a := range after {
				outs = append(outs, Outcome{st: a, val: j.out})
			}
			for _, x := range in {
				whole, cut := e.branch(x, condAll(condLE(lo, j.at), condLE(end, hi)))
				for _, w := range whole {
					jobs = append(jobs, job{w, j.k + 1, end, strCat(j.out, Str{p: []Piece{p}})})
				}
				for _, c := range cut {
					for _, cc := range e.cutPiece(c, p, j.at, end, lo, hi) {
						v, ok := cc.val.(Str)
						if !ok {
							outs = append(outs, cc)
							continue
						}
						jobs = append(jobs, job{cc.st, j.k + 1, end, strCat(j.out, v)})
					}
				}
			}
		}
	}
	return outs
}

// cutPiece is the part of p (at [at,end)) inside [lo,hi).
func (e *Engine) cutPiece(st *State, p Piece, at, end, lo, hi Lin) []Outcome {
	a, b := Lin{}, st.norm(end.sub(at))
	var outs []Outcome
	l, nl := e.branch(st, condGT(lo, at))
	fin := func(s *State, a Lin) {
		h, nh := e.branch(s, condLT(hi, end))
		for _, x := range h {
			outs = append(outs, e.subPiece(x, p, a, x.norm(hi.sub(at)))...)
		}
		for _, x := range nh {
			outs = append(outs, e.subPiece(x, p, a, b)...)
		}
	}
	for _, s := range l {
		fin(s, s.norm(lo.sub(at)))
	}
	for _, s := range nl {
		fin(s, a)
	}
	return outs
}

func (e *Engine) subPiece(st *State, p Piece, a, b Lin) []Outcome {
	switch p.kind {
	case 'a':
		p.off, p.lin = st.norm(p.off.add(a)), st.norm(b.sub(a))
		return one(st, Str{p: []Piece{p}})
	case 'c':
		if a.isC() && b.isC() {
			return one(st, strC(p.s[a.c:b.c]))
		}
		var outs []Outcome
		for _, o := range e.enumerate(st, a, 0, int64(len(p.s)), func(s *State, n int64) Value { return Int{linC(n)} }) {
			x, ok := o.val.(Int)
			if !ok {
				outs = append(outs, o)
				continue
			}
			for _, o2 := range e.enumerate(o.st, b, x.c, int64(len(p.s)), func(s *State, n int64) Value { return strC(p.s[x.c:n]) }) {
				outs = append(outs, o2)
			}
		}
		return outs
	case 't':
		if p.cl == nil {
			return one(st, Str{p: []Piece{{kind: 't', id: p.id, off: st.norm(p.off.add(a)), lin: st.norm(b.sub(a))}}})
		}
	case 'p':
		if c, ok := repeatChar(p); ok {
			n := st.norm(b.sub(a))
			if n.isC() && n.c < 64 {
				return one(st, strC(strings.Repeat(c, int(n.c))))
			}
			return one(st, Str{p: []Piece{{kind: 'p', n: n, sub: p.sub}}})
		}
	}
	// part of a cluster, number or rune: an invalid fragment
	e.opaque++
	return one(st, Str{p: []Piece{{kind: 'x', id: 1000000 + e.opaque, s: "a fragment of " + showPiece(e, p), lin: st.norm(b.sub(a))}}})
}

// repeatChar is the single one-byte character a piece repeats.
func repeatChar(p Piece) (string, bool) {
	if p.kind != 'p' || len(p.sub) != 1 || p.sub[0].kind != 'c' || len(p.sub[0].s) != 1 || p.ksym != 0 {
		return "", false
	}
	return p.sub[0].s, true
}

// strEqual compares strings; the result is a Bool or Unknown.
func (e *Engine) strEqual(st *State, a, b Str) Value {
	x, ok1 := a.constVal()
	y, ok2 := b.constVal()
	if ok1 && ok2 {
		return boolC(x == y)
	}
	if ok1 && x == "" {
		return condEQ(e.strLen(st, b), Lin{})
	}
	if ok2 && y == "" {
		return condEQ(e.strLen(st, a), Lin{})
	}
	pa, pb := splitConst(a.p), splitConst(b.p)
	if hasRepeat(pa) || hasRepeat(pb) {
		pa, pb = foldRepeats(st, pa), foldRepeats(st, pb)
	}
	cond := bTrue
	for len(pa) > 0 && len(pb) > 0 {
		p, q := pa[0], pb[0]
		if pieceSame(st, p, q) {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		pv, pok := unitVal(st, p)
		qv, qok := unitVal(st, q)
		if p.kind == 'p' || q.kind == 'p' {
			pu, pn, ok1 := repeatUnit(st, p)
			qu, qn, ok2 := repeatUnit(st, q)
			if !ok1 || !ok2 || !st.entailsEQ(pn.sub(qn)) || !st.entailsGE(pn.plus(-1)) {
				return Unknown{"string comparison"}
			}
			pv, qv, pok, qok = pu, qu, true, true
		}
		if !pok || !qok {
			if p.kind == 'd' && q.kind == 'd' && endsNumber(pa[1:]) && endsNumber(pb[1:]) {
				cond = condAll(cond, condEQ(p.lin, q.lin))
				pa, pb = pa[1:], pb[1:]
				continue
			}
			if p.kind == 'c' && q.kind == 'd' {
				p, q, pa, pb = q, p, pb, pa
			}
			if p.kind == 'd' && q.kind == 'c' && st.entailsGE(p.lin) {
				if q.s[0] < '0' || q.s[0] > '9' {
					return bFalse
				}
				n, k := int64(0), 0
				for k < len(pb) && k < 18 && pb[k].kind == 'c' && pb[k].s[0] >= '0' && pb[k].s[0] <= '9' {
					n = n*10 + int64(pb[k].s[0]-'0')
					k++
				}
				if endsNumber(pa[1:]) && endsNumber(pb[k:]) && k < 18 {
					if k > 1 && q.s == "0" {
						return bFalse
					}
					cond = condAll(cond, condEQ(p.lin, linC(n)))
					if st.decide(cond) == 0 {
						return bFalse
					}
					pa, pb = pa[1:], pb[k:]
					continue
				}
			}
			if p.kind == 't' && q.kind == 't' && p.cl != nil && q.cl != nil && p.cl.id != q.cl.id {
				return bFalse // distinct clusters are taken to be different characters
			}
			if len(pa) == 1 && len(pb) == 1 {
				if several(p) && q.kind == 'r' || several(q) && p.kind == 'r' {
					return bFalse
				}
				if q.kind == 't' {
					p, q = q, p
				}
				if p.kind == 't' && p.cl != nil && p.cl.rune != nil && q.kind == 'r' {
					return condAll(cond, condEQ(*p.cl.rune, q.lin))
				}
			}
			return Unknown{"string comparison"}
		}
		cond = condAll(cond, condEQ(pv, qv))
		if st.decide(cond) == 0 {
			return bFalse
		}
		pa, pb = pa[1:], pb[1:]
	}
	rest := append(append([]Piece{}, pa...), pb...)
	return condAll(cond, condEQ(e.strLen(st, Str{p: rest}), Lin{}))
}

func hasRepeat(ps []Piece) bool {
	for _, p := range ps {
		if p.kind == 'p' {
			return true
		}
	}
	return false
}

// repeatUnit is a single character and how often the piece repeats it.
func repeatUnit(st *State, p Piece) (val, n Lin, ok bool) {
	if p.kind == 'p' {
		if len(p.sub) != 1 || p.ksym != 0 {
			return Lin{}, Lin{}, false
		}
		val, ok = unitVal(st, p.sub[0])
		return val, st.norm(p.n), ok
	}
	val, ok = unitVal(st, p)
	return val, linC(1), ok
}

// foldRepeats joins neighbouring repetitions of the same character and drops empty ones.
func foldRepeats(st *State, ps []Piece) []Piece {
	var out []Piece
	for _, p := range ps {
		v, n, ok := repeatUnit(st, p)
		if p.kind == 'p' && st.entailsEQ(st.norm(p.n)) {
			continue
		}
		if k := len(out) - 1; ok && k >= 0 {
			if u, m, ok := repeatUnit(st, out[k]); ok && st.entailsEQ(u.sub(v)) {
				q := Piece{kind: 'p', n: st.norm(m.add(n)), sub: []Piece{p}}
				if p.kind == 'p' {
					q.sub = p.sub
				}
				out[k] = q
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

// endsNumber: the next character, if any, is not a digit.
func endsNumber(ps []Piece) bool {
	return len(ps) == 0 || ps[0].kind == 'c' && (ps[0].s[0] < '0' || ps[0].s[0] > '9')
}

// splitConst breaks constants into runes.
func splitConst(ps []Piece) []Piece {
	var out []Piece
	for _, p := range ps {
		if p.kind == 'c' {
			for _, r := range p.s {
				out = append(out, Piece{kind: 'c', s: string(r)})
			}
			continue
		}
		out = append(out, p)
	}
	return out
}

// unitVal is the code point of a single-character piece.
func unitVal(st *State, p Piece) (Lin, bool) {
	switch p.kind {
	case 'c':
		for _, r := range p.s {
			return linC(int64(r)), true
		}
	case 'r':
		return st.norm(p.lin), true
	case 'b':
		l := st.norm(p.lin)
		if st.entailsGE(l) && st.entailsGE(linC(127).sub(l)) {
			return l, true
		}
	}
	return Lin{}, false
}

func pieceSame(st *State, p, q Piece) bool {
	if p.kind != q.kind || p.s != q.s || p.id != q.id || p.arr != q.arr {
		return false
	}
	if (p.cl == nil) != (q.cl == nil) || p.cl != nil && p.cl.id != q.cl.id {
		return false
	}
	if p.kind == 'p' {
		if len(p.sub) != len(q.sub) || p.ksym != 0 || q.ksym != 0 || !st.entailsEQ(p.n.sub(q.n)) {
			return false
		}
		for i := range p.sub {
			if !pieceSame(st, p.sub[i], q.sub[i]) {
				return false
			}
		}
		return true
	}
	return st.entailsEQ(p.lin.sub(q.lin)) && st.entailsEQ(p.off.sub(q.off))
}

func showPiece(e *Engine, p Piece) string {
	switch p.kind {
	case 'c':
		return quoteC(p.s)
	case 'd':
		return "<decimal " + p.lin.str(e.symName) + ">"
	case 'r':
		return "<rune " + p.lin.str(e.symName) + ">"
	case 'b':
		return "<byte " + p.lin.str(e.symName) + ">"
	case 't':
		if p.cl != nil {
			return "<" + p.cl.name + ">"
		}
		return "<text [" + p.off.str(e.symName) + ",+" + p.lin.str(e.symName) + ")>"
	}
	if p.kind == 'p' {
		return showStr(e, Str{p: p.sub}) + "*(" + p.n.str(e.symName) + ")"
	}
	if p.kind == 'a' {
		return "<" + p.lin.str(e.symName) + " bytes>"
	}
	return "<" + p.s + ">"
}

func quoteC(s string) string {
	s = strings.ReplaceAll(s, "\x1b", "ESC")
	return "\"" + s + "\""
}

func showStr(e *Engine, s Str) string {
	if len(s.p) == 0 {
		return "\"\""
	}
	var out []string
	for _, p := range s.p {
		out = append(out, showPiece(e, p))
	}
	return strings.Join(out, " ")
}

// several: a cluster known to have more than one rune.
func several(p Piece) bool { return p.kind == 't' && p.cl != nil && p.cl.multi }
