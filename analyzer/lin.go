package main

import (
	"fmt"
	"sort"
	"strings"
)

// The numeric domain: conjunctions of linear inequalities over integer symbols (convex
// polyhedra with integer tightening), plus disequalities. Emptiness and entailment are
// decided by variable elimination; a query the cap cuts short counts as "possible", which
// only ever loses precision.

// Sym is an integer symbol: a program quantity whose value is not known.
type Sym int

type linTerm struct {
	s Sym
	k int64
}

// Lin is c + sum k_i*s_i. Values are immutable; terms are sorted by symbol.
type Lin struct {
	c int64
	t []linTerm
}

func linC(c int64) Lin      { return Lin{c: c} }
func linS(s Sym) Lin        { return Lin{t: []linTerm{{s, 1}}} }
func (l Lin) isC() bool     { return len(l.t) == 0 }
func (l Lin) neg() Lin      { return l.scale(-1) }
func (l Lin) add(m Lin) Lin { return l.addk(m, 1) }
func (l Lin) sub(m Lin) Lin { return l.addk(m, -1) }
func (l Lin) plus(c int64) Lin {
	return Lin{c: l.c + c, t: l.t}
}

func (l Lin) scale(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	if k == 1 {
		return l
	}
	out := Lin{c: l.c * k, t: make([]linTerm, len(l.t))}
	for i, x := range l.t {
		out.t[i] = linTerm{x.s, x.k * k}
	}
	return out
}

func (l Lin) addk(m Lin, k int64) Lin {
	if len(m.t) == 0 {
		return Lin{c: l.c + k*m.c, t: l.t}
	}
	out := Lin{c: l.c + k*m.c, t: make([]linTerm, 0, len(l.t)+len(m.t))}
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j == len(m.t) || i < len(l.t) && l.t[i].s < m.t[j].s:
			out.t = append(out.t, l.t[i])
			i++
		case i == len(l.t) || m.t[j].s < l.t[i].s:
			out.t = append(out.t, linTerm{m.t[j].s, k * m.t[j].k})
			j++
		default:
			if s := l.t[i].k + k*m.t[j].k; s != 0 {
				out.t = append(out.t, linTerm{l.t[i].s, s})
			}
			i++
			j++
		}
	}
	return out
}

func (l Lin) coef(s Sym) int64 {
	for _, x := range l.t {
		if x.s == s {
			return x.k
		}
	}
	return 0
}

// subst replaces s by e.
func (l Lin) subst(s Sym, e Lin) Lin {
	k := l.coef(s)
	if k == 0 {
		return l
	}
	rest := Lin{c: l.c}
	for _, x := range l.t {
		if x.s != s {
			rest.t = append(rest.t, x)
		}
	}
	return rest.addk(e, k)
}

func (l Lin) eq(m Lin) bool {
	if l.c != m.c || len(l.t) != len(m.t) {
		return false
	}
	for i := range l.t {
		if l.t[i] != m.t[i] {
			return false
		}
	}
	return true
}

func (l Lin) key() string {
	var sb strings.Builder
	for _, x := range l.t {
		fmt.Fprintf(&sb, "%d*%d+", x.k, x.s)
	}
	fmt.Fprintf(&sb, "%d", l.c)
	return sb.String()
}

func (l Lin) str(name func(Sym) string) string {
	var sb strings.Builder
	for i, x := range l.t {
		switch {
		case x.k == 1 && i > 0:
			sb.WriteString("+")
		case x.k == -1:
			sb.WriteString("-")
		case x.k != 1 && i > 0 && x.k > 0:
			fmt.Fprintf(&sb, "+%d*", x.k)
		case x.k != 1:
			fmt.Fprintf(&sb, "%d*", x.k)
		}
		sb.WriteString(name(x.s))
	}
	if l.c != 0 || len(l.t) == 0 {
		if l.c >= 0 && len(l.t) > 0 {
			sb.WriteString("+")
		}
		fmt.Fprintf(&sb, "%d", l.c)
	}
	return sb.String()
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tighten divides an inequality l >= 0 by the gcd of its coefficients, rounding the constant.
func (l Lin) tighten() Lin {
	if len(l.t) == 0 {
		return l
	}
	g := int64(0)
	for _, x := range l.t {
		g = gcd64(g, x.k)
	}
	if g <= 1 {
		return l
	}
	out := Lin{c: floorDiv(l.c, g), t: make([]linTerm, len(l.t))}
	for i, x := range l.t {
		out.t[i] = linTerm{x.s, x.k / g}
	}
	return out
}

func (l Lin) vecKey() string {
	var sb strings.Builder
	for _, x := range l.t {
		fmt.Fprintf(&sb, "%d*%d+", x.k, x.s)
	}
	return sb.String()
}

// consistent decides whether the conjunction of l >= 0 has a solution (rational relaxation
// with integer tightening). seed, when given, limits the search to constraints connected to
// its symbols.
func consistent(cons []Lin, seed *Lin) bool {
	if seed != nil {
		if len(seed.t) == 0 {
			return seed.c >= 0
		}
		cons = append(connected(cons, *seed), *seed)
	}
	return fmFeasible(cons)
}

func connected(cons []Lin, seed Lin) []Lin {
	syms := map[Sym]bool{}
	for _, x := range seed.t {
		syms[x.s] = true
	}
	used := make([]bool, len(cons))
	var out []Lin
	for changed := true; changed; {
		changed = false
		for i, c := range cons {
			if used[i] {
				continue
			}
			hit := false
			for _, x := range c.t {
				if syms[x.s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				for _, x := range c.t {
					syms[x.s] = true
				}
			}
		}
	}
	return out
}

const fmCap = 3000

var fmCut int // queries cut short by the cap

func fmFeasible(cons []Lin) bool {
	// keep the tightest constraint per coefficient vector
	best := map[string]Lin{}
	add := func(l Lin) bool {
		l = l.tighten()
		if len(l.t) == 0 {
			return l.c >= 0
		}
		k := l.vecKey()
		if o, ok := best[k]; !ok || l.c < o.c {
			best[k] = l
		}
		return true
	}
	for _, l := range cons {
		if !add(l) {
			return false
		}
	}
	for {
		// opposite pairs: l >= 0 and -l + c >= 0 with a negative sum
		pos, neg := map[Sym]int{}, map[Sym]int{}
		for _, l := range best {
			for _, x := range l.t {
				if x.k > 0 {
					pos[x.s]++
				} else {
					neg[x.s]++
				}
			}
		}
		if len(pos)+len(neg) == 0 {
			return true
		}
		// choose the symbol whose elimination adds least
		var pick Sym = -1
		bestCost := 1 << 30
		syms := make([]Sym, 0, len(pos)+len(neg))
		for s := range pos {
			syms = append(syms, s)
		}
		for s := range neg {
			if _, ok := pos[s]; !ok {
				syms = append(syms, s)
			}
		}
		sort.Slice(syms, func(i, j int) bool { return syms[i] < syms[j] })
		for _, s := range syms {
			p, n := pos[s], neg[s]
			cost := p*n - p - n
			if cost < bestCost {
				bestCost, pick = cost, s
			}
		}
		var ps, ns, rest []Lin
		for _, l := range best {
			switch k := l.coef(pick); {
			case k > 0:
				ps = append(ps, l)
			case k < 0:
				ns = append(ns, l)
			default:
				rest = append(rest, l)
			}
		}
		best = map[string]Lin{}
		for _, l := range rest {
			best[l.vecKey()] = l
		}
		for _, p := range ps {
			for _, n := range ns {
				kp, kn := p.coef(pick), -n.coef(pick)
				g := gcd64(kp, kn)
				comb := p.scale(kn/g).addk(n, kp/g)
				if !add(comb) {
					return false
				}
			}
		}
		if len(best) > fmCap {
			fmCut++
			return true
		}
	}
}
