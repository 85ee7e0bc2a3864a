package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// The specification side: scenarios (one operation applied to an arbitrary well-formed state)
// with the state they must lead to, and the comparison of the two, aspect by aspect.

// Exp is the state an operation must lead to on one partition.
type Exp struct {
	w    *World
	in   *Init
	st   *State
	s    [2]Scr
	cell [2]cellFn // nil: unchanged
	alt  bool
	out  Str
	flag map[int]Value // changed view flags
	ints map[int]Value
	strs map[int]Value
	kf   [2]Lin     // keyboard flags
	ks   [2][]Value // keyboard stacks
	bell int
	told []told // notifications it must send
	// what the reply must look like, when it is not fixed; the answer says what is wrong
	outLike func(s string) string
	// lines announced through ScrollLines (nil: not specified)
	scrolled  *Lin
	lost      []lostRows
	val       Value           // what the operation returned
	fail      string          // what the returned value violates
	must      []claim         // further conditions on the result
	maySilent bool            // writing nothing is fine too
	outAlts   []Str           // other acceptable replies
	rest      *Str            // input that must be left
	skip      map[string]bool // aspects this operation leaves open
	anyRegion [2]bool         // the scroll region only has to be valid
}

type claim struct {
	cond Bool
	text string
}

type cellFn func(st *State, r, c Lin) []cellOut

func (x *Exp) clone(st *State) *Exp {
	n := *x
	n.st = st
	n.flag, n.ints, n.strs = map[int]Value{}, map[int]Value{}, map[int]Value{}
	for k, v := range x.flag {
		n.flag[k] = v
	}
	for k, v := range x.ints {
		n.ints[k] = v
	}
	for k, v := range x.strs {
		n.strs[k] = v
	}
	n.skip = map[string]bool{}
	for k, v := range x.skip {
		n.skip[k] = v
	}
	n.ks[0] = append([]Value{}, x.ks[0]...)
	n.ks[1] = append([]Value{}, x.ks[1]...)
	return &n
}

// act is the index of the active screen.
func (x *Exp) act() int {
	if x.alt {
		return 1
	}
	return 0
}

func (x *Exp) cur() *Scr { return &x.s[x.act()] }

// on splits the expectation on a condition.
func (x *Exp) on(c Bool, yes, no func(x *Exp) []*Exp) []*Exp {
	a, b := x.w.e.branch(x.st, c)
	var outs []*Exp
	for _, s := range a {
		outs = append(outs, yes(x.clone(s))...)
	}
	for _, s := range b {
		outs = append(outs, no(x.clone(s))...)
	}
	return outs
}

func just(x *Exp) []*Exp { return []*Exp{x} }

// clampTo calls f with v limited to [lo, hi].
func (x *Exp) clampTo(v, lo, hi Lin, f func(x *Exp, v Lin) []*Exp) []*Exp {
	return x.on(condLT(v, lo), func(x *Exp) []*Exp { return f(x, lo) }, func(x *Exp) []*Exp {
		return x.on(condGT(v, hi), func(x *Exp) []*Exp { return f(x, hi) }, func(x *Exp) []*Exp { return f(x, v) })
	})
}

// moveTo puts the cursor at the place nearest to (cx, cy).
func (x *Exp) moveTo(cx, cy Lin) []*Exp {
	return x.clampTo(cx, Lin{}, x.cur().W.plus(-1), func(x *Exp, v Lin) []*Exp {
		x.cur().cx = v
		return x.clampTo(cy, Lin{}, x.cur().H.plus(-1), func(x *Exp, v Lin) []*Exp {
			x.cur().cy = v
			return just(x)
		})
	})
}

// before is a cell of the state the operation started in.
func (x *Exp) before(i int, st *State, r, c Lin) []cellOut {
	return []cellOut{{st, Cell{kind: 'B', arr: i, row: st.norm(r), col: st.norm(c)}}}
}

func blankCell(style Value) Cell { return Cell{kind: 'R', r: linC(' '), style: style} }

// cells is the expected content of cell (r, c) of screen i.
func (x *Exp) cells(i int, st *State, r, c Lin) []cellOut {
	if x.cell[i] != nil {
		return x.cell[i](st, r, c)
	}
	return x.before(i, st, r, c)
}

// blankWhere blanks the cells of the active screen for which cond holds.
func (x *Exp) blankWhere(cond func(r, c Lin) Bool) []*Exp {
	i := x.act()
	prev := x.cell[i]
	style := x.cur().style
	x.cell[i] = func(st *State, r, c Lin) []cellOut {
		yes, no := x.w.e.branch(st, cond(r, c))
		var outs []cellOut
		for _, s := range yes {
			outs = append(outs, cellOut{s, blankCell(style)})
		}
		for _, s := range no {
			if prev != nil {
				outs = append(outs, prev(s, r, c)...)
			} else {
				outs = append(outs, x.before(i, s, r, c)...)
			}
		}
		return outs
	}
	return just(x)
}

// scrollRows moves rows [top, bot] of the active screen up by n>0 (down when up is false).
func (x *Exp) scrollRows(top, bot, n Lin, up bool) []*Exp {
	i := x.act()
	prev := x.cell[i]
	under := func(st *State, r, c Lin) []cellOut {
		if prev != nil {
			return prev(st, r, c)
		}
		return x.before(i, st, r, c)
	}
	style := x.cur().style
	d := n
	keep := func(r Lin) Bool { return condLE(r.add(n), bot) }
	if !up {
		d = n.neg()
		keep = func(r Lin) Bool { return condGE(r.sub(n), top) }
	}
	x.cell[i] = func(st *State, r, c Lin) []cellOut {
		var outs []cellOut
		in, out := x.w.e.branch(st, condAll(condGE(r, top), condLE(r, bot)))
		for _, s := range out {
			outs = append(outs, under(s, r, c)...)
		}
		for _, s := range in {
			k, b := x.w.e.branch(s, keep(r))
			for _, y := range k {
				outs = append(outs, under(y, r.add(d), c)...)
			}
			for _, y := range b {
				outs = append(outs, cellOut{y, blankCell(style)})
			}
		}
		return outs
	}
	if up {
		// rows leaving the top of the main screen are announced first
		h := bot.sub(top).plus(1)
		lose := func(n Lin) func(x *Exp) []*Exp {
			return func(x *Exp) []*Exp {
				x.lose(n)
				if n.isC() && n.c == 0 {
					return just(x)
				}
				x.lost = append(append([]lostRows{}, x.lost...), lostRows{n, under})
				return just(x)
			}
		}
		return x.on(condAll(condEQ(top, Lin{}), boolC(i == 0)), func(x *Exp) []*Exp {
			return x.on(condGT(n, h), lose(h), lose(n))
		}, lose(Lin{}))
	}
	return just(x)
}

type lostRows struct {
	n    Lin
	cell cellFn
}

func (x *Exp) lose(n Lin) {
	if x.scrolled != nil {
		n = n.add(*x.scrolled)
	}
	x.scrolled = &n
}

// index moves the cursor down a row, scrolling the region at its bottom margin.
func (x *Exp) index() []*Exp {
	s := x.cur()
	return x.on(condEQ(s.cy, s.bot), func(x *Exp) []*Exp {
		s := x.cur()
		return x.scrollRows(s.top, s.bot, linC(1), true)
	}, func(x *Exp) []*Exp { s := x.cur(); return x.moveTo(s.cx, s.cy.plus(1)) })
}

func (x *Exp) reverseIndex() []*Exp {
	s := x.cur()
	return x.on(condEQ(s.cy, s.top), func(x *Exp) []*Exp {
		s := x.cur()
		return x.scrollRows(s.top, s.bot, linC(1), false)
	}, func(x *Exp) []*Exp { s := x.cur(); return x.moveTo(s.cx, s.cy.plus(-1)) })
}

// scenario is one operation on an arbitrary state.
type scenario struct {
	name   string
	class  string
	opt    initOpt
	grid   bool
	mode   int64
	noAlt  bool                                  // does not depend on the active screen
	prep   func(w *World, in *Init)              // narrows the initial state
	run    func(w *World, in *Init) []Outcome    // the operation
	spec   func(x *Exp) []*Exp                   // what it must do
	only   map[string]bool                       // aspects to compare; nil: all
	label  string                                // what sets it apart from others of the name
	text   func(w *World, in *Init) (Str, Lin)   // of a text scenario: the text and its width
	cuts   int                                   // places the text can be cut at
	err    string                                // the kind of error that occurs
	direct func(c *scnCtx)                       // an analysis of its own instead of run and spec
	width  func(w *World, in *Init) (w2, h2 Lin) // new size, for resizes
}

type obligation struct {
	aspect, key string
	verdict     int // 1 holds, 0 violated, -1 undecided
	text        string
}

// scnCtx collects the obligations of one scenario.
type scnCtx struct {
	sc   *scenario
	w    *World
	in   *Init
	alt  bool
	obls []obligation
	outs int
	bad  int
	want map[string]bool
}

func (c *scnCtx) add(aspect string, verdict int, text string) {
	if c.sc.direct != nil && !c.want[aspect] {
		return
	}
	c.obls = append(c.obls, obligation{aspect, c.sc.name + "/" + aspect, verdict, text})
	if verdict == 0 {
		foundOne()
		if c.bad++; c.bad >= maxBad {
			panic(enoughErr{})
		}
	}
}

// maxBad violations of one scenario are enough: the rest of it is not analysed.
const maxBad = 24

type enoughErr struct{}

// prove decides that cond holds on st.
func (c *scnCtx) prove(st *State, cond Bool, aspect string, text func() string) bool {
	if _, bad := st.tainted(); bad {
		c.add(aspect, -1, "")
		return false
	}
	if st.decide(cond) == 1 {
		c.add(aspect, 1, "")
		return true
	}
	if _, loose := st.ghost["approx"]; loose {
		c.add(aspect, -1, "")
		return false
	}
	n := st.fork()
	for _, s := range n.assume(cond.not()) {
		if m, ok := s.witness(); ok {
			c.add(aspect, 0, fmt.Sprintf("%s\n  for example: %s\n  path: %s", text(), c.w.showWitness(m), strings.Join(tail(st.path, 14), " > ")))
			return false
		}
	}
	c.add(aspect, -1, "")
	return false
}

func tail(xs []string, n int) []string {
	if len(xs) > n {
		return xs[len(xs)-n:]
	}
	return xs
}

func (c *scnCtx) proveV(st *State, got, want Value, aspect, what string) {
	b, ok := c.w.e.equal(st, st.normV(got), st.normV(want)).(Bool)
	if !ok {
		c.add(aspect, -1, "")
		return
	}
	c.prove(st, b, aspect, func() string {
		return fmt.Sprintf("%s is %s, it must be %s", what, c.w.e.showVal(st.normV(got)), c.w.e.showVal(st.normV(want)))
	})
}

// proveAny decides that got is one of the wanted values.
func (c *scnCtx) proveAny(st *State, got Value, want []Str, aspect, what string) {
	got = st.normV(got)
	cond := bFalse
	var all []string
	for _, w := range want {
		b, ok := c.w.e.equal(st, got, st.normV(w)).(Bool)
		if !ok {
			c.add(aspect, -1, "")
			return
		}
		all = append(all, c.w.e.showVal(st.normV(w)))
		if cond = condAny(cond, b); st.decide(cond) == 1 {
			break
		}
	}
	c.prove(st, cond, aspect, func() string {
		return fmt.Sprintf("%s is %s, it must be %s", what, c.w.e.showVal(got), strings.Join(all, " or "))
	})
}

// check runs the scenario and compares every aspect.
func (c *scnCtx) check() {
	w := c.w
	if c.sc.direct != nil {
		c.sc.direct(c)
		return
	}
	in := w.symbolic(c.sc.opt.with(c.alt))
	if c.sc.prep != nil {
		c.sc.prep(w, in)
	}
	c.in = in
	ev0 := len(in.st.events)
	for _, o := range c.sc.run(w, in) {
		c.outs++
		if o.panic != "" {
			if c.want["panic"] {
				c.panicked(o)
			}
			continue
		}
		if c.want["panic"] {
			c.add("panic", 1, "")
		}
		if c.sc.spec == nil {
			c.shape(o.st, nil)
			continue
		}
		x := &Exp{w: w, in: in, st: o.st, s: in.s, alt: in.alt, kf: in.kf, ks: in.ks, skip: map[string]bool{}}
		x.val = o.val
		x = x.clone(o.st)
		for _, y := range c.sc.spec(x) {
			c.compare(y, ev0)
		}
	}
}

func (c *scnCtx) panicked(o Outcome) {
	if why, bad := o.st.tainted(); bad {
		c.add("panic", -1, why)
		return
	}
	m, ok := o.st.witness()
	if _, loose := o.st.ghost["approx"]; !ok || loose {
		c.add("panic", -1, "")
		return
	}
	where := ""
	if o.in != nil {
		where = o.in.String() + " at " + c.w.e.t.Fset.Position(o.pos).String()
	}
	c.add("panic", 0, fmt.Sprintf("%s in %s\n  for example: %s\n  path: %s", o.panic, where, c.w.showWitness(m), strings.Join(tail(o.st.path, 14), " > ")))
}

func (c *scnCtx) wants(x *Exp, a string) bool {
	return c.want[a] && (c.sc.only == nil || c.sc.only[a]) && (x == nil || !x.skip[a])
}

func (c *scnCtx) compare(x *Exp, ev0 int) {
	w, e, st := c.w, c.w.e, x.st
	if x.rest != nil && c.want["rest"] {
		if in, ok := st.obj(x.in.source).val.(Struct); ok {
			c.proveV(st, in.f[1], *x.rest, "rest", "the input left after the sequence")
		}
	}
	for i := 0; i < 2; i++ {
		act := i == x.act()
		name := []string{"main", "alternate"}[i] + " screen's "
		asp := func(a string) (string, bool) {
			if !act {
				return "other", c.wants(x, "other")
			}
			return a, c.wants(x, a)
		}
		pos := func(field, aspect string, wx, wy Lin) {
			a, ok := asp(aspect)
			if !ok {
				return
			}
			gx, gy, ok := w.posGet(st, w.scr[i], field)
			if !ok {
				c.add(a, -1, "")
				return
			}
			c.prove(st, condAll(condEQ(gx, wx), condEQ(gy, wy)), a, func() string {
				return fmt.Sprintf("the %s%s is column %s, row %s; it must be column %s, row %s (0-based)", name, field, gx.str(e.symName), gy.str(e.symName), st.norm(wx).str(e.symName), st.norm(wy).str(e.symName))
			})
		}
		s := x.s[i]
		pos("cursorPos", "cursor", s.cx, s.cy)
		pos("savedCursorPos", "saved", s.sx, s.sy)
		pos("size", "size", s.W, s.H)
		if a, ok := asp("margins"); ok && !x.anyRegion[i] {
			t, ok1 := w.get(st, w.scr[i], w.scrT, "topMargin").(Int)
			b, ok2 := w.get(st, w.scr[i], w.scrT, "bottomMargin").(Int)
			if ok1 && ok2 {
				c.prove(st, condAll(condEQ(t.Lin, s.top), condEQ(b.Lin, s.bot)), a, func() string {
					return fmt.Sprintf("the %sscroll region is rows %s to %s, it must be %s to %s (0-based)", name, st.norm(t.Lin).str(e.symName), st.norm(b.Lin).str(e.symName), st.norm(s.top).str(e.symName), st.norm(s.bot).str(e.symName))
				})
			} else {
				c.add(a, -1, "")
			}
		}
		if a, ok := asp("style"); ok {
			c.proveV(st, w.get(st, w.scr[i], w.scrT, "style"), s.style, a, "the "+name+"style")
		}
		if a, ok := asp("wrap"); ok {
			c.proveV(st, w.get(st, w.scr[i], w.scrT, "autoWrap"), s.wrap, a, "the "+name+"autowrap setting")
		}
		if a, ok := asp("content"); ok {
			c.content(x, i, a)
		}
		if a, ok := asp("kbd"); ok {
			c.kbd(x, i, a)
		}
	}
	if c.wants(x, "alt") {
		c.proveV(st, w.get(st, w.term, w.termT, "onAltScreen"), boolC(x.alt), "alt", "the alternate screen being active")
	}
	if c.wants(x, "told") {
		c.notified(x, ev0)
	}
	if c.want["result"] {
		c.prove(st, boolC(x.fail == ""), "result", func() string { return x.fail })
		for _, m := range x.must {
			c.prove(st, m.cond, "result", func() string { return m.text })
		}
	}
	if x.maySilent && len(st.out.p) == 0 {
		x.out = Str{}
	}
	if c.wants(x, "out") && x.outLike != nil {
		got, known := st.out.constVal()
		if !known {
			c.add("out", -1, "")
		} else if bad := x.outLike(got); bad != "" {
			c.prove(st, bFalse, "out", func() string { return fmt.Sprintf("the application is sent %q, it must be sent %s", got, bad) })
		} else {
			c.add("out", 1, "")
		}
	} else if c.wants(x, "out") {
		c.proveAny(st, st.out, append([]Str{x.out}, x.outAlts...), "out", "the reply written to the application")
	}
	if c.wants(x, "modes") {
		c.modes(x)
	}
	if c.wants(x, "events") {
		c.events(x, ev0)
	}
	c.shape(st, x)
}

// notified: every value set was reported, with the value now in force.
func (c *scnCtx) notified(x *Exp, ev0 int) {
	st, e := x.st, c.w.e
	for _, t := range x.told {
		var last Value
		loop := false
		for _, ev := range st.events[ev0:] {
			if ev.loop != nil && hasEvent(ev.loop.ev, t.kind) {
				loop = true
			}
			if ev.kind == t.kind {
				if k, ok := ev.args[0].(Int); ok && st.decide(condEQ(k.Lin, linC(t.id))) == 1 {
					last = ev.args[1]
				}
			}
		}
		if loop {
			c.add("told", -1, "")
			continue
		}
		want := t.v
		for _, u := range x.told {
			if u.kind == t.kind && u.id == t.id {
				want = u.v
			}
		}
		if last == nil {
			c.prove(st, bFalse, "told", func() string { return fmt.Sprintf("the frontend is not sent %s for item %d", t.kind, t.id) })
			continue
		}
		c.proveV(st, last, want, "told", fmt.Sprintf("the value reported by %s for item %d", t.kind, t.id))
	}
	_ = e
}

// generic picks an arbitrary cell of a screen of size WxH.
func (c *scnCtx) generic(st *State, W, H Lin) (Lin, Lin, bool) {
	r, k := c.w.sym("row"), c.w.sym("col")
	ok := st.addGE(r) && st.addGE(k) && st.addGE(H.sub(r).plus(-1)) && st.addGE(W.sub(k).plus(-1))
	return r, k, ok
}

func (c *scnCtx) content(x *Exp, i int, aspect string) {
	w, e := c.w, c.w.e
	st := x.st.fork()
	r, k, ok := c.generic(st, x.s[i].W, x.s[i].H)
	if !ok {
		return
	}
	for _, g := range w.cell(st, i, r, k) {
		if _, bad := g.st.tainted(); bad || g.c.kind == '?' {
			c.add(aspect, -1, g.c.why)
			continue
		}
		if g.c.pad {
			continue // what is left of a cut wide character
		}
		wants := x.cells(i, g.st, r, k)
		if w.grid {
			wants = c.keptAll(x, i, wants, r, k)
		}
		for _, want := range wants {
			cond, ok := e.cellEq(want.st, g.c, want.c)
			if !ok {
				c.add(aspect, -1, "")
				continue
			}
			c.prove(want.st, cond, aspect, func() string {
				return fmt.Sprintf("the cell at row %s, column %s of the %s screen shows %s; it must show %s", want.st.norm(r).str(e.symName), want.st.norm(k).str(e.symName), []string{"main", "alternate"}[i], e.showCell(g.c), e.showCell(want.c))
			})
		}
	}
}

func (c *scnCtx) kbd(x *Exp, i int, aspect string) {
	w, e, st := c.w, c.w.e, x.st
	km, ok := w.get(st, w.term, w.termT, []string{"keyboardMain", "keyboardAlt"}[i]).(Struct)
	kt := e.typeNamed("keyboardMode")
	if !ok || kt == nil {
		c.add(aspect, -1, "")
		return
	}
	name := []string{"main", "alternate"}[i]
	c.proveV(st, km.f[mustField(kt, "flags")], Int{x.kf[i]}, aspect, "the "+name+" screen's keyboard flags")
	var els []Value
	switch s := km.f[mustField(kt, "stack")].(type) {
	case Slice:
		if s.obj != 0 {
			if els, ok = e.elems(st, s); !ok {
				c.add(aspect, -1, "")
				return
			}
		}
	case Nil:
	default:
		c.add(aspect, -1, "")
		return
	}
	if len(els) != len(x.ks[i]) {
		c.prove(st, bFalse, aspect, func() string {
			return fmt.Sprintf("the %s screen's keyboard stack holds %d entries, it must hold %d", name, len(els), len(x.ks[i]))
		})
		return
	}
	for k := range els {
		c.proveV(st, els[k], x.ks[i][k], aspect, fmt.Sprintf("entry %d of the %s screen's keyboard stack", k, name))
	}
}

func (c *scnCtx) modes(x *Exp) {
	w, e, st := c.w, c.w.e, x.st
	for _, f := range []struct {
		field string
		chg   map[int]Value
	}{{"viewFlags", x.flag}, {"viewInts", x.ints}, {"viewStrings", x.strs}} {
		now, ok1 := w.get(st, w.term, w.termT, f.field).(Slice)
		if !ok1 {
			continue
		}
		a, ok2 := e.elems(st, now)
		b := x.in.view[f.field]
		if !ok2 || len(a) != len(b) {
			c.add("modes", -1, "")
			continue
		}
		for k := range a {
			want := b[k]
			if v, ok := f.chg[k]; ok {
				want = v
			}
			c.proveV(st, a[k], want, "modes", fmt.Sprintf("%s[%d]", f.field, k))
		}
	}
}

// shape: both screens are W x H grids with everything in range.
func (c *scnCtx) shape(st *State, x *Exp) {
	full := c.wants(x, "shape")
	if !full && !c.wants(x, "alias") {
		return
	}
	w, e := c.w, c.w.e
	for i := 0; i < 2; i++ {
		name := []string{"main", "alternate"}[i] + " screen's "
		if w.grid && c.wants(x, "alias") {
			c.gridAlias(st, i, name)
		}
		W, H, ok := w.posGet(st, w.scr[i], "size")
		if !ok {
			c.add("shape", -1, "")
			continue
		}
		if !full {
			if !w.grid {
				c.rows(st, i, W, H, name, false)
			}
			continue
		}
		for _, f := range []string{"cursorPos", "savedCursorPos"} {
			px, py, ok := w.posGet(st, w.scr[i], f)
			if !ok {
				c.add("shape", -1, "")
				continue
			}
			c.prove(st, condAll(condGE(px, Lin{}), condLT(px, W), condGE(py, Lin{}), condLT(py, H)), "shape", func() string {
				return fmt.Sprintf("the %s%s (%s, %s) is outside the %s x %s screen", name, f, px.str(e.symName), py.str(e.symName), W.str(e.symName), H.str(e.symName))
			})
		}
		t, ok1 := w.get(st, w.scr[i], w.scrT, "topMargin").(Int)
		b, ok2 := w.get(st, w.scr[i], w.scrT, "bottomMargin").(Int)
		if ok1 && ok2 {
			c.prove(st, condAll(condGE(t.Lin, Lin{}), condLE(t.Lin, b.Lin), condLT(b.Lin, H)), "shape", func() string {
				return fmt.Sprintf("the %sscroll region, rows %s to %s, is not a non-empty range inside the screen", name, st.norm(t.Lin).str(e.symName), st.norm(b.Lin).str(e.symName))
			})
		}
		if w.grid {
			continue
		}
		c.rows(st, i, W, H, name, true)
	}
}

func (c *scnCtx) rows(st0 *State, i int, W, H Lin, name string, full bool) {
	w, e := c.w, c.w.e
	ln, ok := w.get(st0, w.scr[i], w.scrT, "lines").(Slice)
	if !ok {
		c.add("shape", -1, "")
		return
	}
	prove := func(st *State, cond Bool, text func() string) {
		if full {
			c.prove(st, cond, "shape", text)
		}
	}
	prove(st0, condEQ(ln.len, H), func() string {
		return fmt.Sprintf("the %sbuffer has %s rows, the screen %s", name, st0.norm(ln.len).str(e.symName), H.str(e.symName))
	})
	st := st0.fork()
	r := w.sym("row")
	if !st.addGE(r) || !st.addGE(H.sub(r).plus(-1)) {
		return
	}
	lay := e.lay()
	type rowOut struct {
		st  *State
		row *Row
	}
	fetch := func(st *State, r Lin) (outs []rowOut) {
		for _, o := range w.rowAt(st, i, r) {
			s, ok := o.val.(Struct)
			if o.panic != "" || !ok {
				c.add("shape", -1, "")
				continue
			}
			row, ok := e.rowOf(o.st, s.f[lay.lnSpans])
			if !ok {
				c.add("shape", -1, "")
				continue
			}
			if cw, ok := s.f[lay.lnWidth].(Int); ok {
				prove(o.st, condEQ(cw.Lin, W), func() string {
					return fmt.Sprintf("the recorded width of row %s of the %sbuffer is %s, the screen is %s wide", o.st.norm(r).str(e.symName), name, o.st.norm(cw.Lin).str(e.symName), W.str(e.symName))
				})
			}
			outs = append(outs, rowOut{o.st, row})
		}
		return
	}
	for _, o := range fetch(st, r) {
		rw := e.rowWidth(o.st, o.row)
		prove(o.st, condEQ(rw, W), func() string {
			return fmt.Sprintf("row %s of the %sbuffer is %s cells wide, the screen %s", o.st.norm(r).str(e.symName), name, rw.str(e.symName), W.str(e.symName))
		})
		spans := o.row.list
		if o.row.kind == 'S' {
			spans = o.row.ins
		}
		for k, sp := range spans {
			if o.row.npad > 0 && (k == 0 || k == len(spans)-1) {
				continue
			}
			sw := e.spanWidth(sp)
			prove(o.st, condGT(sw, Lin{}), func() string {
				return fmt.Sprintf("row %s of the %sbuffer holds a run %s cells wide", o.st.norm(r).str(e.symName), name, o.st.norm(sw).str(e.symName))
			})
		}
		// no two rows share storage
		if !c.want["alias"] {
			continue
		}
		s2 := o.st.fork()
		q := w.sym("otherRow")
		if !s2.addGE(r.sub(q).plus(-1)) || !s2.addGE(q) {
			continue
		}
		for _, p := range w.rowAt(s2, i, q) {
			s, ok := p.val.(Struct)
			if p.panic != "" || !ok {
				continue
			}
			row, ok := e.rowOf(p.st, s.f[lay.lnSpans])
			if !ok {
				continue
			}
			share := bFalse
			switch {
			case o.row.kind == 'B' && row.kind == 'B' && o.row.arr == row.arr:
				share = condEQ(o.row.idx, row.idx)
			case o.row.kind == 'L' && row.kind == 'L' && o.row.back != 0 && o.row.back == row.back:
				share = condEQ(o.row.bidx, row.bidx)
			}
			c.prove(p.st, share.not(), "alias", func() string {
				return fmt.Sprintf("rows %s and %s of the %sbuffer share their storage: writing one changes the other", p.st.norm(q).str(e.symName), p.st.norm(r).str(e.symName), name)
			})
		}
	}
}

// events: a copy of the screen kept up to date by refreshing only announced cells is exact,
// and the last announced values are the actual ones.
func (c *scnCtx) events(x *Exp, ev0 int) {
	w, e := c.w, c.w.e
	evs := x.st.events[ev0:]
	last := func(kind string) (Event, bool) { return lastEvent(x.st, evs, kind) }
	st := x.st
	i := 0
	altNow, ok := w.get(st, w.term, w.termT, "onAltScreen").(Bool)
	if !ok {
		c.add("events", -1, "")
		return
	}
	if altNow.op == 'T' {
		i = 1
	}
	i0 := 0
	if x.in.alt {
		i0 = 1
	}
	// cursor
	gx, gy, ok := w.posGet(st, w.scr[i], "cursorPos")
	if ok {
		ax, ay := x.in.s[i0].cx, x.in.s[i0].cy
		if ev, ok := last("CursorMoved"); ok {
			p, ok1 := ev.args[0].(Int)
			q, ok2 := ev.args[1].(Int)
			if ok1 && ok2 {
				ax, ay = p.Lin, q.Lin
			}
		}
		c.prove(st, condAll(condEQ(ax, gx), condEQ(ay, gy)), "events", func() string {
			return fmt.Sprintf("the frontend was last told the cursor is at column %s, row %s; it is at column %s, row %s", st.norm(ax).str(e.symName), st.norm(ay).str(e.symName), gx.str(e.symName), gy.str(e.symName))
		})
	}
	told := x.in.s[i0].style
	if ev, ok := last("StyleChanged"); ok {
		told = ev.args[0]
	}
	c.proveV(st, told, w.get(st, w.scr[i], w.scrT, "style"), "events", "the style last announced")
	// modes
	for _, f := range []struct{ field, kind string }{{"viewFlags", "ViewFlagChanged"}, {"viewInts", "ViewIntChanged"}, {"viewStrings", "ViewStringChanged"}} {
		now, ok1 := w.get(st, w.term, w.termT, f.field).(Slice)
		if !ok1 {
			continue
		}
		a, ok2 := e.elems(st, now)
		b := append([]Value{}, x.in.view[f.field]...)
		if !ok2 || len(a) != len(b) {
			continue
		}
		for _, ev := range evs {
			if ev.kind == "loop" && hasEvent(ev.loop.ev, f.kind) {
				c.add("events", -1, "")
			}
			if ev.kind == f.kind {
				if k, ok := ev.args[0].(Int); ok && st.norm(k.Lin).isC() {
					if n := int(st.norm(k.Lin).c); n >= 0 && n < len(b) {
						b[n] = ev.args[1]
					}
				}
			}
		}
		for k := range a {
			c.proveV(st, b[k], a[k], "events", fmt.Sprintf("the value of %s[%d] the frontend was told", f.field, k))
		}
	}
	// announced scrollback
	if x.scrolled != nil {
		n := Lin{}
		var calls []Event
		for _, ev := range evs {
			if ev.kind == "loop" && hasEvent(ev.loop.ev, "ScrollLines") {
				k, ok := Lin{}, false
				if len(ev.loop.ev) == 1 {
					if v, isInt := ev.loop.ev[0].args[0].(Int); isInt && st.norm(v.Lin).isC() {
						k, ok = ev.loop.n.scale(st.norm(v.Lin).c), true
					}
				}
				if !ok {
					c.add("events", -1, "")
					return
				}
				n = n.add(k)
				calls = append(calls, ev.loop.ev[0], ev)
				continue
			}
			if ev.kind == "ScrollLines" {
				if k, ok := ev.args[0].(Int); ok {
					n = n.add(k.Lin)
					calls = append(calls, ev)
				}
			}
		}
		if len(calls) == len(x.lost) {
			for k, ev := range calls {
				c.scrollback(x, ev, i, x.lost[k])
			}
		} else {
			c.add("events", -1, "")
		}
		c.prove(st, condEQ(n, *x.scrolled), "events", func() string {
			return fmt.Sprintf("ScrollLines announced %s rows, %s scroll off the top of the main screen", st.norm(n).str(e.symName), st.norm(*x.scrolled).str(e.symName))
		})
	}
	// content
	W, H, ok := w.posGet(st, w.scr[i], "size")
	if !ok {
		return
	}
	s0 := st.fork()
	r, k, ok := c.generic(s0, W, H)
	if !ok {
		return
	}
	for _, g := range w.cell(s0, i, r, k) {
		if _, bad := g.st.tainted(); bad || g.c.kind == '?' {
			c.add("events", -1, "")
			continue
		}
		c.shadow(g.st, g.c, evs, i, i0, r, k)
	}
}

// scrollback: when rows are announced they are still on the screen.
func (c *scnCtx) scrollback(x *Exp, ev Event, i int, lost lostRows) {
	st := x.st.fork()
	r, k, ok := c.generic(st, x.in.s[i].W, lost.n)
	if !ok {
		return
	}
	heap := st.heap
	st.heap, st.shared = ev.snap, true
	for _, g := range c.w.cell(st, i, r, k) {
		g.st.heap, g.st.shared = heap, true
		if g.c.kind == '?' {
			c.add("events", -1, "")
			continue
		}
		if g.c.pad {
			continue
		}
		wants := lost.cell(g.st, r, k)
		if c.w.grid {
			y := *x
			y.cell[i] = lost.cell
			wants = c.keptAll(&y, i, wants, r, k)
		}
		for _, want := range wants {
			cond, ok := c.w.e.cellEq(want.st, g.c, want.c)
			if !ok {
				c.add("events", -1, "")
				continue
			}
			c.prove(want.st, cond, "events", func() string {
				return fmt.Sprintf("when ScrollLines is called, row %s, column %s shows %s; the row that scrolls off shows %s", want.st.norm(r).str(c.w.e.symName), want.st.norm(k).str(c.w.e.symName), c.w.e.showCell(g.c), c.w.e.showCell(want.c))
			})
		}
	}
}

// lastEvent is the last event of a kind, also inside loops.
func lastEvent(st *State, evs []Event, kind string) (Event, bool) {
	for k := len(evs) - 1; k >= 0; k-- {
		if evs[k].kind == kind {
			return evs[k], true
		}
		if l := evs[k].loop; l != nil {
			if ev, ok := lastEvent(st, l.ev, kind); ok {
				return l.at(st, ev, l.n.plus(-1)), true
			}
		}
	}
	return Event{}, false
}

func hasEvent(evs []Event, kind string) bool {
	for _, ev := range evs {
		if ev.kind == kind || ev.loop != nil && hasEvent(ev.loop.ev, kind) {
			return true
		}
	}
	return false
}

// at is an event of the loop in iteration g; its snapshot is left to snapAt.
func (l *LoopEvent) at(st *State, ev Event, g Lin) Event {
	f := func(x Lin) Lin { return st.replaceSym(x, l.g, g) }
	n := ev
	n.args = nil
	for _, a := range ev.args {
		n.args = append(n.args, mapLin(a, f))
	}
	if ev.alt != nil {
		n.alt = mapLin(ev.alt, f)
	}
	if ev.loop != nil {
		nl := &LoopEvent{n: f(ev.loop.n), g: ev.loop.g}
		for _, y := range ev.loop.ev {
			nl.ev = append(nl.ev, l.at(st, y, g))
		}
		n.loop = nl
	}
	if ev.snap != nil {
		n.snap = substHeap(ev.snap, f)
	}
	return n
}

func substHeap(h map[int]*Object, f func(Lin) Lin) map[int]*Object {
	out := make(map[int]*Object, len(h))
	nodes := map[*LogNode]*LogNode{}
	arrs := map[*SymArr]*SymArr{}
	var node func(n *LogNode) *LogNode
	var arr func(a *SymArr) *SymArr
	node = func(n *LogNode) *LogNode {
		if n == nil {
			return nil
		}
		if m, ok := nodes[n]; ok {
			return m
		}
		m := *n
		m.lo, m.hi, m.clo, m.chi = f(n.lo), f(n.hi), f(n.clo), f(n.chi)
		if n.val != nil {
			m.val = mapLin(n.val, f)
		}
		if n.ref != nil {
			r := *n.ref
			r.row, r.col, r.arr = f(r.row), f(r.col), arr(r.arr)
			m.ref = &r
		}
		m.next = node(n.next)
		nodes[n] = &m
		return &m
	}
	arr = func(a *SymArr) *SymArr {
		if a == nil {
			return nil
		}
		if b, ok := arrs[a]; ok {
			return b
		}
		b := *a
		b.log = node(a.log)
		arrs[a] = &b
		return &b
	}
	for id, o := range h {
		n := *o
		if o.val != nil {
			n.val = mapLin(o.val, f)
		}
		n.arr = arr(o.arr)
		out[id] = &n
	}
	return out
}

// shadow: going back from the last event, the first that covers cell (r, k) was sent when
// the cell already was as it is now.
func (c *scnCtx) shadow(st *State, now Cell, evs []Event, i, i0 int, r, k Lin) {
	rest := c.shadowIn([]*State{st}, now, evs, i, r, k)
	for _, s := range rest {
		c.same(s, Cell{kind: 'B', arr: i0, row: s.norm(r), col: s.norm(k)}, now, r, k, "was never announced; before, it showed")
	}
}

// shadowIn handles the states on which some event covers the cell and returns the others.
func (c *scnCtx) shadowIn(cur []*State, now Cell, evs []Event, i int, r, k Lin) []*State {
	w, e := c.w, c.w.e
	rt := e.typeNamed("Region")
	region := func(ev Event, f string) (Lin, bool) {
		reg, ok := ev.args[0].(Struct)
		if !ok {
			return Lin{}, false
		}
		v, ok := reg.f[mustField(rt, f)].(Int)
		return v.Lin, ok
	}
	for n := len(evs) - 1; n >= 0 && len(cur) > 0; n-- {
		ev := evs[n]
		if ev.loop != nil {
			if !hasEvent(ev.loop.ev, "RegionChanged") {
				continue
			}
			l := ev.loop
			var rest []*State
			for _, s := range cur {
				// the iterations that may cover the cell
				g, moving, ok := c.covering(s, l, region, r, k)
				if !ok {
					c.add("events", -1, "")
					continue
				}
				if !moving {
					g = l.n.plus(-1)
				}
				in := condAll(condGE(g, Lin{}), condLT(g, l.n))
				yes, no := e.branch(s, in)
				rest = append(rest, no...)
				for _, y := range yes {
					var body []Event
					for _, b := range l.ev {
						body = append(body, l.at(y, b, g))
					}
					rest = append(rest, c.shadowIn([]*State{y}, now, body, i, r, k)...)
				}
			}
			cur = rest
			continue
		}
		if ev.kind != "RegionChanged" {
			continue
		}
		X, ok1 := region(ev, "X")
		X2, ok2 := region(ev, "X2")
		Y, ok3 := region(ev, "Y")
		Y2, ok4 := region(ev, "Y2")
		if !ok1 || !ok2 || !ok3 || !ok4 {
			c.add("events", -1, "")
			return nil
		}
		cov := condAll(condGE(r, Y), condLT(r, Y2), condGE(k, X), condLT(k, X2))
		var rest []*State
		for _, s := range cur {
			yes, no := e.branch(s, cov)
			rest = append(rest, no...)
			for _, y := range yes {
				heap := y.heap
				y.heap, y.shared = ev.snap, true
				j := i
				if a, ok := w.get(y, w.term, w.termT, "onAltScreen").(Bool); ok {
					j = 0
					if a.op == 'T' {
						j = 1
					}
				}
				for _, g := range w.cell(y, j, r, k) {
					g.st.heap, g.st.shared = heap, true
					c.same(g.st, g.c, now, r, k, "was last announced when it showed")
				}
			}
		}
		cur = rest
	}
	return cur
}

// covering finds the only iteration whose regions can include the cell; moving is false when
// the regions do not depend on the iteration.
func (c *scnCtx) covering(st *State, l *LoopEvent, region func(Event, string) (Lin, bool), r, k Lin) (g Lin, moving, ok bool) {
	e := c.w.e
	first := true
	for _, ev := range l.ev {
		if ev.loop != nil && hasEvent(ev.loop.ev, "RegionChanged") {
			return g, false, false
		}
		if ev.kind != "RegionChanged" {
			continue
		}
		var this Lin
		mov := false
		for _, ax := range []struct {
			lo, hi string
			at     Lin
		}{{"Y", "Y2", r}, {"X", "X2", k}} {
			lo, ok1 := region(ev, ax.lo)
			hi, ok2 := region(ev, ax.hi)
			if !ok1 || !ok2 {
				return g, false, false
			}
			b := lo.coef(l.g)
			rest := lo.sub(linS(l.g).scale(b))
			d := st.norm(hi.sub(lo))
			if e.linMentions(rest, l.g) || e.linMentions(hi.sub(lo), l.g) {
				return g, false, false
			}
			if b == 0 {
				continue
			}
			if mov || b != 1 && b != -1 || !d.isC() || d.c != 1 {
				return g, false, false
			}
			mov = true
			this = ax.at.sub(rest).scale(b)
		}
		if first {
			g, moving, first = this, mov, false
			continue
		}
		if mov != moving || !st.norm(g.sub(this)).eq(Lin{}) {
			return g, false, false
		}
	}
	return g, moving, true
}

func (c *scnCtx) same(st *State, old, now Cell, r, k Lin, what string) {
	e := c.w.e
	cond, ok := e.cellEq(st, old, now)
	if !ok {
		c.add("events", -1, "")
		return
	}
	if st.decide(cond) != 1 && now.pad {
		// a blank left of a wide character: whether the cell changed depends on the text
		cond = bFalse
	}
	c.prove(st, cond, "events", func() string {
		return fmt.Sprintf("the cell at row %s, column %s shows %s; it %s %s", st.norm(r).str(e.symName), st.norm(k).str(e.symName), e.showCell(now), what, e.showCell(old))
	})
}

// ---- running scenarios

type scnResult struct {
	sc   *scenario
	alt  bool
	obls []obligation
	outs int
	err  string
	anch string
	cuts int
	fns  map[string]bool
	dur  time.Duration
}

// aspectSet makes a set of aspects.
func aspectSet(xs ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

// runScenarios analyses the scenarios for the wanted aspects and fills the report.
// collect runs the scenarios on both screens.
func collect(t *Target, scs []*scenario, want map[string]bool, cfg func(w *World)) []scnResult {
	type job struct {
		sc  *scenario
		alt bool
	}
	var jobs []job
	for _, sc := range scs {
		jobs = append(jobs, job{sc, false})
		if !sc.noAlt {
			jobs = append(jobs, job{sc, true})
		}
	}
	res := make([]scnResult, len(jobs))
	var wg sync.WaitGroup
	next := make(chan int)
	for n := 0; n < 8; n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var grid *World // building one takes long
			for k := range next {
				res[k] = runJob(t, jobs[k].sc, jobs[k].alt, want, cfg, &grid)
			}
		}()
	}
	for k := range jobs {
		next <- k
	}
	close(next)
	wg.Wait()
	return res
}

func runScenarios(t *Target, r *Report, scs []*scenario, want map[string]bool, cfg func(w *World)) {
	failFast.Store(len(knownFindings(r.Prop)) == 0)
	res := collect(t, scs, want, cfg)
	failFast.Store(false)
	fns := map[string]bool{}
	decided, undec := 0, 0
	per := map[string][3]int{}
	why := map[string]int{}
	for _, x := range res {
		r.Counts["scenarios"]++
		r.Counts["paths through the analysed functions"] += x.outs
		r.Counts["loop partitions cut"] += x.cuts
		for f := range x.fns {
			fns[f] = true
		}
		if x.anch != "" {
			r.undecided("a construct this property is anchored in is not found: " + x.anch)
			continue
		}
		if x.err != "" {
			undec++
			r.Counts["scenarios given up"]++
			r.Notes = append(r.Notes, x.sc.name+": "+x.err)
		}
		for _, o := range x.obls {
			p := per[o.aspect]
			switch o.verdict {
			case 1:
				r.ok(1)
				decided++
				p[0]++
			case 0:
				decided++
				p[1]++
				scr := "main"
				if x.alt {
					scr = "alternate"
				}
				where := x.sc.name + " on the " + scr + " screen"
				if x.sc.direct != nil {
					where = x.sc.name + ": " + x.sc.label
				}
				r.violate(o.key, where+": "+o.text)
			default:
				undec++
				p[2]++
				why[o.text]++
			}
			per[o.aspect] = p
		}
		if debugEnv("SCN") {
			v := [3]int{}
			for _, o := range x.obls {
				v[map[int]int{1: 0, 0: 1, -1: 2}[o.verdict]]++
			}
			fmt.Fprintf(os.Stderr, "%-28s alt=%-5v paths=%-4d ok=%-5d bad=%-3d undecided=%-3d cut=%d %v\n", x.sc.name+" "+x.sc.label, x.alt, x.outs, v[0], v[1], v[2], x.cuts, x.dur.Round(time.Millisecond))
		}
	}
	r.Counts["functions entered"] += len(fns)
	r.Counts["obligations undecided"] += undec
	var as []string
	for a := range per {
		as = append(as, a)
	}
	sort.Strings(as)
	for _, a := range as {
		r.Notes = append(r.Notes, fmt.Sprintf("aspect %s: %d hold, %d violated, %d undecided", a, per[a][0], per[a][1], per[a][2]))
	}
	var names []string
	for f := range fns {
		names = append(names, f)
	}
	sort.Strings(names)
	r.Samples = append(r.Samples, "functions entered: "+strings.Join(names, " "))
	if decided == 0 && len(scs) > 0 && !outOfTime.Load() {
		r.undecided("no obligation of a set of scenarios could be decided: the code no longer has the shape the analysis understands")
	}
}

func runJob(t *Target, sc *scenario, alt bool, want map[string]bool, cfg func(w *World), grid **World) (res scnResult) {
	t0 := time.Now()
	res.sc, res.alt = sc, alt
	var w *World
	var c *scnCtx
	defer func() {
		res.dur = time.Since(t0)
		if p := recover(); p != nil {
			if c != nil { // what was shown to be violated stays so
				res.outs = c.outs
				for _, o := range c.obls {
					if o.verdict == 0 {
						res.obls = append(res.obls, o)
					}
				}
			}
			switch p := p.(type) {
			case anchorErr:
				res.anch = p.what
			case enoughErr:
			case budgetErr:
				res.err = "step, time or memory budget"
			default:
				res.err = fmt.Sprint(p)
				if debugEnv("STACK") {
					fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", sc.name, p, debug.Stack())
				}
			}
		}
		if w != nil {
			res.cuts = w.e.loopsCut
			res.fns = map[string]bool{}
			for f := range w.e.fnsSeen {
				res.fns[f.String()] = true
			}
		}
	}()
	if sc.grid && *grid != nil {
		w = *grid
		w.e.steps, w.e.depth = 0, 0
	} else {
		w = newWorld(t, sc.mode, sc.grid)
	}
	if sc.grid {
		*grid = w
		w.e.small, w.e.unrollFn, w.e.unroll = true, w.onGrid, 40
	}
	w.e.loopsCut = 0
	w.e.fnsSeen = map[*ssaFunction]bool{}
	if cfg != nil {
		cfg(w)
	}
	c = &scnCtx{sc: sc, w: w, alt: alt, want: want}
	c.check()
	res.obls, res.outs = c.obls, c.outs
	return
}
