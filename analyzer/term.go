package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// World is the terminal under analysis with everything the specification names in it.
type World struct {
	e     *Engine
	base  *State
	term  int // object of the terminal
	termT types.Type
	scrT  types.Type
	scr   [2]int // objects of the main and the alternate screen
	grid  bool
	ginit [2]*gridInit // contents of a grid screen at the start
	glay  [2]int       // arrangement of its wide characters
	mode  int64
}

// Scr is the initial symbolic state of one screen.
type Scr struct {
	W, H, cx, cy, sx, sy, top, bot Lin
	style                          Value
	wrap                           Bool
}

// Init is the symbolic state the analysed operation starts in.
type Init struct {
	data            any // what the scenario's run hands to its spec
	st              *State
	s               [2]Scr
	alt             bool
	mouse, enc, mok Lin
	kf              [2]Lin     // keyboard flags
	ks              [2][]Value // keyboard stacks, bottom first
	view            map[string][]Value
	args            []Lin         // parameters of the operation
	source          int           // the input object
	text            Str           // payload of the operation
	wide            map[int]int64 // cells of each character of the text
	marks           []int         // where each parameter's values start in args
}

func (i *Init) cur() Scr {
	if i.alt {
		return i.s[1]
	}
	return i.s[0]
}

func (i *Init) other() Scr {
	if i.alt {
		return i.s[0]
	}
	return i.s[1]
}

func newState(e *Engine) *State {
	return &State{e: e, bits: map[Bit]bool{}, heap: map[int]*Object{}, ax: map[Sym]bool{}, ghost: map[string]Value{}}
}

func (e *Engine) mustFunc(name string) *ssa.Function {
	fn := e.t.Func(name)
	if fn == nil {
		panic(anchorErr{"function " + name})
	}
	return fn
}

func nativeIface(kind string, id int) Iface {
	return Iface{t: types.Universe.Lookup("error").Type(), v: Native{kind: kind, id: id}}
}

// newWorld interprets the package initialisation and newTerminal.
func newWorld(t *Target, mode int64, grid bool) *World {
	e := newEngine(t)
	e.newSym("nothing")
	e.unroll = 8
	w := &World{e: e, grid: grid, mode: mode}
	e.hook = w.hook
	st := newState(e)
	st = single(e.call(st, t.Pkg.Func("init"), nil, nil), "package initialisation")
	nt := e.mustFunc("newTerminal")
	outs := e.call(st, nt, []Value{nativeIface("frontend", 0), nativeIface("backend", 0), Int{linC(mode)}}, nil)
	st = single(outs, "newTerminal")
	p, ok := outs[0].val.(Ptr)
	if !ok {
		panic(anchorErr{"newTerminal's result"})
	}
	w.term = p.obj
	w.termT = e.typeNamed("terminal")
	if grid {
		for i, f := range []string{"mainScreen", "altScreen"} {
			fr := Value(nativeIface("frontend", 0))
			ng := e.mustFunc("newGridScreen")
			if i == 1 {
				if old, ok := w.get(st, w.term, w.termT, f).(Iface); ok {
					if q, ok := old.v.(Ptr); ok {
						fr = w.get(st, q.obj, derefT(old.t), "frontend")
					}
				}
			}
			o := e.call(st, ng, []Value{fr}, nil)
			st = single(o, "newGridScreen")
			w.set(st, w.term, w.termT, f, Iface{t: ng.Signature.Results().At(0).Type(), v: o[0].val})
		}
	}
	for i, f := range []string{"mainScreen", "altScreen"} {
		s, ok := w.get(st, w.term, w.termT, f).(Iface)
		if !ok {
			panic(anchorErr{"terminal." + f})
		}
		q, ok := s.v.(Ptr)
		if !ok {
			panic(anchorErr{"terminal." + f})
		}
		w.scr[i] = q.obj
		w.scrT = derefT(s.t)
	}
	st.events = nil
	st.out = Str{}
	st.path = nil
	w.base = st
	return w
}

func derefT(t types.Type) types.Type {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func single(outs []Outcome, what string) *State {
	if len(outs) != 1 || outs[0].panic != "" {
		why := fmt.Sprintf("%d outcomes", len(outs))
		for _, o := range outs {
			if o.panic != "" {
				why += ", " + o.panic
			}
		}
		panic(anchorErr{what + " is not a single known computation: " + why})
	}
	if t, bad := outs[0].st.tainted(); bad {
		panic(anchorErr{what + ": " + t})
	}
	return outs[0].st
}

// hook replaces the primitives that are analysed on their own by their contracts.
func (w *World) hook(e *Engine, st *State, fn *ssa.Function, args []Value) ([]Outcome, bool) {
	switch e.t.nameOf(fn) {
	case "replaceRange":
		if fn.Signature.Recv() == nil && !e.realRows && fn.Signature.Params().Len() == 5 {
			return e.spliceHook(st, args, fn.Signature), true
		}
	case "ReadPrintableBytes", "ReadByte", "ReadPrintableTokens", "Buffered":
		if p, ok := args[0].(Ptr); ok {
			if o := st.obj(p.obj); o.name == "input" {
				return e.inputHook(st, p.obj, fn.Name(), args, fn.Signature), true
			}
		}
	case "stepTextCluster":
		if fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 3 {
			return e.clusterHook(st, args, fn.Signature), true
		}
	}
	return nil, false
}

// inputHook is the contract of the token reader: printable text up to the next control byte,
// then single bytes.
func (e *Engine) inputHook(st *State, obj int, method string, args []Value, sig *types.Signature) []Outcome {
	o := st.obj(obj)
	src := o.val.(Struct)
	text, rest := src.f[0].(Str), src.f[1].(Str)
	width := src.f[2].(Int)
	switch method {
	case "ReadPrintableBytes":
		if len(text.p) == 0 {
			if len(rest.p) == 0 {
				return one(st, Struct{[]Value{Str{}, Int{}, bFalse, e.inputEnd(st)}})
			}
			return one(st, Struct{[]Value{Str{}, Int{}, bFalse, Nil{}}})
		}
		// at most the given number of cells, when there is a limit, but at least a character
		give := func(st *State, got, left Str, gw, lw Lin) Outcome {
			n := *st.obj(obj)
			n.val = Struct{[]Value{left, rest, Int{st.norm(lw)}}}
			st.setObj(&n)
			return Outcome{st: st, val: Struct{[]Value{got, Int{st.norm(gw)}, bFalse, Nil{}}}}
		}
		limit, ok := args[1].(Int)
		if !ok {
			st.taint("limit of a text run")
			return one(st, e.unknownResult(sig))
		}
		var outs []Outcome
		over, fits := e.branch(st, condAll(condGE(limit.Lin, linC(1)), condGT(width.Lin, limit.Lin)))
		for _, s := range fits {
			outs = append(outs, give(s, text, Str{}, width.Lin, Lin{}))
		}
		for _, s := range over {
			if p := text.p[0]; len(text.p) == 1 && p.cl == nil && p.kind == 't' {
				for _, l := range e.strSlice(s, text, Lin{}, limit.Lin) {
					for _, r := range e.strSlice(l.st, text, limit.Lin, width.Lin) {
						outs = append(outs, give(r.st, l.val.(Str), r.val.(Str), limit.Lin, width.sub(limit.Lin)))
					}
				}
				continue
			}
			cur := []*State{s}
			used := Lin{}
			for k, p := range text.p {
				if p.cl == nil || p.kind != 't' {
					s.taint("text beyond the limit")
					return one(s, e.unknownResult(sig))
				}
				var next []*State
				for _, s := range cur {
					if k == 0 {
						next = append(next, s)
						continue
					}
					more, stop := e.branch(s, condLE(used.add(p.cl.width), limit.Lin))
					next = append(next, more...)
					for _, s := range stop {
						outs = append(outs, give(s, Str{p: text.p[:k]}, Str{p: text.p[k:]}, used, width.sub(used)))
					}
				}
				cur = next
				used = used.add(p.cl.width)
			}
			for _, s := range cur {
				outs = append(outs, give(s, text, Str{}, width.Lin, Lin{}))
			}
		}
		return outs
	case "ReadPrintableTokens":
		if len(text.p) == 0 {
			if len(rest.p) == 0 {
				return one(st, Struct{[]Value{Slice{}, e.inputEnd(st)}})
			}
			return one(st, Struct{[]Value{Slice{}, Nil{}}})
		}
		return e.tokens(st, obj, text, rest, sig)
	case "Buffered":
		// any part of the input may have arrived
		b := linS(e.newSym("arrived"))
		st.pushCon(b)
		st.pushCon(e.strLen(st, text).add(e.strLen(st, rest)).sub(b))
		return one(st, Int{b})
	case "ReadByte":
		if len(rest.p) == 0 {
			return one(st, Struct{[]Value{Int{}, e.inputEnd(st)}})
		}
		var outs []Outcome
		for _, b := range e.strIndex(st, rest, Lin{}, 0, nil) {
			for _, r := range e.strSlice(b.st, rest, linC(1), e.strLen(b.st, rest)) {
				n := *r.st.obj(obj)
				n.val = Struct{[]Value{text, r.val, width}}
				r.st.setObj(&n)
				outs = append(outs, Outcome{st: r.st, val: Struct{[]Value{b.val, Nil{}}}})
			}
		}
		return outs
	}
	return one(st, e.unknownResult(sig))
}

// inputEnd is the error the input ends with.
func (e *Engine) inputEnd(st *State) Value {
	if e.inputErr != nil {
		return e.inputErr
	}
	return e.ioEOF(st)
}

// clusterHook is stepTextCluster on symbolic text made of known clusters.
func (e *Engine) clusterHook(st *State, args []Value, sig *types.Signature) []Outcome {
	s, ok := e.asBytes(st, args[0])
	if !ok {
		st.taint("stepTextCluster")
		return one(st, e.unknownResult(sig))
	}
	state := args[1]
	ret := func(s *State, c Str, n, w Lin) Outcome {
		return Outcome{st: s, val: Struct{[]Value{c, Int{n}, Int{w}, state, bTrue}}}
	}
	if len(s.p) == 0 {
		return one(st, Struct{[]Value{Slice{}, Int{}, Int{}, state, bFalse}})
	}
	// in grapheme mode the combining characters that follow belong to the cluster
	k, marks := 1, Lin{}
	if m, ok := args[2].(Int); ok && st.norm(m.Lin).isC() && st.norm(m.Lin).c == 1 {
		for k < len(s.p) && s.p[k].cl != nil && s.p[k].cl.width.isC() && s.p[k].cl.width.c == 0 {
			marks = marks.add(e.pieceLen(st, s.p[k]))
			k++
		}
	}
	switch p := s.p[0]; {
	case p.kind == 't' && p.cl != nil:
		return []Outcome{ret(st, Str{p: s.p[:k]}, st.norm(e.pieceLen(st, p).add(marks)), st.norm(p.cl.width))}
	case p.kind == 't' && k > 1:
		var outs []Outcome
		one, more := e.branch(st, condEQ(p.lin, linC(1)))
		for _, s1 := range one {
			outs = append(outs, ret(s1, Str{p: s.p[:k]}, s1.norm(marks.plus(1)), linC(1)))
		}
		for _, s1 := range more {
			for _, o := range e.subPiece(s1, p, Lin{}, linC(1)) {
				if c, ok := o.val.(Str); ok {
					outs = append(outs, ret(o.st, c, linC(1), linC(1)))
				}
			}
		}
		return outs
	case p.kind == 'c' && p.s[0] >= 32 && p.s[0] < 127:
		return []Outcome{ret(st, strC(p.s[:1]), linC(1), linC(1))}
	case p.kind == 't':
		var outs []Outcome
		for _, o := range e.subPiece(st, p, Lin{}, linC(1)) {
			if c, ok := o.val.(Str); ok {
				outs = append(outs, ret(o.st, c, linC(1), linC(1)))
			}
		}
		return outs
	case p.kind == 'p':
		if c, ok := repeatChar(p); ok && c[0] >= 32 && c[0] < 127 && st.entailsGE(p.n.plus(-1)) {
			return []Outcome{ret(st, strC(c), linC(1), linC(1))}
		}
	case p.kind == 'b' || p.kind == 'r':
		if c, ok := e.firstByteASCII(st, s); ok && st.entailsGE(c.plus(-32)) {
			return []Outcome{ret(st, Str{p: s.p[:1]}, linC(1), linC(1))}
		}
	}
	st.taint("stepTextCluster on " + showPiece(e, s.p[0]))
	return one(st, e.unknownResult(sig))
}

// ---- named access to the state

func (w *World) get(st *State, obj int, t types.Type, field string) Value {
	s, ok := st.obj(obj).val.(Struct)
	if !ok {
		panic(anchorErr{"object of type " + t.String()})
	}
	return s.f[mustField(t, field)]
}

func (w *World) set(st *State, obj int, t types.Type, field string, v Value) {
	o := *st.obj(obj)
	s := o.val.(Struct)
	f := append([]Value{}, s.f...)
	f[mustField(t, field)] = v
	o.val = Struct{f}
	st.setObj(&o)
}

func (w *World) posGet(st *State, obj int, field string) (Lin, Lin, bool) {
	v := w.get(st, obj, w.scrT, field)
	s, ok := v.(Struct)
	pt := w.e.typeNamed("Pos")
	if !ok {
		return Lin{}, Lin{}, false
	}
	x, ok1 := s.f[mustField(pt, "X")].(Int)
	y, ok2 := s.f[mustField(pt, "Y")].(Int)
	return st.norm(x.Lin), st.norm(y.Lin), ok1 && ok2
}

func (w *World) pos(x, y Lin) Value {
	pt := w.e.typeNamed("Pos")
	f := make([]Value, 2)
	f[mustField(pt, "X")], f[mustField(pt, "Y")] = Int{x}, Int{y}
	return Struct{f}
}

// symStyle is an arbitrary style value.
func (w *World) symStyle(st *State, name string) Value {
	t := w.e.typeNamed("Style")
	u := t.Underlying().(*types.Struct)
	f := make([]Value, u.NumFields())
	for i := range f {
		s := w.e.newSym(name + "." + u.Field(i).Name())
		w.e.syms[s].width = 32
		st.pushCon(linS(s))
		st.pushCon(linC(1<<32 - 1).sub(linS(s)))
		f[i] = Int{linS(s)}
	}
	return Struct{f}
}

func (w *World) sym(name string) Lin { return linS(w.e.newSym(name)) }

type initOpt struct {
	fixed [2]int64 // a screen of this size
	glay  [2]int   // see gridLayouts
	alt   bool
	stack int // entries on the active screen's keyboard stack
	still int // 1 + the screen whose cursor is at home and whose region is the whole screen
}

func (o initOpt) with(alt bool) initOpt { o.alt = alt; return o }

// symbolic builds the arbitrary well-formed state an operation starts in.
func (w *World) symbolic(opt initOpt) *Init {
	st := w.base.fork()
	in := &Init{st: st, alt: opt.alt}
	W, H := w.sym("W"), w.sym("H")
	if opt.fixed[0] > 0 {
		W, H = linC(opt.fixed[0]), linC(opt.fixed[1])
		w.glay = opt.glay
	}
	for _, l := range []Lin{W, H} {
		st.pushCon(l.plus(-1))
		st.pushCon(linC(1 << 20).sub(l))
	}
	for i := 0; i < 2; i++ {
		sfx := []string{"", "'"}[i]
		if opt.alt {
			sfx = []string{"'", ""}[i]
		}
		s := Scr{W: W, H: H, cx: w.sym("cursorX" + sfx), cy: w.sym("cursorY" + sfx), sx: w.sym("savedX" + sfx), sy: w.sym("savedY" + sfx), top: w.sym("topMargin" + sfx), bot: w.sym("bottomMargin" + sfx)}
		if opt.still == i+1 {
			s.cx, s.cy, s.sx, s.sy, s.top, s.bot = Lin{}, Lin{}, Lin{}, Lin{}, Lin{}, H.plus(-1)
		}
		for _, p := range [][2]Lin{{s.cx, W}, {s.sx, W}, {s.cy, H}, {s.sy, H}, {s.bot, H}} {
			st.pushCon(p[0])
			st.pushCon(p[1].sub(p[0]).plus(-1))
		}
		st.pushCon(s.top)
		st.pushCon(s.bot.sub(s.top))
		s.style = w.symStyle(st, "style"+sfx)
		s.wrap = Bool{op: 'b', bit: Bit{s: w.e.newSym("autowrap" + sfx)}}
		in.s[i] = s
		w.installScreen(st, i, s)
	}
	w.set(st, w.term, w.termT, "onAltScreen", boolC(opt.alt))
	// keyboard modes
	kt := w.e.typeNamed("keyboardMode")
	for i := 0; i < 2; i++ {
		field := []string{"keyboardMain", "keyboardAlt"}[i]
		sfx := "'"
		n := 1
		if (i == 1) == opt.alt {
			sfx, n = "", opt.stack
		}
		flag := func(name string) Lin {
			s := w.e.newSym(name)
			w.e.syms[s].width = 5
			st.pushCon(linS(s))
			st.pushCon(linC(31).sub(linS(s)))
			return linS(s)
		}
		in.kf[i] = flag("kbdFlags" + sfx)
		for k := 0; k < n; k++ {
			in.ks[i] = append(in.ks[i], Int{flag(fmt.Sprintf("kbdStack%d%s", k, sfx))})
		}
		km, ok := w.get(st, w.term, w.termT, field).(Struct)
		if !ok || kt == nil {
			continue
		}
		f := append([]Value{}, km.f...)
		f[mustField(kt, "flags")] = Int{in.kf[i]}
		if n > 0 {
			id := w.e.newObjID()
			st.setObj(&Object{id: id, name: "stack", val: Arr{append([]Value{}, in.ks[i]...)}})
			f[mustField(kt, "stack")] = Slice{obj: id, len: linC(int64(n)), cap: linC(int64(n))}
		}
		w.set(st, w.term, w.termT, field, Struct{f})
	}
	// modes the application selected
	in.view = map[string][]Value{}
	w.symSlice(st, in, "viewStrings", func(k int) Value { return strC(fmt.Sprintf("old string %d", k)) })
	w.symSlice(st, in, "viewFlags", func(k int) Value {
		return Bool{op: 'b', bit: Bit{s: w.e.newSym(fmt.Sprintf("viewFlag%d", k))}}
	})
	w.symSlice(st, in, "viewInts", func(k int) Value {
		s := w.sym(fmt.Sprintf("viewInt%d", k))
		st.pushCon(s)
		st.pushCon(linC([]int64{4, 2, 1 << 24}[min(k, 2)]).sub(s))
		switch k {
		case 0:
			in.mouse = s
		case 1:
			in.enc = s
		case 2:
			in.mok = s
		}
		return Int{s}
	})
	return in
}

// symSlice replaces the elements of a slice field of the terminal.
func (w *World) symSlice(st *State, in *Init, field string, f func(k int) Value) {
	s, ok := w.get(st, w.term, w.termT, field).(Slice)
	if !ok {
		return
	}
	els, ok := w.e.elems(st, s)
	if !ok {
		return
	}
	out := make([]Value, len(els))
	for k := range els {
		out[k] = f(k)
	}
	in.view[field] = out
	o := *st.obj(s.obj)
	o.val = Arr{out}
	st.setObj(&o)
}

func (w *World) installScreen(st *State, i int, s Scr) {
	e := w.e
	o := w.scr[i]
	w.set(st, o, w.scrT, "size", w.pos(s.W, s.H))
	w.set(st, o, w.scrT, "cursorPos", w.pos(s.cx, s.cy))
	w.set(st, o, w.scrT, "savedCursorPos", w.pos(s.sx, s.sy))
	w.set(st, o, w.scrT, "topMargin", Int{s.top})
	w.set(st, o, w.scrT, "bottomMargin", Int{s.bot})
	w.set(st, o, w.scrT, "style", s.style)
	w.set(st, o, w.scrT, "autoWrap", s.wrap)
	if w.grid {
		w.installGrid(st, i, s)
		return
	}
	w.set(st, o, w.scrT, "textMode", Int{linC(w.mode)})
	lay := e.lay()
	id := e.newObjID()
	W := s.W
	st.setObj(&Object{id: id, name: "lines", arr: &SymArr{rows: s.H, elem: lay.lineT, name: "lines", base: func(e *Engine, st *State, r, c Lin) Value {
		f := make([]Value, 2)
		f[lay.lnSpans] = RowSpans{&Row{kind: 'B', arr: i, idx: st.norm(r), w: W}}
		f[lay.lnWidth] = Int{W}
		return Struct{f}
	}}})
	w.set(st, o, w.scrT, "lines", Slice{obj: id, len: s.H, cap: s.H})
}

// rowAt is row r of screen i.
func (w *World) rowAt(st *State, i int, r Lin) []Outcome {
	ln, ok := w.get(st, w.scr[i], w.scrT, "lines").(Slice)
	if !ok || ln.obj == 0 {
		return one(st, Unknown{"lines"})
	}
	k := st.norm(ln.off.add(r))
	return w.e.readPath(st, Ptr{ln.obj, append(append([]PathElem{}, ln.path...), PathElem{idx: &k})})
}

// cell is the content of a cell of screen i.
func (w *World) cell(st *State, i int, r, c Lin) []cellOut {
	if w.grid {
		return w.gridCell(st, i, r, c)
	}
	var outs []cellOut
	for _, o := range w.rowAt(st, i, r) {
		s, ok := o.val.(Struct)
		if !ok || o.panic != "" {
			outs = append(outs, cellOut{o.st, unknownCell("no such row")})
			continue
		}
		row, ok := w.e.rowOf(o.st, s.f[w.e.lay().lnSpans])
		if !ok {
			outs = append(outs, cellOut{o.st, unknownCell("unknown row")})
			continue
		}
		outs = append(outs, w.e.cellAt(o.st, row, c)...)
	}
	return outs
}

// ---- running operations

// command feeds bytes (without the ESC) to handleCommand.
func (w *World) command(in *Init, seq Str) []Outcome {
	e := w.e
	id := e.newObjID()
	in.st.setObj(&Object{id: id, name: "source", val: Struct{[]Value{seq, Int{}}}})
	fn := e.mustFunc("(*terminal).handleCommand")
	return e.call(in.st, fn, []Value{Ptr{obj: w.term}, nativeIface("source", id)}, nil)
}

// input feeds text followed by bytes to ptyReadOne.
func (w *World) input(in *Init, text Str, width Lin, rest Str) []Outcome {
	e := w.e
	id := e.newObjID()
	in.source = id
	in.st.setObj(&Object{id: id, name: "input", val: Struct{[]Value{text, rest, Int{width}}}})
	fn := e.mustFunc("(*terminal).ptyReadOne")
	return e.call(in.st, fn, []Value{Ptr{obj: w.term}, Ptr{obj: id}}, nil)
}

// texts feeds runs of text, each delivered by a read of its own, until all is consumed.
func (w *World) texts(in *Init, runs []Str, widths []Lin) []Outcome {
	e := w.e
	fn := e.mustFunc("(*terminal).ptyReadOne")
	cur := []Outcome{{st: in.st}}
	for k, text := range runs {
		id := e.newObjID()
		in.source = id
		var next []Outcome
		for _, o := range cur {
			if o.panic != "" {
				next = append(next, o)
				continue
			}
			o.st.setObj(&Object{id: id, name: "input", val: Struct{[]Value{text, Str{}, Int{widths[k]}}}})
			type job struct {
				st *State
				n  int
			}
			jobs := []job{{st: o.st}}
			for len(jobs) > 0 {
				s, n := jobs[0].st, jobs[0].n
				jobs = jobs[1:]
				if n == 16 {
					s.taint("text not consumed")
					next = append(next, Outcome{st: s})
					continue
				}
				for _, r := range e.call(s, fn, []Value{Ptr{obj: w.term}, Ptr{obj: id}}, nil) {
					_, lost := r.st.tainted()
					left := r.st.obj(id).val.(Struct).f[0].(Str)
					if r.panic != "" || lost || len(left.p) == 0 || r.st.entailsEQ(e.strLen(r.st, left)) {
						next = append(next, r)
						continue
					}
					jobs = append(jobs, job{r.st, n + 1})
				}
			}
		}
		cur = next
	}
	return cur
}

// method calls a method of the terminal.
func (w *World) method(in *Init, name string, args ...Value) []Outcome {
	fn := w.e.mustFunc("(*terminal)." + name)
	return w.e.call(in.st, fn, append([]Value{Ptr{obj: w.term}}, args...), nil)
}

// ---- witnesses

// witness finds integer values for the symbols of a partition; ok is false when the search
// gives up (the obligation then stays undecided).
func (st *State) witness() (map[Sym]int64, bool) {
	s := st.fork()
	// symbols to choose, in order of first mention
	var order []Sym
	seen := map[Sym]bool{}
	add := func(l Lin) {
		for _, t := range s.norm(l).t {
			if !seen[t.s] {
				seen[t.s] = true
				order = append(order, t.s)
			}
		}
	}
	for _, c := range s.cons {
		add(c)
	}
	for _, c := range s.ne {
		add(c)
	}
	sort.Slice(order, func(i, j int) bool {
		bi, bj := s.e.syms[order[i]].bits != nil, s.e.syms[order[j]].bits != nil
		if bi != bj {
			return bj
		}
		return order[i] < order[j]
	})
	budget := 400
	var rec func(s *State, k int) (*State, bool)
	rec = func(s *State, k int) (*State, bool) {
		for k < len(order) && s.norm(linS(order[k])).isC() {
			k++
		}
		if k == len(order) {
			return s, s.ufsHold()
		}
		l := linS(order[k])
		lo, hasLo := s.bound(l, false)
		hi, hasHi := s.bound(l, true)
		cand := s.bitCandidates(order[k], lo)
		switch {
		case cand != nil && s.e.syms[order[k]].bits != nil:
		case hasLo && hasHi && hi-lo <= 6:
			for v := lo; v <= hi; v++ {
				cand = append(cand, v)
			}
		case hasLo:
			cand = append(cand, lo, lo+1, lo+2, lo+3, lo+5)
			if hasHi {
				cand = append(cand, hi)
			}
		case hasHi:
			cand = append(cand, hi, hi-1, hi-2, hi-3)
		default:
			cand = append(cand, 0, 1, -1, 2)
		}
		for _, v := range cand {
			if budget--; budget < 0 {
				return nil, false
			}
			n := s.fork()
			if !n.addEQ(l.plus(-v)) {
				continue
			}
			if r, ok := rec(n, k+1); ok {
				return r, true
			}
		}
		return nil, false
	}
	r, ok := rec(s, 0)
	if !ok {
		return nil, false
	}
	m := map[Sym]int64{}
	for _, x := range order {
		m[x] = r.norm(linS(x)).c
	}
	for _, x := range st.sub {
		if v := r.norm(linS(x.s)); v.isC() {
			m[x.s] = v.c
		}
	}
	return m, true
}

// bitCandidates proposes values for a symbol some of whose bits are known, or which is
// defined by the bits of symbols that already have values.
func (s *State) bitCandidates(x Sym, lo int64) []int64 {
	if d := s.e.syms[x].bits; d != nil {
		v := int64(0)
		for i, b := range d {
			on := b.neg
			if !b.konst {
				src := s.norm(linS(b.s))
				if known, ok := s.bits[Bit{s: b.s, i: b.i}]; ok {
					on = known != b.neg
				} else if src.isC() {
					on = (src.c>>uint(b.i)&1 == 1) != b.neg
				} else {
					return nil
				}
			}
			if on {
				v |= 1 << uint(i)
			}
		}
		return []int64{v}
	}
	v, m, any := int64(0), int64(0), false
	for b, on := range s.bits {
		if b.s == x {
			any = true
			m |= 1 << uint(b.i)
			if on {
				v |= 1 << uint(b.i)
			}
		}
	}
	if !any {
		return nil
	}
	out := []int64{v}
	if lo >= 0 && lo&^m|v != v {
		out = append(out, lo&^m|v)
	}
	return out
}

// ufsHold checks the function symbols of a partition whose symbols all have values.
func (s *State) ufsHold() bool {
	for x := range s.ax {
		_ = x
	}
	val := func(l Lin) (int64, bool) {
		l = s.norm(l)
		return l.c, l.isC()
	}
	for sym, d := range s.e.ufArgs {
		if d.f != "mul" {
			continue
		}
		v, ok := val(linS(sym))
		if !ok {
			continue
		}
		a, ok1 := val(d.args[0])
		b, ok2 := val(d.args[1])
		if ok1 && ok2 && a*b != v {
			return false
		}
	}
	// every bit the definitions of symbols force must be forced one way
	forced := map[Bit]bool{}
	for x := range s.e.syms {
		d := s.e.syms[x].bits
		if d == nil {
			continue
		}
		v, ok := val(linS(Sym(x)))
		if !ok {
			continue
		}
		for i, b := range d {
			on := v>>uint(i)&1 == 1
			if b.konst {
				if b.neg != on {
					return false
				}
				continue
			}
			on = on != b.neg
			b.neg = false
			if was, ok := forced[b]; ok && was != on {
				return false
			}
			if was, ok := s.bits[b]; ok && was != on {
				return false
			}
			if sv, ok := val(linS(b.s)); ok && sv>>uint(b.i)&1 == 1 != on {
				return false
			}
			forced[b] = on
		}
		if len(d) < 63 && v>>uint(len(d)) != 0 {
			return false
		}
	}
	for b, want := range s.bits {
		if v, ok := val(linS(b.s)); ok && (v>>uint(b.i)&1 == 1) != want {
			return false
		}
	}
	return true
}

// bound is the least (or greatest) value of l, found by doubling.
func (s *State) bound(l Lin, up bool) (int64, bool) {
	k := int64(1)
	if up {
		l = l.neg()
	}
	// least v with l >= v
	if !s.possible(linC(-1 << 26).sub(l)) {
		lo, hi := int64(-1<<26), int64(1<<33)
		if s.possible(linC(0).sub(l)) {
			hi = 0
		} else {
			lo = 0
			for k = 1; !s.possible(linC(k).sub(l)); k *= 2 {
				lo = k
				if k > 1<<33 {
					return 0, false
				}
			}
			hi = k
		}
		for lo < hi {
			m := floorDiv(lo+hi, 2)
			if s.possible(linC(m).sub(l)) {
				hi = m
			} else {
				lo = m + 1
			}
		}
		if up {
			return -lo, true
		}
		return lo, true
	}
	return 0, false
}

func (w *World) showWitness(m map[Sym]int64) string {
	var xs []string
	for s, v := range m {
		i := w.e.syms[s]
		if i.uf != "" || i.bits != nil || strings.HasPrefix(i.name, "style") {
			continue
		}
		xs = append(xs, fmt.Sprintf("%s=%d", i.name, v))
	}
	sort.Strings(xs)
	return strings.Join(xs, " ")
}

// constOf is the value of an integer constant of the package.
func (e *Engine) constOf(name string) int64 {
	c, ok := e.t.lookup(name).(*types.Const)
	if !ok {
		panic(anchorErr{"constant " + name})
	}
	v, ok := constant.Int64Val(constant.ToInt(c.Val()))
	if !ok {
		panic(anchorErr{"constant " + name})
	}
	return v
}

func (e *Engine) intType() types.Type { return types.Typ[types.Int] }
