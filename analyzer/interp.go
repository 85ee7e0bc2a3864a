package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The abstract interpreter: the transfer functions of SSA instructions over State, with
// trace partitioning at undecided branches. Functions are analysed in the context of their
// call (callees are entered, not assumed).

type Engine struct {
	t                                 *Target
	prog                              *ssa.Program
	syms                              []symInfo
	ufs                               map[string]Sym
	ufArgs                            map[Sym]ufDef
	nextObj                           int
	globals                           map[*ssa.Global]int
	infos                             map[*ssa.Function]*fnInfo
	memo                              map[string]bool
	depth                             int
	steps                             int
	maxStep                           int
	intr                              map[string]intrinsic
	nat                               map[string]func(e *Engine, st *State, n Native, method string, args []Value) []Outcome
	hook                              func(e *Engine, st *State, fn *ssa.Function, args []Value) ([]Outcome, bool)
	fnsSeen                           map[*ssa.Function]bool
	undec                             map[string]int // reasons for undecided partitions
	loopsAccel, loopsUnroll, loopsCut int
	forks                             int
	noAccel                           bool
	unrollFn                          func(fn *ssa.Function) bool // loops not summarised
	small                             bool                        // lengths are enumerated
	firstRunes                        map[string]Sym
	unroll                            int
	opaque                            int
	initSt                            *State
	layc                              *layout
	wideCuts, lockEvents, realRows    bool
	runGo                             bool  // goroutines run when they are started
	inputErr                          Value // what the input ends with, io.EOF if nil
	backend                           func(e *Engine, st *State, method string, args []Value) ([]Outcome, bool)
}

type intrinsic func(e *Engine, st *State, args []Value) []Outcome

// Outcome is one way a call can end.
type Outcome struct {
	st    *State
	val   Value
	panic string // non-empty: the call panics
	pos   token.Pos
	in    *ssa.Function
}

type fnInfo struct {
	fn    *ssa.Function
	idx   map[ssa.Value]int
	n     int
	loops map[*ssa.BasicBlock]*loopInfo
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	defs   []int // registers defined inside the loop, header phis excluded
	phis   []*ssa.Phi
}

func newEngine(t *Target) *Engine {
	e := &Engine{t: t, prog: t.Prog, ufs: map[string]Sym{}, ufArgs: map[Sym]ufDef{}, globals: map[*ssa.Global]int{}, infos: map[*ssa.Function]*fnInfo{}, memo: map[string]bool{}, maxStep: 30_000_000, fnsSeen: map[*ssa.Function]bool{}, undec: map[string]int{}, nextObj: 1}
	e.intr = stdIntrinsics()
	e.nat = map[string]func(e *Engine, st *State, n Native, method string, args []Value) []Outcome{}
	registerNatives(e)
	return e
}

func (e *Engine) consistentMemo(cons []Lin, l Lin) bool {
	rel := connected(cons, l)
	keys := make([]string, len(rel))
	for i, c := range rel {
		keys[i] = c.key()
	}
	sort.Strings(keys)
	k := l.key() + "#" + strings.Join(keys, ";")
	if v, ok := e.memo[k]; ok {
		return v
	}
	v := fmFeasible(append(rel, l))
	if len(e.memo) > 2_000_000 {
		e.memo = map[string]bool{}
	}
	e.memo[k] = v
	return v
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			li := fi.loops[s]
			if li == nil {
				li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
				fi.loops[s] = li
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if li.body[x] {
					continue
				}
				li.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, li := range fi.loops {
		for b := range li.body {
			for _, in := range b.Instrs {
				if p, ok := in.(*ssa.Phi); ok && b == li.header {
					li.phis = append(li.phis, p)
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					li.defs = append(li.defs, fi.idx[v])
				}
			}
		}
		sort.Ints(li.defs)
	}
	e.infos[fn] = fi
	return fi
}

type frame struct {
	fi *fnInfo
}

type item struct {
	b      *ssa.BasicBlock
	i      int // next instruction
	prev   *ssa.BasicBlock
	env    []Value
	st     *State
	defers []deferRec
}

type deferRec struct {
	fn   Func
	args []Value
	com  *ssa.CallCommon
}

func (it *item) clone(st *State) *item {
	n := *it
	n.env = append([]Value(nil), it.env...)
	n.st = st
	n.defers = it.defers[:len(it.defers):len(it.defers)]
	return &n
}

type budgetErr struct{}

const maxDepth = 60

// call analyses fn in the context of its arguments.
func (e *Engine) call(st *State, fn *ssa.Function, args []Value, free []Value) []Outcome {
	if e.hook != nil {
		if outs, ok := e.hook(e, st, fn, args); ok {
			return outs
		}
	}
	if fn.Name() == "init" && fn.Package() != e.t.Pkg && fn.Signature.Recv() == nil {
		return one(st, nil)
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if in, ok := e.intr[name]; ok {
		return in(e, st, args)
	}
	if strings.HasPrefix(fn.Name(), "debugPrint") && fn.Package() == e.t.Pkg {
		return []Outcome{{st: st}}
	}
	if fn.Blocks == nil || !e.inScope(fn) {
		return e.unknownCall(st, fn.String(), fn.Signature)
	}
	if e.depth > maxDepth {
		st.taint("call depth " + fn.Name())
		return []Outcome{{st: st, val: e.unknownResult(fn.Signature)}}
	}
	e.depth++
	defer func() { e.depth-- }()
	e.fnsSeen[fn] = true
	fi := e.info(fn)
	env := make([]Value, fi.n)
	for i, p := range fn.Params {
		if i < len(args) {
			env[fi.idx[p]] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			env[fi.idx[f]] = free[i]
		}
	}
	fr := &frame{fi: fi}
	start := &item{b: fn.Blocks[0], env: env, st: st}
	outs, backs, exits := e.run(fr, []*item{start}, nil)
	if len(backs)+len(exits) > 0 {
		panic("loop edges escaped a function")
	}
	return outs
}

func (e *Engine) inScope(fn *ssa.Function) bool {
	root := fn
	for root.Parent() != nil {
		root = root.Parent()
	}
	if root.Package() == e.t.Pkg {
		return true
	}
	if root.Package() == nil { // wrappers, bound methods, instances
		if root.Object() != nil && root.Object().Pkg() == e.t.Pkg.Pkg {
			return true
		}
		return root.Synthetic != ""
	}
	return false
}

func (st *State) taint(why string) {
	if debugEnv("TAINT") {
		println("taint:", why, len(st.path), fmt.Sprint(tail(st.path, 1)))
	}
	st.e.undec[why]++
	st.ghost["taint"] = strC(why)
}

func (st *State) tainted() (string, bool) {
	if v, ok := st.ghost["taint"]; ok {
		s, _ := v.(Str).constVal()
		return s, true
	}
	return "", false
}

func (e *Engine) unknownResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return Unknown{"result"}
	}
	var f []Value
	for i := 0; i < sig.Results().Len(); i++ {
		f = append(f, Unknown{"result"})
	}
	return Struct{f}
}

func (e *Engine) unknownCall(st *State, name string, sig *types.Signature) []Outcome {
	st.taint("unmodelled call " + name)
	return []Outcome{{st: st, val: e.unknownResult(sig)}}
}

// run executes items until they return, reach the loop header again (backs) or leave the loop
// (exits). loop is nil at function level.
func (e *Engine) run(fr *frame, items []*item, loop *loopInfo) (outs []Outcome, backs, exits []*item) {
	stack := append([]*item{}, items...)
	for i, j := 0, len(stack)-1; i < j; i, j = i+1, j-1 {
		stack[i], stack[j] = stack[j], stack[i]
	}
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		// enter the block
		if it.i == 0 {
			if covering {
				covered.Store(it.b, true)
			}
			it.st.trace = it.st.trace*1099511628211 + uint64(it.b.Index) + 7
			n := e.phis(fr, it)
			it.i = n
		}
	block:
		for {
			if e.steps++; e.steps&1023 == 0 {
				inTime()
			}
			if e.steps > e.maxStep {
				panic(budgetErr{})
			}
			in := it.b.Instrs[it.i]
			switch in := in.(type) {
			case *ssa.Jump:
				stack = e.transfer(fr, it, it.b.Succs[0], loop, stack, &outs, &backs, &exits)
				break block
			case *ssa.If:
				c := e.val(fr, it, in.Cond)
				b, ok := c.(Bool)
				if !ok {
					it.st.taint("branch on an unknown value in " + fr.fi.fn.Name())
					o := it.clone(it.st.fork())
					stack = e.transfer(fr, o, it.b.Succs[1], loop, stack, &outs, &backs, &exits)
					stack = e.transfer(fr, it, it.b.Succs[0], loop, stack, &outs, &backs, &exits)
					break block
				}
				switch it.st.decide(b) {
				case 1:
					stack = e.transfer(fr, it, it.b.Succs[0], loop, stack, &outs, &backs, &exits)
				case 0:
					stack = e.transfer(fr, it, it.b.Succs[1], loop, stack, &outs, &backs, &exits)
				default:
					if nit, ok := e.joinDiamond(fr, it, b, loop); ok {
						stack = append(stack, nit)
						break block
					}
					e.forks++
					o := it.st.fork()
					for _, s := range o.assume(b.not()) {
						s.path = append(s.path, e.branchNote(in, false))
						stack = e.transfer(fr, it.clone(s), it.b.Succs[1], loop, stack, &outs, &backs, &exits)
					}
					for _, s := range it.st.assume(b) {
						s.path = append(s.path, e.branchNote(in, true))
						stack = e.transfer(fr, it.clone(s), it.b.Succs[0], loop, stack, &outs, &backs, &exits)
					}
				}
				break block
			case *ssa.Return:
				var v Value
				switch len(in.Results) {
				case 0:
				case 1:
					v = e.val(fr, it, in.Results[0])
				default:
					f := make([]Value, len(in.Results))
					for i, r := range in.Results {
						f[i] = e.val(fr, it, r)
					}
					v = Struct{f}
				}
				outs = append(outs, Outcome{st: it.st, val: v})
				break block
			case *ssa.Panic:
				outs = append(outs, Outcome{st: it.st, panic: "explicit panic", pos: in.Pos(), in: fr.fi.fn})
				break block
			case *ssa.RunDefers:
				its := []*item{it}
				ds := it.defers
				for k := len(ds) - 1; k >= 0; k-- {
					var next []*item
					for _, x := range its {
						for _, o := range e.callValue(x.st, ds[k].fn, ds[k].args) {
							if o.panic != "" {
								outs = append(outs, o)
								continue
							}
							next = append(next, x.clone(o.st))
						}
					}
					its = next
				}
				for _, x := range its {
					x.defers = nil
					x.i++
				}
				if len(its) == 0 {
					break block
				}
				stack = append(stack, its[1:]...)
				it = its[0]
				continue
			}
			res := e.step(fr, it, in)
			if len(res) == 1 && res[0].panic == "" {
				it.st = res[0].st
				if v, ok := in.(ssa.Value); ok {
					it.env[fr.fi.idx[v]] = res[0].val
				}
				it.i++
				continue
			}
			for k := len(res) - 1; k >= 0; k-- {
				o := res[k]
				if o.panic != "" {
					outs = append(outs, o)
					continue
				}
				n := it.clone(o.st)
				if v, ok := in.(ssa.Value); ok {
					n.env[fr.fi.idx[v]] = o.val
				}
				n.i = it.i + 1
				stack = append(stack, n)
			}
			break block
		}
	}
	return
}

func (e *Engine) branchNote(in *ssa.If, taken bool) string {
	p := in.Cond.Pos()
	if !p.IsValid() {
		p = in.Block().Instrs[0].Pos()
	}
	return fmt.Sprintf("%s:%v", e.t.Pos(p), taken)
}

// transfer moves an item along an edge.
func (e *Engine) transfer(fr *frame, it *item, succ *ssa.BasicBlock, loop *loopInfo, stack []*item, outs *[]Outcome, backs, exits *[]*item) []*item {
	if it.b != succ || it.i >= 0 {
		it.prev = it.b
	}
	it.b = succ
	it.i = 0
	if loop != nil {
		if succ == loop.header {
			*backs = append(*backs, it)
			return stack
		}
		if !loop.body[succ] {
			*exits = append(*exits, it)
			return stack
		}
	}
	if li := fr.fi.loops[succ]; li != nil {
		o, ex := e.execLoop(fr, li, it, 0)
		*outs = append(*outs, o...)
		for _, x := range ex {
			// x has already moved to the target outside the inner loop
			t := x.b
			if loop != nil && t == loop.header {
				*backs = append(*backs, x)
			} else if loop != nil && !loop.body[t] {
				*exits = append(*exits, x)
			} else if l2 := fr.fi.loops[t]; l2 != nil {
				stack = e.enterLoop(fr, l2, x, loop, stack, outs, backs, exits)
			} else {
				stack = append(stack, x)
			}
		}
		return stack
	}
	return append(stack, it)
}

func (e *Engine) enterLoop(fr *frame, li *loopInfo, it *item, loop *loopInfo, stack []*item, outs *[]Outcome, backs, exits *[]*item) []*item {
	o, ex := e.execLoop(fr, li, it, 0)
	*outs = append(*outs, o...)
	for _, x := range ex {
		t := x.b
		if loop != nil && t == loop.header {
			*backs = append(*backs, x)
		} else if loop != nil && !loop.body[t] {
			*exits = append(*exits, x)
		} else if l2 := fr.fi.loops[t]; l2 != nil {
			stack = e.enterLoop(fr, l2, x, loop, stack, outs, backs, exits)
		} else {
			stack = append(stack, x)
		}
	}
	return stack
}

// phis evaluates the phis of it.b for the edge it.prev -> it.b; returns the first other index.
func (e *Engine) phis(fr *frame, it *item) int {
	n := 0
	var vals []Value
	for n < len(it.b.Instrs) {
		p, ok := it.b.Instrs[n].(*ssa.Phi)
		if !ok {
			break
		}
		k := -1
		for i, pr := range it.b.Preds {
			if pr == it.prev {
				k = i
			}
		}
		if k < 0 {
			panic("phi without predecessor")
		}
		vals = append(vals, e.val(fr, it, p.Edges[k]))
		n++
	}
	for i, v := range vals {
		it.env[fr.fi.idx[it.b.Instrs[i].(*ssa.Phi)]] = v
	}
	return n
}

// val evaluates an operand.
func (e *Engine) val(fr *frame, it *item, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return Func{fn: v}
	case *ssa.Global:
		return Ptr{obj: e.globalObj(it.st, v)}
	case *ssa.Builtin:
		return Func{name: v.Name()}
	}
	x := it.env[fr.fi.idx[v]]
	if x == nil {
		panic(fmt.Sprintf("undefined register %s in %s", v.Name(), fr.fi.fn))
	}
	return x
}

func (e *Engine) globalObj(st *State, g *ssa.Global) int {
	id, ok := e.globals[g]
	if !ok {
		id = e.newObjID()
		e.globals[g] = id
	}
	if st.heap[id] == nil {
		t := g.Type().(*types.Pointer).Elem()
		var v Value = e.zero(t)
		if g.Pkg != e.t.Pkg {
			if types.IsInterface(t) { // io.EOF and friends
				v = errVal(g.RelString(nil))
			} else {
				v = Native{kind: "global", data: g.RelString(nil)}
			}
		}
		st.setObj(&Object{id: id, typ: t, val: v, name: g.Name()})
	}
	return id
}

func (e *Engine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolC(constant.BoolVal(c.Value))
	case constant.String:
		return strC(constant.StringVal(c.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			return Int{linC(i)}
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return Int{linC(int64(u))}
		}
	case constant.Float:
		if isInteger(c.Type()) {
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return Int{linC(i)}
			}
		}
	}
	return Unknown{"constant " + c.String()}
}

// onlyStored: the loaded value goes nowhere but into stores.
func onlyStored(in *ssa.UnOp) bool {
	refs := in.Referrers()
	if refs == nil || len(*refs) == 0 {
		return false
	}
	for _, r := range *refs {
		if s, ok := r.(*ssa.Store); !ok || s.Val != in {
			return false
		}
	}
	return true
}

// arrOpen: which write element i comes from is not known.
func (e *Engine) arrOpen(st *State, a *SymArr, i Lin) bool {
	for n := a.log; n != nil; n = n.next {
		switch st.decide(condAll(condGE(i, n.lo), condLT(i, n.hi))) {
		case 1:
			return false
		case 0:
			continue
		}
		return true
	}
	return false
}

func isInteger(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStdType(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == name
}

func (e *Engine) zero(t types.Type) Value {
	if isStdType(t, "bytes.Buffer") || isStdType(t, "strings.Builder") {
		return Str{}
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return bFalse
		case u.Info()&types.IsInteger != 0:
			return Int{}
		case u.Info()&types.IsString != 0:
			return Str{}
		}
		if u.Kind() == types.UntypedNil {
			return Nil{}
		}
		return Unknown{"zero " + t.String()}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return Struct{f}
	case *types.Array:
		n := int(u.Len())
		el := make([]Value, n)
		for i := range el {
			el[i] = e.zero(u.Elem())
		}
		return Arr{el}
	case *types.Slice:
		return Slice{}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = e.zero(u.At(i).Type())
		}
		return Struct{f}
	}
	return Nil{}
}

func one(st *State, v Value) []Outcome { return []Outcome{{st: st, val: v}} }

// step executes one ordinary instruction.
func (e *Engine) step(fr *frame, it *item, in ssa.Instruction) []Outcome {
	st := it.st
	switch in := in.(type) {
	case *ssa.DebugRef:
		return one(st, nil)
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		id := st.alloc(t, e.zero(t))
		return one(st, Ptr{obj: id})
	case *ssa.BinOp:
		return e.binop(st, in.Op, e.val(fr, it, in.X), e.val(fr, it, in.Y), in.X.Type(), in.Type(), in.Pos(), fr.fi.fn)
	case *ssa.UnOp:
		x := e.val(fr, it, in.X)
		switch in.Op {
		case token.MUL:
			if p, ok := x.(Ptr); ok && len(p.path) == 1 && p.path[0].idx != nil && onlyStored(in) {
				if o := st.obj(p.obj); o.arr != nil && o.arr.cols == nil && e.arrOpen(st, o.arr, *p.path[0].idx) {
					a := *o.arr
					return one(st, Elem{&a, st.norm(*p.path[0].idx)})
				}
			}
			return e.load(st, x, in.Type(), in.Pos(), fr.fi.fn)
		case token.NOT:
			if b, ok := x.(Bool); ok {
				return one(st, b.not())
			}
			return one(st, Unknown{"not"})
		case token.SUB:
			if i, ok := x.(Int); ok {
				return one(st, Int{e.wrap(st, i.Lin.neg(), in.Type())})
			}
		case token.XOR:
			if i, ok := x.(Int); ok {
				w, signed := intWidth(in.Type())
				if signed {
					return one(st, Int{i.Lin.neg().plus(-1)})
				}
				bs := st.toBits(i.Lin, w)
				for k := range bs {
					bs[k].neg = !bs[k].neg
				}
				return one(st, Int{st.fromBits(bs)})
			}
		}
		return one(st, Unknown{"unop"})
	case *ssa.ChangeType:
		return one(st, e.val(fr, it, in.X))
	case *ssa.Convert:
		return e.convert(st, e.val(fr, it, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return e.convert(st, e.val(fr, it, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeInterface:
		return one(st, e.val(fr, it, in.X))
	case *ssa.MakeInterface:
		x := e.val(fr, it, in.X)
		return one(st, Iface{t: in.X.Type(), v: x})
	case *ssa.MakeClosure:
		f := Func{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.free = append(f.free, e.val(fr, it, b))
		}
		return one(st, f)
	case *ssa.MakeMap:
		id := e.newObjID()
		st.setObj(&Object{id: id, typ: in.Type()})
		return one(st, MapV{id})
	case *ssa.MapUpdate:
		m, ok := e.val(fr, it, in.Map).(MapV)
		if !ok {
			st.taint("map update")
			return one(st, nil)
		}
		o := *st.obj(m.obj)
		o.mp = append(o.mp[:len(o.mp):len(o.mp)], mapEntry{e.val(fr, it, in.Key), e.val(fr, it, in.Value)})
		st.setObj(&o)
		return one(st, nil)
	case *ssa.Lookup:
		return e.lookup(st, e.val(fr, it, in.X), e.val(fr, it, in.Index), in)
	case *ssa.MakeSlice:
		return e.makeSlice(st, in, e.val(fr, it, in.Len), e.val(fr, it, in.Cap), fr.fi.fn)
	case *ssa.Slice:
		var lo, hi Value
		if in.Low != nil {
			lo = e.val(fr, it, in.Low)
		}
		if in.High != nil {
			hi = e.val(fr, it, in.High)
		}
		var mx Value
		if in.Max != nil {
			mx = e.val(fr, it, in.Max)
		}
		return e.slice(st, e.val(fr, it, in.X), in.X.Type(), lo, hi, mx, in.Pos(), fr.fi.fn)
	case *ssa.FieldAddr:
		x := e.val(fr, it, in.X)
		p, ok := x.(Ptr)
		if !ok {
			if _, isNil := x.(Nil); isNil {
				return []Outcome{{st: st, panic: "nil dereference", pos: in.Pos(), in: fr.fi.fn}}
			}
			return one(st, Unknown{"field of " + fmt.Sprintf("%T", x)})
		}
		path := make([]PathElem, 0, len(p.path)+1)
		path = append(append(path, p.path...), PathElem{field: in.Field})
		return one(st, Ptr{p.obj, path})
	case *ssa.Field:
		if s, ok := e.val(fr, it, in.X).(Struct); ok {
			return one(st, s.f[in.Field])
		}
		return one(st, Unknown{"field"})
	case *ssa.IndexAddr:
		return e.indexAddr(st, e.val(fr, it, in.X), e.val(fr, it, in.Index), in.X.Type(), in.Pos(), fr.fi.fn)
	case *ssa.Index:
		x := e.val(fr, it, in.X)
		i, ok := e.val(fr, it, in.Index).(Int)
		if !ok {
			return one(st, Unknown{"index"})
		}
		switch x := x.(type) {
		case Arr:
			return e.pick(st, x.e, i.Lin, in.Pos(), fr.fi.fn)
		case Str:
			return e.strIndex(st, x, i.Lin, in.Pos(), fr.fi.fn)
		}
		return one(st, Unknown{"index"})
	case *ssa.Extract:
		if s, ok := e.val(fr, it, in.Tuple).(Struct); ok {
			return one(st, s.f[in.Index])
		}
		return one(st, Unknown{"extract"})
	case *ssa.Store:
		return e.store(st, e.val(fr, it, in.Addr), e.val(fr, it, in.Val), in.Pos(), fr.fi.fn)
	case *ssa.TypeAssert:
		return e.typeAssert(st, e.val(fr, it, in.X), in, fr.fi.fn)
	case *ssa.Range:
		return one(st, Native{kind: "range", data: e.val(fr, it, in.X), id: st.alloc(nil, Int{})})
	case *ssa.Next:
		return e.next(st, e.val(fr, it, in.Iter), in)
	case *ssa.Defer:
		f, args, ok := e.callTarget(fr, it, &in.Call)
		if !ok {
			st.taint("defer of an unknown function")
			return one(st, nil)
		}
		it.defers = append(it.defers[:len(it.defers):len(it.defers)], deferRec{fn: f, args: args})
		return one(st, nil)
	case *ssa.Go:
		if e.runGo {
			f, args, ok := e.callTarget(fr, it, &in.Call)
			if !ok {
				st.taint("go with an unknown function")
				return one(st, nil)
			}
			return e.callValue(st, f, args)
		}
		return one(st, nil)
	case *ssa.Call:
		return e.doCall(fr, it, in)
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		return one(st, Unknown{"channel"})
	case *ssa.SliceToArrayPointer:
		return one(st, Unknown{"slice to array pointer"})
	}
	st.taint(fmt.Sprintf("instruction %T", in))
	return one(st, Unknown{"instr"})
}

// callTarget resolves a call to a function value and arguments.
func (e *Engine) callTarget(fr *frame, it *item, c *ssa.CallCommon) (Func, []Value, bool) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, e.val(fr, it, a))
	}
	if c.IsInvoke() {
		recv := e.val(fr, it, c.Value)
		f, rv, ok := e.method(recv, c.Method)
		if !ok {
			return Func{}, nil, false
		}
		return f, append([]Value{rv}, args...), true
	}
	f, ok := e.val(fr, it, c.Value).(Func)
	return f, args, ok
}

// method finds the implementation of an interface method.
func (e *Engine) method(recv Value, m *types.Func) (Func, Value, bool) {
	ifc, ok := recv.(Iface)
	if !ok {
		if n, ok := recv.(Native); ok {
			return Func{name: m.Name(), nat: func(e *Engine, st *State, args []Value) []Outcome {
				return e.native(st, n, m.Name(), args[1:])
			}}, n, true
		}
		return Func{}, nil, false
	}
	if n, ok := ifc.v.(Native); ok {
		return Func{name: m.Name(), nat: func(e *Engine, st *State, args []Value) []Outcome {
			return e.native(st, n, m.Name(), args[1:])
		}}, n, true
	}
	fn := e.prog.LookupMethod(ifc.t, m.Pkg(), m.Name())
	if fn == nil {
		return Func{}, nil, false
	}
	return Func{fn: fn}, ifc.v, true
}

func (e *Engine) native(st *State, n Native, method string, args []Value) []Outcome {
	if h, ok := e.nat[n.kind]; ok {
		return h(e, st, n, method, args)
	}
	st.taint("native " + n.kind + "." + method)
	return one(st, Unknown{"native"})
}

func (e *Engine) callValue(st *State, f Func, args []Value) []Outcome {
	if f.nat != nil {
		return f.nat(e, st, args)
	}
	if f.fn != nil {
		return e.call(st, f.fn, args, f.free)
	}
	return e.builtin(st, f.name, args, nil, token.NoPos, nil)
}

func (e *Engine) doCall(fr *frame, it *item, in *ssa.Call) []Outcome {
	st := it.st
	c := &in.Call
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var args []Value
		for _, a := range c.Args {
			args = append(args, e.val(fr, it, a))
		}
		return e.builtin(st, b.Name(), args, c, in.Pos(), fr.fi.fn)
	}
	f, args, ok := e.callTarget(fr, it, c)
	if !ok {
		var recv Value
		if c.IsInvoke() || c.Value != nil {
			recv = e.val(fr, it, c.Value)
		}
		if _, isNil := recv.(Nil); isNil {
			return []Outcome{{st: st, panic: "call on nil", pos: in.Pos(), in: fr.fi.fn}}
		}
		st.taint("call of an unknown function in " + fr.fi.fn.Name())
		return one(st, e.unknownResult(c.Signature()))
	}
	outs := e.callValue(st, f, args)
	for i := range outs {
		if outs[i].panic == "" && outs[i].val == nil && c.Signature().Results().Len() > 0 {
			outs[i].val = e.unknownResult(c.Signature())
		}
		if outs[i].panic != "" && outs[i].in == nil {
			outs[i].in, outs[i].pos = fr.fi.fn, in.Pos()
		}
	}
	return outs
}

// branch splits st on cond.
func (e *Engine) branch(st *State, c Bool) (yes, no []*State) {
	switch st.decide(c) {
	case 1:
		return []*State{st}, nil
	case 0:
		return nil, []*State{st}
	}
	e.forks++
	o := st.fork()
	return st.assume(c), o.assume(c.not())
}

func intWidth(t types.Type) (int, bool) {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 63, false
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	}
	return 63, true
}

// wrap reduces an unsigned result modulo its width. Signed arithmetic is assumed not to overflow.
func (e *Engine) wrap(st *State, l Lin, t types.Type) Lin {
	w, signed := intWidth(t)
	if signed || w >= 63 {
		return l
	}
	return e.modPow2(st, l, w)
}

func (e *Engine) modPow2(st *State, l Lin, w int) Lin {
	l = st.norm(l)
	m := int64(1) << uint(w)
	if l.isC() {
		return linC(l.c - m*floorDiv(l.c, m))
	}
	if st.entailsGE(l) && st.entailsGE(linC(m-1).sub(l)) {
		return l
	}
	return l.addk(st.divFloor(l, m), -m)
}

func (e *Engine) binop(st *State, op token.Token, x, y Value, xt, rt types.Type, pos token.Pos, fn *ssa.Function) []Outcome {
	switch op {
	case token.EQL, token.NEQ:
		b := e.equal(st, x, y)
		if bb, ok := b.(Bool); ok && op == token.NEQ {
			return one(st, bb.not())
		}
		return one(st, b)
	}
	if a, ok := x.(Str); ok && op == token.ADD {
		if b, ok := y.(Str); ok {
			return one(st, strCat(a, b))
		}
	}
	if a, ok := x.(Str); ok {
		if b, ok := y.(Str); ok {
			sa, ok1 := a.constVal()
			sb, ok2 := b.constVal()
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return one(st, boolC(sa < sb))
				case token.LEQ:
					return one(st, boolC(sa <= sb))
				case token.GTR:
					return one(st, boolC(sa > sb))
				case token.GEQ:
					return one(st, boolC(sa >= sb))
				}
			}
		}
	}
	a, ok1 := x.(Int)
	b, ok2 := y.(Int)
	if !ok1 || !ok2 {
		if bx, ok := x.(Bool); ok {
			if by, ok := y.(Bool); ok {
				switch op {
				case token.AND, token.LAND:
					return one(st, condAll(bx, by))
				case token.OR, token.LOR:
					return one(st, condAny(bx, by))
				}
			}
		}
		return one(st, Unknown{"binop " + op.String()})
	}
	la, lb := st.norm(a.Lin), st.norm(b.Lin)
	switch op {
	case token.LSS:
		return one(st, condLT(la, lb))
	case token.LEQ:
		return one(st, condLE(la, lb))
	case token.GTR:
		return one(st, condGT(la, lb))
	case token.GEQ:
		return one(st, condGE(la, lb))
	case token.ADD:
		return one(st, Int{e.wrap(st, la.add(lb), rt)})
	case token.SUB:
		return one(st, Int{e.wrap(st, la.sub(lb), rt)})
	case token.MUL:
		if la.isC() {
			return one(st, Int{e.wrap(st, lb.scale(la.c), rt)})
		}
		if lb.isC() {
			return one(st, Int{e.wrap(st, la.scale(lb.c), rt)})
		}
		if la.key() > lb.key() {
			la, lb = lb, la
		}
		return one(st, Int{st.ufm("mul", []Lin{la, lb}, func(st *State, a []Lin) Lin { return st.mul(a[0], a[1]) }, func(s Lin, a []Lin) []Lin { return nil })})
	case token.QUO, token.REM:
		if !lb.isC() || lb.c == 0 {
			yes, no := e.branch(st, condEQ(lb, linC(0)))
			var outs []Outcome
			for _, s := range yes {
				outs = append(outs, Outcome{st: s, panic: "division by zero", pos: pos, in: fn})
			}
			for _, s := range no {
				outs = append(outs, Outcome{st: s, val: Unknown{"division"}})
			}
			return outs
		}
		if lb.c > 0 && st.entailsGE(la) {
			q := st.divFloor(la, lb.c)
			if op == token.QUO {
				return one(st, Int{q})
			}
			return one(st, Int{la.addk(q, -lb.c)})
		}
		if lb.c > 0 {
			yes, no := e.branch(st, condGE(la, linC(0)))
			var outs []Outcome
			for _, s := range yes {
				q := s.divFloor(la, lb.c)
				if op == token.REM {
					q = la.addk(q, -lb.c)
				}
				outs = append(outs, Outcome{st: s, val: Int{q}})
			}
			for _, s := range no {
				q := s.divFloor(la.neg(), lb.c).neg()
				if op == token.REM {
					q = la.addk(q, -lb.c)
				}
				outs = append(outs, Outcome{st: s, val: Int{q}})
			}
			return outs
		}
		return one(st, Unknown{"division"})
	case token.SHL:
		if lb.isC() && lb.c >= 0 && lb.c < 62 {
			return one(st, Int{e.wrap(st, la.scale(1<<uint(lb.c)), rt)})
		}
		if la.isC() {
			// constant << symbol with a small range: one partition per amount
			return e.enumerate(st, lb, 0, 63, func(s *State, k int64) Value {
				return Int{e.wrap(s, linC(la.c<<uint(k)), rt)}
			})
		}
	case token.SHR:
		if lb.isC() && lb.c >= 0 && lb.c < 62 {
			w, signed := intWidth(rt)
			if signed {
				return one(st, Int{st.divFloor(la, 1<<uint(lb.c))})
			}
			bs := st.toBits(la, w)
			if int(lb.c) >= len(bs) {
				return one(st, Int{})
			}
			return one(st, Int{st.fromBits(append([]Bit{}, bs[lb.c:]...))})
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		w, _ := intWidth(rt)
		if lb.isC() && la.isC() {
			var c int64
			switch op {
			case token.AND:
				c = la.c & lb.c
			case token.OR:
				c = la.c | lb.c
			case token.XOR:
				c = la.c ^ lb.c
			case token.AND_NOT:
				c = la.c &^ lb.c
			}
			return one(st, Int{linC(c)})
		}
		if op == token.AND {
			// a low mask is a remainder
			for _, p := range [][2]Lin{{la, lb}, {lb, la}} {
				if m := p[1]; m.isC() && m.c > 0 && m.c&(m.c+1) == 0 && m.c != 1 && st.entailsGE(p[0]) && !isBitsSym(st, p[0]) {
					k := 0
					for v := m.c; v > 0; v >>= 1 {
						k++
					}
					if st.entailsGE(linC(m.c).sub(p[0])) {
						return one(st, Int{p[0]})
					}
					if k < 32 && !bitwise(st, p[0]) {
						return one(st, Int{e.modPow2(st, p[0], k)})
					}
				}
			}
		}
		ba, bb := st.toBits(la, w), st.toBits(lb, w)
		out := make([]Bit, w)
		for i := range out {
			out[i] = bitOp(op, ba[i], bb[i], st)
		}
		return one(st, Int{st.fromBits(out)})
	}
	return one(st, Unknown{"binop " + op.String()})
}

func (st *State) mul(a, b Lin) Lin {
	if a.isC() {
		return b.scale(a.c)
	}
	if b.isC() {
		return a.scale(b.c)
	}
	return st.ufm("mul", []Lin{a, b}, func(st *State, a []Lin) Lin { return st.mul(a[0], a[1]) }, func(s Lin, a []Lin) []Lin { return nil })
}

func isBitsSym(st *State, l Lin) bool {
	return len(l.t) == 1 && l.c == 0 && st.e.syms[l.t[0].s].bits != nil
}

// bitwise: l is (a shift of) one symbol, so bit operations keep exact provenance.
func bitwise(st *State, l Lin) bool {
	return len(l.t) == 1 && l.c == 0 && l.t[0].k == 1 && st.e.syms[l.t[0].s].uf == ""
}

func bitOp(op token.Token, a, b Bit, st *State) Bit {
	if op == token.AND_NOT {
		b.neg = !b.neg
		op = token.AND
	}
	switch op {
	case token.AND:
		switch {
		case a == bit0 || b == bit0:
			return bit0
		case a == bit1:
			return b
		case b == bit1:
			return a
		case a == b:
			return a
		case a.s == b.s && a.i == b.i:
			return bit0
		}
	case token.OR:
		switch {
		case a == bit1 || b == bit1:
			return bit1
		case a == bit0:
			return b
		case b == bit0:
			return a
		case a == b:
			return a
		case a.s == b.s && a.i == b.i:
			return bit1
		}
	case token.XOR:
		switch {
		case a.konst:
			b.neg = b.neg != a.neg
			return b
		case b.konst:
			a.neg = a.neg != b.neg
			return a
		case a == b:
			return bit0
		case a.s == b.s && a.i == b.i:
			return bit1
		}
	}
	// an unrelated pair: a symbol for the result
	k := fmt.Sprintf("bitop|%d|%v|%v", op, a, b)
	if op != token.AND_NOT && (b.s < a.s || b.s == a.s && b.i < a.i) {
		k = fmt.Sprintf("bitop|%d|%v|%v", op, b, a)
		a, b = b, a
	}
	s, ok := st.e.ufs[k]
	if !ok {
		s = st.e.newSym(fmt.Sprintf("(%s.%d %s %s.%d)", st.e.symName(a.s), a.i, op, st.e.symName(b.s), b.i))
		st.e.syms[s].width = 1
		st.e.ufs[k] = s
	}
	st.axiom(s, func(s Lin) []Lin { return []Lin{s, linC(1).sub(s)} })
	// known operands decide it
	return Bit{s: s, i: 0}
}

// enumerate splits on the value of l in [lo,hi].
func (e *Engine) enumerate(st *State, l Lin, lo, hi int64, f func(st *State, k int64) Value) []Outcome {
	var outs []Outcome
	cur := []*State{st}
	for k := lo; k <= hi && len(cur) > 0; k++ {
		var rest []*State
		for _, s := range cur {
			yes, no := e.branch(s, condEQ(l, linC(k)))
			for _, y := range yes {
				outs = append(outs, Outcome{st: y, val: f(y, k)})
			}
			rest = append(rest, no...)
		}
		cur = rest
	}
	for _, s := range cur {
		s.taint("value out of the enumerated range")
		outs = append(outs, Outcome{st: s, val: Unknown{"enumerate"}})
	}
	return outs
}

// equal compares two values; the result is a Bool or Unknown.
func (e *Engine) equal(st *State, x, y Value) Value {
	switch a := x.(type) {
	case Int:
		if b, ok := y.(Int); ok {
			return e.eqInt(st, a.Lin, b.Lin)
		}
	case Bool:
		if b, ok := y.(Bool); ok {
			if b.op == 'T' {
				return a
			}
			if b.op == 'F' {
				return a.not()
			}
			if a.op == 'T' {
				return b
			}
			if a.op == 'F' {
				return b.not()
			}
			if a.op == 'b' && b.op == 'b' && a.bit.s == b.bit.s && a.bit.i == b.bit.i {
				return boolC(a.bit.neg == b.bit.neg)
			}
			return condAny(condAll(a, b), condAll(a.not(), b.not()))
		}
	case Str:
		switch b := y.(type) {
		case Str:
			return e.strEqual(st, a, b)
		case Nil:
			return boolC(a.isNil)
		case Slice:
			if b.obj == 0 {
				return boolC(a.isNil)
			}
		}
	case Nil:
		switch b := y.(type) {
		case Nil:
			return bTrue
		case Ptr, Func, Iface, MapV, Native:
			return bFalse
		case Slice:
			return boolC(b.obj == 0)
		case Str:
			return boolC(b.isNil)
		case RowSpans:
			return bFalse
		}
	case Ptr:
		switch b := y.(type) {
		case Nil:
			return bFalse
		case Ptr:
			if a.obj != b.obj || len(a.path) != len(b.path) {
				return bFalse
			}
			c := bTrue
			for i := range a.path {
				p, q := a.path[i], b.path[i]
				if p.idx == nil || q.idx == nil {
					if p.field != q.field {
						return bFalse
					}
					continue
				}
				c = condAll(c, condEQ(*p.idx, *q.idx))
			}
			return c
		}
	case Func, MapV:
		if _, ok := y.(Nil); ok {
			return bFalse
		}
	case Slice:
		if _, ok := y.(Nil); ok {
			return boolC(a.obj == 0)
		}
		if b, ok := y.(Slice); ok && b.obj == 0 {
			return boolC(a.obj == 0)
		}
		if a.obj == 0 {
			if b, ok := y.(Str); ok {
				return boolC(b.isNil)
			}
			return boolC(false)
		}
	case RowSpans:
		return bFalse
	case Native:
		switch b := y.(type) {
		case Nil:
			return bFalse
		case Native:
			return boolC(a.kind == b.kind && a.id == b.id && a.data == b.data)
		case Iface:
			return e.equal(st, a, b.v)
		}
	case Iface:
		switch b := y.(type) {
		case Nil:
			return bFalse
		case Native:
			return e.equal(st, a.v, b)
		case Iface:
			_, na := a.v.(Native)
			_, nb := b.v.(Native)
			if na != nb {
				return bFalse
			}
			if !na && !types.Identical(a.t, b.t) {
				return bFalse
			}
			return e.equal(st, a.v, b.v)
		}
	case Struct:
		if b, ok := y.(Struct); ok && len(a.f) == len(b.f) {
			c := bTrue
			for i := range a.f {
				r, ok := e.equal(st, a.f[i], b.f[i]).(Bool)
				if !ok {
					return Unknown{"equal"}
				}
				c = condAll(c, r)
			}
			return c
		}
	case Arr:
		if b, ok := y.(Arr); ok && len(a.e) == len(b.e) {
			c := bTrue
			for i := range a.e {
				r, ok := e.equal(st, a.e[i], b.e[i]).(Bool)
				if !ok {
					return Unknown{"equal"}
				}
				c = condAll(c, r)
			}
			return c
		}
	}
	if _, ok := y.(Nil); ok {
		switch x.(type) {
		case Unknown:
			return Unknown{"nil comparison"}
		}
	}
	return Unknown{fmt.Sprintf("equal %T %T", x, y)}
}

// eqInt compares integers; when an operand is a bit pattern, bit by bit.
func (e *Engine) eqInt(st *State, a, b Lin) Bool {
	a, b = st.norm(a), st.norm(b)
	if a.eq(b) {
		return bTrue
	}
	if b.isC() && isBitsSym(st, a) || a.isC() && isBitsSym(st, b) || isBitsSym(st, a) && isBitsSym(st, b) {
		ba, bb := st.toBits(a, 63), st.toBits(b, 63)
		var list []Bool
		ok := true
		next := func(x, y Bit) bool {
			return !x.konst && !y.konst && x.s == y.s && y.i == x.i+1 && x.neg == y.neg
		}
		for i := 0; i < len(ba); i++ {
			x, y := ba[i], bb[i]
			if x == y {
				continue
			}
			switch {
			case x.konst && y.konst:
				return bFalse
			case x.konst:
				y.neg = y.neg != !x.neg
				list = append(list, Bool{op: 'b', bit: y})
			case y.konst:
				x.neg = x.neg != !y.neg
				list = append(list, Bool{op: 'b', bit: x})
			case x.s == y.s && x.i == y.i:
				return bFalse
			default:
				// a field of one symbol against a field of another
				j := i + 1
				for j < len(ba) && ba[j] != bb[j] && next(ba[j-1], ba[j]) && next(bb[j-1], bb[j]) {
					j++
				}
				la, lb := st.fromBits(append([]Bit{}, ba[i:j]...)), st.fromBits(append([]Bit{}, bb[i:j]...))
				if isBitsSym(st, la) || isBitsSym(st, lb) {
					ok = false
				} else {
					list = append(list, condEQ(la, lb))
				}
				i = j - 1
			}
		}
		if ok {
			return condAll(list...)
		}
	}
	return condEQ(a, b)
}

func (e *Engine) convert(st *State, x Value, from, to types.Type) []Outcome {
	tu := types.Unalias(to).Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			switch v := x.(type) {
			case Str:
				return one(st, Str{p: v.p})
			case Int:
				return one(st, strRune(st, v.Lin))
			case Slice:
				s, ok := e.sliceToStr(st, v, elemIsRune(from))
				if ok {
					return one(st, s)
				}
			case Nil:
				return one(st, Str{})
			}
			return one(st, Unknown{"string conversion"})
		}
		if t.Info()&types.IsInteger != 0 {
			if v, ok := x.(Int); ok {
				fw, fs := intWidth(from)
				w, signed := intWidth(to)
				if w > fw || w == fw && signed == fs {
					if signed || !fs {
						return one(st, v)
					}
				}
				if signed && w >= 32 {
					return one(st, v) // assumed to fit
				}
				if signed {
					// sign of a narrow conversion is not modelled
					if st.entailsGE(v.Lin) && st.entailsGE(linC(1<<uint(w-1)-1).sub(v.Lin)) {
						return one(st, v)
					}
					return one(st, Unknown{"narrow signed conversion"})
				}
				if w >= 63 {
					return one(st, v)
				}
				return one(st, Int{e.modPow2(st, v.Lin, w)})
			}
		}
	case *types.Slice:
		if v, ok := x.(Str); ok {
			if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return one(st, Str{p: v.p})
			}
			// []rune
			if c, ok := v.constVal(); ok {
				var el []Value
				for _, r := range c {
					el = append(el, Int{linC(int64(r))})
				}
				id := st.alloc(types.NewArray(t.Elem(), int64(len(el))), Arr{el})
				n := linC(int64(len(el)))
				return one(st, Slice{obj: id, len: n, cap: n})
			}
		}
	case *types.Pointer, *types.Interface:
		return one(st, x)
	}
	return one(st, Unknown{"convert to " + to.String()})
}

func elemIsRune(t types.Type) bool {
	s, ok := types.Unalias(t).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func strRune(st *State, l Lin) Str {
	l = st.norm(l)
	if l.isC() {
		return strC(string(rune(l.c)))
	}
	return Str{p: []Piece{{kind: 'r', lin: l}}}
}

// sliceToStr reads a byte (or rune) slice of known length as a string.
func (e *Engine) sliceToStr(st *State, s Slice, runes bool) (Str, bool) {
	if s.obj == 0 {
		return Str{}, true
	}
	els, ok := e.elems(st, s)
	if !ok {
		if o := st.obj(s.obj); !runes && o.arr != nil && o.arr.cols == nil && len(s.path) == 0 {
			return Str{p: []Piece{{kind: 'a', arr: o.arr, off: st.norm(s.off), lin: st.norm(s.len)}}}, true
		}
		return Str{}, false
	}
	out := Str{}
	for _, v := range els {
		i, ok := v.(Int)
		if !ok {
			return Str{}, false
		}
		l := st.norm(i.Lin)
		switch {
		case runes:
			out = strCat(out, strRune(st, l))
		case l.isC():
			out = strCat(out, strC(string([]byte{byte(l.c)})))
		default:
			out = strCat(out, Str{p: []Piece{{kind: 'b', lin: l}}})
		}
	}
	return out, true
}

// elems lists the elements of a slice over a concrete array with concrete bounds.
func (e *Engine) elems(st *State, s Slice) ([]Value, bool) {
	if s.obj == 0 {
		return nil, true
	}
	off, n := st.norm(s.off), st.norm(s.len)
	if !off.isC() || !n.isC() {
		return nil, false
	}
	o := st.obj(s.obj)
	val, path := o.val, s.path
	if o.arr != nil {
		if len(path) == 0 || path[0].idx == nil {
			return nil, false
		}
		outs := e.arrRead(st, o.arr, st.norm(*path[0].idx))
		if len(outs) != 1 || outs[0].st != st {
			return nil, false
		}
		val, path = outs[0].val, path[1:]
	}
	v, ok := e.getPath(st, val, path)
	if !ok {
		return nil, false
	}
	a, ok := v.(Arr)
	if !ok || int(off.c+n.c) > len(a.e) {
		return nil, false
	}
	return a.e[off.c : off.c+n.c], true
}
