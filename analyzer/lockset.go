package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
)

// C15: interprocedural, context-sensitive lockset analysis.
//
// A lock is named by the struct type that holds the mutex. The abstract state at a
// program point is (locks held, pending deferred releases, critical sections of the
// terminal lock that changed state so far); a function is analysed once per (locks held at
// entry, closures bound to its function parameters), and its exit states are the union over
// its paths. Loops converge because the state space is finite.

func init() {
	checks["C15"] = check{run: runLockset}
}

type funcVal struct {
	fn   *ssa.Function
	free []*funcVal // function values captured by fn, by free-variable index
}

func (f *funcVal) key() string {
	if f == nil {
		return "-"
	}
	s := f.fn.String()
	for _, x := range f.free {
		s += "," + x.key()
	}
	return "<" + s + ">"
}

// lstate is one abstract state. It is comparable by key().
type lstate struct {
	held   string // sorted lock names joined by ","
	mut    int    // finished critical sections of T with a mutation (capped at 2)
	cur    bool   // the open critical section has mutated terminal state
	defers []deferred
}

type deferred struct {
	call *ssa.CallCommon
	site ssa.Instruction
}

func (s lstate) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s|%d|%v", s.held, s.mut, s.cur)
	for _, d := range s.defers {
		fmt.Fprintf(&sb, "|%p", d.call)
	}
	return sb.String()
}

func (s lstate) has(l string) bool {
	for _, x := range strings.Split(s.held, ",") {
		if x == l {
			return true
		}
	}
	return false
}

func (s lstate) with(l string) lstate {
	var xs []string
	if s.held != "" {
		xs = strings.Split(s.held, ",")
	}
	xs = append(xs, l)
	sort.Strings(xs)
	s.held = strings.Join(xs, ",")
	return s
}

func (s lstate) without(l string) lstate {
	var xs []string
	for _, x := range strings.Split(s.held, ",") {
		if x != l && x != "" {
			xs = append(xs, x)
		}
	}
	s.held = strings.Join(xs, ",")
	return s
}

const (
	lockT   = "terminal"
	lockOwn = "(constructor)" // the object is not shared yet
)

type lockAn struct {
	t       *Target
	r       *Report
	vta     *callgraph.Graph
	memo    map[string][]lstate
	active  map[string]bool
	changed bool
	order   map[string]string // "A>B" -> where
	mutable map[*types.Var]string
	guarded map[*types.Named]bool // types whose fields are all guarded by T
	entry   string
	shared  map[*types.Var]bool // fields changed while other goroutines may see them
	pending []func()
	stack   []string
	goStack []func()
	inGo    map[string]bool
	fns     map[*ssa.Function]bool
	sites   map[string]map[ssa.Instruction]bool
}

func namedOf(t types.Type) *types.Named {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func isMutexType(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false
	}
	return n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex"
}

// lockName names the mutex an address denotes by the struct type that holds it.
func lockName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		if n := namedOf(v.X.Type()); n != nil {
			return specName(n)
		}
	case *ssa.UnOp:
		return lockName(v.X)
	case *ssa.Global:
		return "global " + v.Name()
	}
	return ""
}

// lockOp recognises sync.Mutex operations.
func lockOp(c *ssa.CallCommon) (op string, recv ssa.Value) {
	fn := c.StaticCallee()
	if fn == nil || fn.Object() == nil || fn.Object().Pkg() == nil || fn.Object().Pkg().Path() != "sync" || len(c.Args) == 0 {
		return "", nil
	}
	if !isMutexType(c.Args[0].Type()) {
		return "", nil
	}
	switch fn.Name() {
	case "Lock", "RLock":
		return "lock", c.Args[0]
	case "Unlock", "RUnlock":
		return "unlock", c.Args[0]
	case "TryLock", "TryRLock":
		return "try", c.Args[0]
	}
	return "", nil
}

func (a *lockAn) site(kind string, i ssa.Instruction) {
	if a.sites[kind] == nil {
		a.sites[kind] = map[ssa.Instruction]bool{}
	}
	a.sites[kind][i] = true
}

func (a *lockAn) where() string { return strings.Join(a.stack, " -> ") }

func (a *lockAn) violate(rule string, fn *ssa.Function, what string, pos token.Pos) {
	name := fn.RelString(a.t.Pkg.Pkg)
	a.r.violate(rule+" "+name+" "+what, fmt.Sprintf("%s: %s in %s at %s; reached by %s", rule, what, name, a.t.Pos(pos), a.where()))
}

// collectMutable finds, for every struct in the package, the fields that are changed after
// construction (stored to, or their address handed out, on an object not allocated here).
func (a *lockAn) collectMutable() {
	a.mutable = map[*types.Var]string{}
	for _, fn := range a.t.Funcs {
		if skipLockFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || isLocalObj(fa.X) {
					continue
				}
				st := derefStruct(fa.X.Type())
				if st == nil {
					continue
				}
				f := st.Field(fa.Field)
				if isMutexType(f.Type()) {
					continue
				}
				for _, ref := range *fa.Referrers() {
					if a.mutatesThrough(fa, ref, 0) {
						a.mutable[f] = fn.RelString(a.t.Pkg.Pkg)
					}
				}
			}
		}
	}
}

// mutatesThrough says whether instruction ref, which uses address v, may change what v holds.
func (a *lockAn) mutatesThrough(v ssa.Value, ref ssa.Instruction, depth int) bool {
	if depth > 4 {
		return true
	}
	switch ref := ref.(type) {
	case *ssa.Store:
		return ref.Addr == v
	case *ssa.DebugRef:
		return false
	case *ssa.UnOp:
		if ref.Op != token.MUL {
			return false
		}
		// the loaded value: a slice or map whose elements are stored to
		if ref.Referrers() == nil {
			return false
		}
		switch types.Unalias(ref.Type()).Underlying().(type) {
		case *types.Slice, *types.Map:
			for _, r2 := range *ref.Referrers() {
				switch r2 := r2.(type) {
				case *ssa.IndexAddr:
					if r2.X != ref {
						continue
					}
					for _, r3 := range *r2.Referrers() {
						if a.mutatesThrough(r2, r3, depth+1) {
							return true
						}
					}
				case *ssa.MapUpdate:
					return r2.Map == ref
				}
			}
		}
		return false
	case *ssa.FieldAddr:
		for _, r2 := range *ref.Referrers() {
			if a.mutatesThrough(ref, r2, depth+1) {
				return true
			}
		}
		return false
	case *ssa.IndexAddr:
		if ref.X != v {
			return false
		}
		for _, r2 := range *ref.Referrers() {
			if a.mutatesThrough(ref, r2, depth+1) {
				return true
			}
		}
		return false
	case *ssa.BinOp, *ssa.If:
		return false
	}
	return true // address escapes: a method with a pointer receiver, a closure, a phi
}

func derefStruct(t types.Type) *types.Struct {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := types.Unalias(t).Underlying().(*types.Struct)
	return st
}

func isLocalObj(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return isLocalObj(v.X)
	case *ssa.IndexAddr:
		return isLocalObj(v.X)
	}
	return false
}

// skipLockFn: helpers that only tests or the debug flags (assumed off) use.
func skipLockFn(fn *ssa.Function) bool {
	root := fn
	for root.Parent() != nil {
		root = root.Parent()
	}
	if strings.HasPrefix(root.Name(), "debug") || root.Name() == "initDebug" || root.Name() == "DebugFlags" {
		return true
	}
	sig := root.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		if n := namedOf(sig.Params().At(i).Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "testing" {
			return true
		}
	}
	return false
}

func (a *lockAn) ownMutex(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isMutexType(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// need returns the lock that must be held to touch field f of struct n, or "".
func (a *lockAn) need(n *types.Named, f *types.Var) string {
	if n == nil || n.Obj().Pkg() != a.t.Pkg.Pkg {
		return ""
	}
	if isMutexType(f.Type()) {
		return ""
	}
	if a.guarded[n] {
		return lockT
	}
	if a.ownMutex(n) && a.mutable[f] != "" {
		return specName(n)
	}
	return ""
}

func (a *lockAn) access(fn *ssa.Function, s *lstate, n *types.Named, f *types.Var, pos token.Pos, in ssa.Instruction) {
	l := a.need(n, f)
	if l == "" {
		return
	}
	a.site("guarded field accesses", in)
	if s.has(lockOwn) {
		return
	}
	if fa, ok := in.(*ssa.FieldAddr); ok && !a.guarded[n] {
		for _, ref := range *fa.Referrers() {
			if a.mutatesThrough(fa, ref, 0) {
				a.shared[f] = true
			}
		}
	}
	if s.has(l) {
		return
	}
	where := a.where()
	a.pending = append(a.pending, func() {
		if a.guarded[n] || a.shared[f] {
			name := fn.RelString(a.t.Pkg.Pkg)
			what := fmt.Sprintf("%s.%s accessed without the %s lock", n.Obj().Name(), f.Name(), l)
			a.r.violate("guarded-field "+name+" "+what, fmt.Sprintf("guarded-field: %s in %s at %s; reached by %s", what, name, a.t.Pos(pos), where))
		}
	})
}

// analyse returns the exit states of fn for one entry state.
func (a *lockAn) analyse(fv *funcVal, params []*funcVal, in lstate) []lstate {
	fn := fv.fn
	var kb strings.Builder
	kb.WriteString(fv.key())
	for _, p := range params {
		kb.WriteString(";" + p.key())
	}
	in.defers = nil
	key := kb.String() + "@" + in.key()
	if a.active[key] {
		return a.memo[key] // recursion: current approximation
	}
	if out, ok := a.memo[key]; ok && !a.changed {
		return out
	}
	a.active[key] = true
	defer func() { a.active[key] = false }()
	a.fns[fn] = true
	a.stack = append(a.stack, fn.RelString(a.t.Pkg.Pkg))
	defer func() { a.stack = a.stack[:len(a.stack)-1] }()

	var out []lstate
	for iter := 0; iter < 4; iter++ {
		before := len(a.memo[key])
		out = a.runBody(fv, params, in)
		a.memo[key] = out
		if len(out) == before || !a.recursive(fn) {
			break
		}
	}
	return out
}

func (a *lockAn) recursive(fn *ssa.Function) bool { return true }

func (a *lockAn) runBody(fv *funcVal, params []*funcVal, in lstate) []lstate {
	fn := fv.fn
	seen := map[*ssa.BasicBlock]map[string]bool{}
	type item struct {
		b *ssa.BasicBlock
		s lstate
	}
	work := []item{{fn.Blocks[0], in}}
	exits := map[string]lstate{}
	push := func(b *ssa.BasicBlock, s lstate) {
		if seen[b] == nil {
			seen[b] = map[string]bool{}
		}
		if k := s.key(); !seen[b][k] {
			seen[b][k] = true
			work = append(work, item{b, s})
		}
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		states := []lstate{it.s}
		for _, instr := range it.b.Instrs {
			var next []lstate
			dedup := map[string]bool{}
			for _, s := range states {
				for _, n := range a.step(fv, params, s, instr) {
					if k := n.key(); !dedup[k] {
						dedup[k] = true
						next = append(next, n)
					}
				}
			}
			states = next
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		for _, s := range states {
			switch last.(type) {
			case *ssa.Return:
				if len(s.defers) > 0 { // a defer without RunDefers cannot happen
					s.defers = nil
				}
				exits[s.key()] = s
			case *ssa.Panic:
				// panics are C01's business
			default:
				for _, sc := range liveSuccs(it.b) {
					push(sc, s)
				}
			}
		}
	}
	var keys []string
	for k := range exits {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []lstate
	for _, k := range keys {
		out = append(out, exits[k])
	}
	return out
}

// liveSuccs drops the branch a debug flag (assumed off) or a constant condition excludes.
func liveSuccs(b *ssa.BasicBlock) []*ssa.BasicBlock {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return b.Succs
	}
	switch c := iff.Cond.(type) {
	case *ssa.Const:
		if constant.BoolVal(c.Value) {
			return b.Succs[:1]
		}
		return b.Succs[1:]
	case *ssa.UnOp:
		if isDebugFlag(c) {
			return b.Succs[1:]
		}
	}
	return b.Succs
}

// isDebugFlag recognises *debugX where debugX is a package-level *bool.
func isDebugFlag(c *ssa.UnOp) bool {
	if c.Op != token.MUL {
		return false
	}
	inner, ok := c.X.(*ssa.UnOp)
	if !ok || inner.Op != token.MUL {
		return false
	}
	g, ok := inner.X.(*ssa.Global)
	return ok && strings.HasPrefix(g.Name(), "debug")
}

func (a *lockAn) step(fv *funcVal, params []*funcVal, s lstate, instr ssa.Instruction) []lstate {
	fn := fv.fn
	switch in := instr.(type) {
	case *ssa.FieldAddr:
		if !isLocalObj(in.X) {
			if n := namedOf(in.X.Type()); n != nil {
				if st := derefStruct(in.X.Type()); st != nil {
					a.access(fn, &s, n, st.Field(in.Field), in.Pos(), in)
				}
			}
		}
	case *ssa.UnOp:
		if in.Op == token.MUL && !isLocalObj(in.X) {
			if n := namedOf(in.X.Type()); n != nil && a.guarded[n] && !s.has(lockT) && !s.has(lockOwn) {
				a.violate("guarded-field", fn, n.Obj().Name()+" copied without the terminal lock", in.Pos())
			}
		}
		if in.Op == token.ARROW {
			a.blocking(fn, &s, "channel receive", in.Pos(), in)
		}
	case *ssa.Send:
		a.blocking(fn, &s, "channel send", in.Pos(), in)
	case *ssa.Select:
		if in.Blocking {
			a.blocking(fn, &s, "select", in.Pos(), in)
		}
	case *ssa.Store:
		if a.mutatesTerminal(in.Addr) && s.has(lockT) {
			s.cur = true
		}
	case *ssa.Go:
		for _, callee := range a.callees(fv, params, &in.Call) {
			callee := callee
			args := a.funcArgs(fv, params, &in.Call, callee)
			a.entryFrom("go "+callee.fn.RelString(a.t.Pkg.Pkg), callee, args, lstate{})
		}
		s = s.without(lockOwn)
	case *ssa.Defer:
		s.defers = append(append([]deferred{}, s.defers...), deferred{&in.Call, in})
	case *ssa.RunDefers:
		states := []lstate{s}
		ds := s.defers
		for i := len(ds) - 1; i >= 0; i-- {
			var next []lstate
			for _, st := range states {
				st.defers = nil
				next = append(next, a.call(fv, params, st, ds[i].call, ds[i].site)...)
			}
			states = next
		}
		for i := range states {
			states[i].defers = nil
		}
		return states
	case *ssa.Call:
		ds := s.defers
		s.defers = nil
		outs := a.call(fv, params, s, &in.Call, in)
		for i := range outs {
			outs[i].defers = ds
		}
		return outs
	}
	return []lstate{s}
}

// mutatesTerminal: a store into a field guarded by the terminal lock.
func (a *lockAn) mutatesTerminal(addr ssa.Value) bool {
	switch v := addr.(type) {
	case *ssa.FieldAddr:
		if isLocalObj(v.X) {
			return false
		}
		n := namedOf(v.X.Type())
		st := derefStruct(v.X.Type())
		if n != nil && st != nil && a.need(n, st.Field(v.Field)) == lockT {
			return true
		}
		return a.mutatesTerminal(v.X)
	case *ssa.IndexAddr:
		if isLocalObj(v.X) {
			return false
		}
		return a.mutatesTerminal(v.X)
	case *ssa.UnOp:
		return a.mutatesTerminal(v.X)
	}
	return false
}

func (a *lockAn) blocking(fn *ssa.Function, s *lstate, what string, pos token.Pos, in ssa.Instruction) {
	a.site("blocking operations", in)
	for _, l := range strings.Split(s.held, ",") {
		if l != "" && l != lockOwn {
			a.violate("blocks-under-lock", fn, what+" with the "+l+" lock held", pos)
		}
	}
}

// value resolves a function value in the current context.
func (a *lockAn) value(fv *funcVal, params []*funcVal, v ssa.Value) *funcVal {
	switch v := v.(type) {
	case *ssa.Function:
		return &funcVal{fn: v}
	case *ssa.MakeClosure:
		out := &funcVal{fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			out.free = append(out.free, a.value(fv, params, b))
		}
		return out
	case *ssa.Parameter:
		for i, p := range fv.fn.Params {
			if p == v && i < len(params) {
				return params[i]
			}
		}
	case *ssa.FreeVar:
		for i, f := range fv.fn.FreeVars {
			if f == v && i < len(fv.free) {
				return fv.free[i]
			}
		}
	case *ssa.ChangeType:
		return a.value(fv, params, v.X)
	case *ssa.UnOp: // a captured variable holding a function: its only store
		if v.Op == token.MUL {
			return a.value(fv, params, v.X)
		}
	case *ssa.Alloc:
		if _, ok := types.Unalias(v.Type()).Underlying().(*types.Pointer).Elem().Underlying().(*types.Signature); !ok {
			return nil
		}
		var found *funcVal
		n := 0
		for _, r := range *v.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == v {
				n++
				found = a.value(fv, params, st.Val)
			}
		}
		if n == 1 {
			return found
		}
	}
	return nil
}

func (a *lockAn) funcArgs(fv *funcVal, params []*funcVal, c *ssa.CallCommon, callee *funcVal) []*funcVal {
	var args []ssa.Value
	if c.IsInvoke() {
		args = append(args, c.Value)
	}
	args = append(args, c.Args...)
	out := make([]*funcVal, len(args))
	for i, x := range args {
		if _, ok := types.Unalias(x.Type()).Underlying().(*types.Signature); ok {
			out[i] = a.value(fv, params, x)
		}
	}
	return out
}

// callees resolves a call: statically, through a tracked closure, or through the call graph.
func (a *lockAn) callees(fv *funcVal, params []*funcVal, c *ssa.CallCommon) []*funcVal {
	if !c.IsInvoke() {
		if f := a.value(fv, params, c.Value); f != nil {
			return []*funcVal{f}
		}
		if _, ok := c.Value.(*ssa.Builtin); ok {
			return nil
		}
	} else if n := namedOf(c.Value.Type()); n != nil && n.Obj().Pkg() == a.t.Pkg.Pkg && token.IsExported(n.Obj().Name()) || ifaceNamed(c.Value.Type(), a.t.Pkg.Pkg, "screen") {
		// an interface users may implement and pass in: every implementation in the package
		return a.implementations(c)
	}
	var out []*funcVal
	if node := a.vta.Nodes[fv.fn]; node != nil {
		for _, e := range node.Out {
			if e.Site != nil && e.Site.Common() == c && e.Callee.Func != nil {
				out = append(out, &funcVal{fn: e.Callee.Func})
			}
		}
	}
	return out
}

func ifaceNamed(t types.Type, pkg *types.Package, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == pkg && (n.Obj().Name() == name || n.Obj().Name() == renamed.types[name])
}

func (a *lockAn) implementations(c *ssa.CallCommon) []*funcVal {
	iface := types.Unalias(c.Value.Type()).Underlying().(*types.Interface)
	var out []*funcVal
	scope := a.t.Pkg.Pkg.Scope()
	for _, name := range scope.Names() {
		tn, ok := scope.Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		for _, typ := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if !types.Implements(typ, iface) {
				continue
			}
			sel := a.t.Prog.MethodSets.MethodSet(typ).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel == nil {
				continue
			}
			if m := a.t.Prog.MethodValue(sel); m != nil && m.Blocks != nil {
				if m.Synthetic != "" && strings.HasPrefix(m.Synthetic, "wrapper") {
					// value-receiver wrapper reached through the pointer type too
					if _, isPtr := typ.(*types.Pointer); isPtr && types.Implements(tn.Type(), iface) {
						continue
					}
				}
				out = append(out, &funcVal{fn: m})
			}
		}
	}
	return out
}

func (a *lockAn) call(fv *funcVal, params []*funcVal, s lstate, c *ssa.CallCommon, site ssa.Instruction) []lstate {
	fn := fv.fn
	if op, recv := lockOp(c); op != "" {
		l := lockName(recv)
		if l == "" {
			a.violate("unknown-lock", fn, "a mutex this analysis cannot name", site.Pos())
			return []lstate{s}
		}
		a.site("lock operations", site)
		switch op {
		case "lock":
			if s.has(l) {
				a.violate("self-deadlock", fn, l+" locked while already held", site.Pos())
				return nil
			}
			for _, h := range strings.Split(s.held, ",") {
				if h != "" && h != lockOwn {
					if _, ok := a.order[h+">"+l]; !ok {
						a.order[h+">"+l] = a.where()
					}
				}
			}
			if l == lockT {
				s.cur = false
			}
			return []lstate{s.with(l)}
		case "unlock":
			if !s.has(l) {
				a.violate("unlock-without-lock", fn, l+" unlocked while not held", site.Pos())
				return nil
			}
			if l == lockT && s.cur {
				s.cur = false
				if s.mut < 2 {
					s.mut++
				}
			}
			return []lstate{s.without(l)}
		default:
			return []lstate{s.with(l), s}
		}
	}
	// Frontend callback
	if c.IsInvoke() && ifaceNamed(c.Value.Type(), a.t.Pkg.Pkg, "Frontend") {
		a.site("frontend callback sites", site)
		if !s.has(lockT) && !s.has(lockOwn) {
			a.violate("callback-without-lock", fn, "Frontend."+c.Method.Name()+" called without the terminal lock", site.Pos())
		}
	}
	// blocking input
	if c.IsInvoke() && c.Method.Name() == "Read" && isReadSig(c.Method) {
		a.blocking(fn, &s, "Read", site.Pos(), site)
	}
	if callee := c.StaticCallee(); callee != nil && blockingCallee(callee) {
		a.blocking(fn, &s, callee.String(), site.Pos(), site)
		return []lstate{s}
	}
	if n := isOutWrite(a, c); n != "" {
		a.site("frontend output writes", site)
		if !s.has(n) {
			a.violate("output-outside-lock", fn, n+" writes its output without its lock", site.Pos())
		}
	}
	callees := a.callees(fv, params, c)
	var outs []lstate
	followed := false
	dedup := map[string]bool{}
	add := func(sts []lstate) {
		for _, x := range sts {
			if k := x.key(); !dedup[k] {
				dedup[k] = true
				outs = append(outs, x)
			}
		}
	}
	for _, callee := range callees {
		if skipLockFn(callee.fn) {
			continue
		}
		if callee.fn.Blocks == nil || !a.inPackage(callee.fn) {
			// external: it may call back the function and interface values it is given
			if blockingCallee(callee.fn) {
				a.blocking(fn, &s, callee.fn.String(), site.Pos(), site)
			}
			add(a.external(fv, params, s, c))
			followed = true
			continue
		}
		followed = true
		add(a.analyse(callee, a.funcArgs(fv, params, c, callee), s))
	}
	if !followed {
		return []lstate{s}
	}
	return outs
}

// external models a call out of the package: callbacks it is handed may run.
func (a *lockAn) external(fv *funcVal, params []*funcVal, s lstate, c *ssa.CallCommon) []lstate {
	outs := []lstate{s}
	for _, x := range c.Args {
		if f := a.value(fv, params, x); f != nil && f.fn.Blocks != nil && a.inPackage(f.fn) {
			outs = append(outs, a.analyse(f, nil, s)...)
			continue
		}
		mi, ok := x.(*ssa.MakeInterface)
		if !ok {
			continue
		}
		iface, ok := mi.Type().Underlying().(*types.Interface)
		if !ok || namedOf(mi.X.Type()) == nil || namedOf(mi.X.Type()).Obj().Pkg() != a.t.Pkg.Pkg {
			continue
		}
		for i := 0; i < iface.NumMethods(); i++ {
			m := iface.Method(i)
			sel := a.t.Prog.MethodSets.MethodSet(mi.X.Type()).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			if f := a.t.Prog.MethodValue(sel); f != nil && f.Blocks != nil {
				outs = append(outs, a.analyse(&funcVal{fn: f}, nil, s)...)
			}
		}
	}
	return outs
}

func isReadSig(m *types.Func) bool {
	sig := m.Type().(*types.Signature)
	return sig.Params().Len() == 1 && sig.Results().Len() == 2
}

// blockingCallee: library calls that wait for input or for another goroutine.
func blockingCallee(fn *ssa.Function) bool {
	if fn.Object() == nil || fn.Object().Pkg() == nil {
		return false
	}
	switch fn.Object().Pkg().Path() {
	case "bufio":
		if recv := fn.Signature.Recv(); recv != nil {
			if n := namedOf(recv.Type()); n != nil && (n.Obj().Name() == "Reader" || n.Obj().Name() == "Scanner" || n.Obj().Name() == "ReadWriter") {
				switch fn.Name() {
				case "Buffered", "Size", "Reset", "UnreadByte", "UnreadRune":
					return false
				}
				return true
			}
		}
	case "io":
		switch fn.Name() {
		case "ReadAll", "ReadFull", "ReadAtLeast", "Copy", "CopyN", "CopyBuffer":
			return true
		}
	case "os":
		if recv := fn.Signature.Recv(); recv != nil && strings.HasPrefix(fn.Name(), "Read") {
			return true
		}
	case "time":
		return fn.Name() == "Sleep"
	case "sync":
		return fn.Name() == "Wait"
	}
	return false
}

// isOutWrite: a Write through an io.Writer field of a struct that carries its own mutex and
// renders for the user (TTYFrontend): its output must not interleave.
func isOutWrite(a *lockAn, c *ssa.CallCommon) string {
	if !c.IsInvoke() || c.Method.Name() != "Write" {
		return ""
	}
	u, ok := c.Value.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	n := namedOf(fa.X.Type())
	if n == nil || n.Obj().Name() != "TTYFrontend" || n.Obj().Pkg() != a.t.Pkg.Pkg {
		return ""
	}
	return specName(n)
}

func (a *lockAn) inPackage(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Package() == a.t.Pkg {
		return true
	}
	if fn.Package() != nil {
		return false
	}
	return fn.Object() != nil && fn.Object().Pkg() == a.t.Pkg.Pkg ||
		fn.Signature.Recv() != nil && namedOf(fn.Signature.Recv().Type()) != nil && namedOf(fn.Signature.Recv().Type()).Obj().Pkg() == a.t.Pkg.Pkg
}

func (a *lockAn) entryFrom(name string, fv *funcVal, args []*funcVal, in lstate) {
	if fv.fn.Blocks == nil || !a.inPackage(fv.fn) || skipLockFn(fv.fn) {
		return
	}
	key := name + "@" + in.key()
	if a.inGo[key] {
		return
	}
	a.inGo[key] = true
	a.goStack = append(a.goStack, func() {
		a.entry = name
		a.stack = nil
		outs := a.analyse(fv, args, in)
		for _, o := range outs {
			a.r.ok(1)
			want, got := in.without(lockOwn).held, o.without(lockOwn).held
			if want != got {
				a.violate("unbalanced", fv.fn, fmt.Sprintf("returns with locks {%s} held where it was entered with {%s}", got, want), fv.fn.Pos())
			}
		}
	})
}

// callerLocks: accessors whose documentation requires the caller to hold the lock.
var callerLocks = map[string]bool{
	"Size": true, "Line": true, "ANSILine": true, "StyledLine": true, "StyledLines": true, "PrintTerminal": true,
	"GetViewFlag": true, "GetViewInt": true, "GetViewString": true,
}

func runLockset(t *Target, r *Report) {
	r.Rules = append(r.Rules,
		"Interprocedural context-sensitive lockset analysis over SSA: every access to terminal, screen and keyboard state holds the terminal lock; every Frontend callback holds it; no read from the backend, channel operation or sleep happens with any lock held; locks are released on every exit; no lock is taken twice and the lock order is acyclic; fields changed after construction in a struct with its own mutex are touched only under it; one input step or API call changes terminal state in at most one critical section.")
	r.Assumptions = append(r.Assumptions, "debug flags are off", "locks are identified by the struct type that holds the mutex: one terminal, one frontend and one tee per analysis")

	a := &lockAn{t: t, r: r, memo: map[string][]lstate{}, active: map[string]bool{}, order: map[string]string{}, guarded: map[*types.Named]bool{}, inGo: map[string]bool{}, shared: map[*types.Var]bool{}, fns: map[*ssa.Function]bool{}, sites: map[string]map[ssa.Instruction]bool{}}

	funcs := map[*ssa.Function]bool{}
	for _, fn := range t.Funcs {
		if !skipLockFn(fn) {
			funcs[fn] = true
		}
	}
	a.vta = vta.CallGraph(funcs, cha.CallGraph(t.Prog))

	scope := t.Pkg.Pkg.Scope()
	scr, _ := t.lookup("screen").(*types.TypeName)
	if scr == nil {
		panic(anchorErr{"interface screen"})
	}
	nScreens := 0
	for _, name := range scope.Names() {
		tn, ok := scope.Lookup(name).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if types.Implements(types.NewPointer(n), scr.Type().Underlying().(*types.Interface)) {
			a.guarded[n] = true
			nScreens++
		}
		if name == "keyboardMode" || name == renamed.types["keyboardMode"] {
			a.guarded[n] = true
		}
	}
	if nScreens < 2 {
		panic(anchorErr{"implementations of the interface screen"})
	}
	a.collectMutable()
	if os := debugEnv("LOCKSET"); os {
		for f, where := range a.mutable {
			fmt.Println("mutable", f.Name(), where)
		}
	}
	to := t.lookup("terminal")
	if to == nil {
		panic(anchorErr{"type terminal"})
	}
	term, _ := to.Type().(*types.Named)
	tst, ok := to.Type().Underlying().(*types.Struct)
	if !ok || term == nil {
		panic(anchorErr{"type terminal"})
	}
	guardedFields := 0
	for i := 0; i < tst.NumFields(); i++ {
		f := tst.Field(i)
		if f.Embedded() {
			continue
		}
		if a.need(term, f) != "" {
			guardedFields++
		}
	}
	r.Counts["guarded terminal fields"] = guardedFields

	frontIface := scope.Lookup("Frontend").Type().Underlying().(*types.Interface)
	// entries
	for _, name := range scope.Names() {
		switch obj := scope.Lookup(name).(type) {
		case *types.Func:
			if obj.Exported() {
				fn := t.Prog.FuncValue(obj)
				a.entryFrom(name, &funcVal{fn: fn}, nil, lstate{held: lockOwn})
			}
		case *types.TypeName:
			if types.IsInterface(obj.Type()) || obj.IsAlias() {
				continue
			}
			n, ok := obj.Type().(*types.Named)
			if !ok {
				continue
			}
			isTerm := n == term
			if !obj.Exported() && !isTerm {
				continue
			}
			isFront := types.Implements(types.NewPointer(n), frontIface)
			for i := 0; i < n.NumMethods(); i++ {
				m := n.Method(i)
				if !m.Exported() {
					continue
				}
				fn := t.Prog.FuncValue(m)
				if fn == nil {
					continue
				}
				in := lstate{}
				if isTerm && callerLocks[m.Name()] {
					in = lstate{held: lockT}
				}
				if isFront {
					for j := 0; j < frontIface.NumMethods(); j++ {
						if frontIface.Method(j).Name() == m.Name() {
							in = lstate{held: lockT}
						}
					}
				}
				a.entryFrom(name+"."+m.Name(), &funcVal{fn: fn}, nil, in)
			}
		}
	}
	nEntries := 0
	for len(a.goStack) > 0 {
		f := a.goStack[0]
		a.goStack = a.goStack[1:]
		nEntries++
		f()
	}
	r.Counts["entries"] = nEntries
	// R7: one input step / API call = at most one mutating critical section
	for _, fn := range t.Funcs {
		name := fn.RelString(t.Pkg.Pkg)
		one := name == "(*terminal).ptyReadOne"
		if fn.Signature.Recv() != nil && namedOf(fn.Signature.Recv().Type()) == term && fn.Object() != nil && fn.Object().Exported() && fn.Synthetic == "" && !callerLocks[fn.Name()] {
			one = true
		}
		if !one || skipLockFn(fn) || fn.Parent() != nil {
			continue
		}
		a.stack = nil
		for _, o := range a.analyse(&funcVal{fn: fn}, nil, lstate{}) {
			r.ok(1)
			if o.mut >= 2 {
				a.violate("half-applied-update", fn, "changes terminal state in two critical sections of one step, so a reader in between sees half of it", fn.Pos())
			}
		}
	}
	for _, f := range a.pending {
		f()
	}
	// lock order
	var edges []string
	for e := range a.order {
		edges = append(edges, e)
	}
	sort.Strings(edges)
	adj := map[string][]string{}
	for _, e := range edges {
		x, y, _ := strings.Cut(e, ">")
		adj[x] = append(adj[x], y)
	}
	var reach func(from, to string, seen map[string]bool) bool
	reach = func(from, to string, seen map[string]bool) bool {
		if from == to {
			return true
		}
		if seen[from] {
			return false
		}
		seen[from] = true
		for _, n := range adj[from] {
			if reach(n, to, seen) {
				return true
			}
		}
		return false
	}
	for _, e := range edges {
		x, y, _ := strings.Cut(e, ">")
		r.ok(1)
		if reach(y, x, map[string]bool{}) {
			r.violate("lock-order "+e, fmt.Sprintf("lock-order: %s is taken while %s is held (%s) and the reverse order exists too: deadlock", y, x, a.order[e]))
		}
	}
	r.Notes = append(r.Notes, "lock order: "+strings.Join(edges, ", "))
	r.Counts["functions analysed"] = len(a.fns)
	for k, v := range a.sites {
		r.Counts[k] = len(v)
		r.ok(len(v))
		var ss []string
		for in := range v {
			ss = append(ss, k+": "+t.Pos(in.Pos()))
		}
		sort.Strings(ss)
		r.Samples = append(r.Samples, ss[:min(3, len(ss))]...)
	}
	// the rule must not pass vacuously
	floor := map[string]int{"frontend callback sites": 8, "guarded field accesses": 60, "blocking operations": 2, "lock operations": 8, "guarded terminal fields": 4}
	for k, n := range floor {
		if r.Counts[k] < n {
			r.undecided(fmt.Sprintf("only %d %s found, at least %d expected", r.Counts[k], k, n))
		}
	}
}
