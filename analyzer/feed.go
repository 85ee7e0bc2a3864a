package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// feed.go: the read loop around the token reader, Terminal.Write and the backends.

// ioScenarios are the parts of the byte path other than the token reader.
func ioScenarios() []*scenario {
	var out []*scenario
	for n := 0; n <= 3; n++ {
		for _, err := range errKinds {
			out = append(out, loopScenario(n, err))
		}
	}
	out = append(out, startScenario())
	for _, err := range []string{"io.EOF", "read error", "io.ErrUnexpectedEOF", "any errno"} {
		for _, pre := range []string{"", "\x1b", "\x1b[", "\x1b[1", "\x1b[1;2", "\x1b[?25", "\x1b[>4;", "\x1b[ ", "\x1b[2$", "\x1b]", "\x1b]0", "\x1b]0;", "\x1b]0;ab", "\x1b]0;ab\x1b", "\x1b]8;x", "\x1bP", "\x1bPab", "\x1bPab\x1b", "\x1b(", "\x1b#", "\x1b *"} {
			out = append(out, truncScenario(pre, err))
		}
	}
	out = append(out, writeScenario(), ptySizeScenario())
	for _, m := range []string{"Read", "Write"} {
		out = append(out, forwardScenario("NoPTYBackend", m), forwardScenario("TeeBackend", m), forwardScenario("PTYBackend", m))
	}
	out = append(out, forwardScenario("TeeBackend", "SetSize"))
	return out
}

// errKinds are the errors a read can report.
var errKinds = []string{"io.EOF", "read error", "io.ErrNoProgress", "io.ErrUnexpectedEOF", "io.ErrShortBuffer", "io.ErrClosedPipe", "bufio.ErrBufferFull", "os.ErrClosed", "os.ErrDeadlineExceeded", "any errno"}

// errOf is an error of the given kind; its dynamic type is unknown unless it is an errno.
func errOf(w *World, st *State, kind string) Value {
	switch kind {
	case "":
		return errVal("the source's error")
	case "any errno":
		if p := w.e.t.Prog.ImportedPackage("syscall"); p != nil {
			if t := p.Type("Errno"); t != nil {
				n := w.sym("errno")
				st.pushCon(n.plus(-1))
				st.pushCon(linC(132).sub(n))
				return Iface{t: t.Type(), v: Int{n}}
			}
		}
		return errVal(kind)
	}
	return errVal(kind)
}

// loopScenario: the read loop steps n times, then a step reports an error.
func loopScenario(n int, err string) *scenario {
	sc := &scenario{name: "the read loop", class: "loop", noAlt: true, label: fmt.Sprintf("%s after %d steps", err, n)}
	sc.direct = func(c *scnCtx) {
		e, st := c.w.e, c.w.base.fork()
		e.noAccel = true
		errv := errOf(c.w, st, err)
		bufs := sw16(e)
		step, inner := e.mustFunc("(*terminal).ptyReadOne"), e.hook
		sameReader := true
		e.hook = func(e *Engine, st *State, fn *ssa.Function, args []Value) ([]Outcome, bool) {
			if fn != step {
				return inner(e, st, fn, args)
			}
			k := int(ghostInt(st, "steps").c)
			st.ghost["steps"] = Int{linC(int64(k + 1))}
			gr, ok := args[1].(Ptr)
			if !ok {
				sameReader = false
			} else if old, seen := st.ghost["reader"].(Ptr); seen && old.obj != gr.obj {
				sameReader = false
			} else {
				st.ghost["reader"] = gr
			}
			if k < n {
				return one(st, Nil{}), true
			}
			if k > n+2 {
				panic(budgetErr{})
			}
			return one(st, errv), true
		}
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(budgetErr); ok {
					c.add("error", 0, fmt.Sprintf("the read loop goes on after a step has reported %s", err))
					return
				}
				panic(p)
			}
		}()
		for _, o := range e.call(st, e.mustFunc("(*terminal).ptyReadLoop"), []Value{Ptr{obj: c.w.term}}, nil) {
			if o.panic != "" {
				c.panicked(o)
				continue
			}
			c.outs++
			k := ghostInt(o.st, "steps")
			c.prove(o.st, condEQ(k, linC(int64(n+1))), "error", func() string {
				if k.c > int64(n+1) {
					return fmt.Sprintf("the read loop goes on after a step has reported %s", err)
				}
				return fmt.Sprintf("the read loop ends after %d steps although none has reported an error", k.c)
			})
			c.prove(o.st, boolC(sameReader), "stream", func() string {
				return "the read loop does not step the same reader every time: what one has buffered is lost"
			})
			if gr, ok := o.st.ghost["reader"].(Ptr); ok {
				v, known := sourceOf(o.st, gr, *bufs)
				if !known {
					c.add("stream", -1, "")
					continue
				}
				c.prove(o.st, boolC(v), "stream", func() string {
					return "the reader of the read loop does not read from the terminal's backend"
				})
			}
		}
	}
	return sc
}

// sw16 gives bufio.NewReader a meaning: a reader of its argument.
func sw16(e *Engine) *map[int]Value {
	bufs := map[int]Value{}
	mk := func(e *Engine, st *State, args []Value) []Outcome {
		id := e.newObjID()
		st.setObj(&Object{id: id, name: "bufio", val: Struct{}})
		bufs[id] = args[0]
		return one(st, Ptr{obj: id})
	}
	e.intr["bufio.NewReader"], e.intr["bufio.NewReaderSize"] = mk, mk
	return &bufs
}

// sourceOf tells whether the token reader reads from the backend, directly or buffered.
func sourceOf(st *State, gr Ptr, bufs map[int]Value) (is, known bool) {
	s, ok := st.obj(gr.obj).val.(Struct)
	if !ok {
		return false, false
	}
	for _, f := range s.f {
		i, ok := f.(Iface)
		if !ok {
			continue
		}
		v := i.v
		for {
			if p, ok := v.(Ptr); ok {
				src, buf := bufs[p.obj]
				if !buf {
					break
				}
				if i, ok := src.(Iface); ok {
					v = i.v
					continue
				}
				v = src
				continue
			}
			break
		}
		if n, ok := v.(Native); ok && n.kind == "backend" {
			return true, true
		}
	}
	return false, false
}

// startScenario: a terminal with a backend starts one read loop, and only one.
func startScenario() *scenario {
	sc := &scenario{name: "startReadLoop", class: "loop", noAlt: true, label: "twice on one terminal"}
	sc.direct = func(c *scnCtx) {
		e, st := c.w.e, c.w.base.fork()
		loop, inner := e.mustFunc("(*terminal).ptyReadLoop"), e.hook
		e.hook = func(e *Engine, st *State, fn *ssa.Function, args []Value) ([]Outcome, bool) {
			if fn != loop {
				return inner(e, st, fn, args)
			}
			st.ghost["loops"] = Int{ghostInt(st, "loops").plus(1)}
			return one(st, nil), true
		}
		e.runGo = true
		start := e.mustFunc("(*terminal).startReadLoop")
		for _, o := range e.call(st, start, []Value{Ptr{obj: c.w.term}}, nil) {
			if o.panic != "" {
				c.panicked(o)
				continue
			}
			c.proveV(o.st, Int{ghostInt(o.st, "loops")}, Int{linC(1)}, "stream", "the number of read loops of a new terminal with a backend")
			for _, o := range e.call(o.st, start, []Value{Ptr{obj: c.w.term}}, nil) {
				if o.panic != "" {
					c.panicked(o)
					continue
				}
				c.outs++
				c.proveV(o.st, Int{ghostInt(o.st, "loops")}, Int{linC(1)}, "stream", "the number of read loops consuming the same backend")
			}
		}
	}
	return sc
}

// truncScenario: the input ends inside a control sequence.
func truncScenario(pre, err string) *scenario {
	name := fmt.Sprintf("input ending after %q", pre)
	return &scenario{name: name, label: err, class: "trunc", noAlt: true,
		run: func(w *World, in *Init) []Outcome {
			w.e.inputErr = errOf(w, in.st, err)
			return w.input(in, Str{}, Lin{}, strC(pre))
		},
		spec: func(x *Exp) []*Exp {
			anyEffect(x)
			if pre == "" {
				x.skip = map[string]bool{}
			}
			if _, isNil := x.val.(Nil); isNil {
				x.fail = "the error of the reader (" + err + ") is not returned: the read loop goes on"
			}
			return just(x)
		}}
}

// writeScenario: Write of any slice to a backend that takes part of it each time, up to three
// short writes, each possibly failing.
func writeScenario() *scenario {
	sc := &scenario{name: "Terminal.Write", class: "write", noAlt: true, label: "any slice, any short writes, any failure"}
	sc.direct = func(c *scnCtx) {
		e, st := c.w.e, c.w.base.fork()
		e.noAccel = true
		n := c.w.sym("length")
		st.pushCon(n)
		st.pushCon(linC(1 << 20).sub(n))
		whole := Str{p: []Piece{{kind: 't', id: 1, lin: n}}}
		e.backend = func(e *Engine, st *State, method string, args []Value) ([]Outcome, bool) {
			if method != "Write" {
				return nil, false
			}
			done := ghostInt(st, "done")
			b, ok := e.asBytes(st, args[0])
			if !ok {
				st.taint("write of unknown bytes")
				return nil, false
			}
			for _, r := range e.strSlice(st.fork(), whole, done, n) {
				if r.panic == "" {
					c.proveV(r.st, b, r.val, "stream", "the slice passed to the backend's Write")
				}
			}
			calls := ghostInt(st, "calls").plus(1)
			st.ghost["calls"] = Int{calls}
			left := st.norm(n.sub(done))
			var outs []Outcome
			ret := func(st *State, k Lin, err Value) {
				st.ghost["done"] = Int{st.norm(done.add(k))}
				if err != (Nil{}) {
					st.ghost["failed"] = err
				}
				outs = append(outs, Outcome{st: st, val: Struct{[]Value{Int{k}, err}}})
			}
			if calls.c > 3 {
				ret(st, left, Nil{})
				return outs, true
			}
			k := c.w.sym(fmt.Sprintf("written %d", calls.c))
			part := st.fork()
			part.pushCon(k)
			part.pushCon(left.sub(k))
			bad := part.fork()
			ret(bad, k, errVal("write error"))
			for _, s := range part.assume(condLT(Lin{}, k)) {
				ret(s, k, Nil{})
			}
			// nothing at all is written and no error given
			for _, s := range st.assume(condLT(Lin{}, left)) {
				ret(s, Lin{}, Nil{})
			}
			return outs, true
		}
		for _, o := range e.call(st, e.mustFunc("(*terminal).Write"), []Value{Ptr{obj: c.w.term}, whole}, nil) {
			if o.panic != "" {
				c.panicked(o)
				continue
			}
			c.outs++
			c.add("panic", 1, "")
			v, ok := o.val.(Struct)
			if _, lost := o.st.tainted(); lost || !ok || len(v.f) != 2 {
				c.add("stream", -1, "")
				continue
			}
			done := ghostInt(o.st, "done")
			c.proveV(o.st, v.f[0], Int{done}, "stream", "the count returned by Write")
			_, isNil := v.f[1].(Nil)
			if isNil {
				c.prove(o.st, condEQ(done, n), "stream", func() string {
					return "Write returns no error although the backend has not taken the whole slice"
				})
			} else if f, failed := o.st.ghost["failed"]; failed {
				// the backend's error, or one made from it
				same := sameErr(v.f[1], f)
				if i, ok := v.f[1].(Iface); ok && !same {
					n, ok := i.v.(Native)
					same = !ok || n.data == "formatted"
				}
				c.prove(o.st, boolC(same), "error", func() string { return "Write returns an error other than the backend's" })
			} else {
				c.prove(o.st, condLT(done, n), "error", func() string { return "Write reports an error although the whole slice was written" })
			}
		}
	}
	return sc
}

// ptySizeScenario: the PTY is told h rows and w columns.
func ptySizeScenario() *scenario {
	sc := &scenario{name: "PTYBackend.SetSize", class: "backend", noAlt: true, label: "any size"}
	sc.direct = func(c *scnCtx) {
		e, st := c.w.e, c.w.base.fork()
		pt := e.typeNamed("PTYBackend")
		nw, nh := c.w.sym("w"), c.w.sym("h")
		for _, l := range []Lin{nw, nh} {
			st.pushCon(l)
			st.pushCon(linC(65535).sub(l))
		}
		b, file := withFile(e, st, pt)
		e.intr["github.com/creack/pty.Setsize"] = func(e *Engine, st *State, args []Value) []Outcome {
			st.ghost["calls"] = Int{ghostInt(st, "calls").plus(1)}
			c.proveV(st, args[0], file, "result", "the file whose size is set")
			p, ok := args[1].(Ptr)
			if !ok {
				c.add("result", -1, "")
				return one(st, errVal("pty error"))
			}
			o := st.obj(p.obj)
			s, ok := o.val.(Struct)
			if !ok || len(s.f) < 2 {
				c.add("result", -1, "")
				return one(st, errVal("pty error"))
			}
			c.proveV(st, s.f[0], Int{nh}, "result", "the number of rows of the PTY")
			c.proveV(st, s.f[1], Int{nw}, "result", "the number of columns of the PTY")
			return one(st, errVal("pty error"))
		}
		for _, o := range e.call(st, e.mustFunc("(*PTYBackend).SetSize"), []Value{b, Int{nw}, Int{nh}}, nil) {
			if o.panic != "" {
				c.panicked(o)
				continue
			}
			c.outs++
			c.prove(o.st, boolC(ghostInt(o.st, "calls").c > 0), "result", func() string { return "SetSize does not set the size of the PTY" })
			c.proveV(o.st, o.val, errVal("pty error"), "result", "the result of SetSize")
		}
	}
	return sc
}

// withFile is a PTY backend with an open master side.
func withFile(e *Engine, st *State, t types.Type) (Value, Value) {
	i := mustField(t, "master")
	z := Struct{append([]Value{}, e.zero(t).(Struct).f...)}
	id := e.newObjID()
	st.setObj(&Object{id: id, name: "file", val: Struct{}})
	file := Value(Ptr{obj: id})
	z.f[i] = file
	return Ptr{obj: st.alloc(t, z)}, file
}

// forwardScenario: a wrapping backend passes the call on once and returns its result; a tee
// gets exactly the bytes read.
func forwardScenario(typ, method string) *scenario {
	sc := &scenario{name: typ + "." + method, class: "backend", noAlt: true, label: "any result of the wrapped stream"}
	sc.direct = func(c *scnCtx) {
		e := c.w.e
		bt := e.typeNamed(typ)
		fields := map[string]int{}
		switch typ {
		case "NoPTYBackend":
			fields = map[string]int{"r": 1, "w": 2}
		case "TeeBackend":
			fields = map[string]int{"backend": 1}
		}
		for tee := 0; tee < 2; tee++ {
			if tee == 1 && (typ != "TeeBackend" || method != "Read") {
				continue
			}
			for variant := 0; variant < 2; variant++ {
				st := c.w.base.fork()
				z := Struct{append([]Value{}, e.zero(bt).(Struct).f...)}
				for f, id := range fields {
					z.f[mustField(bt, f)] = nativeIface("inner", id)
				}
				recv := Value(Ptr{obj: st.alloc(bt, z)})
				switch typ {
				case "PTYBackend":
					recv, _ = withFile(e, st, bt)
				case "TeeBackend":
					var outs []Outcome
					if outs = e.call(st, e.mustFunc("NewTeeBackend"), []Value{nativeIface("inner", 1)}, nil); len(outs) == 1 && outs[0].panic == "" {
						st, recv = outs[0].st, outs[0].val
					}
					if tee == 1 {
						if outs = e.call(st, e.mustFunc("(*TeeBackend).SetTee"), []Value{recv, nativeIface("tee", 0)}, nil); len(outs) == 1 && outs[0].panic == "" {
							st = outs[0].st
						}
					}
				}
				wantID := 1
				if typ == "NoPTYBackend" && method == "Write" {
					wantID = 2
				}
				n := c.w.sym("count")
				size := c.w.sym("length")
				st.pushCon(n)
				st.pushCon(size.sub(n))
				buf := Str{p: []Piece{{kind: 't', id: 1, lin: size}}}
				var read Value = buf
				if method == "Read" {
					id := e.newObjID()
					st.setObj(&Object{id: id, name: "buffer", val: Str{}})
					read = Slice{obj: id, len: size, cap: size}
				}
				args := []Value{read}
				if method == "SetSize" {
					args = []Value{Int{n}, Int{size}}
				}
				var errv Value = Nil{}
				if variant == 1 {
					errv = errVal("stream error")
				}
				bump := func(st *State, k string) { st.ghost[k] = Int{ghostInt(st, k).plus(1)} }
				for _, m := range []string{"Read", "Write"} {
					e.intr["(*os.File)."+m] = func(e *Engine, st *State, args []Value) []Outcome {
						return e.nat["inner"](e, st, Native{kind: "inner", id: 1}, m, args[1:])
					}
				}
				e.nat["inner"] = func(e *Engine, st *State, nt Native, m string, as []Value) []Outcome {
					bump(st, "calls")
					c.prove(st, boolC(m == method && nt.id == wantID && len(as) == len(args)), "result", func() string {
						return fmt.Sprintf("%s.%s calls %s of the wrapped stream %d", typ, method, m, nt.id)
					})
					for i := range args {
						if i < len(as) && m == method {
							a, s1 := as[i].(Slice)
							b, s2 := args[i].(Slice)
							if s1 && s2 {
								c.prove(st, condAll(boolC(a.obj == b.obj), condEQ(a.off, b.off), condEQ(a.len, b.len)), "stream", func() string {
									return "the slice passed to " + m + " is not the caller's"
								})
								continue
							}
							c.proveV(st, as[i], args[i], "stream", "the argument passed to "+m)
						}
					}
					if method == "SetSize" {
						return one(st, errv)
					}
					return one(st, Struct{[]Value{Int{n}, errv}})
				}
				e.nat["tee"] = func(e *Engine, st *State, nt Native, m string, as []Value) []Outcome {
					s, ok := as[0].(Slice)
					b, buffer := read.(Slice)
					if m != "Write" || !ok || !buffer || ghostInt(st, "calls").c == 0 {
						c.add("stream", -1, "")
						return one(st, Struct{[]Value{Int{}, errVal("tee error")}})
					}
					bump(st, "copies")
					c.prove(st, condAll(boolC(s.obj == b.obj), condEQ(s.off, b.off), condEQ(s.len, n)), "stream", func() string {
						return "the bytes copied to the tee are not the bytes that were read"
					})
					return one(st, Struct{[]Value{Int{}, errVal("tee error")}})
				}
				for _, o := range e.call(st, e.mustFunc("(*"+typ+")."+method), append([]Value{recv}, args...), nil) {
					if o.panic != "" {
						c.panicked(o)
						continue
					}
					c.outs++
					calls, copies := ghostInt(o.st, "calls").c, ghostInt(o.st, "copies").c
					c.prove(o.st, boolC(calls == 1), "stream", func() string {
						return fmt.Sprintf("%s.%s calls the wrapped stream %d times", typ, method, calls)
					})
					if tee == 1 {
						some := o.st.decide(condLT(Lin{}, n)) == 1
						if some {
							c.prove(o.st, boolC(copies == 1), "stream", func() string {
								return fmt.Sprintf("the bytes read are copied to the tee %d times", copies)
							})
						}
					}
					want := errv
					if method != "SetSize" {
						want = Struct{[]Value{Int{n}, errv}}
					}
					c.proveV(o.st, o.val, want, "result", "the result of "+typ+"."+method)
				}
			}
		}
	}
	return sc
}
