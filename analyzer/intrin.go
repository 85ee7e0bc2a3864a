package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Summaries of the library functions the package calls. A call with no summary makes the
// partition undecided.

var errType = types.Universe.Lookup("error").Type()

func errVal(what string) Value {
	return Iface{t: errType, v: Native{kind: "error", data: what}}
}

func stdIntrinsics() map[string]intrinsic {
	m := map[string]intrinsic{}
	nop := func(e *Engine, st *State, args []Value) []Outcome { return one(st, nil) }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		n := n
		m[n] = func(e *Engine, st *State, args []Value) []Outcome {
			if e.lockEvents {
				if p, ok := args[0].(Ptr); ok {
					e.addEvent(st, Event{kind: n[strings.LastIndex(n, ".")+1:], args: []Value{p}})
				}
			}
			return one(st, nil)
		}
	}
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf", "(*strings.Builder).Grow", "(*bytes.Buffer).Grow"} {
		m[n] = nop
	}
	m["flag.String"] = func(e *Engine, st *State, args []Value) []Outcome {
		return one(st, Ptr{obj: st.alloc(types.Typ[types.String], args[1])})
	}
	m["flag.Bool"] = func(e *Engine, st *State, args []Value) []Outcome {
		return one(st, Ptr{obj: st.alloc(types.Typ[types.Bool], args[1])})
	}
	m["errors.New"] = func(e *Engine, st *State, args []Value) []Outcome {
		s, _ := args[0].(Str)
		return one(st, errVal(showStr(e, s)))
	}
	m["fmt.Errorf"] = func(e *Engine, st *State, args []Value) []Outcome { return one(st, errVal("formatted")) }
	m["errors.Is"] = func(e *Engine, st *State, args []Value) []Outcome {
		return one(st, e.equal(st, args[0], args[1]))
	}
	m["errors.Join"] = func(e *Engine, st *State, args []Value) []Outcome {
		if s, ok := args[0].(Slice); ok {
			els, _ := e.elems(st, s)
			for _, v := range els {
				if _, isNil := v.(Nil); !isNil {
					return one(st, v)
				}
			}
		}
		return one(st, Nil{})
	}
	m["fmt.Sprintf"] = func(e *Engine, st *State, args []Value) []Outcome {
		s, ok := e.format(st, args[0], args[1])
		if !ok {
			st.taint("format")
			return one(st, Unknown{"format"})
		}
		return one(st, s)
	}
	m["fmt.Sprint"] = func(e *Engine, st *State, args []Value) []Outcome {
		if s, ok := args[0].(Slice); ok {
			if els, ok := e.elems(st, s); ok && len(els) == 1 {
				if p, ok := e.formatOne(st, 'v', els[0]); ok {
					return one(st, p)
				}
			}
		}
		st.taint("format")
		return one(st, Unknown{"format"})
	}
	m["fmt.Appendf"] = func(e *Engine, st *State, args []Value) []Outcome {
		b, ok1 := e.asBytes(st, args[0])
		s, ok2 := e.format(st, args[1], args[2])
		if !ok1 || !ok2 {
			st.taint("format")
			return one(st, Unknown{"format"})
		}
		return one(st, strCat(b, s))
	}
	m["fmt.Fprintf"] = func(e *Engine, st *State, args []Value) []Outcome {
		s, ok := e.format(st, args[1], args[2])
		if !ok {
			st.taint("format")
			return one(st, Struct{[]Value{Unknown{"n"}, Unknown{"err"}}})
		}
		return e.writeTo(st, args[0], s)
	}
	m["io.WriteString"] = func(e *Engine, st *State, args []Value) []Outcome {
		s, ok := args[1].(Str)
		if !ok {
			st.taint("WriteString")
			return one(st, Struct{[]Value{Unknown{"n"}, Unknown{"err"}}})
		}
		return e.writeTo(st, args[0], s)
	}
	m["strconv.Itoa"] = func(e *Engine, st *State, args []Value) []Outcome {
		if i, ok := args[0].(Int); ok {
			return one(st, strDec(st, i.Lin))
		}
		return one(st, Unknown{"itoa"})
	}
	m["strconv.AppendInt"] = func(e *Engine, st *State, args []Value) []Outcome {
		b, ok1 := e.asBytes(st, args[0])
		i, ok2 := args[1].(Int)
		base, ok3 := args[2].(Int)
		if ok1 && ok2 && ok3 && base.isC() && base.c == 10 {
			return one(st, strCat(b, strDec(st, i.Lin)))
		}
		st.taint("AppendInt")
		return one(st, Unknown{"AppendInt"})
	}
	m["strconv.AppendUint"] = m["strconv.AppendInt"]
	m["strconv.FormatInt"] = func(e *Engine, st *State, args []Value) []Outcome {
		i, ok := args[0].(Int)
		if base, ok2 := args[1].(Int); ok && ok2 && base.isC() && base.c == 10 {
			return one(st, strDec(st, i.Lin))
		}
		return one(st, Unknown{"FormatInt"})
	}
	m["strconv.Atoi"] = func(e *Engine, st *State, args []Value) []Outcome {
		s, ok := args[0].(Str)
		if !ok {
			st.taint("Atoi")
			return one(st, Struct{[]Value{Unknown{"n"}, Unknown{"err"}}})
		}
		if c, ok := s.constVal(); ok {
			n, err := strconv.Atoi(c)
			ev := Value(Nil{})
			if err != nil {
				ev = errVal("strconv.Atoi")
			}
			return one(st, Struct{[]Value{Int{linC(int64(n))}, ev}})
		}
		n := Lin{}
		for _, p := range s.p {
			switch p.kind {
			case 'c':
				for i := 0; i < len(p.s); i++ {
					if p.s[i] < '0' || p.s[i] > '9' {
						return one(st, Struct{[]Value{Int{}, errVal("strconv.Atoi")}})
					}
					n = n.scale(10).plus(int64(p.s[i] - '0'))
				}
			case 'b':
				if !st.entailsGE(p.lin.plus(-'0')) || !st.entailsGE(linC('9').sub(p.lin)) {
					st.taint("Atoi")
				}
				n = n.scale(10).add(p.lin).plus(-'0')
			case 'd':
				if len(s.p) == 1 {
					return one(st, Struct{[]Value{Int{p.lin}, Nil{}}})
				}
				st.taint("Atoi")
			default:
				st.taint("Atoi")
			}
		}
		return one(st, Struct{[]Value{Int{st.norm(n)}, Nil{}}})
	}
	m["strings.Join"] = func(e *Engine, st *State, args []Value) []Outcome {
		s, ok := args[0].(Slice)
		sep, ok2 := args[1].(Str)
		if ok && ok2 {
			if els, ok := e.elems(st, s); ok {
				out := Str{}
				for i, v := range els {
					x, ok := v.(Str)
					if !ok {
						return one(st, Unknown{"join"})
					}
					if i > 0 {
						out = strCat(out, sep)
					}
					out = strCat(out, x)
				}
				return one(st, out)
			}
		}
		st.taint("Join")
		return one(st, Unknown{"join"})
	}
	rep := func(e *Engine, st *State, args []Value) []Outcome {
		s, ok := e.asBytes(st, args[0])
		n, ok2 := args[1].(Int)
		if !ok || !ok2 {
			st.taint("Repeat")
			return one(st, Unknown{"repeat"})
		}
		l := st.norm(n.Lin)
		var outs []Outcome
		neg, pos := e.branch(st, condLT(l, linC(0)))
		for _, x := range neg {
			outs = append(outs, Outcome{st: x, panic: "negative Repeat count"})
		}
		for _, x := range pos {
			l := x.norm(l)
			if l.isC() && l.c <= 256 {
				out := Str{}
				for i := int64(0); i < l.c; i++ {
					out = strCat(out, s)
				}
				outs = append(outs, Outcome{st: x, val: out})
				continue
			}
			outs = append(outs, Outcome{st: x, val: Str{p: []Piece{{kind: 'p', n: l, sub: s.p}}}})
		}
		return outs
	}
	m["strings.Repeat"] = rep
	m["bytes.Repeat"] = rep
	prefix := func(name string, f func(s, p string) bool) intrinsic {
		return func(e *Engine, st *State, args []Value) []Outcome {
			s, ok1 := e.asBytes(st, args[0])
			p, ok2 := e.asBytes(st, args[1])
			if ok1 && ok2 {
				cs, k1 := s.constVal()
				cp, k2 := p.constVal()
				if k1 && k2 {
					return one(st, boolC(f(cs, cp)))
				}
			}
			st.taint(name)
			return one(st, Unknown{name})
		}
	}
	m["strings.HasPrefix"] = prefix("HasPrefix", strings.HasPrefix)
	m["strings.HasSuffix"] = prefix("HasSuffix", strings.HasSuffix)
	m["bytes.HasPrefix"] = m["strings.HasPrefix"]
	m["bytes.HasSuffix"] = m["strings.HasSuffix"]
	m["strings.Contains"] = prefix("Contains", strings.Contains)
	m["bytes.Contains"] = m["strings.Contains"]
	m["bytes.NewReader"] = func(e *Engine, st *State, args []Value) []Outcome {
		b, ok := e.asBytes(st, args[0])
		if !ok {
			st.taint("NewReader")
			return one(st, Unknown{"reader"})
		}
		return one(st, Ptr{obj: st.alloc(nil, Struct{[]Value{b, Int{}}})})
	}
	m["strings.NewReader"] = m["bytes.NewReader"]
	m["(*bytes.Reader).ReadByte"] = func(e *Engine, st *State, args []Value) []Outcome {
		p, ok := args[0].(Ptr)
		if !ok {
			st.taint("ReadByte")
			return one(st, Struct{[]Value{Unknown{"b"}, Unknown{"err"}}})
		}
		return e.readByteObj(st, p.obj)
	}
	m["(*strings.Reader).ReadByte"] = m["(*bytes.Reader).ReadByte"]
	// growing buffers
	buf := func(f func(e *Engine, st *State, cur Str, args []Value) (Str, Value, bool)) intrinsic {
		return func(e *Engine, st *State, args []Value) []Outcome {
			p, ok := args[0].(Ptr)
			if !ok {
				st.taint("buffer")
				return one(st, Unknown{"buffer"})
			}
			var outs []Outcome
			for _, o := range e.readPath(st, p) {
				cur, ok := o.val.(Str)
				if !ok {
					o.st.taint("buffer contents")
					outs = append(outs, Outcome{st: o.st, val: Unknown{"buffer"}})
					continue
				}
				nv, ret, ok := f(e, o.st, cur, args[1:])
				if !ok {
					o.st.taint("buffer write")
				}
				for _, w := range e.writePath(o.st, p, nv) {
					w.val = ret
					outs = append(outs, w)
				}
			}
			return outs
		}
	}
	ws := buf(func(e *Engine, st *State, cur Str, a []Value) (Str, Value, bool) {
		s, ok := e.asBytes(st, a[0])
		if !ok {
			return cur, Struct{[]Value{Unknown{"n"}, Nil{}}}, false
		}
		return strCat(cur, s), Struct{[]Value{Int{e.strLen(st, s)}, Nil{}}}, true
	})
	wb := buf(func(e *Engine, st *State, cur Str, a []Value) (Str, Value, bool) {
		i, ok := a[0].(Int)
		if !ok {
			return cur, Nil{}, false
		}
		return strCat(cur, byteStr(st, i.Lin)), Nil{}, true
	})
	wr := buf(func(e *Engine, st *State, cur Str, a []Value) (Str, Value, bool) {
		i, ok := a[0].(Int)
		if !ok {
			return cur, Struct{[]Value{Unknown{"n"}, Nil{}}}, false
		}
		s := strRune(st, i.Lin)
		return strCat(cur, s), Struct{[]Value{Int{e.strLen(st, s)}, Nil{}}}, true
	})
	str := buf(func(e *Engine, st *State, cur Str, a []Value) (Str, Value, bool) { return cur, Str{p: cur.p}, true })
	ln := buf(func(e *Engine, st *State, cur Str, a []Value) (Str, Value, bool) {
		return cur, Int{e.strLen(st, cur)}, true
	})
	rst := buf(func(e *Engine, st *State, cur Str, a []Value) (Str, Value, bool) { return Str{}, nil, true })
	for _, t := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		m[t+"WriteString"], m[t+"Write"], m[t+"WriteByte"], m[t+"WriteRune"] = ws, ws, wb, wr
		m[t+"String"], m[t+"Bytes"], m[t+"Len"], m[t+"Reset"] = str, str, ln, rst
	}
	m["bytes.NewBuffer"] = func(e *Engine, st *State, args []Value) []Outcome {
		s, ok := Str{}, true
		switch v := args[0].(type) {
		case Nil:
		case Slice:
			if l := st.norm(v.len); !l.isC() || l.c != 0 {
				s, ok = e.asBytes(st, v)
			}
		default:
			s, ok = e.asBytes(st, v)
		}
		if !ok {
			st.taint("NewBuffer")
			return one(st, Unknown{"NewBuffer"})
		}
		return one(st, Ptr{obj: st.alloc(nil, Str{p: s.p})})
	}
	m["bytes.NewBufferString"] = m["bytes.NewBuffer"]
	m["unicode/utf8.FullRune"] = func(e *Engine, st *State, args []Value) []Outcome {
		s, ok := e.asBytes(st, args[0])
		if ok {
			if c, ok := s.constVal(); ok {
				return one(st, boolC(utf8.FullRuneInString(c)))
			}
			if len(s.p) > 0 && (s.p[0].kind == 'r' || s.p[0].kind == 't') {
				return one(st, bTrue)
			}
			if c, ok := e.firstByteASCII(st, s); ok {
				_ = c
				return one(st, bTrue)
			}
		}
		st.taint("FullRune")
		return one(st, Unknown{"FullRune"})
	}
	dec := func(e *Engine, st *State, args []Value) []Outcome {
		s, ok := e.asBytes(st, args[0])
		if ok {
			if c, ok := s.constVal(); ok {
				r, n := utf8.DecodeRuneInString(c)
				return one(st, Struct{[]Value{Int{linC(int64(r))}, Int{linC(int64(n))}}})
			}
			if len(s.p) > 0 && s.p[0].kind == 'r' {
				return one(st, Struct{[]Value{Int{st.norm(s.p[0].lin)}, Int{e.pieceLen(st, s.p[0])}}})
			}
			if c, ok := e.firstByteASCII(st, s); ok {
				return one(st, Struct{[]Value{Int{c}, Int{linC(1)}}})
			}
			if len(s.p) > 0 && s.p[0].kind == 't' {
				n := linS(e.newSym("rune length"))
				st.pushCon(n.plus(-1))
				st.pushCon(linC(4).sub(n))
				return one(st, Struct{[]Value{Int{e.firstRune(st, s.p[0])}, Int{n}}})
			}
		}
		st.taint("DecodeRune")
		return one(st, Struct{[]Value{Unknown{"r"}, Unknown{"n"}}})
	}
	m["unicode/utf8.DecodeRune"] = dec
	m["unicode/utf8.DecodeRuneInString"] = dec
	m["unicode/utf8.RuneCount"] = func(e *Engine, st *State, args []Value) []Outcome {
		s, ok := e.asBytes(st, args[0])
		if ok {
			n := Lin{}
			for _, p := range s.p {
				switch {
				case p.kind == 'c':
					n = n.plus(int64(utf8.RuneCountInString(p.s)))
				case p.kind == 'r':
					n = n.plus(1)
				case p.kind == 't' && p.cl == nil:
					n = n.add(p.lin)
				default:
					st.taint("RuneCount")
					return one(st, Unknown{"RuneCount"})
				}
			}
			return one(st, Int{n})
		}
		st.taint("RuneCount")
		return one(st, Unknown{"RuneCount"})
	}
	m["unicode/utf8.RuneCountInString"] = m["unicode/utf8.RuneCount"]
	m["unicode/utf8.RuneLen"] = func(e *Engine, st *State, args []Value) []Outcome {
		if i, ok := args[0].(Int); ok {
			return one(st, Int{e.strLen(st, strRune(st, i.Lin))})
		}
		return one(st, Unknown{"RuneLen"})
	}
	m["unicode/utf8.AppendRune"] = func(e *Engine, st *State, args []Value) []Outcome {
		b, ok := e.asBytes(st, args[0])
		i, ok2 := args[1].(Int)
		if ok && ok2 {
			return one(st, strCat(b, strRune(st, i.Lin)))
		}
		st.taint("AppendRune")
		return one(st, Unknown{"AppendRune"})
	}
	m["unicode.ToUpper"] = caseMap(true)
	m["unicode.ToLower"] = caseMap(false)
	m["unicode.IsUpper"] = caseIs('A', 'Z', unicode.IsUpper)
	m["unicode.IsLower"] = caseIs('a', 'z', unicode.IsLower)
	m["unicode.IsPrint"] = caseIs(' ', '~', unicode.IsPrint)
	m["unicode.IsControl"] = caseIs(0, 31, unicode.IsControl)
	return m
}

// caseMap is ToUpper/ToLower on ASCII; beyond it the partition is undecided.
func caseMap(up bool) intrinsic {
	lo, hi, d := int64('A'), int64('Z'), int64(32)
	if up {
		lo, hi, d = 'a', 'z', -32
	}
	return func(e *Engine, st *State, args []Value) []Outcome {
		i, ok := args[0].(Int)
		if !ok {
			return one(st, Unknown{"case"})
		}
		l := st.norm(i.Lin)
		if l.isC() {
			if up {
				return one(st, Int{linC(int64(unicode.ToUpper(rune(l.c))))})
			}
			return one(st, Int{linC(int64(unicode.ToLower(rune(l.c))))})
		}
		var outs []Outcome
		yes, no := e.branch(st, condAll(condGE(l, linC(lo)), condLE(l, linC(hi))))
		for _, s := range yes {
			outs = append(outs, Outcome{st: s, val: Int{s.norm(l.plus(d))}})
		}
		for _, s := range no {
			y2, n2 := e.branch(s, condLE(l, linC(127)))
			for _, x := range y2 {
				outs = append(outs, Outcome{st: x, val: Int{x.norm(l)}})
			}
			for _, x := range n2 {
				x.taint("case mapping beyond ASCII")
				outs = append(outs, Outcome{st: x, val: Unknown{"case"}})
			}
		}
		return outs
	}
}

func caseIs(lo, hi int64, f func(rune) bool) intrinsic {
	return func(e *Engine, st *State, args []Value) []Outcome {
		i, ok := args[0].(Int)
		if !ok {
			return one(st, Unknown{"case"})
		}
		l := st.norm(i.Lin)
		if l.isC() {
			return one(st, boolC(f(rune(l.c))))
		}
		if st.entailsGE(linC(127).sub(l)) {
			return one(st, condAll(condGE(l, linC(lo)), condLE(l, linC(hi))))
		}
		st.taint("character class beyond ASCII")
		return one(st, Unknown{"class"})
	}
}

func (e *Engine) firstByteASCII(st *State, s Str) (Lin, bool) {
	if len(s.p) == 0 {
		return Lin{}, false
	}
	switch p := s.p[0]; p.kind {
	case 'c':
		if p.s[0] < 128 {
			return linC(int64(p.s[0])), true
		}
	case 'b', 'r':
		l := st.norm(p.lin)
		if st.entailsGE(l) && st.entailsGE(linC(127).sub(l)) {
			return l, true
		}
	}
	return Lin{}, false
}

func byteStr(st *State, l Lin) Str {
	l = st.norm(l)
	if l.isC() {
		return strC(string([]byte{byte(l.c)}))
	}
	return Str{p: []Piece{{kind: 'b', lin: l}}}
}

func strDec(st *State, l Lin) Str {
	l = st.norm(l)
	if l.isC() {
		return strC(strconv.FormatInt(l.c, 10))
	}
	return Str{p: []Piece{{kind: 'd', lin: l}}}
}

// format expands a constant format string over a slice of interface values.
func (e *Engine) format(st *State, f, args Value) (Str, bool) {
	fs, ok := f.(Str)
	if !ok {
		return Str{}, false
	}
	c, ok := fs.constVal()
	if !ok {
		return Str{}, false
	}
	var els []Value
	if s, ok := args.(Slice); ok {
		els, ok = e.elems(st, s)
		if !ok {
			return Str{}, false
		}
	}
	out := Str{}
	k := 0
	for i := 0; i < len(c); i++ {
		if c[i] != '%' {
			j := i
			for j < len(c) && c[j] != '%' {
				j++
			}
			out = strCat(out, strC(c[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(c) {
			return Str{}, false
		}
		if c[i] == '%' {
			out = strCat(out, strC("%"))
			continue
		}
		if k >= len(els) {
			return Str{}, false
		}
		s, ok := e.formatOne(st, c[i], els[k])
		if !ok {
			return Str{}, false
		}
		k++
		out = strCat(out, s)
	}
	return out, k == len(els)
}

func (e *Engine) formatOne(st *State, verb byte, v Value) (Str, bool) {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	switch x := v.(type) {
	case Int:
		switch verb {
		case 'd', 'v':
			return strDec(st, x.Lin), true
		case 'c':
			return strRune(st, x.Lin), true
		}
	case Str:
		if verb == 's' || verb == 'v' {
			return Str{p: x.p}, true
		}
	}
	return Str{}, false
}

// writeTo calls w.Write(s).
func (e *Engine) writeTo(st *State, w Value, s Str) []Outcome {
	if i, ok := w.(Iface); ok {
		if p, ok := i.v.(Ptr); ok {
			if pt, ok := types.Unalias(i.t).Underlying().(*types.Pointer); ok && (isStdType(pt.Elem(), "bytes.Buffer") || isStdType(pt.Elem(), "strings.Builder")) {
				return e.intr["(*bytes.Buffer).Write"](e, st, []Value{p, s})
			}
			if fn := e.prog.LookupMethod(i.t, nil, "Write"); fn != nil {
				return e.call(st, fn, []Value{i.v, s}, nil)
			}
		}
		if n, ok := i.v.(Native); ok {
			return e.native(st, n, "Write", []Value{s})
		}
	}
	st.taint("Write to an unknown writer")
	return one(st, Struct{[]Value{Unknown{"n"}, Unknown{"err"}}})
}

// readByteObj reads the next byte of a byte source object Struct{Str, Int pos}.
func (e *Engine) readByteObj(st *State, id int) []Outcome {
	o := st.obj(id)
	s := o.val.(Struct)
	data, pos := s.f[0].(Str), s.f[1].(Int)
	var outs []Outcome
	end, more := e.branch(st, condGE(pos.Lin, e.strLen(st, data)))
	for _, x := range end {
		outs = append(outs, Outcome{st: x, val: Struct{[]Value{Int{}, e.ioEOF(x)}}})
	}
	for _, x := range more {
		for _, b := range e.strIndex(x, data, pos.Lin, 0, nil) {
			if b.panic != "" {
				outs = append(outs, b)
				continue
			}
			n := *b.st.obj(id)
			n.val = Struct{[]Value{data, Int{b.st.norm(pos.Lin.plus(1))}}}
			b.st.setObj(&n)
			outs = append(outs, Outcome{st: b.st, val: Struct{[]Value{b.val, Nil{}}}})
		}
	}
	return outs
}

func (e *Engine) ioEOF(st *State) Value { return errVal("io.EOF") }

func (e *Engine) addEvent(st *State, ev Event) {
	ev.snap = st.heap
	st.shared = true
	st.events = append(st.events[:len(st.events):len(st.events)], ev)
}

func registerNatives(e *Engine) {
	e.nat["frontend"] = func(e *Engine, st *State, n Native, method string, args []Value) []Outcome {
		// a notification for a frontend that has been replaced reaches nobody
		if in, ok := st.ghost["frontend"].(Int); !ok || in.Lin.c == int64(n.id) {
			e.addEvent(st, Event{kind: method, args: args})
		}
		return one(st, nil)
	}
	e.nat["error"] = func(e *Engine, st *State, n Native, method string, args []Value) []Outcome {
		switch method {
		case "Timeout", "Temporary":
			return append(one(st.fork(), bTrue), one(st, bFalse)...)
		case "Unwrap":
			return one(st, Nil{})
		}
		return one(st, strC(fmt.Sprint(n.data)))
	}
	e.nat["source"] = func(e *Engine, st *State, n Native, method string, args []Value) []Outcome {
		if method == "ReadByte" {
			return e.readByteObj(st, n.id)
		}
		st.taint("source." + method)
		return one(st, Unknown{"source"})
	}
	e.nat["backend"] = func(e *Engine, st *State, n Native, method string, args []Value) []Outcome {
		if e.backend != nil {
			if outs, ok := e.backend(e, st, method, args); ok {
				return outs
			}
		}
		switch method {
		case "Write":
			b, ok := e.asBytes(st, args[0])
			if !ok {
				st.taint("write of unknown bytes")
				return one(st, Struct{[]Value{Unknown{"n"}, Nil{}}})
			}
			e.addEvent(st, Event{kind: "write", args: []Value{b}})
			st.out = strCat(st.out, b)
			return one(st, Struct{[]Value{Int{e.strLen(st, b)}, Nil{}}})
		case "SetSize":
			e.addEvent(st, Event{kind: "SetSize", args: args})
			return one(st, Nil{})
		}
		st.taint("backend." + method)
		return one(st, Unknown{"backend"})
	}
}

// showVal renders a value for reports.
func (e *Engine) showVal(v Value) string {
	switch x := v.(type) {
	case Int:
		return x.str(e.symName)
	case Str:
		return showStr(e, x)
	case Bool:
		return e.showBool(x)
	case Struct:
		var out []string
		for _, f := range x.f {
			out = append(out, e.showVal(f))
		}
		return "{" + strings.Join(out, ", ") + "}"
	case Nil:
		return "nil"
	case Iface:
		return e.showVal(x.v)
	case Native:
		return fmt.Sprint(x.kind, " ", x.data)
	case Unknown:
		return "unknown (" + x.why + ")"
	case Slice:
		return "slice of " + x.len.str(e.symName)
	}
	return fmt.Sprintf("%T", v)
}

func (e *Engine) showBool(b Bool) string {
	switch b.op {
	case 'T':
		return "true"
	case 'F':
		return "false"
	case 'g':
		return b.lin.str(e.symName) + " >= 0"
	case 'e':
		return b.lin.str(e.symName) + " == 0"
	case 'n':
		return b.lin.str(e.symName) + " != 0"
	case 'b':
		s := fmt.Sprintf("bit %d of %s", b.bit.i, e.symName(b.bit.s))
		if b.bit.neg {
			return "not " + s
		}
		return s
	}
	var out []string
	for _, x := range b.list {
		out = append(out, e.showBool(x))
	}
	if b.op == 'A' {
		return "(" + strings.Join(out, " and ") + ")"
	}
	return "(" + strings.Join(out, " or ") + ")"
}

var _ *ssa.Function
