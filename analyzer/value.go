package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values. All are immutable once built.

type Value interface{}

// Int is any integer-typed value (rune, byte and sized integers included).
type Int struct{ Lin }

// Bool is a truth value: a constant or a condition over symbols.
type Bool struct {
	op   byte // 'T' 'F'; 'g' lin>=0; 'e' lin==0; 'n' lin!=0; 'b' bit; 'A' all of list; 'O' any of list
	lin  Lin
	bit  Bit
	list []Bool
}

var (
	bTrue  = Bool{op: 'T'}
	bFalse = Bool{op: 'F'}
)

func boolC(b bool) Bool {
	if b {
		return bTrue
	}
	return bFalse
}

func (b Bool) not() Bool {
	switch b.op {
	case 'T':
		return bFalse
	case 'F':
		return bTrue
	case 'g': // !(l>=0) == -l-1>=0
		return Bool{op: 'g', lin: b.lin.neg().plus(-1)}
	case 'e':
		return Bool{op: 'n', lin: b.lin}
	case 'n':
		return Bool{op: 'e', lin: b.lin}
	case 'b':
		nb := b.bit
		nb.neg = !nb.neg
		return Bool{op: 'b', bit: nb}
	case 'A', 'O':
		out := Bool{op: 'O'}
		if b.op == 'O' {
			out.op = 'A'
		}
		for _, x := range b.list {
			out.list = append(out.list, x.not())
		}
		return out
	}
	panic("bad Bool")
}

func condGE(a, b Lin) Bool { // a >= b
	l := a.sub(b)
	if l.isC() {
		return boolC(l.c >= 0)
	}
	return Bool{op: 'g', lin: l}
}
func condLT(a, b Lin) Bool { return condGE(a, b).not() }
func condLE(a, b Lin) Bool { return condGE(b, a) }
func condGT(a, b Lin) Bool { return condGE(b, a).not() }
func condEQ(a, b Lin) Bool {
	l := a.sub(b)
	if l.isC() {
		return boolC(l.c == 0)
	}
	return Bool{op: 'e', lin: l}
}

func condAll(cs ...Bool) Bool {
	var list []Bool
	for _, c := range cs {
		switch c.op {
		case 'F':
			return bFalse
		case 'T':
		case 'A':
			list = append(list, c.list...)
		default:
			list = append(list, c)
		}
	}
	switch len(list) {
	case 0:
		return bTrue
	case 1:
		return list[0]
	}
	return Bool{op: 'A', list: list}
}

func condAny(cs ...Bool) Bool {
	ns := make([]Bool, len(cs))
	for i, c := range cs {
		ns[i] = c.not()
	}
	return condAll(ns...).not()
}

// Bit is one bit of an integer: a constant or bit i of symbol s.
type Bit struct {
	konst bool // constant bit; its value is in neg
	s     Sym
	i     int
	neg   bool
}

var (
	bit0 = Bit{konst: true}
	bit1 = Bit{konst: true, neg: true}
)

func bitsKey(b []Bit) string {
	var sb strings.Builder
	for _, x := range b {
		switch {
		case x == bit0:
			sb.WriteByte('0')
		case x == bit1:
			sb.WriteByte('1')
		default:
			if x.neg {
				sb.WriteByte('!')
			}
			fmt.Fprintf(&sb, "<%d.%d>", x.s, x.i)
		}
	}
	return sb.String()
}

// Nil is the nil pointer, interface, func or map.
type Nil struct{}

// PathElem selects a struct field or an array element.
type PathElem struct {
	field int
	idx   *Lin
}

// Ptr points to a place inside a heap object.
type Ptr struct {
	obj  int
	path []PathElem
}

// Struct is a struct or tuple value; Arr an array value.
type Struct struct{ f []Value }
type Arr struct{ e []Value }

// Slice views elements of an array place. obj==0 means nil.
type Slice struct {
	obj           int
	path          []PathElem
	off, len, cap Lin
}

// Iface is a non-nil interface value.
type Iface struct {
	t types.Type
	v Value
}

// Func is a function value.
type Func struct {
	fn   *ssa.Function
	free []Value
	nat  func(e *Engine, st *State, args []Value) []Outcome
	name string
}

// Native is an object of the analysis itself (frontend, backend, input stream).
type Native struct {
	kind string
	id   int
	data any
}

// Elem is an element of a symbolic array that has not been looked up: it is only copied.
type Elem struct {
	arr *SymArr
	i   Lin
}

// Unknown is a value the analysis knows nothing about; deciding on it is undecided.
type Unknown struct{ why string }

// Piece of a string or byte sequence.
type Piece struct {
	kind byte // 'c' constant; 'd' decimal of lin; 'r' rune lin; 'b' byte lin; 't' text run; 'p' repeat; 'x' opaque
	s    string
	lin  Lin     // value, or for 't' the number of bytes
	off  Lin     // 't': offset into the run
	id   int     // 't'/'x': which text
	cl   *Clus   // 't': a single cluster
	n    Lin     // 'p'
	sub  []Piece // 'p'
	ksym Sym     // 'p' with loop template
	arr  *SymArr // 'a': lin bytes of an array as it was, from off on
}

// Clus describes one extended cluster of text.
type Clus struct {
	id    int
	width Lin // cells
	bytes Lin
	name  string
	multi bool // more than one rune
	rune  *Lin // the only one
}

// Str is a string or an immutable byte sequence.
type Str struct {
	p     []Piece
	isNil bool
}

func strC(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{p: []Piece{{kind: 'c', s: s}}}
}

func (s Str) constVal() (string, bool) {
	switch len(s.p) {
	case 0:
		return "", true
	case 1:
		if s.p[0].kind == 'c' {
			return s.p[0].s, true
		}
	}
	return "", false
}

func strCat(a, b Str) Str {
	if len(a.p) == 0 {
		return Str{p: b.p}
	}
	if len(b.p) == 0 {
		return Str{p: a.p}
	}
	out := make([]Piece, 0, len(a.p)+len(b.p))
	out = append(out, a.p...)
	for _, p := range b.p {
		if n := len(out); n > 0 && p.kind == 'c' && out[n-1].kind == 'c' {
			out[n-1] = Piece{kind: 'c', s: out[n-1].s + p.s}
			continue
		}
		if n := len(out); n > 0 && p.kind == 't' && p.cl == nil && out[n-1].kind == 't' && out[n-1].cl == nil && out[n-1].id == p.id && out[n-1].off.add(out[n-1].lin).eq(p.off) {
			out[n-1] = Piece{kind: 't', id: p.id, off: out[n-1].off, lin: out[n-1].lin.add(p.lin)}
			continue
		}
		out = append(out, p)
	}
	return Str{p: out}
}

// MapV is a reference to a map object.
type MapV struct{ obj int }

// mapLin rewrites every linear expression inside v.
func mapLin(v Value, f func(Lin) Lin) Value {
	switch v := v.(type) {
	case Int:
		return Int{f(v.Lin)}
	case Bool:
		return mapBool(v, f)
	case Struct:
		out := make([]Value, len(v.f))
		for i, x := range v.f {
			out[i] = mapLin(x, f)
		}
		return Struct{out}
	case Arr:
		out := make([]Value, len(v.e))
		for i, x := range v.e {
			out[i] = mapLin(x, f)
		}
		return Arr{out}
	case Slice:
		return Slice{v.obj, mapPath(v.path, f), f(v.off), f(v.len), f(v.cap)}
	case Ptr:
		return Ptr{v.obj, mapPath(v.path, f)}
	case Elem:
		return Elem{v.arr, f(v.i)}
	case Iface:
		return Iface{v.t, mapLin(v.v, f)}
	case Str:
		return Str{p: mapPieces(v.p, f), isNil: v.isNil}
	case RowSpans:
		return RowSpans{mapRow(v.row, f)}
	case Func:
		if len(v.free) == 0 {
			return v
		}
		nf := v
		nf.free = make([]Value, len(v.free))
		for i, x := range v.free {
			nf.free[i] = mapLin(x, f)
		}
		return nf
	}
	return v
}

func mapBool(b Bool, f func(Lin) Lin) Bool {
	switch b.op {
	case 'g':
		return condGE(f(b.lin), linC(0))
	case 'e':
		return condEQ(f(b.lin), linC(0))
	case 'n':
		return condEQ(f(b.lin), linC(0)).not()
	case 'A', 'O':
		out := Bool{op: b.op}
		for _, x := range b.list {
			out.list = append(out.list, mapBool(x, f))
		}
		return out
	}
	return b
}

func mapPath(p []PathElem, f func(Lin) Lin) []PathElem {
	changed := false
	for _, x := range p {
		if x.idx != nil {
			changed = true
		}
	}
	if !changed {
		return p
	}
	out := make([]PathElem, len(p))
	for i, x := range p {
		out[i] = x
		if x.idx != nil {
			l := f(*x.idx)
			out[i].idx = &l
		}
	}
	return out
}

func mapPieces(ps []Piece, f func(Lin) Lin) []Piece {
	if len(ps) == 0 {
		return ps
	}
	out := make([]Piece, len(ps))
	for i, p := range ps {
		p.lin, p.off, p.n = f(p.lin), f(p.off), f(p.n)
		if p.cl != nil {
			c := *p.cl
			c.width, c.bytes = f(c.width), f(c.bytes)
			p.cl = &c
		}
		p.sub = mapPieces(p.sub, f)
		out[i] = p
	}
	return out
}
