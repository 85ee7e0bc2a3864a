package main

import "fmt"

// keys.go: the bytes of a key event, from keyboard-protocol.rst (the functional key table, the
// legacy tables and the effect of each enhancement flag) and xterm's modifyOtherKeys.

// keyDef is one key: its number and final byte in the Kitty forms and its legacy encoding.
type keyDef struct {
	name   string
	num    int64
	final  byte   // 'u', '~' or the letter of the CSI 1;m letter form
	legacy byte   // 'c' cursor key, 's' SS3 key, '~' number key, '0' C0 key, 't' text, 0 none
	mod    bool   // a modifier key
	lock   bool   // a lock key
	pad    string // the equivalent key of a keypad key, or its character
}

func keyTable() []keyDef {
	ks := []keyDef{
		{name: "KeyRune", final: 'u', legacy: 't'},
		{name: "KeyUp", num: 1, final: 'A', legacy: 'c'}, {name: "KeyDown", num: 1, final: 'B', legacy: 'c'},
		{name: "KeyRight", num: 1, final: 'C', legacy: 'c'}, {name: "KeyLeft", num: 1, final: 'D', legacy: 'c'},
		{name: "KeyHome", num: 1, final: 'H', legacy: 'c'}, {name: "KeyEnd", num: 1, final: 'F', legacy: 'c'},
		{name: "KeyInsert", num: 2, final: '~', legacy: '~'}, {name: "KeyDelete", num: 3, final: '~', legacy: '~'},
		{name: "KeyPageUp", num: 5, final: '~', legacy: '~'}, {name: "KeyPageDown", num: 6, final: '~', legacy: '~'},
		{name: "KeyBackspace", num: 127, final: 'u', legacy: '0'}, {name: "KeyTab", num: 9, final: 'u', legacy: '0'},
		{name: "KeyEnter", num: 13, final: 'u', legacy: '0'}, {name: "KeyEscape", num: 27, final: 'u', legacy: '0'},
		{name: "KeyF1", num: 1, final: 'P', legacy: 's'}, {name: "KeyF2", num: 1, final: 'Q', legacy: 's'},
		{name: "KeyF3", num: 13, final: '~', legacy: 's'}, {name: "KeyF4", num: 1, final: 'S', legacy: 's'},
		{name: "KeyMenu", num: 57363, final: 'u', legacy: '~'},
		{name: "KeyKPBegin", num: 1, final: 'E', pad: "?"},
	}
	for i, n := range []int64{15, 17, 18, 19, 20, 21, 23, 24} {
		ks = append(ks, keyDef{name: fmt.Sprintf("KeyF%d", i+5), num: n, final: '~', legacy: '~'})
	}
	for i := int64(13); i <= 35; i++ {
		ks = append(ks, keyDef{name: fmt.Sprintf("KeyF%d", i), num: 57376 + i - 13, final: 'u'})
	}
	for i, n := range []string{"KeyCapsLock", "KeyScrollLock", "KeyNumLock"} {
		ks = append(ks, keyDef{name: n, num: int64(57358 + i), final: 'u', lock: true})
	}
	for i, n := range []string{"KeyPrintScreen", "KeyPause"} {
		ks = append(ks, keyDef{name: n, num: int64(57361 + i), final: 'u'})
	}
	for i, p := range [][2]string{{"0", "0"}, {"1", "1"}, {"2", "2"}, {"3", "3"}, {"4", "4"}, {"5", "5"}, {"6", "6"}, {"7", "7"}, {"8", "8"}, {"9", "9"},
		{"Decimal", "."}, {"Divide", "/"}, {"Multiply", "*"}, {"Subtract", "-"}, {"Add", "+"}, {"Enter", "KeyEnter"}, {"Equal", "="}, {"Separator", ","},
		{"Left", "KeyLeft"}, {"Right", "KeyRight"}, {"Up", "KeyUp"}, {"Down", "KeyDown"}, {"PageUp", "KeyPageUp"}, {"PageDown", "KeyPageDown"},
		{"Home", "KeyHome"}, {"End", "KeyEnd"}, {"Insert", "KeyInsert"}, {"Delete", "KeyDelete"}} {
		ks = append(ks, keyDef{name: "KeyKP" + p[0], num: int64(57399 + i), final: 'u', pad: p[1]})
	}
	for i, n := range []string{"MediaPlay", "MediaPause", "MediaPlayPause", "MediaReverse", "MediaStop", "MediaFastForward", "MediaRewind", "MediaTrackNext", "MediaTrackPrev", "MediaRecord", "VolumeDown", "VolumeUp", "VolumeMute"} {
		ks = append(ks, keyDef{name: "Key" + n, num: int64(57428 + i), final: 'u'})
	}
	for i, n := range []string{"LeftShift", "LeftControl", "LeftAlt", "LeftSuper", "LeftHyper", "LeftMeta", "RightShift", "RightControl", "RightAlt", "RightSuper", "RightHyper", "RightMeta", "ISOLevel3Shift", "ISOLevel5Shift"} {
		ks = append(ks, keyDef{name: "Key" + n, num: int64(57441 + i), final: 'u', mod: true})
	}
	return ks
}

const (
	kfDisambiguate = 1
	kfEvents       = 2
	kfAlternates   = 4
	kfAllKeys      = 8
	kfText         = 16
)

// keyEv is one symbolic key event.
type keyEv struct {
	flags, event  int64
	mods          [8]Lin // one symbol per modifier, 0 or 1
	rune          Lin
	shifted, base Lin
	text          []Lin
	mok           Lin
	app           Bool
	keys          map[string]keyDef
}

// keyOut is what the encoder may send on a partition: any of the alternatives.
type keyOut struct {
	st  *State
	alt []Str
}

func (k *keyEv) bit(i int) Bool { return condGT(k.mods[i], Lin{}) }

const (
	kmShift = iota
	kmAlt
	kmCtrl
	kmSuper
	kmHyper
	kmMeta
	kmCaps
	kmNum
)

// any of the modifiers lo..hi is active.
func (k *keyEv) anyMod(lo, hi int) Bool {
	n := Lin{}
	for i := lo; i <= hi; i++ {
		n = n.add(k.mods[i])
	}
	return condGT(n, Lin{})
}

// modParam is 1 + the modifier mask, with or without the lock keys.
func (k *keyEv) modParam(st *State, locks bool) Lin {
	n := 6
	if locks {
		n = 8
	}
	m := linC(1)
	for i := 0; i < n; i++ {
		m = m.add(k.mods[i].scale(1 << uint(i)))
	}
	return st.norm(m)
}

type keyRef struct {
	w *World
	k *keyEv
}

func (r *keyRef) on(st *State, c Bool, yes, no func(st *State) []keyOut) []keyOut {
	a, b := r.w.e.branch(st, c)
	var outs []keyOut
	for _, s := range a {
		outs = append(outs, yes(s)...)
	}
	for _, s := range b {
		outs = append(outs, no(s)...)
	}
	return outs
}

func sends(st *State, alt ...Str) []keyOut { return []keyOut{{st, alt}} }

func strs(parts ...Str) Str {
	out := Str{}
	for _, p := range parts {
		out = strCat(out, p)
	}
	return out
}

func runeStr(l Lin) Str {
	if l.isC() {
		return strC(string(rune(l.c)))
	}
	return Str{p: []Piece{{kind: 'r', lin: l}}}
}

// kitty is the CSI form of a key: CSI code[:alternates] ; modifiers[:event] ; text u, or
// CSI number ; modifiers[:event] ~, or CSI 1 ; modifiers[:event] letter.
func (r *keyRef) kitty(st *State, d keyDef, locks bool, flags int64, num Lin) []keyOut {
	k := r.k
	event := k.event
	if event == 0 {
		event = 1
	}
	type part struct {
		st *State
		s  Str
	}
	fork := func(ps []part, c func(st *State) Bool, yes, no func(p part) Str) []part {
		var out []part
		for _, p := range ps {
			a, b := r.w.e.branch(p.st, c(p.st))
			for _, s := range a {
				out = append(out, part{s, yes(part{s, p.s})})
			}
			for _, s := range b {
				out = append(out, part{s, no(part{s, p.s})})
			}
		}
		return out
	}
	keep := func(p part) Str { return p.s }
	// the key field
	key := []part{{st, strDec(st, num)}}
	if d.final == 'u' && flags&kfAlternates != 0 {
		shifted := condAll(k.bit(kmShift), condGT(k.shifted, Lin{}))
		key = fork(key, func(*State) Bool { return shifted }, func(p part) Str { return strs(p.s, strC(":"), strDec(p.st, k.shifted)) }, keep)
		key = fork(key, func(*State) Bool { return condGT(k.base, Lin{}) }, func(p part) Str {
			if p.st.decide(shifted) == 1 {
				return strs(p.s, strC(":"), strDec(p.st, k.base))
			}
			return strs(p.s, strC("::"), strDec(p.st, k.base))
		}, keep)
	}
	// the text field
	var outs []keyOut
	for _, kp := range key {
		text := []part{{kp.st, Str{}}}
		if d.final == 'u' && flags&kfText != 0 && flags&kfAllKeys != 0 && event != 3 {
			runes := k.text
			printable := func(l Lin) Bool {
				return condAny(condAll(condGE(l, linC(32)), condLT(l, linC(127))), condGE(l, linC(160)))
			}
			add := func(ps []part, l func(st *State) Lin) []part {
				return fork(ps, func(st *State) Bool { return printable(l(st)) }, func(p part) Str {
					if len(p.s.p) == 0 {
						return strDec(p.st, l(p.st))
					}
					return strs(p.s, strC(":"), strDec(p.st, l(p.st)))
				}, keep)
			}
			for _, l := range runes {
				l := l
				text = add(text, func(*State) Lin { return l })
			}
			if len(runes) == 0 && d.legacy == 't' {
				shifted := condAll(k.bit(kmShift), condGT(k.shifted, Lin{}))
				text = fork(text, func(*State) Bool { return shifted }, keep, keep)
				text = add(text, func(st *State) Lin {
					if st.decide(shifted) == 1 {
						return k.shifted
					}
					return k.rune
				})
			}
		}
		for _, tp := range text {
			lo, hi := kmShift, kmMeta
			if locks {
				hi = kmNum
			}
			withEvent := flags&kfEvents != 0 && event != 1
			outs = append(outs, r.on(tp.st, k.anyMod(lo, hi), func(st *State) []keyOut {
				m := strDec(st, k.modParam(st, locks))
				if withEvent {
					m = strs(m, strC(fmt.Sprintf(":%d", event)))
				}
				return sends(st, keyForm(d, kp.s, []Str{m}, tp.s)...)
			}, func(st *State) []keyOut {
				switch {
				case withEvent:
					return sends(st, keyForm(d, kp.s, []Str{strC(fmt.Sprintf("1:%d", event))}, tp.s)...)
				case len(tp.s.p) > 0:
					return sends(st, keyForm(d, kp.s, []Str{strC("1"), {}}, tp.s)...)
				}
				return sends(st, keyForm(d, kp.s, nil, Str{})...)
			})...)
		}
	}
	return outs
}

// keyForm assembles the fields; each modifier field is one allowed alternative.
func keyForm(d keyDef, key Str, mods []Str, text Str) []Str {
	csi, fin := strC("\x1b["), strC(string([]byte{d.final}))
	if mods == nil {
		if d.final != 'u' && d.final != '~' {
			return []Str{strs(csi, fin)}
		}
		return []Str{strs(csi, key, fin)}
	}
	var out []Str
	for _, m := range mods {
		s := strs(csi, key, strC(";"), m)
		if len(text.p) > 0 {
			s = strs(s, strC(";"), text)
		}
		out = append(out, strs(s, fin))
	}
	return out
}

// encode is the reference encoder.
func (r *keyRef) encode(st *State, d keyDef) []keyOut {
	k := r.k
	release := k.event == 3
	nothing := func(st *State) []keyOut { return sends(st, Str{}) }
	told := k.flags&kfEvents != 0 && k.event >= 2 // an event that must be reported as such
	if release && k.flags&kfEvents == 0 {
		return nothing(st)
	}
	all := k.flags&kfAllKeys != 0
	if d.mod && !all {
		return nothing(st)
	}
	num := linC(d.num)
	if d.legacy == 't' {
		num = k.rune
	}
	if d.pad != "" && k.flags&(kfDisambiguate|kfAllKeys) == 0 {
		if eq, ok := k.keys[d.pad]; ok {
			return r.encode(st, eq)
		}
		if d.pad == "?" { // no key is equivalent to keypad Begin
			return []keyOut{{st, nil}}
		}
		text := *k
		text.rune = linC(int64(d.pad[0]))
		return (&keyRef{r.w, &text}).encode(st, k.keys["KeyRune"])
	}
	kitty := func(st *State) []keyOut { return r.kitty(st, d, true, k.flags, num) }
	orLock := func(outs []keyOut) []keyOut {
		if d.lock && !all { // terminals may keep these keys to themselves
			for i := range outs {
				outs[i].alt = append(outs[i].alt, Str{})
			}
		}
		return outs
	}
	switch {
	case all:
		return kitty(st)
	case d.legacy == 't':
		legacy := r.legacyText
		if release {
			legacy = nothing
		}
		if k.flags&kfDisambiguate != 0 || told {
			return r.on(st, k.anyMod(kmAlt, kmMeta), kitty, legacy)
		}
		return legacy(st)
	case d.legacy == '0' && d.name != "KeyEscape":
		if release {
			return nothing(st)
		}
		return r.legacyC0(st, d)
	case d.name == "KeyEscape":
		if k.flags&kfDisambiguate != 0 || told {
			return kitty(st)
		}
		return r.legacyC0(st, d)
	case k.flags != 0:
		return orLock(kitty(st))
	}
	return orLock(r.legacyFunc(st, d))
}

func (r *keyRef) legacyFunc(st *State, d keyDef) []keyOut {
	k := r.k
	plain := func(s string) func(st *State) []keyOut {
		return func(st *State) []keyOut { return sends(st, strC(s)) }
	}
	csi := func(num int64, final byte) func(st *State) []keyOut {
		return func(st *State) []keyOut {
			return sends(st, strs(strC(fmt.Sprintf("\x1b[%d;", num)), strDec(st, k.modParam(st, false)), strC(string([]byte{final}))))
		}
	}
	mods := k.anyMod(kmShift, kmMeta)
	switch d.legacy {
	case 'c':
		return r.on(st, mods, csi(1, d.final), func(st *State) []keyOut {
			return r.on(st, k.app, plain("\x1bO"+string([]byte{d.final})), plain("\x1b["+string([]byte{d.final})))
		})
	case 's':
		if d.name == "KeyF3" {
			return r.on(st, mods, func(st *State) []keyOut {
				return sends(st, append(csi(1, 'R')(st)[0].alt, csi(13, '~')(st)[0].alt...)...)
			}, plain("\x1bOR"))
		}
		return r.on(st, mods, csi(1, d.final), plain("\x1bO"+string([]byte{d.final})))
	case '~':
		num := d.num
		if d.name == "KeyMenu" {
			num = 29
		}
		return r.on(st, mods, csi(num, '~'), plain(fmt.Sprintf("\x1b[%d~", num)))
	}
	return r.kitty(st, d, false, 0, linC(d.num))
}

// otherKeys wraps a legacy encoding in the rules for modifyOtherKeys and for modifiers that have
// no legacy encoding. With modifyOtherKeys 1 the keys that keep their usual bytes are xterm's
// choice, so both forms pass.
func (r *keyRef) otherKeys(st *State, code, shifted Lin, legacy func(st *State) []keyOut) []keyOut {
	k := r.k
	mok := func(st *State) []Str {
		form := func(l Lin) Str {
			return strs(strC("\x1b[27;"), strDec(st, k.modParam(st, false)), strC(";"), strDec(st, l), strC("~"))
		}
		out := []Str{form(code)}
		if !shifted.eq(code) {
			out = append(out, form(shifted))
		}
		return out
	}
	csiu := func(st *State) []keyOut {
		return sends(st, strs(strC("\x1b["), strDec(st, code), strC(";"), strDec(st, k.modParam(st, false)), strC("u")))
	}
	return r.on(st, k.anyMod(kmShift, kmMeta), func(st *State) []keyOut {
		return r.on(st, condGT(k.mok, Lin{}), func(st *State) []keyOut {
			return r.on(st, condGE(k.mok, linC(2)), func(st *State) []keyOut { return sends(st, mok(st)...) }, func(st *State) []keyOut {
				var outs []keyOut
				for _, o := range legacy(st) {
					outs = append(outs, keyOut{o.st, append(append([]Str{}, mok(o.st)...), o.alt...)})
				}
				return outs
			})
		}, func(st *State) []keyOut {
			return r.on(st, k.anyMod(kmSuper, kmMeta), csiu, func(st *State) []keyOut {
				// three modifiers at once, and Ctrl with Shift on text, are in no table: both forms pass
				all := condAll(k.bit(kmShift), k.bit(kmCtrl))
				var outs []keyOut
				for _, o := range legacy(st) {
					outs = append(outs, r.on(o.st, all, func(st *State) []keyOut {
						return []keyOut{{st, append(append([]Str{}, o.alt...), csiu(st)[0].alt...)}}
					}, func(st *State) []keyOut { return []keyOut{{st, o.alt}} })...)
				}
				return outs
			})
		})
	}, legacy)
}

func (r *keyRef) esc(st *State, f func(st *State, pre string) []keyOut) []keyOut {
	return r.on(st, r.k.bit(kmAlt), func(st *State) []keyOut { return f(st, "\x1b") }, func(st *State) []keyOut { return f(st, "") })
}

func (r *keyRef) legacyC0(st *State, d keyDef) []keyOut {
	k := r.k
	base := func(st *State) []keyOut {
		return r.esc(st, func(st *State, pre string) []keyOut {
			lit := func(s string) func(st *State) []keyOut {
				return func(st *State) []keyOut { return sends(st, strC(pre+s)) }
			}
			switch d.name {
			case "KeyBackspace":
				return r.on(st, k.bit(kmCtrl), lit("\x08"), lit("\x7f"))
			case "KeyTab":
				return r.on(st, k.bit(kmShift), lit("\x1b[Z"), lit("\t"))
			case "KeyEnter":
				return lit("\r")(st)
			}
			return lit("\x1b")(st)
		})
	}
	outs := r.otherKeys(st, linC(d.num), linC(d.num), base)
	if d.name == "KeyTab" { // modifyOtherKeys may leave Shift+Tab alone
		var more []keyOut
		for _, o := range outs {
			more = append(more, r.on(o.st, condAll(k.bit(kmShift), k.anyMod(kmAlt, kmMeta).not()), func(st *State) []keyOut {
				return []keyOut{{st, append(append([]Str{}, o.alt...), strC("\x1b[Z"))}}
			}, func(st *State) []keyOut { return []keyOut{{st, o.alt}} })...)
		}
		outs = more
	}
	return outs
}

// ctrlMap is the byte of Ctrl and a character, from the ctrl_mapping table.
var ctrlMap = map[rune]byte{' ': 0, '/': 31, '2': 0, '3': 27, '4': 28, '5': 29, '6': 30, '7': 31, '8': 127, '?': 127, '@': 0, '[': 27, '\\': 28, ']': 29, '^': 30, '_': 31, '~': 30}

func (r *keyRef) legacyText(st *State) []keyOut {
	k := r.k
	shifted := condAll(k.bit(kmShift), condGT(k.shifted, Lin{}))
	base := func(st *State) []keyOut {
		return r.esc(st, func(st *State, pre string) []keyOut {
			plain := func(st *State) []keyOut {
				return r.on(st, shifted, func(st *State) []keyOut {
					return r.on(st, k.bit(kmCtrl), func(st *State) []keyOut {
						return sends(st, strs(strC(pre), runeStr(k.shifted)), strs(strC(pre), runeStr(k.rune)))
					}, func(st *State) []keyOut { return sends(st, strs(strC(pre), runeStr(k.shifted))) })
				}, func(st *State) []keyOut { return sends(st, strs(strC(pre), runeStr(k.rune))) })
			}
			at := func(b Lin) func(st *State) []keyOut {
				return func(st *State) []keyOut { return sends(st, strs(strC(pre), strB(b))) }
			}
			return r.on(st, k.bit(kmCtrl), func(st *State) []keyOut {
				next := plain
				for c := rune(0x7e); c >= 0x20; c-- {
					b, ok := ctrlMap[c]
					if !ok {
						continue
					}
					c, n := c, next
					next = func(st *State) []keyOut { return r.on(st, condEQ(k.rune, linC(int64(c))), at(linC(int64(b))), n) }
				}
				for _, lo := range []int64{'a', 'A'} {
					lo, n := lo, next
					next = func(st *State) []keyOut {
						return r.on(st, condAll(condGE(k.rune, linC(lo)), condLE(k.rune, linC(lo+25))), at(k.rune.plus(1-lo)), n)
					}
				}
				return next(st)
			}, plain)
		})
	}
	return r.otherKeys(st, k.rune, k.shifted, base)
}

// keyScenarios: every key, flag set and event; the modifiers, modifyOtherKeys, the application
// cursor mode, the character and the alternates stay symbolic.
func keyScenarios() []*scenario {
	var out []*scenario
	table := keyTable()
	byName := map[string]keyDef{}
	for _, d := range table {
		byName[d.name] = d
	}
	for _, d := range table {
		for flags := int64(0); flags < 32; flags++ {
			for event := int64(0); event <= 3; event++ {
				type variant struct {
					name   string
					lo, hi int64
					text   int
				}
				vs := []variant{{}}
				if d.legacy == 't' {
					vs = []variant{{"ASCII", 0x20, 0x7e, 0}, {"BMP", 0xa0, 0xd7ff, 0}, {"beyond", 0xe000, 0x10ffff, 0}}
					if flags&kfText != 0 && event < 2 {
						vs = append(vs, variant{"ASCII with one character of text", 0x20, 0x7e, 1}, variant{"ASCII with two characters of text", 0x20, 0x7e, 2})
					}
				} else if flags&kfText != 0 && event == 1 {
					vs = append(vs, variant{name: "with text", text: 1})
				}
				for _, v := range vs {
					out = append(out, keyScenario(d, byName, flags, event, v.name, v.lo, v.hi, v.text))
				}
			}
		}
	}
	return out
}

func keyScenario(d keyDef, byName map[string]keyDef, flags, event int64, vname string, lo, hi int64, ntext int) *scenario {
	name := fmt.Sprintf("%s flags %d event %d", d.name, flags, event)
	if vname != "" {
		name += " " + vname
	}
	sc := &scenario{name: name, class: "key", noAlt: d.name != "KeyUp" && d.name != "KeyRune"}
	sc.run = func(w *World, in *Init) []Outcome {
		st := in.st
		act := 0
		if in.alt {
			act = 1
		}
		st.addEQ(in.kf[act].plus(-flags))
		st.addGE(linC(2).sub(in.mok))
		k := &keyEv{flags: flags, event: event, mok: in.mok, keys: byName}
		in.data = k
		mods := Lin{}
		for i, n := range []string{"shift", "alt", "ctrl", "super", "hyper", "meta", "caps_lock", "num_lock"} {
			s := w.e.newSym(n)
			w.e.syms[s].width = 1
			st.pushCon(linS(s))
			st.pushCon(linC(1).sub(linS(s)))
			k.mods[i] = linS(s)
			mods = mods.add(linS(s).scale(1 << uint(i)))
		}
		k.app = in.view["viewFlags"][w.e.constOf("VFAppCursorKeys")].(Bool)
		ranged := func(name string, lo, hi int64) Lin {
			l := w.sym(name)
			st.pushCon(l.plus(-lo))
			st.pushCon(linC(hi).sub(l))
			return l
		}
		if d.legacy == 't' {
			k.rune = ranged("character", lo, hi)
		}
		k.shifted, k.base = ranged("shifted", 0, 0xd7ff), ranged("base layout key", 0, 0xd7ff)
		for i := 0; i < ntext; i++ {
			k.text = append(k.text, ranged(fmt.Sprintf("text%d", i), 1, 0xd7ff))
		}
		kt := w.e.typeNamed("KeyEvent")
		zero := w.e.zero(kt).(Struct)
		f := append([]Value{}, zero.f...)
		set := func(field string, v Value) { f[mustField(kt, field)] = v }
		set("Code", Int{linC(w.e.constOf(d.name))})
		set("Rune", Int{k.rune})
		set("Mod", Int{mods})
		set("Event", Int{linC(event)})
		set("Shifted", Int{k.shifted})
		set("BaseLayout", Int{k.base})
		if ntext > 0 {
			id := w.e.newObjID()
			els := make([]Value, ntext)
			for i := range els {
				els[i] = Int{k.text[i]}
			}
			st.setObj(&Object{id: id, name: "Text", val: Arr{els}})
			set("Text", Slice{obj: id, len: linC(int64(ntext)), cap: linC(int64(ntext))})
		}
		return w.method(in, "SendKey", Struct{f})
	}
	sc.spec = func(x *Exp) []*Exp {
		var outs []*Exp
		for _, o := range (&keyRef{x.w, x.in.data.(*keyEv)}).encode(x.st, d) {
			y := x.clone(o.st)
			if o.alt == nil {
				y.skip = map[string]bool{"out": true}
			} else {
				y.out, y.outAlts = o.alt[0], o.alt[1:]
			}
			outs = append(outs, y)
		}
		return outs
	}
	return sc
}
