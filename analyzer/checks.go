package main

// checks.go registers the checks decided by the specification scenarios: which groups of
// scenarios a property covers and which aspects of their outcome it compares.

var commonRules = []string{
	"The package is loaded and type-checked from /repo's working tree and its SSA is interpreted abstractly: every transfer function works on affine relations between symbolic integers (screen size, cursor, margins, parameters, widths), bit provenance, symbolic strings and rows of symbolic cells; paths are partitioned, loops are summarised inductively, nothing is executed.",
	"Each scenario starts from an arbitrary well-formed state (any size of at least 1x1, any cursor, margins, saved cursor, style, modes and content satisfying the data invariant), feeds one control function or text run with symbolic parameters, and states the required outcome; an obligation is one comparison of one aspect on one path.",
	"An obligation fails only on a feasible path with an integer witness and no lost precision; anything the domains cannot decide is counted as undecided and not reported.",
}

var commonAssumptions = []string{
	"The state before each operation satisfies the data invariant of C02 (every scenario re-establishes it for the state after).",
	"Frontend and backend callbacks return normally and do not modify the terminal; allocation succeeds; the debug flags are off.",
	"rune widths come from uniseg/go-runewidth and are 1 or 2 for a printable cluster, 0 for a combining one.",
	"In the scenarios of whole control functions replaceRange is used through its contract (columns [x,x+n) of the row become the given content; a wide character cut by the edit becomes a blank on its surviving half). The contract itself is decided by the row scenarios, which analyse the real body on rows of up to three spans (blank, ASCII, narrow, mixed, wide) of symbolic width, any column range and any insert; rows of more spans rest on the body treating spans one at a time.",
}

type scnCheck struct {
	sets    []func() []*scenario
	aspects []string
	names   map[string]bool // of the motion class: only these
	rules   []string
	cfg     func(w *World)
	extra   func(t *Target, r *Report)
}

var baseSets = []func() []*scenario{motionScenarios, eraseScenarios, scrollScenarios}

func allSets() []func() []*scenario {
	return append(append([]func() []*scenario{}, baseSets...), modeScenarios, queryScenarios, kbdScenarios, textScenarios, sgrScenarios)
}

func (c scnCheck) run(t *Target, r *Report) {
	r.Rules = append(append(r.Rules, c.rules...), commonRules...)
	r.Assumptions = append(r.Assumptions, commonAssumptions...)
	var scs []*scenario
	for _, f := range c.sets {
		for _, s := range f() {
			if c.names == nil || s.class != "motion" || c.names[s.name] {
				scs = append(scs, s)
			}
		}
	}
	runScenarios(t, r, scs, aspectSet(c.aspects...), c.cfg)
	if c.extra != nil {
		c.extra(t, r)
	}
}

var indexNames = map[string]bool{"LF": true, "FF": true, "IND": true, "RI": true}

func wide(w *World) { w.e.wideCuts = true }

func also(set func() []*scenario, aspects ...string) func(*Target, *Report) {
	return func(t *Target, r *Report) { runScenarios(t, r, set(), aspectSet(aspects...), nil) }
}

func both(fs ...func(*Target, *Report)) func(*Target, *Report) {
	return func(t *Target, r *Report) {
		for _, f := range fs {
			f(t, r)
		}
	}
}

func init() {
	reg := func(id string, c scnCheck) { checks[id] = check{run: c.run} }
	reg("C01", scnCheck{sets: append(allSets(), unknownScenarios, garbageScenarios), aspects: []string{"panic"}, cfg: wide, extra: both(also(resizeScenarios, "panic"), also(everyRow, "panic"), also(wholeRows, "panic"), also(readerScenarios, "panic"), also(accessScenarios, "panic"), also(gridSlices, "panic"), also(renderScenarios, "panic"), also(gridRenders, "panic")),
		rules: []string{"No control function or text run, with any parameters, from any well-formed state, reaches a panic (index, slice, nil, conversion, explicit).", "Size, Line, StyledLine, StyledLines and ANSILine of any row do not panic."}})
	reg("C02", scnCheck{sets: append(allSets(), garbageScenarios), aspects: []string{"shape", "alias"}, cfg: wide, extra: both(also(resizeScenarios, "shape", "alias"), also(allRows, "shape"), also(wholeRows, "shape"), also(sliceScenarios, "content"), also(renderScenarios, "content"), also(accessScenarios, "content"), also(gridSlices, "content")),
		rules: []string{"After every operation both buffers are H rows of exactly W columns, cursor, saved cursor and margins lie inside the screen with top <= bottom; no two rows share storage.", "Line(y), StyledLine(x, w, y), StyledLines and ANSILine(y) each describe the row: its text, its spans cell by cell, and a rendering that interprets to it."}})
	reg("C03", scnCheck{sets: []func() []*scenario{textScenarios}, aspects: []string{"cursor", "content", "margins", "style", "saved", "wrap", "size", "alt", "alias"}, extra: both(also(textRows, "content"), also(writeRows, "content"), also(readerScenarios, "stream")),
		rules: []string{"A run of printable characters is stored from the cursor on with the current attributes, advances the cursor by its widths, wraps or pins at the right edge and changes no other cell.", "The reader takes characters apart as the mode defines: one per rune, or one per grapheme cluster with fragments (marks, joiners, selectors, the second of two regional indicators) merged into the character before them."}})
	reg("C04", scnCheck{sets: []func() []*scenario{motionScenarios}, aspects: []string{"cursor", "saved", "content", "margins"},
		rules: []string{"Each cursor-motion control moves the cursor exactly as defined for every parameter and state and leaves content alone, except that an index across a margin scrolls the region by one row."}})
	reg("C05", scnCheck{sets: []func() []*scenario{eraseScenarios}, aspects: []string{"content", "cursor", "margins", "saved", "style", "alias"}, extra: both(also(eraseRows, "content"), also(opRows, "content")),
		rules: []string{"ED, EL, ECH and DCH blank (or shift) exactly the addressed cells with spaces in the current attributes; every other cell keeps its content."}})
	reg("C06", scnCheck{sets: []func() []*scenario{scrollScenarios, motionScenarios, textScenarios}, aspects: []string{"content", "margins", "cursor", "alias"}, names: indexNames,
		rules: []string{"SU, SD, IL, DL, DECSTBM and the implicit scroll of LF/IND/RI move whole rows inside the region by min(count, height) and blank the vacated rows; all other rows are unchanged."}})
	reg("C07", scnCheck{sets: []func() []*scenario{sgrScenarios, textScenarios, eraseScenarios, scrollScenarios}, aspects: []string{"style", "content", "told", "events"}, extra: both(styleLaws, also(allRows, "content")),
		rules: []string{"The rendition after an SGR sequence is the left-to-right fold of its parameters from any earlier rendition, and is reported; every cell written or blanked carries the rendition in force.", "For an arbitrary style: each setter changes only its mode or colour as TestMode/GetColor report it, is idempotent, the last colour wins, different colour kinds and values give different styles, ResetAll is the default style."}})
	reg("C08", scnCheck{sets: []func() []*scenario{readerScenarios, mergeScenarios}, aspects: []string{"stream", "error", "content"},
		extra: both(also(splitScenarios, "cursor", "saved", "size", "margins", "style", "wrap", "content", "kbd", "alt", "out", "modes", "told", "other"),
			also(unknownScenarios, "rest", "cursor", "saved", "size", "margins", "style", "wrap", "content", "kbd", "alt", "out", "modes", "told", "other")),
		rules: []string{
			"What the token reader returns is the stream, whatever reads deliver it: for every stream of the enumerated kinds of characters, any buffer state and any number of bytes per read, the returned text, its widths and merging are those of the stream; in grapheme mode reads do not end inside a cluster.",
			"Where the reads end a text run makes no difference: text delivered in two runs, cut anywhere, has exactly the effect specified for the whole text (same specification as C03), with and without autowrap, beyond and around the right edge, for plain text of any length and characters of width 1 and 2; combining characters delivered one by one are stored as if delivered together.",
			"A control sequence is taken from the reader byte by byte to its end however much of it has arrived: the number of bytes buffered is unconstrained, and every effect is the specified one for all its values.",
		}})
	reg("C09", scnCheck{sets: []func() []*scenario{unknownScenarios}, aspects: []string{"rest", "cursor", "saved", "size", "margins", "style", "wrap", "content", "kbd", "alt", "out", "modes", "told", "other"},
		rules: []string{"For every CSI prefix, final byte and parameter form, every combination of intermediates, every ESC sequence, OSC and DCS with arbitrary payload bytes: exactly the bytes of the sequence are taken from the input, an unrecognised function changes no state, and OSC 0/2/6/7 set and report exactly the payload."}})
	reg("C10", scnCheck{sets: allSets(), aspects: []string{"events", "told"}, cfg: wide, extra: both(also(resizeScenarios, "events", "told"), also(newFrontendScenarios, "events", "told"), also(allRows, "range"), also(wholeRows, "range")),
		rules: []string{"Replaying the emitted notifications on a copy of the screen (refreshing only announced cells, shifting nothing) yields the screen after the operation; the last cursor, style and view notification equals the value in force; rows leaving the main screen at the top are announced with ScrollLines first."}})
	reg("C11", scnCheck{sets: []func() []*scenario{styleScenarios, fromScenarios, renderScenarios, gridRenders, mirrorScenarios}, aspects: []string{"style", "content", "cursor", "out", "panic"},
		extra: also(sliceScenarios, "content", "panic"),
		rules: []string{
			"Interpreted by the parser under any earlier style, what Style.ANSIEscape renders for a style is that style: default, bright, all indexed and all RGB colours of foreground and background, with sets of modes.",
			"ANSILine(y), interpreted cell by cell, is row y: for rows of up to three spans of any widths, styles and contents (span buffer) and for every layout of small rows (grid buffer), whatever the style in force unless every row ends in the default style.",
			"TTYFrontend, driven through its public methods over any inner terminal: a model of the outer terminal interpreting its output is painted only inside the attached region, each cell with what is at the same place inside, every changed cell is painted, wrapping is off where it matters, the cursor ends where the inner one is or hidden; a detached frontend writes nothing but a show-cursor.",
			"StyledLine, which the mirror paints from, is the addressed part of the row.",
		}})
	reg("C12", scnCheck{sets: []func() []*scenario{keyScenarios}, aspects: []string{"out", "panic"},
		rules: []string{"For each of the 112 key codes, each of the 32 enhancement-flag sets and each event type, with the eight modifiers, modifyOtherKeys 0..2, the application cursor mode, the character (any scalar value that is not a control code), its shifted and base-layout alternates and its text symbolic: SendKey writes exactly the bytes of a reference encoder written from keyboard-protocol.rst's tables (Kitty form under the flags, the legacy and modifyOtherKeys forms otherwise, nothing for a release that is not reported).", "Where the documents leave a choice (modifyOtherKeys 1, F3 with modifiers, Ctrl+Shift outside the tables, lock keys without report-all-keys) every documented form passes."}})
	reg("C13", scnCheck{sets: []func() []*scenario{mouseScenarios}, aspects: []string{"out", "result", "panic", "modes", "cursor", "content", "kbd"},
		rules: []string{"For every tracking mode, encoding, button, press/release and flag set and every coordinate of at least 1, SendMouseRaw writes exactly the one report the event defines (X10 bytes clamped at 255, UTF-8 runes, SGR decimal), or nothing when the mode excludes it, and returns the error of a failing backend.", "The selection of mode and encoding by the application (CSI ? 9/1000/1002/1003/1005/1006/1015 h/l) is decided by the mode scenarios."}, extra: func(t *Target, r *Report) {
			runScenarios(t, r, modeScenarios(), aspectSet("modes"), nil)
		}})
	reg("C14", scnCheck{sets: append(allSets(), unknownScenarios), aspects: []string{"out"},
		rules: []string{"The bytes written to the backend by each operation are exactly its reply (DA1, DA2, DSR 5, DSR 6, CSI ? u) or nothing."}})
	reg("C16", scnCheck{sets: []func() []*scenario{readerScenarios, faultScenarios, ioScenarios}, aspects: []string{"stream", "error", "panic", "result"}, extra: also(resizeScenarios, "result"),
		rules: []string{
			"For every stream of up to the listed number of characters and control bytes (each character any of its kind), every buffer state of the token reader (any capacity, start and fill), every way the source splits the stream into reads (any number of bytes each, including none) and a failure at any of the first reads, with or without data: the bytes the reader's methods return are exactly the stream, in order, each once; the source's error is reported, after all the data, and only then.",
			"The read loop steps one reader, over the terminal's backend, until a step reports an error and no further; a terminal starts one read loop. Input that ends inside a control sequence ends the loop.",
			"Terminal.Write of any slice to a backend that takes any part of it, or fails: each call gets exactly the bytes not yet written; without an error everything was written, otherwise the count is the number of bytes taken.",
			"TeeBackend copies exactly the bytes read, once, whatever the tee does; the backends forward arguments and results unchanged; SetSize reports h rows and w columns; Resize forwards (w, h) once.",
		}})
	reg("C17", scnCheck{sets: allSets(), aspects: []string{"other", "alt", "modes", "told", "wrap"},
		rules: []string{"No operation changes the inactive buffer's content, cursor, saved cursor, margins, autowrap or keyboard flags; mode sets and resets are level-triggered and each is reported with the value in force."}})
	reg("C18", scnCheck{sets: []func() []*scenario{resizeScenarios}, aspects: []string{"cursor", "saved", "size", "margins", "style", "wrap", "content", "kbd", "alt", "out", "modes", "told", "shape", "alias", "result", "other", "panic"},
		extra: also(resizeRows, "content", "shape", "panic"),
		rules: []string{"Resize(w, h) with any positive w and h from any well-formed state: both buffers become h rows of exactly w columns, every cell of the overlap keeps its text and attributes, every other cell is a blank in the buffer's rendition, cursor and saved cursor are clamped into the screen, a full-screen region stays full-screen and any other is a valid region; nothing else changes, Size reports (w, h), and every later operation therefore starts from a well-formed state as its own scenarios assume."}})
	reg("C19", scnCheck{sets: allSets(), aspects: []string{"kbd"},
		rules: []string{"CSI = u, CSI > u, CSI < u and CSI ? u act on the active screen's keyboard flags and stack as the protocol's stack rules define; nothing else changes them."}})
}
