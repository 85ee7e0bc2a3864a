package main

// Replacing the frontend: every notification of either screen and of the terminal goes to the one
// set last, and to no other.

// newFrontendScenarios are operations of each kind of notification, after SetFrontend.
func newFrontendScenarios() []*scenario {
	var out []*scenario
	n := map[string]int{}
	for _, set := range []func() []*scenario{modeScenarios, scrollScenarios, eraseScenarios, textScenarios, motionScenarios, sgrScenarios, kbdScenarios, unknownScenarios} {
		for i, sc := range set() {
			if sc.direct != nil {
				continue
			}
			if n[sc.class]++; n[sc.class] > 12 && i%9 != 0 {
				continue
			}
			c, prep := *sc, sc.prep
			c.name = "after SetFrontend: " + sc.name
			c.prep = func(w *World, in *Init) {
				if prep != nil {
					prep(w, in)
				}
				outs := w.e.call(in.st, w.e.mustFunc("(*terminal).SetFrontend"), []Value{Ptr{obj: w.term}, nativeIface("frontend", newFront)}, nil)
				in.st = single(outs, "SetFrontend")
				in.st.ghost["frontend"] = Int{linC(newFront)}
			}
			out = append(out, &c)
		}
	}
	return out
}

const newFront = 9
