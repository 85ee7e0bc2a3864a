package main

import (
	"os"
	"strings"
)

func init() {
	all := []string{"cursor", "saved", "size", "margins", "style", "wrap", "content", "kbd", "alt", "out", "modes", "events", "told", "shape", "alias", "result", "rest", "other", "panic", "range", "stream", "error"}
	checks["probe"] = check{run: func(t *Target, r *Report) {
		scs := append(append(motionScenarios(), eraseScenarios()...), scrollScenarios()...)
		switch os.Getenv("SET") {
		case "oprow":
			scs = opRows()
		case "wrow":
			scs = append(writeRows(), resizeRows()...)
		case "front":
			scs = newFrontendScenarios()
		case "mode":
			scs = modeScenarios()
		case "query":
			scs = queryScenarios()
		case "kbd":
			scs = kbdScenarios()
		case "sgr":
			scs = sgrScenarios()
		case "unk":
			scs = unknownScenarios()
		case "garbage":
			scs = garbageScenarios()
		case "keys":
			scs = keyScenarios()
		case "resize":
			scs = resizeScenarios()
		case "merge":
			scs = mergeScenarios()
		case "slice":
			scs = sliceScenarios()
		case "row":
			scs = replaceScenarios()
		case "reader":
			scs = readerScenarios()
		case "split":
			scs = splitScenarios()
		case "io":
			scs = ioScenarios()
		case "fault":
			scs = faultScenarios()
		case "mouse":
			scs = mouseScenarios()
		case "grid":
			scs = gridScenarios(true)
		case "fspan":
			scs = gridScenarios(false)
		case "gslice":
			scs = gridSlices()
		case "access":
			scs = accessScenarios()
		case "style":
			scs = styleScenarios()
		case "render":
			scs = renderScenarios()
		case "mirror":
			scs = mirrorScenarios()
		case "grender":
			scs = gridRenders()
		case "from":
			scs = fromScenarios()
		case "text":
			scs = textScenarios()
		}
		if f := os.Getenv("FILTER"); f != "" {
			var keep []*scenario
			for _, s := range scs {
				if strings.Contains(s.name+s.label, f) {
					keep = append(keep, s)
				}
			}
			scs = keep
		}
		if a := os.Getenv("ASP"); a != "" {
			all = strings.Split(a, ",")
		}
		runScenarios(t, r, scs, aspectSet(all...), nil)
	}}
}
