package main

import (
	"fmt"
	"os"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Developer aid: VERIF_DEBUG_COV=file appends the basic blocks of the target that were analysed.
var (
	covering = debugEnv("COV")
	covered  sync.Map
)

func writeCover() {
	if !covering {
		return
	}
	f, err := os.OpenFile(os.Getenv("VERIF_DEBUG_COV"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return
	}
	defer f.Close()
	covered.Range(func(k, _ any) bool {
		b := k.(*ssa.BasicBlock)
		fmt.Fprintf(f, "%s %d\n", b.Parent().String(), b.Index)
		return true
	})
}

// listBlocks prints every basic block of the target's own functions with a position.
func listBlocks(t *Target) {
	seen := map[*ssa.Function]bool{}
	var list func(fn *ssa.Function)
	list = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			pos, what := "", ""
			for _, in := range b.Instrs {
				if p := in.Pos(); p.IsValid() && pos == "" {
					q := fn.Prog.Fset.Position(p)
					pos = fmt.Sprintf("%s:%d", q.Filename, q.Line)
				}
				what = in.String()
			}
			fmt.Printf("%s %d\t%s\t%s\n", fn.String(), b.Index, pos, what)
		}
		for _, a := range fn.AnonFuncs {
			list(a)
		}
	}
	for _, fn := range t.Funcs {
		list(fn)
	}
}
