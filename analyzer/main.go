package main

import (
	"fmt"
	"os"
	"runtime/debug"
)

type check struct {
	run func(t *Target, r *Report)
}

var checks = map[string]check{}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: analyzer <property>")
		os.Exit(2)
	}
	prop := os.Args[1]
	if prop == "blocks" {
		if t, err := loadTarget(); err == nil {
			listBlocks(t)
		}
		return
	}
	if prop == "anchors" {
		if t, err := loadTarget(); err == nil {
			writeAnchors(t)
		}
		return
	}
	c, ok := checks[prop]
	if !ok {
		fmt.Println("no check for", prop)
		os.Exit(2)
	}
	code := runCheck(prop, c)
	writeCover()
	os.Exit(code)
}

func runCheck(prop string, c check) (code int) {
	r := newReport(prop)
	watch()
	t, err := loadTarget()
	if err != nil {
		r.violate("load", "the package does not load or type-check: "+err.Error())
		return r.finish()
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.undecided(fmt.Sprintf("the analysis did not reach a verdict: %v", p))
				if debugEnv("STACK") {
					fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
				}
			}
		}()
		c.run(t, r)
	}()
	return r.finish()
}

// debugEnv turns on developer output; checks never depend on it.
func debugEnv(name string) bool { return os.Getenv("VERIF_DEBUG_"+name) != "" }

// thorough selects the full set of row shapes.
func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }
