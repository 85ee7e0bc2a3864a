package main

import (
	"runtime"
	"sync/atomic"
	"time"
)

// limit.go: an analysis that runs out of time or memory stops; the scenarios it did not finish
// are undecided and counted as given up.

const (
	maxRun  = 640 * time.Second
	maxHeap = 18 << 30
	// once a violation is certain the analysis goes on for this long to find more
	maxMore = 60 * time.Second
)

var outOfTime atomic.Bool

// failFast: a violation found now is one the report will show.
var (
	failFast atomic.Bool
	firstBad atomic.Int64
)

func foundOne() {
	if failFast.Load() {
		firstBad.CompareAndSwap(0, time.Now().UnixNano())
	}
}

func watch() {
	t0 := time.Now()
	go func() {
		for !outOfTime.Load() {
			time.Sleep(500 * time.Millisecond)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if b := firstBad.Load(); b != 0 && time.Now().UnixNano()-b > int64(maxMore) {
				outOfTime.Store(true)
			}
			if time.Since(t0) > maxRun || m.HeapAlloc > maxHeap {
				outOfTime.Store(true)
			}
		}
	}()
}

func inTime() {
	if outOfTime.Load() {
		panic(budgetErr{})
	}
}
