package core

import (
	"fmt"
	"os"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"vharness/vsync"
)

// T is the running test, needed by synctest.
var T *testing.T

// InBubble runs f in a synctest bubble. Goroutines that never end are reported as a panic by synctest, which is
// expected after a hang or a leak that f has already recorded.
func InBubble(w *World, f func()) { inBubbleSched(w, func(*vsync.Sched) { f() }) }

func inBubbleSched(w *World, f func(*vsync.Sched)) *vsync.Sched {
	unit = time.Millisecond
	if w != nil {
		unit = w.P.Unit
	}
	s := vsync.NewSched()
	vsync.Install(s)
	defer vsync.Install(nil)
	defer func() {
		if x := recover(); x != nil {
			if h, ok := x.(harnessErr); ok {
				fmt.Fprintln(os.Stderr, "HARNESS ERROR:", h.s)
				os.Exit(3)
			}
			msg := fmt.Sprint(x)
			if strings.Contains(msg, "deadlock") {
				if w != nil && !w.Dead && !w.leakReported() {
					w.Add(Ev{"op": "same", "same": false, "about": []string{"C18"}, "what": "blocked goroutines remain after Close"})
				}
				return
			}
			panic(x)
		}
	}()
	synctest.Test(T, func(t *testing.T) { f(s) })
	return s
}

func (w *World) leakReported() bool {
	for _, e := range w.Tr.Ev {
		if e["op"] == "same" && e["same"] == false {
			return true
		}
	}
	return false
}
