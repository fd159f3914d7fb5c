// Package vsyncq replaces package sync inside the bolt library: its locks block under the scheduler of vsync like
// those of vsync, but taking a free one is no scheduling point. Yield is called where a transaction begins.
package vsyncq

import (
	"sync"

	"vharness/vsync"
)

type (
	Locker    = sync.Locker
	Once      = vsync.QOnce
	Pool      = sync.Pool
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Mutex     = vsync.QMutex
	RWMutex   = vsync.QRWMutex
)

func Yield(label string) { vsync.YieldCurrent(label) }
