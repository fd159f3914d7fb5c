// Package vsync replaces package sync in an instrumented copy of the code under test.
// With no scheduler installed its locks are the real ones. With a scheduler installed every lock
// acquisition becomes a scheduling point: the goroutine parks on a channel until the scheduler, which
// runs in the root goroutine of a synctest bubble, lets it proceed.
package vsync

import (
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

type (
	Locker    = sync.Locker
	Pool      = sync.Pool
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Once is sync.Once, blocking under the scheduler.
type Once struct {
	m    Mutex
	done atomic.Uint32
}

func (o *Once) Do(f func()) {
	if o.done.Load() != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

// QOnce is Once without a scheduling point.
type QOnce struct {
	m    QMutex
	done atomic.Uint32
}

func (o *QOnce) Do(f func()) {
	if o.done.Load() != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done.Load() == 0 {
		defer o.done.Store(1)
		f()
	}
}

func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	o, v := new(Once), *new(T)
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o, v, u := new(Once), *new(T), *new(U)
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

var cur atomic.Pointer[Sched]

// Install makes s the scheduler of all locks used from now on (nil: none).
func Install(s *Sched) { cur.Store(s) }

type lockState struct {
	w bool
	r int
}

type request struct {
	lock  *lockState // nil: plain yield
	write bool
	label string
	name  string
	seq   int
	ch    chan struct{}
}

// Sched holds the parked goroutines.
type Sched struct {
	mu         sync.Mutex
	controlled bool
	pending    []*request
	seq        int
	names      map[int64]string
	Steps      int
}

func NewSched() *Sched { return &Sched{names: map[int64]string{}} }

// SetControlled(true): every acquisition waits for Grant. SetControlled(false): acquisitions proceed
// as soon as the lock is free, and everything grantable is released now.
func (s *Sched) SetControlled(on bool) {
	s.mu.Lock()
	s.controlled = on
	if !on {
		s.drain()
	}
	s.mu.Unlock()
}

// Name gives the calling goroutine a name used in labels.
func (s *Sched) Name(n string) {
	id := goid()
	s.mu.Lock()
	s.names[id] = n
	s.mu.Unlock()
}

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	if len(f) < 2 {
		return 0
	}
	id, _ := strconv.ParseInt(f[1], 10, 64)
	return id
}

func (r *request) grantable() bool {
	if r.lock == nil {
		return true
	}
	if r.write {
		return !r.lock.w && r.lock.r == 0
	}
	return !r.lock.w
}
func (r *request) take() {
	if r.lock != nil {
		if r.write {
			r.lock.w = true
		} else {
			r.lock.r++
		}
	}
	close(r.ch)
}
func (s *Sched) drain() {
	for again := true; again; {
		again = false
		for i, r := range s.pending {
			if r.grantable() {
				s.pending = append(s.pending[:i:i], s.pending[i+1:]...)
				r.take()
				again = true
				break
			}
		}
	}
}

func (s *Sched) acquire(l *lockState, write bool, label string) { s.acquire2(l, write, label, false) }

// quiet: a free lock is taken without a scheduling point.
func (s *Sched) acquire2(l *lockState, write bool, label string, quiet bool) {
	s.mu.Lock()
	r := &request{lock: l, write: write, label: label, ch: make(chan struct{})}
	if (quiet || !s.controlled) && r.grantable() {
		r.take()
		s.mu.Unlock()
		return
	}
	s.mu.Unlock()
	name := ""
	id := goid()
	s.mu.Lock()
	if n, ok := s.names[id]; ok {
		name = n
	} else {
		name = "bg:" + outer()
	}
	s.seq++
	r.seq, r.name = s.seq, name
	// The scheduler may have been released meanwhile.
	if !s.controlled && r.grantable() {
		r.take()
		s.mu.Unlock()
		return
	}
	s.pending = append(s.pending, r)
	s.mu.Unlock()
	<-r.ch
}

func outer() string {
	var pc [32]uintptr
	n := runtime.Callers(3, pc[:])
	fr := runtime.CallersFrames(pc[:n])
	last := ""
	for {
		f, more := fr.Next()
		if f.Function != "" && !strings.HasPrefix(f.Function, "runtime.") {
			last = f.Function
		}
		if !more {
			break
		}
	}
	if i := strings.LastIndex(last, "/"); i >= 0 {
		last = last[i+1:]
	}
	return last
}

func (s *Sched) release(l *lockState, write bool) {
	s.mu.Lock()
	if write {
		if !l.w {
			s.mu.Unlock()
			panic("vsync: unlock of unlocked lock")
		}
		l.w = false
	} else {
		if l.r == 0 {
			s.mu.Unlock()
			panic("vsync: RUnlock of unlocked lock")
		}
		l.r--
	}
	if !s.controlled {
		s.drain()
	}
	s.mu.Unlock()
}

// Yield is a scheduling point without a lock.
func (s *Sched) Yield(label string) { s.acquire(nil, false, label) }

// YieldCurrent yields to the installed scheduler, if any.
func YieldCurrent(label string) {
	if s := cur.Load(); s != nil {
		s.acquire(nil, false, label)
	}
}

// Choice is one runnable parked goroutine.
type Choice struct {
	Name, Label string
	r           *request
}

// Enabled lists the parked goroutines that could proceed, in a reproducible order.
func (s *Sched) Enabled() []Choice {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []Choice
	for _, r := range s.pending {
		if r.grantable() {
			out = append(out, Choice{r.name, r.label, r})
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].Name != out[j].Name {
			return out[i].Name < out[j].Name
		}
		if out[i].Label != out[j].Label {
			return out[i].Label < out[j].Label
		}
		return out[i].r.seq < out[j].r.seq
	})
	return out
}

// Pending is the number of parked goroutines, runnable or not.
func (s *Sched) Pending() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.pending) }

// Grant lets the goroutine of c proceed.
func (s *Sched) Grant(c Choice) {
	s.mu.Lock()
	for i, r := range s.pending {
		if r == c.r {
			s.pending = append(s.pending[:i:i], s.pending[i+1:]...)
			s.Steps++
			r.take()
			break
		}
	}
	s.mu.Unlock()
}

// Mutex is sync.Mutex under the scheduler.
type Mutex struct {
	real sync.Mutex
	st   lockState
}

func (m *Mutex) Lock() {
	if s := cur.Load(); s != nil {
		s.acquire(&m.st, true, "lock")
		return
	}
	m.real.Lock()
}
func (m *Mutex) Unlock() {
	if s := cur.Load(); s != nil {
		s.release(&m.st, true)
		return
	}
	m.real.Unlock()
}
func (m *Mutex) TryLock() bool {
	if s := cur.Load(); s != nil {
		s.acquire(nil, false, "trylock")
		s.mu.Lock()
		defer s.mu.Unlock()
		if m.st.w {
			return false
		}
		m.st.w = true
		return true
	}
	return m.real.TryLock()
}

// RWMutex is sync.RWMutex under the scheduler.
type RWMutex struct {
	real sync.RWMutex
	st   lockState
}

func (m *RWMutex) Lock() {
	if s := cur.Load(); s != nil {
		s.acquire(&m.st, true, "lock")
		return
	}
	m.real.Lock()
}
func (m *RWMutex) Unlock() {
	if s := cur.Load(); s != nil {
		s.release(&m.st, true)
		return
	}
	m.real.Unlock()
}
func (m *RWMutex) RLock() {
	if s := cur.Load(); s != nil {
		s.acquire(&m.st, false, "rlock")
		return
	}
	m.real.RLock()
}
func (m *RWMutex) RUnlock() {
	if s := cur.Load(); s != nil {
		s.release(&m.st, false)
		return
	}
	m.real.RUnlock()
}
func (m *RWMutex) TryLock() bool {
	if s := cur.Load(); s != nil {
		s.acquire(nil, false, "trylock")
		s.mu.Lock()
		defer s.mu.Unlock()
		if m.st.w || m.st.r != 0 {
			return false
		}
		m.st.w = true
		return true
	}
	return m.real.TryLock()
}
func (m *RWMutex) TryRLock() bool {
	if s := cur.Load(); s != nil {
		s.acquire(nil, false, "tryrlock")
		s.mu.Lock()
		defer s.mu.Unlock()
		if m.st.w {
			return false
		}
		m.st.r++
		return true
	}
	return m.real.TryRLock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// QMutex and QRWMutex block under the scheduler, but taking them free is no scheduling point.
type QMutex struct {
	real sync.Mutex
	st   lockState
}

func (m *QMutex) Lock() {
	if s := cur.Load(); s != nil {
		s.acquire2(&m.st, true, "qlock", true)
		return
	}
	m.real.Lock()
}
func (m *QMutex) Unlock() {
	if s := cur.Load(); s != nil {
		s.release(&m.st, true)
		return
	}
	m.real.Unlock()
}

type QRWMutex struct {
	real sync.RWMutex
	st   lockState
}

func (m *QRWMutex) Lock() {
	if s := cur.Load(); s != nil {
		s.acquire2(&m.st, true, "qlock", true)
		return
	}
	m.real.Lock()
}
func (m *QRWMutex) Unlock() {
	if s := cur.Load(); s != nil {
		s.release(&m.st, true)
		return
	}
	m.real.Unlock()
}
func (m *QRWMutex) RLock() {
	if s := cur.Load(); s != nil {
		s.acquire2(&m.st, false, "qrlock", true)
		return
	}
	m.real.RLock()
}
func (m *QRWMutex) RUnlock() {
	if s := cur.Load(); s != nil {
		s.release(&m.st, false)
		return
	}
	m.real.RUnlock()
}
