package core

import (
	"context"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"vharness/vsync"
)

// Script is one concurrent situation: a sequential beginning, threads that run at the same time, instants to which
// the clock may move while they run.
type Script struct {
	P       Params
	Pre     []Op
	Threads [][]Op
	Ticks   []int64
	Keys    []string // keys asked for at the end
	Base    int      // what a new provider holds; -1: not measured
	Pile    bool     // all sessions were dead and are stumbled upon: nothing may be left
}

// chooser decides which of n enabled steps goes next.
type chooser interface {
	choose(n int, names []string) int
}

// dfs walks through all schedules in order.
type dfs struct {
	path  []int // choice at every depth
	width []int
	depth int
}

func (d *dfs) choose(n int, _ []string) int {
	if d.depth == len(d.path) {
		d.path = append(d.path, 0)
		d.width = append(d.width, n)
	}
	c := d.path[d.depth]
	d.width[d.depth] = n
	if c >= n {
		c = n - 1
	}
	d.depth++
	return c
}

// next moves on to the next schedule; false when there is none.
func (d *dfs) next() bool {
	d.path, d.width = d.path[:d.depth], d.width[:d.depth]
	for i := len(d.path) - 1; i >= 0; i-- {
		if d.path[i]+1 < d.width[i] {
			d.path[i]++
			d.path, d.width = d.path[:i+1], d.width[:i+1]
			d.depth = 0
			return true
		}
	}
	return false
}

type uniform struct{ r *rand.Rand }

func (u uniform) choose(n int, _ []string) int { return u.r.Intn(n) }

// pct gives every goroutine a random priority and lowers it at a few random moments.
type pct struct {
	r    *rand.Rand
	prio map[string]int
	step int
	at   map[int]bool
	low  int
}

func newPct(r *rand.Rand, depth, length int) *pct {
	p := &pct{r: r, prio: map[string]int{}, at: map[int]bool{}}
	for i := 0; i < depth; i++ {
		p.at[r.Intn(length)] = true
	}
	return p
}
func (p *pct) choose(n int, names []string) int {
	best := -1
	for i, x := range names {
		if _, ok := p.prio[x]; !ok {
			p.prio[x] = 1000 + p.r.Intn(1000000)
		}
		if best < 0 || p.prio[x] > p.prio[names[best]] {
			best = i
		}
	}
	if p.at[p.step] {
		p.low--
		p.prio[names[best]] = p.low
	}
	p.step++
	return best
}

// runner executes one schedule of a script.
type runner struct {
	w    *World
	mu   sync.Mutex
	hist []Ev
	open map[int]Ev
	q    int
}

func (h *runner) inv(o Op) int {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.q++
	e := h.w.Event(o, &Result{Res: "none"})
	e["res"] = "none"
	h.hist = append(h.hist, Ev{"op": "inv", "q": h.q, "e": e})
	h.open[h.q] = e
	return h.q
}
func (h *runner) ret(q int, o Op, r *Result) {
	h.mu.Lock()
	defer h.mu.Unlock()
	e := h.open[q]
	for k, v := range h.w.Event(o, r) {
		e[k] = v
	}
	delete(h.open, q)
	h.hist = append(h.hist, Ev{"op": "ret", "q": q})
}

const maxSteps = 4000

// RunSchedule executes the script once. ok = false: the schedule was cut off.
func RunSchedule(name string, s *Script, ch chooser, seed int64) (tr *Trace, steps int, ok bool) {
	w := NewWorld(name, s.P, seed)
	ok = true
	sc := inBubbleSched(w, func(sc *vsync.Sched) {
		w.Open()
		for _, o := range s.Pre {
			w.Do(o)
		}
		if w.Dead {
			return
		}
		h := &runner{w: w, open: map[int]Ev{}}
		synctest.Wait()
		sc.SetControlled(true)
		if w.FR != nil {
			w.FR.Gate = func(l string) { sc.Yield(l) }
		}
		left := len(s.Threads)
		for i, ops := range s.Threads {
			i, ops := i, ops
			go func() {
				sc.Name(fmt.Sprintf("t%d", i))
				for _, o := range ops {
					sc.Yield("call " + o.Op)
					q := h.inv(o)
					r := w.Call(context.Background(), o)
					h.ret(q, o, r)
				}
				h.mu.Lock()
				left--
				h.mu.Unlock()
			}()
		}
		ticks := append([]int64(nil), s.Ticks...)
		waited := false
		for {
			synctest.Wait()
			en := sc.Enabled()
			h.mu.Lock()
			done := left == 0
			h.mu.Unlock()
			n := len(en)
			names := make([]string, n, n+1)
			for i, c := range en {
				names[i] = c.Name + ":" + c.Label
				if strings.HasPrefix(c.Name, "t") {
					names[i] = c.Name
				} else if strings.HasPrefix(c.Label, "redis") {
					names[i] = strings.SplitN(c.Label, ":", 2)[0]
				} else {
					names[i] = c.Name
				}
			}
			clock := len(ticks) > 0
			if clock {
				n++
				names = append(names, "clock")
			}
			if n == 0 {
				if done && sc.Pending() == 0 {
					break
				}
				if waited {
					break // stuck for ever
				}
				waited = true
				time.Sleep(1000 * time.Hour)
				h.mu.Lock()
				h.hist = append(h.hist, w.tickEv())
				h.mu.Unlock()
				continue
			}
			steps++
			if steps > maxSteps {
				ok = false
				break
			}
			c := ch.choose(n, names)
			if c < len(en) {
				sc.Grant(en[c])
				continue
			}
			d := time.Duration(ticks[0])*time.Millisecond - time.Since(w.Start)
			ticks = ticks[1:]
			if d > 0 {
				time.Sleep(d)
				h.mu.Lock()
				h.hist = append(h.hist, w.tickEv())
				h.mu.Unlock()
			}
		}
		if w.FR != nil {
			w.FR.Gate = nil
		}
		sc.SetControlled(false)
		synctest.Wait()
		h.mu.Lock()
		stuck := left > 0 && ok
		if left > 0 && !stuck { // cut off: let them finish
			h.mu.Unlock()
			time.Sleep(time.Hour)
			synctest.Wait()
			h.mu.Lock()
		}
		if stuck {
			var qs []int
			for q := range h.open {
				qs = append(qs, q)
			}
			sort.Ints(qs)
			for _, q := range qs {
				h.open[q]["res"] = "hang"
				h.open[q]["info"] = ascii(hangInfo())
				h.hist = append(h.hist, Ev{"op": "ret", "q": q})
			}
			w.Dead = true
		}
		for _, e := range h.hist {
			w.Add(e)
			if e["op"] == "inv" && e["e"].(Ev)["res"] == "panic" {
				w.Dead = true
			}
		}
		h.mu.Unlock()
		if !ok {
			w.Dead = true
			return
		}
		// look at everything
		if !w.Dead {
			if s.Pile && s.Base >= 0 {
				w.foot(0, s.Base, 1, false)
			}
			toks := map[string]bool{}
			note := func(o Op) {
				for _, t := range []string{o.A, o.NA} {
					if t != "" {
						toks[t] = true
					}
				}
			}
			for _, o := range s.Pre {
				note(o)
			}
			for _, t := range s.Threads {
				for _, o := range t {
					note(o)
				}
			}
			for _, t := range sortedBool(toks) {
				for p := range w.Provs {
					if p > 0 && w.P.Kind == "redis" && !w.closed(p-1) {
						break
					}
					w.Do(Op{Op: "keys", P: p, A: t})
					w.Do(Op{Op: "get", P: p, A: t, Ks: s.Keys})
				}
			}
			if s.Base >= 0 && !w.Dead && !w.closed(0) && (len(w.Provs) < 2 || !w.closed(1)) {
				// let everything die, stumble on it, and see what is still held
				_, ref := Meaning(s.P.Opts)
				w.TickTo(w.NowMS() + 2*ref + 10)
				for _, t := range sortedBool(toks) {
					w.Do(Op{Op: "check", A: t})
				}
				w.foot(0, s.Base, 1, false)
			}
		}
		w.Finish()
	})
	_ = sc
	return w.Tr, steps, ok
}

func (w *World) closed(p int) bool {
	c := false
	for _, e := range w.Tr.Ev {
		x := e
		if e["op"] == "inv" {
			x = e["e"].(Ev)
		}
		if x["p"] == p+1 && x["op"] == "close" {
			c = true
		}
	}
	return c
}

func (w *World) tickEv() Ev {
	now := w.NowMS()
	if now > 1<<30 {
		now = 1 << 30
	}
	return Ev{"op": "tick", "now": now, "from": int64(w.ProvStart.Sub(w.Start) / time.Millisecond)}
}

func sortedBool(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Explore runs up to n schedules of the script and emits every different history once.
func Explore(name string, s *Script, r *rand.Rand, n int, emit func(*Trace)) {
	seen := map[[20]byte]bool{}
	s.Base = -1
	if !s.P.OwnFile {
		s.Base, _ = calibrate(s.P)
	}
	out := func(k int, tr *Trace, ok bool) {
		Stats.Schedules++
		if !ok {
			Stats.Cut++
			return
		}
		b, _ := json.Marshal(tr.Ev)
		h := sha1.Sum(b)
		if seen[h] {
			return
		}
		seen[h] = true
		tr.Name = fmt.Sprintf("%s.%d", name, k)
		emit(tr)
	}
	d := &dfs{}
	k := 0
	length := 20
	for ; k < (n+1)/2; k++ {
		tr, steps, ok := RunSchedule(name, s, d, 1)
		length = steps
		out(k, tr, ok)
		if !d.next() {
			Stats.Complete++
			return
		}
	}
	for ; k < n; k++ {
		var ch chooser = uniform{r}
		if k%2 == 0 {
			ch = newPct(r, 1+r.Intn(3), length+1)
		}
		tr, _, ok := RunSchedule(name, s, ch, 1)
		out(k, tr, ok)
	}
}

// Stats of a job.
var Stats struct {
	Schedules, Cut, Complete int
	Unknown                  []string
}
