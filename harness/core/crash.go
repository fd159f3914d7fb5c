package core

import (
	"context"
	"encoding/binary"
	"errors"
	"math/rand"
	"os"
	"sync"
	"testing/synctest"

	bolt "github.com/boltdb/bolt"
)

// disk records what bolt does to the database file.
type disk struct {
	mu   sync.Mutex
	path string
	on   bool
	snap []byte // what is certainly on the disk
	log  []wop  // what was done since
	mark int    // the first of it done since start
	fail int    // the n-th write from now on fails
	hit  bool
}

type wop struct {
	what byte
	b    []byte
	off  int64
}

func (d *disk) install() { bolt.VerifHook = d.event }
func (d *disk) remove()  { bolt.VerifHook = nil }

func (d *disk) event(path string, what byte, b []byte, off int64) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	if path != d.path {
		return nil
	}
	if d.fail > 0 && what == 'w' {
		d.fail--
		if d.fail == 0 {
			d.hit = true
			return errors.New("injected write error")
		}
	}
	if d.on {
		d.log = append(d.log, wop{what, append([]byte(nil), b...), off})
	}
	return nil
}

// begin takes the file as it is for what is on the disk and records from then on.
func (d *disk) begin() {
	b, _ := os.ReadFile(d.path)
	d.mu.Lock()
	d.snap, d.log, d.mark, d.on = b, nil, 0, true
	d.mu.Unlock()
}

// start forgets what is synced; what is not stays in the log.
func (d *disk) start() {
	d.mu.Lock()
	for i := len(d.log); i > 0; i-- {
		if d.log[i-1].what == 's' {
			d.snap = apply(d.snap, d.log[:i])
			d.log = append([]wop(nil), d.log[i:]...)
			break
		}
	}
	d.mark = len(d.log)
	d.mu.Unlock()
}

// stop says how many steps there were since start.
func (d *disk) stop() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.log) - d.mark
}

func apply(img []byte, log []wop) []byte {
	img = append([]byte(nil), img...)
	for _, o := range log {
		switch o.what {
		case 't':
			if int64(len(img)) > o.off {
				img = img[:o.off]
			} else {
				img = append(img, make([]byte, int(o.off)-len(img))...)
			}
		case 'w':
			if n := int(o.off) + len(o.b); n > len(img) {
				img = append(img, make([]byte, n-len(img))...)
			}
			copy(img[o.off:], o.b)
		}
	}
	return img
}

// image is the file as the first k steps since start leave it. With lossy, writes since the last sync may be missing:
// the machine went down, not only the process.
func (d *disk) image(k int, lossy bool, r *rand.Rand) []byte {
	log := d.log[:d.mark+k]
	if lossy {
		synced := -1
		for i, o := range log {
			if o.what == 's' || o.what == 't' {
				synced = i
			}
		}
		l := append([]wop(nil), log[:synced+1]...)
		for _, o := range log[synced+1:] {
			if o.what != 'w' || r.Intn(2) > 0 {
				l = append(l, o)
			}
		}
		log = l
	}
	return apply(d.snap, log)
}

// crashInto replaces the file by an image of it and opens the store again, as after the death of the process.
func (w *World) crashInto(img []byte) {
	for _, p := range w.Provs {
		if p != nil {
			p.Close()
		}
	}
	if w.DB != nil {
		w.DB.Close()
		w.DB = nil
	}
	if e := os.WriteFile(w.Path, img, 0600); e != nil {
		panic(harnessErr{e.Error()})
	}
	w.Add(Ev{"op": "crash"})
	w.reopenAll(0)
}

func (w *World) reopenAll(depth int) {
	if w.Rng.Intn(5) == 0 {
		w.change(w.Rng.Intn(len(w.P.Store)))
	}
	w.disk.begin()
	ok := w.tryOpenAll()
	n := w.disk.stop()
	if ok && n > 0 && depth < 2 && w.Rng.Intn(4) == 0 {
		// the process dies while it opens the store
		k, lossy := w.Rng.Intn(n+1), w.Rng.Intn(3) == 0
		img := w.disk.image(k, lossy, w.Rng)
		for _, p := range w.Provs {
			p.Close()
		}
		if w.DB != nil {
			w.DB.Close()
			w.DB = nil
		}
		os.WriteFile(w.Path, img, 0600)
		w.Add(Ev{"op": "crash"})
		w.reopenAll(depth + 1)
		return
	}
	for i := range w.P.Store {
		ev := Ev{"op": "reopen", "p": i + 1, "res": "ok", "opts": w.optsOf(i)}
		if !ok {
			ev["res"] = "err"
			w.Dead = true
		}
		w.Add(ev)
		if !ok {
			return
		}
	}
}

func (w *World) tryOpenAll() (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			ok = false
		}
	}()
	if !w.P.OwnFile {
		w.openDB()
	}
	for i := range w.P.Store {
		if len(w.Provs) <= i {
			w.Provs = append(w.Provs, nil)
		}
		if e := w.OpenProv(i); e != nil {
			return false
		}
	}
	return true
}

// runCrash: a sequential execution whose process dies now and then in the middle of an operation.
func runCrash(name string, p Params, seed int64, f Focus, steps int) *Trace {
	p.blowUp(rand.New(rand.NewSource(seed)), 6)
	w := NewWorld(name, p, seed)
	w.Tr.Judge = "conc"
	w.disk = &disk{}
	w.disk.install()
	defer w.disk.remove()
	q := 0
	InBubble(w, func() {
		w.Open()
		w.disk.path = w.Path
		w.disk.begin()
		g := NewGen(w, f)
		crashed := false
		g.do = func(o Op) *Result {
			if w.Dead || !g.pct(30) {
				return w.Do(o)
			}
			at := len(w.Tr.Ev)
			w.disk.start()
			r := w.Do(o)
			n := w.disk.stop()
			if n == 0 || w.Dead || len(w.Tr.Ev) != at+1 {
				return r
			}
			// choose the point; most of the interesting ones are near the end, where the new root is written
			k := g.r.Intn(n + 1)
			img := w.disk.image(k, g.pct(30), g.r)
			e := w.Tr.Ev[at]
			w.Tr.Ev = w.Tr.Ev[:at]
			if o.Op != "tick" {
				q++
				x := w.Event(o, &Result{Res: "none"})
				w.Add(Ev{"op": "inv", "q": q, "e": x})
				_ = e
			} else {
				w.Add(e)
			}
			w.crashInto(img)
			for _, t := range []string{o.A, o.NA} {
				if t != "" && o.R != "" {
					g.old = append(g.old, pairInfo{t, o.R, w.Tr.Tok[t].Id, w.NowMS()})
				}
			}
			crashed = true
			return &Result{Res: "lost"}
		}
		for i := 0; i < steps && !w.Dead; i++ {
			g.Step()
			if g.pct(8) && !w.Dead && !crashed {
				// the power fails while nothing is done
				w.disk.start()
				w.crashInto(w.disk.image(0, true, g.r))
				crashed = true
			}
			if crashed {
				crashed = false
				for j := range w.Provs {
					g.Probe(j, 8)
				}
			}
		}
		if !w.Dead {
			for i := range w.Provs {
				g.Probe(i, 8)
			}
		}
		w.Finish()
	})
	return w.Tr
}

// runWriteFail: now and then the file cannot be written.
func runWriteFail(name string, p Params, seed int64, f Focus, steps int) *Trace {
	p.blowUp(rand.New(rand.NewSource(seed)), 10)
	w := NewWorld(name, p, seed)
	w.disk = &disk{}
	w.disk.install()
	defer w.disk.remove()
	InBubble(w, func() {
		w.Open()
		w.disk.path = w.Path
		g := NewGen(w, f)
		g.do = func(o Op) *Result {
			if w.Dead || o.Op == "tick" || !g.pct(35) {
				return w.Do(o)
			}
			w.disk.mu.Lock()
			w.disk.fail, w.disk.hit = 1+g.r.Intn(6), false
			w.disk.mu.Unlock()
			at := len(w.Tr.Ev)
			r := w.DoCtx(context.Background(), o, nil)
			w.disk.mu.Lock()
			hit := w.disk.hit
			w.disk.fail = 0
			w.disk.mu.Unlock()
			if hit && len(w.Tr.Ev) > at {
				w.Tr.Ev[at]["wf"] = true
			}
			return r
		}
		for i := 0; i < steps && !w.Dead; i++ {
			g.Step()
		}
		if !w.Dead {
			g.Probe(0, 8)
		}
		w.Finish()
	})
	return w.Tr
}

// take gives what was recorded as events and forgets it.
func (d *disk) take() []Ev {
	d.mu.Lock()
	defer d.mu.Unlock()
	var out []Ev
	for _, o := range d.log {
		ev := Ev{"op": map[byte]string{'w': "dwrite", 's': "dsync", 't': "dsize"}[o.what]}
		if o.what == 'w' {
			ps := int64(os.Getpagesize())
			var pages []int64
			for at := o.off / ps; at*ps < o.off+int64(len(o.b)); at++ {
				pages = append(pages, at)
			}
			ev["pages"] = pages
			if o.off/ps < 2 {
				if len(pages) != 1 || len(o.b) < 72 {
					panic(harnessErr{"a meta page written together with others"})
				}
				// page header 16 bytes; magic, version, page size, flags, root, sequence, freelist, pgid, txid
				ev["op"] = "dmeta"
				ev["tx"] = binary.LittleEndian.Uint64(o.b[16+16+16+8+8:])
			}
		}
		out = append(out, ev)
	}
	d.log, d.mark = nil, 0
	return out
}

// runDisk: what every operation does to the file, step by step.
func runDisk(name string, p Params, seed int64, f Focus, steps int) *Trace {
	w := NewWorld(name, p, seed)
	w.Tr.Judge = "disk"
	w.disk = &disk{}
	w.disk.install()
	defer w.disk.remove()
	InBubble(w, func() {
		w.Open()
		w.disk.path = w.Path
		w.disk.begin()
		g := NewGen(w, f)
		var evs []Ev
		g.do = func(o Op) *Result {
			at := len(w.Tr.Ev)
			evs = append(evs, w.disk.take()...) // of the workers
			r := w.Do(o)
			synctest.Wait()
			evs = append(evs, w.disk.take()...)
			evs = append(evs, w.Tr.Ev[at:]...)
			return r
		}
		for i := 0; i < steps && !w.Dead; i++ {
			g.Step()
		}
		w.Finish()
		w.Tr.Ev = evs
	})
	return w.Tr
}

func init() {
	Families["disk-bolt"] = func(name string, r *rand.Rand) *Trace {
		p := GeneralParams(r, "bolt")
		p.Foreign = false
		f := Focus{W: weights(map[string]int{"close": 0, "refresh": 20, "create": 24, "destroy": 7, "clear": 2}), Probe: 10, NKeys: choose(r, 2, 3), Values: r.Intn(3) == 0}
		return runDisk(name, p, r.Int63(), f, 30)
	}
	Families["crash-bolt"] = func(name string, r *rand.Rand) *Trace {
		p := GeneralParams(r, "bolt")
		p.Foreign = false
		p.Tags = []string{"C12"}
		f := Focus{W: weights(map[string]int{"close": 0, "refresh": 20, "create": 24, "destroy": 7, "clear": 2}), Probe: 25, NKeys: choose(r, 2, 3), Values: r.Intn(3) == 0}
		return runCrash(name, p, r.Int63(), f, 16)
	}
	Families["wfail-bolt"] = func(name string, r *rand.Rand) *Trace {
		p := GeneralParams(r, "bolt")
		p.Foreign = false
		f := Focus{W: weights(map[string]int{"close": 0, "refresh": 22, "create": 24, "put": 18, "delete": 12}), Probe: 70, NKeys: 3}
		return runWriteFail(name, p, r.Int63(), f, 18)
	}
}
