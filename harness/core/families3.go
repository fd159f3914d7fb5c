package core

import (
	"fmt"
	"math/rand"
	"strings"
)

// runMany: hundreds of sessions, more than a page of the database, a batch of the cleaner or a small buffer holds.
func runMany(name string, r *rand.Rand, kind string) *Trace {
	p := GeneralParams(r, kind)
	p.Foreign = false
	p.OwnFile = false
	p.Opts = [][2]any{{"access", 2000}, {"refresh", choose(r, 2000, 4000)}, {"batch", choose(r, 0, 1, 2, 128)}}
	if kind != "redis" {
		p.Opts = append(p.Opts, [2]any{"max", choose(r, 0, 0, 40, 90)}, [2]any{"clear", choose(r, 0, 700, 1500)})
	}
	per := 70
	p.Ids = map[string]string{"u1": "u1", "u2": strings.Repeat("long", 1+r.Intn(12)), "u3": "u"}
	p.Toks = StdToks(p.Ids, per)
	if r.Intn(2) == 0 { // long tokens: fewer of them on a page
		for s, t := range p.Toks {
			if strings.Contains(s, "/") {
				p.Toks[s] = t + strings.Repeat("x", 90)
			}
		}
	}
	base, one := calibrate(p)
	w := NewWorld(name, p, r.Int63())
	InBubble(w, func() {
		w.Open()
		ids := []string{"u1", "u2", "u3"}
		next := map[string]int{}
		var known, live []pairInfo
		v := 0
		create := func(n int) {
			for i := 0; i < n; i++ {
				id := choose(r, "u1", "u1", "u2", "u3")
				next[id]++
				k := next[id]
				if k > per {
					k = 1 + r.Intn(per)
				}
				x := pairInfo{fmt.Sprintf("%s/a%d", id, k), fmt.Sprintf("%s/r%d", id, k), id, w.NowMS()}
				v++
				w.Do(Op{Op: "create", A: x.a, R: x.r, KV: [][2]string{{"k1", fmt.Sprint("v", v) + strings.Repeat("y", choose(r, 0, 0, 20, 150))}}})
				known, live = append(known, x), append(live, x)
			}
		}
		drop := func(f func(pairInfo) bool) {
			var l []pairInfo
			for _, x := range live {
				if !f(x) {
					l = append(l, x)
				}
			}
			live = l
		}
		look := func(n int) {
			q := append([]pairInfo(nil), known...)
			r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
			if len(q) > n {
				q = q[:n]
			}
			for _, x := range q {
				if r.Intn(3) == 0 {
					w.Do(Op{Op: "get", A: x.a, Ks: []string{"k1"}})
				} else {
					w.Do(Op{Op: choose(r, "check", "keys"), A: x.a})
				}
			}
		}
		create(30 + r.Intn(60))
		steps := 4 + r.Intn(4)
		for s := 0; s < steps && !w.Dead; s++ {
			switch r.Intn(8) {
			case 0, 1:
				create(10 + r.Intn(50))
			case 2:
				n := 5 + r.Intn(30)
				for i := 0; i < n && len(live) > 0; i++ {
					j := r.Intn(len(live))
					x := live[j]
					next[x.id]++
					k := next[x.id]
					if k > per {
						k = 1 + r.Intn(per)
					}
					y := pairInfo{fmt.Sprintf("%s/a%d", x.id, k), fmt.Sprintf("%s/r%d", x.id, k), x.id, w.NowMS()}
					if w.Do(Op{Op: "refresh", A: x.a, R: x.r, NA: y.a, NR: y.r}).Res == "ok" {
						live[j] = y
						known = append(known, y)
					} else {
						live = append(live[:j:j], live[j+1:]...)
					}
				}
			case 3:
				id := choose(r, ids...)
				w.Do(Op{Op: "destroy", ID: id})
				drop(func(x pairInfo) bool { return x.id == id })
			case 4:
				n := 5 + r.Intn(40)
				for i := 0; i < n && len(live) > 0; i++ {
					j := r.Intn(len(live))
					w.Do(Op{Op: "destroytok", A: live[j].a})
					live = append(live[:j:j], live[j+1:]...)
				}
			case 5:
				w.TickTo(w.NowMS() + int64(choose(r, 500, 1500, 2000, 4000)))
			case 6:
				if kind == "bolt" {
					if r.Intn(2) == 0 {
						w.Reopen(0)
					} else {
						w.Do(Op{Op: "clear"})
						live = nil
					}
				}
			case 7:
				n := 5 + r.Intn(30)
				for i := 0; i < n && len(live) > 0; i++ {
					v++
					w.Do(Op{Op: "put", A: live[r.Intn(len(live))].a, KV: [][2]string{{"k1", fmt.Sprint("v", v)}}})
				}
			}
			look(20)
			w.foot(0, base, one, false)
		}
		if !w.Dead {
			look(400)
			w.TickTo(w.NowMS() + 9000)
			look(400)
			w.foot(0, base, one, true)
			create(3)
			look(40)
		}
		w.Finish()
	})
	return w.Tr
}

// runCrowd: one user with hundreds of sessions.
func runCrowd(name string, r *rand.Rand, kind string) *Trace {
	p := GeneralParams(r, kind)
	p.Foreign = false
	p.OwnFile = false
	p.Opts = [][2]any{{"access", 20000}, {"refresh", 40000}}
	n := choose(r, 60, 110, 140, 270, 270, 520)
	if r.Intn(8) == 0 {
		n = 1030
	}
	p.Ids = map[string]string{"u1": "u1", "u2": "u"}
	p.Toks = map[string]string{}
	for i := 1; i <= n+n/10; i++ {
		p.Toks[fmt.Sprintf("u1/a%d", i)] = fmt.Sprintf("u1.a%d.s", i)
		p.Toks[fmt.Sprintf("u1/r%d", i)] = fmt.Sprintf("u1.r%d.s", i)
	}
	p.Toks["u2/a1"], p.Toks["u2/r1"] = "u.a1.s", "u.r1.s"
	w := NewWorld(name, p, r.Int63())
	InBubble(w, func() {
		w.Open()
		w.Do(Op{Op: "create", A: "u2/a1", R: "u2/r1"})
		alive := map[int]bool{}
		for i := 1; i <= n; i++ {
			w.Do(Op{Op: "create", A: fmt.Sprintf("u1/a%d", i), R: fmt.Sprintf("u1/r%d", i)})
			alive[i] = true
		}
		// a few move on or end
		for i := n + 1; i <= n+n/10 && !w.Dead; i++ {
			j := 1 + r.Intn(n)
			if !alive[j] {
				continue
			}
			delete(alive, j)
			if r.Intn(3) > 0 {
				w.Do(Op{Op: "refresh", A: fmt.Sprintf("u1/a%d", j), R: fmt.Sprintf("u1/r%d", j), NA: fmt.Sprintf("u1/a%d", i), NR: fmt.Sprintf("u1/r%d", i)})
				alive[i] = true
			} else {
				w.Do(Op{Op: "destroytok", A: fmt.Sprintf("u1/a%d", j)})
			}
		}
		for i := 0; i < 12; i++ {
			w.Do(Op{Op: "check", A: fmt.Sprintf("u1/a%d", 1+r.Intn(n+n/10))})
		}
		if r.Intn(4) > 0 {
			w.Do(Op{Op: "destroy", ID: "u1"})
		} else {
			w.TickTo(w.NowMS() + 40000 + int64(r.Intn(2)*600000))
		}
		w.Do(Op{Op: "check", A: "u2/a1"})
		for i := 1; i <= n+n/10 && !w.Dead; i++ {
			w.Do(Op{Op: "check", A: fmt.Sprintf("u1/a%d", i)})
		}
		w.Finish()
	})
	return w.Tr
}

// runHorde: sessions die in great numbers, and one sweep has to do.
func runHorde(name string, r *rand.Rand, kind string) *Trace {
	p := GeneralParams(r, kind)
	p.Foreign = false
	p.OwnFile = false
	p.Opts = [][2]any{{"access", 20000}, {"refresh", 40000}, {"batch", choose(r, 0, 1, 128)}}
	clear := int64(0)
	if kind != "redis" {
		clear = choose(r, int64(15000), 41000)
		p.Opts = append(p.Opts, [2]any{"clear", clear})
	}
	n := choose(r, 70, 140, 270, 530, 530, 1030, 1030)
	if r.Intn(8) == 0 {
		n = 2100
	}
	per := choose(r, 1, 3, 20, n) // sessions of an id
	p.Ids = map[string]string{}
	p.Toks = map[string]string{}
	id := func(i int) string { return fmt.Sprintf("u%d", 1+i/per) }
	for i := 0; i < n; i++ {
		p.Ids[id(i)] = id(i)
		p.Toks[fmt.Sprintf("%s/a%d", id(i), i)] = fmt.Sprintf("%s.a%d.s", id(i), i)
		p.Toks[fmt.Sprintf("%s/r%d", id(i), i)] = fmt.Sprintf("%s.r%d.s", id(i), i)
	}
	base, one := calibrate(p)
	w := NewWorld(name, p, r.Int63())
	InBubble(w, func() {
		w.Open()
		create := func(i int) {
			w.Do(Op{Op: "create", A: fmt.Sprintf("%s/a%d", id(i), i), R: fmt.Sprintf("%s/r%d", id(i), i)})
		}
		late := n - r.Intn(4) // the last ones live on
		for i := 0; i < late && !w.Dead; i++ {
			create(i)
		}
		if late < n {
			w.TickTo(choose(r, int64(1), 39999))
			for i := late; i < n; i++ {
				create(i)
			}
		}
		if r.Intn(3) > 0 {
			w.TickTo(choose(r, int64(40000), 40001))
			w.foot(0, base, one, false)
		}
		if clear > 0 { // the first sweep that finds them
			w.TickTo((40000/clear + 1) * clear)
			w.foot(0, base, one, false)
		}
		w.TickTo(choose(r, int64(82000), 82001, 90000))
		w.foot(0, base, one, false)
		for i := 0; i < 10; i++ {
			j := r.Intn(n)
			w.Do(Op{Op: "check", A: fmt.Sprintf("%s/a%d", id(j), j)})
		}
		w.Finish()
	})
	return w.Tr
}

// runLong: a few sessions with a long history.
func runLong(name string, r *rand.Rand, kind string) *Trace {
	p := GeneralParams(r, kind)
	p.Foreign = false
	p.OwnFile = false
	p.Opts = [][2]any{{"access", 2000}, {"refresh", 4000}, {"batch", choose(r, 0, 1, 128)}}
	f := Focus{W: weights(map[string]int{"create": 60, "refresh": 50, "put": 6, "delete": 2, "get": 3, "check": 6, "keys": 2, "tick": 1, "destroy": 1, "destroytok": 5, "close": 0, "clear": 0}), Probe: 2, NKeys: 2}
	if kind != "redis" {
		p.Opts = append(p.Opts, [2]any{"max", choose(r, 2, 3, 4)}, [2]any{"clear", 0})
	}
	if kind == "bolt" && r.Intn(2) == 0 {
		f.W["reopen"] = 1
	}
	p.Ids = map[string]string{"u1": "u1", "u2": "u2"}
	p.Toks = StdToks(p.Ids, 4)
	return runGen(name, p, r.Int63(), f, 300+r.Intn(500))
}

// runWide: sessions with hundreds of keys, operations with hundreds of keys.
func runWide(name string, r *rand.Rand, kind string) *Trace {
	p := GeneralParams(r, kind)
	p.Ids = map[string]string{"u1": "u1", "u2": "u2"}
	p.Toks = StdToks(p.Ids, 4)
	p.Scribble = r.Intn(2) == 0
	w := NewWorld(name, p, r.Int63())
	n := 40 + r.Intn(200)
	if r.Intn(10) == 0 {
		n = 1100
	}
	pad := choose(r, "", "", strings.Repeat("k", 30))
	big := choose(r, 60, 60, 1500, 20000)
	if big > 60 {
		n = 10 + r.Intn(40)
	}
	key := func(i int) string { return fmt.Sprintf("%s%d", pad, i) }
	InBubble(w, func() {
		w.Open()
		v := 0
		kv := func(m int) (out [][2]string) {
			for i := 0; i < m; i++ {
				v++
				out = append(out, [2]string{key(r.Intn(n)), fmt.Sprint("v", v) + strings.Repeat("z", choose(r, 0, 0, 60, big))})
			}
			return
		}
		ks := func(m int) (out []string) {
			for i := 0; i < m; i++ {
				out = append(out, key(r.Intn(n+3)))
			}
			return
		}
		all := make([]string, n)
		for i := range all {
			all[i] = key(i)
		}
		cur := map[string]int{"u1": 1, "u2": 1}
		for _, id := range []string{"u1", "u2"} {
			w.Do(Op{Op: "create", A: id + "/a1", R: id + "/r1", KV: kv(r.Intn(2 * n))})
		}
		for i := 0; i < 8 && !w.Dead; i++ {
			id := choose(r, "u1", "u1", "u2")
			a := fmt.Sprintf("%s/a%d", id, cur[id])
			switch r.Intn(7) {
			case 0, 1, 2:
				w.Do(Op{Op: "put", A: a, KV: kv(r.Intn(n + n/2))})
			case 3, 4:
				w.Do(Op{Op: "delete", A: a, Ks: ks(r.Intn(n))})
			case 5:
				if cur[id] < 4 {
					cur[id]++
					if w.Do(Op{Op: "refresh", A: a, R: fmt.Sprintf("%s/r%d", id, cur[id]-1), NA: fmt.Sprintf("%s/a%d", id, cur[id]), NR: fmt.Sprintf("%s/r%d", id, cur[id])}).Res != "ok" {
						cur[id]--
					}
				}
			case 6:
				if kind == "bolt" {
					w.Reopen(0)
				}
			}
			a = fmt.Sprintf("%s/a%d", id, cur[id])
			w.Do(Op{Op: "keys", A: a})
			w.Do(Op{Op: "get", A: a, Ks: all})
		}
		w.Finish()
	})
	return w.Tr
}

func init() {
	for _, kind := range []string{"mem", "bolt", "redis"} {
		kind := kind
		Families["many-"+kind] = func(name string, r *rand.Rand) *Trace { return runMany(name, r, kind) }
		Families["crowd-"+kind] = func(name string, r *rand.Rand) *Trace { return runCrowd(name, r, kind) }
		Families["horde-"+kind] = func(name string, r *rand.Rand) *Trace { return runHorde(name, r, kind) }
		Families["long-"+kind] = func(name string, r *rand.Rand) *Trace { return runLong(name, r, kind) }
		Families["wide-"+kind] = func(name string, r *rand.Rand) *Trace { return runWide(name, r, kind) }
	}
}
