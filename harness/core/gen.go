package core

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// Gen is a biased random generator of sequential executions. Its picture of the store only steers it.
type Gen struct {
	w     *World
	r     *rand.Rand
	F     Focus
	ids   []string
	pool  map[string][][2]string // id -> unused (access, refresh)
	live  []pairInfo
	old   []pairInfo
	odd   []string // other tokens
	keys  []string
	accL  int64
	refL  int64
	lives [][2]int64 // access and refresh lifetime of every provider
	steps int
	vseq  int
	heavy bool // large values
	do    func(Op) *Result
}

type pairInfo struct {
	a, r, id string
	at       int64
}

// Focus weighs the operations and the probes.
type Focus struct {
	W        map[string]int
	Probe    int // percentage of operations followed by probes of the sessions known
	NKeys    int
	Values   bool // odd values
	OneKey   bool // sessions always hold exactly one key
	Foot     bool
	Reopen   bool
	MaxClose int
	Small    bool // few keys
	Blow     int  // percentage of worlds whose keys stand for many
	Wrong    int  // percentage of refreshes with a wrong refresh token, on top of those that are odd anyway
}

var defaultW = map[string]int{"create": 20, "refresh": 16, "check": 6, "put": 14, "get": 8, "keys": 4, "delete": 8,
	"destroy": 5, "destroytok": 5, "tick": 12, "close": 1, "clear": 1, "reopen": 0}

func weights(over map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range defaultW {
		m[k] = v
	}
	for k, v := range over {
		m[k] = v
	}
	return m
}

// StdToks makes a pool of n token pairs per id, plus junk.
func StdToks(ids map[string]string, n int) map[string]string {
	t := map[string]string{
		"bad1": "", "bad2": "nodots", "bad3": "one.dot", "bad4": ".", "unk1": "..", "unk2": "u1.zz.zz",
	}
	for s, real := range ids {
		for i := 1; i <= n; i++ {
			t[fmt.Sprintf("%s/a%d", s, i)] = fmt.Sprintf("%s.a%d.sig", real, i)
			t[fmt.Sprintf("%s/r%d", s, i)] = fmt.Sprintf("%s.r%d.sig", real, i)
		}
		t[s+"/x3"] = real + ".A1.sig"
		// nearly the first tokens of the id
		for i, x := range []string{"1.sih", "1.si", "1.sig2", "1.", "1.SIG", "1.sig.", "1.x.sig", "01.sig", "1.\x00sig"} {
			t[fmt.Sprintf("%s/a1~%d", s, i)] = real + ".a" + x
			t[fmt.Sprintf("%s/r1~%d", s, i)] = real + ".r" + x
		}
		for i := 2; i <= n && i <= 4; i++ {
			t[fmt.Sprintf("%s/a%d~0", s, i)] = fmt.Sprintf("%s.a%d.sih", real, i)
			t[fmt.Sprintf("%s/r%d~0", s, i)] = fmt.Sprintf("%s.r%d.sih", real, i)
		}
	}
	return t
}

func NewGen(w *World, f Focus) *Gen {
	g := &Gen{w: w, r: w.Rng, F: f, pool: map[string][][2]string{}, do: w.Do}
	g.heavy = !f.OneKey && g.pct(3)
	if g.F.W == nil {
		g.F.W = defaultW
	}
	for s := range w.P.Ids {
		g.ids = append(g.ids, s)
	}
	sort.Strings(g.ids)
	for _, s := range g.ids {
		for i := 1; ; i++ {
			a := fmt.Sprintf("%s/a%d", s, i)
			if _, ok := w.P.Toks[a]; !ok {
				break
			}
			g.pool[s] = append(g.pool[s], [2]string{a, fmt.Sprintf("%s/r%d", s, i)})
		}
	}
	for s := range w.P.Toks {
		g.odd = append(g.odd, s)
	}
	sort.Strings(g.odd)
	all := []string{"k1", "k2", "k3", "metadata", "k.1", "", "\xe9\x94\xae", "count"}
	n := f.NKeys
	if n == 0 || n > len(all) {
		n = 3
	}
	g.keys = append([]string(nil), all[:n]...)
	if n == len(all) && g.pct(50) {
		// keys that some take for others, or for none
		g.keys = append(g.keys[:4:4], choose(g.r, []string{"\xff", "\xfe"}, []string{"k1\x00", "k1 "}, []string{"K1", "K2"}, []string{"\xe9\x94", "\xe9\x95"},
			[]string{"e\u0301", "\u00e9"}, []string{"1", "01"}, []string{" ", "\t"}, []string{"k1\n", "K1\xff"}, []string{strings.Repeat("k", 70), strings.Repeat("k", 71)}, []string{strings.Repeat("k", 300) + "a", strings.Repeat("k", 300) + "b"})...)
		g.keys = append(g.keys, "")
	}
	if n > 5 {
		g.keys = append(g.keys, w.P.MetaKey, BigKey)
	}
	g.lifetimes()
	return g
}

// lifetimes looks up how long sessions live.
func (g *Gen) lifetimes() {
	g.lives = nil
	g.accL, g.refL = 0, 0
	for i := range g.w.P.Store {
		acc, ref := Meaning(g.w.optsOf(i))
		g.lives = append(g.lives, [2]int64{acc, ref})
		g.accL, g.refL = max(g.accL, acc), max(g.refL, ref)
	}
}

// Meaning mirrors Options.tla only to steer the generator towards the boundaries.
func Meaning(opts [][2]any) (acc, ref int64) {
	acc, ref = 3600000, 86400000
	for _, o := range opts {
		v := toInt(o[1])
		switch o[0] {
		case "access":
			acc = v
			if ref < v {
				ref = v
			}
		case "refresh":
			ref = v
			if acc > v {
				acc = v
			}
		}
	}
	return
}

func (g *Gen) pct(n int) bool { return g.r.Intn(100) < n }
func (g *Gen) pick(s []string) string {
	return s[g.r.Intn(len(s))]
}

func (g *Gen) newPair(id string) (string, string) {
	p := g.pool[id]
	if len(p) > 0 && !g.pct(8) {
		g.pool[id] = p[1:]
		return p[0][0], p[0][1]
	}
	// reuse of a token used before
	var c []pairInfo
	for _, x := range append(append([]pairInfo(nil), g.live...), g.old...) {
		if x.id == id {
			c = append(c, x)
		}
	}
	if len(c) == 0 {
		if _, ok := g.w.P.Toks[id+"/a1"]; !ok {
			return g.pick(g.odd), g.pick(g.odd)
		}
		return id + "/a1", id + "/r1"
	}
	x := c[g.r.Intn(len(c))]
	if g.pct(50) {
		return x.a, x.r
	}
	nr := id + "/r" + fmt.Sprint(1+g.r.Intn(3))
	if _, ok := g.w.P.Toks[nr]; !ok {
		nr = x.r
	}
	return x.a, nr
}

// near is a token nearly equal to t.
func (g *Gen) near(t string) string {
	x := fmt.Sprintf("%s~%d", t, g.r.Intn(9))
	if _, ok := g.w.P.Toks[x]; !ok {
		x = t + "~0"
		if _, ok := g.w.P.Toks[x]; !ok {
			return g.pick(g.odd)
		}
	}
	return x
}

func (g *Gen) someTok() string {
	switch n := g.r.Intn(100); {
	case n < 3 && len(g.live) > 0:
		return g.near(g.live[g.r.Intn(len(g.live))].a)
	case n < 70 && len(g.live) > 0:
		return g.live[g.r.Intn(len(g.live))].a
	case n < 76 && len(g.live) > 0:
		return g.live[g.r.Intn(len(g.live))].r
	case n < 92 && len(g.old) > 0:
		return g.old[g.r.Intn(len(g.old))].a
	}
	return g.pick(g.odd)
}

func (g *Gen) value() string {
	g.vseq++
	if g.heavy && g.pct(50) {
		b := make([]byte, 20000+g.r.Intn(60000))
		g.r.Read(b)
		return string(b)
	}
	if g.F.Values {
		switch g.r.Intn(8) {
		case 0:
			return NilValue
		case 1:
			return ""
		case 2:
			b := make([]byte, g.r.Intn(40))
			g.r.Read(b)
			return string(b)
		case 3:
			b := make([]byte, 3000+g.r.Intn(6000))
			if g.r.Intn(6) == 0 {
				b = make([]byte, 30000+g.r.Intn(70000))
			}
			g.r.Read(b)
			return string(b)
		}
	}
	return fmt.Sprintf("v%d", g.vseq)
}
func (g *Gen) kv() [][2]string {
	if g.F.OneKey {
		return [][2]string{{"k1", g.value()}}
	}
	n := g.r.Intn(4)
	if n == 0 && g.pct(50) {
		n = 1
	}
	var out [][2]string
	for i := 0; i < n; i++ {
		k := g.pick(g.keys)
		if (k == BigKey || k == g.w.P.MetaKey || k == "") && g.pct(60) {
			k = g.keys[0]
		}
		out = append(out, [2]string{k, g.value()})
	}
	if g.w.P.Blow > 1 && n > 0 && len(g.keys) > 5 && g.pct(20) {
		// hundreds of pairs, and one more that may be refused
		out = append(out, [2]string{choose(g.r, g.w.P.MetaKey, BigKey, ""), g.value()})
	}
	return out
}
func (g *Gen) ks() []string {
	n := g.r.Intn(4)
	out := []string{}
	for i := 0; i < n; i++ {
		out = append(out, g.pick(g.keys))
	}
	return out
}

func (g *Gen) dropIf(f func(pairInfo) bool) {
	var l []pairInfo
	for _, x := range g.live {
		if f(x) {
			g.old = append(g.old, x)
		} else {
			l = append(l, x)
		}
	}
	g.live = l
}

func (g *Gen) probeTok(p int, a string) {
	g.w.Do(Op{Op: "keys", P: p, A: a})
	g.w.Do(Op{Op: "get", P: p, A: a, Ks: append([]string(nil), g.keys...)})
	g.w.Do(Op{Op: "check", P: p, A: a})
}

// Probe asks about the sessions known.
func (g *Gen) Probe(p int, max int) {
	var as []string
	for _, x := range g.live {
		as = append(as, x.a)
	}
	for i := len(g.old) - 1; i >= 0 && i >= len(g.old)-2; i-- {
		as = append(as, g.old[i].a)
	}
	g.r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	if len(as) > max {
		as = as[:max]
	}
	for _, a := range as {
		g.probeTok(p, a)
	}
}

func (g *Gen) opname() string {
	t := 0
	names := make([]string, 0, len(g.F.W))
	for k, v := range g.F.W {
		t += v
		names = append(names, k)
	}
	sort.Strings(names)
	n := g.r.Intn(t)
	for _, k := range names {
		if n < g.F.W[k] {
			return k
		}
		n -= g.F.W[k]
	}
	return "check"
}

// Step performs one random operation.
func (g *Gen) Step() {
	w := g.w
	p := g.r.Intn(len(w.Provs))
	name := g.opname()
	switch name {
	case "create":
		id := g.pick(g.ids)
		a, r := g.newPair(id)
		if g.pct(4) {
			r = g.pick(g.odd)
		} else if g.pct(3) {
			a = g.pick(g.odd)
		}
		o := Op{Op: "create", P: p, A: a, R: r, KV: g.kv()}
		if x := g.do(o); x.Res == "ok" {
			g.dropIf(func(y pairInfo) bool { return y.a == a })
			g.live = append(g.live, pairInfo{a, r, w.Tr.Tok[a].Id, w.NowMS()})
		}
	case "refresh":
		if len(g.live) == 0 {
			return
		}
		x := g.live[g.r.Intn(len(g.live))]
		if g.pct(12) && len(g.old) > 0 {
			x = g.old[g.r.Intn(len(g.old))]
		}
		na, nr := g.newPair(x.id)
		if g.pool[x.id] == nil && na == "" {
			return
		}
		o := Op{Op: "refresh", P: p, A: x.a, R: x.r, NA: na, NR: nr}
		switch n := g.r.Intn(100); {
		case n < 6:
			o.R = g.pick(g.odd)
		case n < 9:
			o.A = g.pick(g.odd)
		case n < 12:
			o.NA = g.pick(g.odd)
		case n < 15:
			o.NR = g.pick(g.odd)
		case n < 18:
			o.R = x.a
		case n < 20:
			o.NA = x.a
		case n < 22:
			o.NA, o.NR = x.a, x.r
		case n < 25 && len(g.live) > 1:
			o.R = g.live[g.r.Intn(len(g.live))].r
		case n < 29 && len(g.live) > 1:
			o.NA = g.live[g.r.Intn(len(g.live))].a
		case n < 34:
			o.R = g.near(o.R)
		case n < 36:
			o.A = g.near(o.A)
		}
		if g.pct(g.F.Wrong) {
			o.R = x.id + "/r" + fmt.Sprint(1+g.r.Intn(3))
			if _, ok := w.P.Toks[o.R]; !ok {
				o.R = x.a
			}
		}
		if y := g.do(o); y.Res == "ok" {
			g.dropIf(func(z pairInfo) bool { return z.a == o.A || z.a == o.NA })
			g.live = append(g.live, pairInfo{o.NA, o.NR, x.id, w.NowMS()})
		}
	case "check", "keys":
		g.do(Op{Op: name, P: p, A: g.someTok()})
		return
	case "get":
		g.do(Op{Op: name, P: p, A: g.someTok(), Ks: g.ks()})
		return
	case "delete":
		g.do(Op{Op: name, P: p, A: g.someTok(), Ks: g.ks()})
	case "put":
		g.do(Op{Op: name, P: p, A: g.someTok(), KV: g.kv()})
	case "destroy":
		id := g.pick(g.ids)
		if g.do(Op{Op: name, P: p, ID: id}).Res == "ok" {
			g.dropIf(func(y pairInfo) bool { return y.id == id })
		}
	case "destroytok":
		a := g.someTok()
		if g.do(Op{Op: name, P: p, A: a}).Res == "ok" {
			g.dropIf(func(y pairInfo) bool { return y.a == a })
		}
	case "clear":
		if w.P.Kind == "bolt" {
			if g.do(Op{Op: name, P: p}).Res == "ok" {
				g.dropIf(func(y pairInfo) bool { return true })
			}
		}
	case "close":
		if g.F.MaxClose > 0 {
			g.F.MaxClose--
			g.do(Op{Op: name, P: p})
		}
	case "reopen":
		if w.P.Kind == "bolt" {
			w.Reopen(p)
			g.lifetimes()
		}
	case "tick":
		w.TickTo(g.tickTarget())
		lim := w.NowMS() - g.refL
		g.dropIf(func(y pairInfo) bool { return y.at <= lim })
	}
	if g.pct(g.F.Probe) {
		g.Probe(p, 3)
	}
	g.steps++
}

func (g *Gen) tickTarget() int64 {
	now := g.w.NowMS()
	for try := 0; try < 6; try++ {
		var t int64
		if len(g.live) > 0 && g.pct(75) {
			x := g.live[g.r.Intn(len(g.live))]
			t = x.at
			l := g.lives[g.r.Intn(len(g.lives))]
			if g.pct(50) {
				t += l[0]
			} else {
				t += l[1]
			}
			t += int64(g.r.Intn(3) - 1)
		} else {
			t = now + int64(g.r.Intn(min(int(g.accL), 5000)))
		}
		if t > now && t < Forever/2 {
			return t
		}
	}
	return now + 1
}
