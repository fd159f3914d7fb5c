package core

import (
	"fmt"
	"math/rand"
)

// MultiFamily emits any number of traces.
type MultiFamily func(name string, r *rand.Rand, emit func(*Trace))

var Multi = map[string]MultiFamily{}

var concIds = map[string]string{"u1": "u1", "u2": "u2"}

func concToks() map[string]string { return concToksN(5) }

func concToksN(n int) map[string]string {
	t := map[string]string{}
	for s, real := range concIds {
		for i := 1; i <= n; i++ {
			t[fmt.Sprintf("%s/a%d", s, i)] = fmt.Sprintf("%s.a%d.sig", real, i)
			t[fmt.Sprintf("%s/r%d", s, i)] = fmt.Sprintf("%s.r%d.sig", real, i)
		}
	}
	return t
}

// scripter makes concurrent situations around a few sessions.
type scripter struct {
	r    *rand.Rand
	kind string
	v    int
	next map[string]int
	herd int // sessions of the first user id
}

func (g *scripter) val() string { g.v++; return fmt.Sprintf("v%d", g.v) }
func (g *scripter) kv() [][2]string {
	switch g.r.Intn(6) {
	case 4:
		v := g.val()
		return [][2]string{{"k3", v}, {"k1", v}, {"k2", v}}
	case 5:
		v := g.val()
		return [][2]string{{"k1", v}, {"k2", v}, {"k3", v}, {"k1", g.val()}}
	case 0:
		return [][2]string{{"k1", g.val()}, {"k2", g.val()}}
	case 1:
		return [][2]string{{"k2", g.val()}}
	case 2:
		v := g.val()
		return [][2]string{{"k1", v}, {"k2", v}}
	}
	return [][2]string{{"k1", g.val()}}
}
func (g *scripter) fresh(id string) (string, string) {
	g.next[id]++
	n := g.next[id]
	if n > max(5, g.herd+5) {
		n = max(5, g.herd+5)
	}
	return fmt.Sprintf("%s/a%d", id, n), fmt.Sprintf("%s/r%d", id, n)
}

type sess struct{ id, a, r string }

func (g *scripter) create(id string) (Op, sess) {
	a, r := g.fresh(id)
	return Op{Op: "create", A: a, R: r, KV: g.kv()}, sess{id, a, r}
}

// Script makes one situation of the given flavour.
func (g *scripter) Script(flavour string) *Script {
	r := g.r
	g.next = map[string]int{}
	p := Params{Kind: g.kind, Ids: concIds, Toks: concToks(), Tags: []string{"C10"}}
	if g.kind == "redis" {
		p.Tags = []string{"C11"}
		p.Store = choose(r, []int{1, 1}, []int{1, 1}, []int{1})
	}
	acc, ref := 2000, 4000
	p.Opts = [][2]any{{"access", acc}, {"refresh", ref}}
	clear := 0
	if g.kind != "redis" {
		if flavour == "cap" {
			p.Opts = append(p.Opts, [2]any{"max", choose(r, 1, 2, 2, 3)})
		}
		if flavour == "sweep" {
			clear = choose(r, 500, 4500, 1500)
		}
		p.Opts = append(p.Opts, [2]any{"clear", clear})
	}
	p.Opts = append(p.Opts, [2]any{"batch", choose(r, 0, 1, 2, 128)})
	if flavour == "dead" {
		p.Opts[len(p.Opts)-1][1] = choose(r, 0, 0, 1)
	}
	if g.kind == "bolt" {
		p.OwnFile = r.Intn(2) == 0
	}
	if g.kind == "redis" && len(p.Store) > 1 && r.Intn(4) == 0 {
		p.differ(r)
	}
	p.blowUp(r, 12)
	s := &Script{P: p, Keys: []string{"k1", "k2", "k3"}}
	prov := func(o Op) Op { o.P = r.Intn(len(s.P.storeOr())); return o }
	var ss []sess
	ns := 1 + r.Intn(2)
	if flavour == "cap" || flavour == "dead" {
		ns = 1 + r.Intn(3)
	}
	if flavour == "pile" {
		ns = 2 + r.Intn(3)
	}
	g.herd = 0
	if flavour == "herd" {
		ns = choose(r, 5, 6, 9, 10, 17, 20, 33, 51, 66, 101, 130)
		g.herd = ns
		s.P.Toks = concToksN(ns + 5)
		s.P.Blow = 0
	}
	for i := 0; i < ns; i++ {
		id := "u1"
		if i > 0 && r.Intn(2) == 0 && (flavour != "herd" || i == 3) {
			id = "u2"
		}
		o, x := g.create(id)
		s.Pre = append(s.Pre, prov(o))
		ss = append(ss, x)
	}
	now := int64(0)
	if flavour == "sweep" || flavour == "stumble" || flavour != "dead" && r.Intn(5) == 0 {
		now = int64(choose(r, acc-1, acc, ref-1, ref, ref+10))
		s.Pre = append(s.Pre, Op{Op: "tick", At: now})
	}
	if flavour == "stumble" {
		// the session is dead, the worker hears about it while the token is taken again
		s.Pre[len(s.Pre)-1].At = int64(ref)
		now = int64(ref)
		for i := 0; i < r.Intn(3); i++ {
			s.Pre = append(s.Pre, prov(g.op("check", ss)))
		}
	}
	if flavour == "dead" {
		// several operations report dead sessions to a worker with hardly any queue, perhaps while the provider closes
		now = int64(ref)
		s.Pre = append(s.Pre, Op{Op: "tick", At: now})
		for i := 0; i < r.Intn(2); i++ {
			s.Pre = append(s.Pre, prov(g.op("check", ss)))
		}
	}
	if flavour == "pile" {
		// every dead session is stumbled upon exactly here, the worker comes to it late
		s.Pile = true
		s.Pre = append(s.Pre, Op{Op: "tick", At: int64(ref)})
		s.Threads = make([][]Op, 2)
		touch := func(o Op) {
			i := r.Intn(2)
			s.Threads[i] = append(s.Threads[i], prov(o))
		}
		for i := 0; i < r.Intn(3); i++ {
			touch(choose(r, Op{Op: "destroytok", A: ss[r.Intn(ns)].a}, Op{Op: "destroytok", A: ss[r.Intn(ns)].a}, Op{Op: "destroy", ID: ss[r.Intn(ns)].id}, Op{Op: "check", A: ss[r.Intn(ns)].a}))
		}
		for k := choose(r, 1, 1, 2, 3); k > 0; k-- {
			for _, i := range r.Perm(ns) {
				touch(g.on(choose(r, "check", "get", "keys"), ss[i]))
			}
		}
		return s
	}
	var menu []string
	switch flavour {
	case "dead":
		menu = choose(r, []string{"get"}, []string{"keys"}, []string{"check"}, []string{"get", "check", "keys"}, []string{"put", "delete", "refresh", "get"})
		if r.Intn(2) == 0 {
			menu = append(menu, "close")
		}
	case "refresh":
		menu = []string{"refresh", "refresh", "refresh", "put", "get", "destroytok", "destroy", "delete", "check"}
	case "herd":
		menu = []string{"destroy", "refresh", "refresh", "create", "create", "recreate", "destroytok", "put", "keys", "destroy"}
	case "destroy":
		menu = []string{"destroy", "destroy", "destroytok", "create", "refresh", "put", "get", "delete"}
		if g.kind == "bolt" {
			menu = append(menu, "clear")
		}
	case "close":
		menu = []string{"close", "close", "create", "refresh", "put", "get", "keys", "delete", "check", "destroy", "destroytok"}
	case "sweep", "stumble":
		menu = []string{"check", "get", "keys", "put", "refresh", "recreate", "recreate", "create", "refreshonto", "destroy"}
	case "cap":
		menu = []string{"create", "create", "create", "refresh", "destroytok", "check", "get", "recreate"}
	case "data":
		menu = []string{"put", "put", "get", "keys", "delete", "put2", "get2"}
	default:
		menu = []string{"create", "refresh", "put", "get", "keys", "delete", "check", "destroy", "destroytok", "recreate"}
	}
	nt := 2
	if r.Intn(3) == 0 || flavour == "dead" && r.Intn(2) == 0 {
		nt = 3
	}
	total := 0
	for i := 0; i < nt; i++ {
		n := 1
		if r.Intn(3) == 0 && total < 4 {
			n = 2
		}
		var ops []Op
		for j := 0; j < n; j++ {
			m := menu[r.Intn(len(menu))]
			if i == 0 && j == 0 {
				m = menu[0]
			}
			ops = append(ops, prov(g.op(m, ss)))
			total++
		}
		s.Threads = append(s.Threads, ops)
	}
	if flavour == "sweep" || (flavour == "any" && r.Intn(4) == 0) {
		t := now + int64(choose(r, 1, 499, 1000, acc, ref))
		s.Ticks = append(s.Ticks, t)
		if r.Intn(3) == 0 {
			s.Ticks = append(s.Ticks, t+int64(choose(r, 1, acc)))
		}
	}
	return s
}

func (p Params) storeOr() []int {
	if p.Store == nil {
		return []int{1}
	}
	return p.Store
}

func (g *scripter) op(m string, ss []sess) Op {
	r := g.r
	x := ss[0]
	if len(ss) > 1 && (r.Intn(3) == 0 || g.herd > 0) {
		x = ss[1+r.Intn(len(ss)-1)]
		if g.herd > 0 && m == "destroy" {
			x = ss[0]
		} else if g.herd > 0 && r.Intn(3) == 0 {
			x = ss[len(ss)-1]
		}
	}
	return g.onOf(m, x, ss)
}

func (g *scripter) on(m string, x sess) Op { return g.onOf(m, x, []sess{x}) }

// onOf is an operation on session x, which is one of ss.
func (g *scripter) onOf(m string, x sess, ss []sess) Op {
	r := g.r
	switch m {
	case "create":
		o, _ := g.create(x.id)
		return o
	case "recreate":
		rr := x.r
		if r.Intn(2) == 0 {
			_, rr = g.fresh(x.id)
		}
		return Op{Op: "create", A: x.a, R: rr, KV: g.kv()}
	case "refresh":
		a, rr := g.fresh(x.id)
		return Op{Op: "refresh", A: x.a, R: x.r, NA: a, NR: rr}
	case "refreshonto":
		y := ss[r.Intn(len(ss))]
		if y.id != x.id {
			y = x
		}
		return Op{Op: "refresh", A: x.a, R: x.r, NA: y.a, NR: y.r}
	case "put":
		return Op{Op: "put", A: x.a, KV: g.kv()}
	case "put2":
		v := g.val()
		return Op{Op: "put", A: x.a, KV: [][2]string{{"k1", v}, {"k2", v}, {"k3", v}}}
	case "get", "get2":
		return Op{Op: "get", A: x.a, Ks: choose(r, []string{"k1", "k2"}, []string{"k3", "k1", "k2"}, []string{"k1", "k3"})}
	case "delete":
		return Op{Op: "delete", A: x.a, Ks: choose(r, []string{"k1"}, []string{"k1", "k2"}, []string{"k3", "k2", "k1"})}
	case "destroy":
		return Op{Op: "destroy", ID: x.id}
	case "destroytok", "check", "keys":
		return Op{Op: m, A: x.a}
	}
	return Op{Op: m}
}

var flavours = []string{"any", "refresh", "destroy", "close", "sweep", "stumble", "cap", "data", "dead", "pile", "herd"}

func init() {
	for _, kind := range []string{"mem", "bolt", "redis"} {
		for _, fl := range flavours {
			kind, fl := kind, fl
			if kind == "redis" && (fl == "cap" || fl == "herd") {
				continue
			}
			Multi["conc-"+fl+"-"+kind] = func(name string, r *rand.Rand, emit func(*Trace)) {
				g := &scripter{r: r, kind: kind}
				Explore(name, g.Script(fl), r, ConcBudget, emit)
			}
		}
	}
}

// ConcBudget is the number of schedules per script.
var ConcBudget = 60
