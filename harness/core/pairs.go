package core

import (
	"math/rand"
)

// Every pair of operations in every kind of state, all schedules of it (as far as the budget goes).

var pairOps = []string{"create", "recreate", "refresh", "refreshonto", "put2", "get", "keys", "delete", "check", "destroy", "destroytok", "close", "clear"}

// What the pair meets: turning and dying cross a deadline while it runs, sweeping meets the cleaning pass.
var pairStates = []string{"live", "expired", "dead", "full", "turning", "dying", "sweeping"}

// second: the session the second operation is about (0 the same, 1 the sibling).
type pairCase struct {
	a, b, state string
	second      int
}

func pairCases(kind string) []pairCase {
	var out []pairCase
	for _, st := range pairStates {
		if (st == "full" || st == "sweeping") && kind == "redis" {
			continue
		}
		for i, a := range pairOps {
			for j, b := range pairOps {
				if (a == "clear" || b == "clear") && kind != "bolt" {
					continue
				}
				if j >= i {
					out = append(out, pairCase{a, b, st, 0})
				}
				if a != "close" && a != "clear" && b != "close" && b != "clear" && (st == "live" || st == "full" || st == "dead") {
					out = append(out, pairCase{a, b, st, 1})
				}
			}
		}
	}
	return out
}

func (g *scripter) pair(c pairCase) *Script {
	g.next = map[string]int{}
	p := Params{Kind: g.kind, Ids: concIds, Toks: concToks(), Tags: []string{"C10"}}
	if g.kind == "redis" {
		p.Tags = []string{"C11"}
		p.Store = []int{1, 1}
	}
	acc, ref := 2000, 4000
	p.Opts = [][2]any{{"access", acc}, {"refresh", ref}}
	if g.kind != "redis" {
		clear := 0
		if c.state == "sweeping" {
			clear = choose(g.r, 1500, 2000)
		}
		p.Opts = append(p.Opts, [2]any{"clear", clear})
		if c.state == "full" {
			p.Opts = append(p.Opts, [2]any{"max", 3})
		}
	}
	p.Opts = append(p.Opts, [2]any{"batch", choose(g.r, 0, 1, 128)})
	if g.kind == "redis" && g.r.Intn(6) == 0 {
		p.differ(g.r)
	}
	p.blowUp(g.r, 12)
	s := &Script{P: p, Keys: []string{"k1", "k2", "k3"}}
	var ss []sess
	for _, id := range []string{"u1", "u1", "u2"} {
		o, x := g.create(id)
		s.Pre = append(s.Pre, o)
		ss = append(ss, x)
	}
	switch c.state {
	case "expired":
		s.Pre = append(s.Pre, Op{Op: "tick", At: int64(acc)})
	case "dead":
		s.Pre = append(s.Pre, Op{Op: "tick", At: int64(ref)})
	case "turning":
		s.Pre = append(s.Pre, Op{Op: "tick", At: int64(acc) - 1})
		s.Ticks = []int64{int64(acc)}
	case "dying":
		s.Pre = append(s.Pre, Op{Op: "tick", At: int64(ref) - 1})
		s.Ticks = []int64{int64(ref)}
	case "sweeping":
		s.Pre = append(s.Pre, Op{Op: "tick", At: int64(ref)})
		s.Ticks = []int64{4500}
		if p.Opts[2][1] == 2000 {
			s.Pre[len(s.Pre)-1].At--
			s.Ticks[0] = 4000
		}
	}
	for i, m := range []string{c.a, c.b} {
		var o Op
		x, y := ss[0], ss[1]
		if i == 1 && c.second == 1 {
			x, y = y, x
		}
		if m == "refreshonto" {
			if i == 1 && c.a == "refreshonto" {
				x, y = y, x // across
			}
			o = Op{Op: "refresh", A: x.a, R: x.r, NA: y.a, NR: y.r}
		} else {
			o = g.op(m, []sess{x})
		}
		o.P = i % len(s.P.storeOr())
		s.Threads = append(s.Threads, []Op{o})
	}
	return s
}

// pairs: all; pairs-x: those with such an operation.
var pairKinds = map[string][]string{
	"pairs":         nil,
	"pairs-refresh": {"refresh", "refreshonto"},
	"pairs-destroy": {"destroy", "destroytok", "clear"},
	"pairs-close":   {"close"},
	"pairs-data":    {"put2", "delete"},
}

func (c pairCase) about(ops []string) bool {
	for _, o := range ops {
		if c.a == o || c.b == o {
			return true
		}
	}
	return ops == nil
}

func init() {
	for _, kind := range []string{"mem", "bolt", "redis"} {
		for fam, ops := range pairKinds {
			kind := kind
			var cases []pairCase
			for _, c := range pairCases(kind) {
				if c.about(ops) {
					cases = append(cases, c)
				}
			}
			Multi[fam+"-"+kind] = func(name string, r *rand.Rand, emit func(*Trace)) {
				n, seed := numberOf(name)
				perm := rand.New(rand.NewSource(seed)).Perm(len(cases))
				if n >= len(cases) {
					return
				}
				g := &scripter{r: r, kind: kind}
				Explore(name, g.pair(cases[perm[n]]), r, ConcBudget*4, emit)
			}
		}
	}
}
