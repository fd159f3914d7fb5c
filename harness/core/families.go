package core

import (
	"fmt"
	"math/rand"
	"time"
)

// Family makes trace number n of its kind.
type Family func(name string, r *rand.Rand) *Trace

var Families = map[string]Family{}

var plainIds = map[string]string{"u1": "u1", "u2": "u2", "u3": "u3"}

// similarIds look alike and contain glob characters, separators of other syntaxes, prefixes of each other, nothing at all.
func similarIds(r *rand.Rand, kind string) map[string]string {
	all := []string{"u1", "u", "u11", "u*", "u?", "*", "u[1]", "[a-z]1", "u\\1", "\\", "U1", "u1 ", "\xff\xfe", "\xe4\xbd\xa0", "u1:x", "?", "u[^x]", "", "ids", "-"}
	out := map[string]string{"u1": "u1"}
	n := 2 + r.Intn(3)
	for i := 0; i < n; i++ {
		s := all[r.Intn(len(all))]
		out[fmt.Sprintf("i%s", sym([]byte(s)))] = s
	}
	delete(out, "iu1")
	return out
}

func choose[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func lifeOpts(r *rand.Rand) [][2]any {
	acc := choose(r, 1000, 1000, 2000)
	ref := choose(r, 1000, 3000, 5000)
	var o [][2]any
	o = append(o, [2]any{"access", acc}, [2]any{"refresh", ref})
	return o
}

// GeneralParams draws a configuration.
func GeneralParams(r *rand.Rand, kind string) Params {
	p := Params{Kind: kind, Ids: plainIds}
	p.Opts = lifeOpts(r)
	if kind != "redis" {
		if r.Intn(2) == 0 {
			p.Opts = append(p.Opts, [2]any{"max", choose(r, 1, 2, 3, 4)})
		}
		p.Opts = append(p.Opts, [2]any{"clear", choose(r, 0, 0, 700, 1500, 600000)})
	} else {
		p.Foreign = true
		if r.Intn(3) == 0 {
			p.MetaKey = choose(r, "meta", "meta", EmptyMeta, "k3", "\x00", "*")
		}
		p.Prefixes = []string{choose(r, "pfx.", "", "a*b.", "[x]?", "sessionid.provider.redis.", "\\")}
		if p.Prefixes[0] == "" {
			p.Foreign = false
		} else if r.Intn(25) == 0 {
			p.Strangers = choose(r, 30, 150, 700, 1500)
		}
	}
	p.Opts = append(p.Opts, [2]any{"batch", choose(r, -1, 0, 1, 2, 128)})
	if kind == "bolt" {
		p.OwnFile = r.Intn(2) == 0
		p.Foreign = !p.OwnFile
	}
	p.Toks = StdToks(p.Ids, 5)
	return p
}

// fine makes every third configuration count in microseconds, and a few in minutes or hours: lifetimes of months.
func fine(r *rand.Rand, p Params) Params {
	switch r.Intn(9) {
	case 0, 1, 2:
		o := append([][2]any(nil), p.Opts...)
		for i := range o {
			switch o[i][0] {
			case "access", "refresh", "clear":
				o[i][1] = toInt(o[i][1]) * 1000
			}
		}
		p.Opts, p.Unit = o, time.Microsecond
	case 3:
		p.Unit = choose(r, time.Second, time.Minute, time.Hour)
		o := append([][2]any(nil), p.Opts...)
		for i := range o {
			if o[i][0] == "clear" && toInt(o[i][1]) > 1500 {
				o[i][1] = 1500
			}
		}
		p.Opts = o
	}
	return p
}

func runGen(name string, p Params, seed int64, f Focus, steps int) *Trace {
	p.blowUp(rand.New(rand.NewSource(seed)), max(5, f.Blow))
	w := NewWorld(name, p, seed)
	InBubble(w, func() {
		w.Open()
		g := NewGen(w, f)
		for i := 0; i < steps && !w.Dead; i++ {
			g.Step()
		}
		if !w.Dead {
			for i := range w.Provs {
				g.Probe(i, 6)
			}
		}
		w.Finish()
	})
	return w.Tr
}

func kindOf(r *rand.Rand) string { return choose(r, "mem", "bolt", "redis") }

func init() {
	for _, kind := range []string{"mem", "bolt", "redis"} {
		kind := kind
		Families["rand-"+kind] = func(name string, r *rand.Rand) *Trace {
			p := fine(r, GeneralParams(r, kind))
			return runGen(name, p, r.Int63(), Focus{W: weights(nil), Probe: 35, NKeys: choose(r, 2, 3, 8), Values: r.Intn(2) == 0, MaxClose: 1}, 22)
		}
		Families["life-"+kind] = func(name string, r *rand.Rand) *Trace {
			p := fine(r, GeneralParams(r, kind))
			return runGen(name, p, r.Int63(), Focus{W: weights(map[string]int{"tick": 45, "create": 25, "refresh": 20, "destroy": 1, "destroytok": 1, "close": 0, "clear": 0}), Probe: 60, NKeys: 2}, 18)
		}
		Families["refuse-"+kind] = func(name string, r *rand.Rand) *Trace {
			p := fine(r, GeneralParams(r, kind))
			f := Focus{W: weights(map[string]int{"refresh": 30, "put": 25, "delete": 12, "tick": 14, "destroy": 1, "destroytok": 1, "close": 1}), Probe: 85, NKeys: 8, MaxClose: 1, Values: r.Intn(3) == 0, Blow: 25}
			return runGen(name, p, r.Int63(), f, 16)
		}
		Families["ids-"+kind] = func(name string, r *rand.Rand) *Trace {
			p := GeneralParams(r, kind)
			p.Ids = similarIds(r, kind)
			p.Toks = StdToks(p.Ids, 4)
			f := Focus{W: weights(map[string]int{"destroy": 18, "destroytok": 12, "put": 4, "delete": 1, "tick": 6, "close": 0}), Probe: 30, NKeys: 2}
			t := runGen(name, p, r.Int63(), f, 22)
			return t
		}
		Families["scribble-"+kind] = func(name string, r *rand.Rand) *Trace {
			p := GeneralParams(r, kind)
			p.Scribble = true
			f := Focus{W: weights(map[string]int{"get": 20, "put": 25, "create": 22, "tick": 8, "close": 1}), Probe: 50, NKeys: 3, Values: r.Intn(3) > 0, MaxClose: 1, Blow: 15}
			return runGen(name, p, r.Int63(), f, 20)
		}
		Families["close-"+kind] = func(name string, r *rand.Rand) *Trace {
			p := GeneralParams(r, kind)
			f := Focus{W: weights(map[string]int{"close": 14}), Probe: 25, NKeys: 2, MaxClose: 3}
			return runGen(name, p, r.Int63(), f, 22)
		}
		if kind != "redis" {
			// refused operations must not disturb the eviction order or the number of slots
			Families["refcap-"+kind] = func(name string, r *rand.Rand) *Trace {
				p := fine(r, GeneralParams(r, kind))
				p.Opts = append(p.Opts, [2]any{"max", choose(r, 2, 2, 3)})
				f := Focus{W: weights(map[string]int{"create": 34, "refresh": 36, "put": 12, "delete": 2, "get": 2, "tick": 5, "destroy": 1, "destroytok": 2, "close": 0, "clear": 0}), Probe: 30, NKeys: 8, Wrong: 50}
				return runGen(name, p, r.Int63(), f, 20)
			}
			Families["cap-"+kind] = func(name string, r *rand.Rand) *Trace {
				p := fine(r, GeneralParams(r, kind))
				p.Opts = append(p.Opts, [2]any{"max", choose(r, 1, 2, 3)})
				f := Focus{W: weights(map[string]int{"create": 40, "refresh": 16, "put": 4, "delete": 2, "get": 2, "tick": 12, "destroy": 5, "destroytok": 8, "close": 0, "clear": 2}), Probe: 30, NKeys: 2}
				return runGen(name, p, r.Int63(), f, 26)
			}
		}
	}
	Families["reopen-bolt"] = func(name string, r *rand.Rand) *Trace {
		p := fine(r, GeneralParams(r, "bolt"))
		f := Focus{W: weights(map[string]int{"reopen": 12, "close": 0}), Probe: 25, NKeys: choose(r, 2, 8), Values: true}
		return runGen(name, p, r.Int63(), f, 24)
	}
}
