package core

import (
	"context"
	"fmt"
	"math/rand"
	"strings"

	"vharness/fredis"
)

// randOpts draws an option list: any lifetimes, in any order and number.
func randOpts(r *rand.Rand, kind string) [][2]any {
	n := r.Intn(6)
	var o [][2]any
	for i := 0; i < n; i++ {
		switch k := r.Intn(10); {
		case k < 4:
			o = append(o, [2]any{"access", choose(r, 1000, 2000, 3000, 5000, 3600000, 7200000, 86400000, 172800000)})
		case k < 8:
			o = append(o, [2]any{"refresh", choose(r, 1000, 2000, 3000, 5000, 3600000, 7200000, 86400000, 172800000)})
		case k < 9 && kind != "redis":
			o = append(o, [2]any{"max", choose(r, -1, 0, 1, 2, 3, -5)})
		default:
			if kind != "redis" {
				o = append(o, [2]any{"clear", choose(r, 0, -1, -1000, 700, 600000)})
			} else {
				o = append(o, [2]any{"batch", choose(r, -1, 0, 3)})
			}
		}
	}
	if _, ref := Meaning(o); ref > 100000 {
		for i := range o {
			if o[i][0] == "clear" && o[i][1] == 700 { // too many sweeps
				o[i][1] = 600000
			}
		}
	}
	return o
}

// calibrate measures what a new provider holds and what one session adds.
func calibrate(p Params) (base, unit int) {
	p.Store, p.Noise, p.Scribble, p.Foreign = nil, nil, false, false
	p.Unit, p.POpts = 0, nil
	p.Opts = [][2]any{{"access", 1000}, {"refresh", 1000}, {"clear", 0}}
	if p.Kind == "redis" {
		p.Opts = p.Opts[:2]
	}
	p.Ids = map[string]string{"u1": "u1"}
	p.Toks = StdToks(p.Ids, 2)
	w := NewWorld("calibrate", p, 1)
	InBubble(w, func() {
		w.Open()
		base = w.Footprint(0)
		w.Do(Op{Op: "create", A: "u1/a1", R: "u1/r1", KV: [][2]string{{"k1", "v"}}})
		if w.Dead {
			return
		}
		unit = w.Footprint(0) - base
		w.Do(Op{Op: "destroytok", A: "u1/a1"})
		if w.Dead {
			return
		}
		if n := w.Footprint(0); n > base {
			base = n // something is made on first use
		}
		w.Finish()
	})
	if unit < 1 {
		unit = 1
	}
	return
}

func (w *World) foot(p, base, unit int, held bool) {
	if w.Dead {
		return
	}
	w.Add(Ev{"op": "foot", "p": p + 1, "n": w.Footprint(p), "base": base, "unit": unit, "slack": 0, "held": held})
}

func runFoot(name string, p Params, seed int64, f Focus, steps int) *Trace {
	base, unit := calibrate(p)
	w := NewWorld(name, p, seed)
	InBubble(w, func() {
		w.Open()
		g := NewGen(w, f)
		for i := 0; i < steps && !w.Dead; i++ {
			g.Step()
			if g.pct(60) {
				w.foot(0, base, unit, true)
			}
		}
		if !w.Dead {
			// everything ends: what is left must be found by the sweep, or by an operation that stumbles on it
			w.TickTo(w.NowMS() + g.refL + 1)
			if c, ok := w.opt("clear"); (!ok || c > 0) && p.Kind != "redis" && g.pct(60) {
				if !ok {
					c = 600000
				}
				w.TickTo(w.NowMS() + c + 1)
			} else {
				for _, x := range append(append([]pairInfo(nil), g.live...), g.old...) {
					w.Do(Op{Op: choose(g.r, "check", "keys"), A: x.a})
				}
			}
			w.foot(0, base, unit, true)
		}
		w.Finish()
	})
	return w.Tr
}

// similar pairs of names for stores on one back end; neither of a pair is a beginning of the other.
var prefixPairs = [][]string{{"pfx1.", "pfx2."}, {"a*b.", "axb."}, {"[ab].", "a."}, {"a?.", "ab."}, {"\\*.", "*."}, {"S.", "s."}, {"x.a.", "x.b."}, {"one:", "two:"}, {"*", "pfx"},
	{" x.", "x."}, {"x\t", "x\n"}, {"x \t", "x \n"}, {"a\x00b.", "a\x00c."}, {"\xff.", "\xfe."}, {"%31.", "1."}, {"\"p\".", "p."}, {long(90) + "1.", long(90) + "2."}}
var bucketPairs = [][]string{{"b1", "b2"}, {"b", "b1"}, {"data", "metadata"}, {"sessionid", "Sessionid"}, {"\x00", "\x00\x00"}, {"b1", "b1/ids"},
	{"b", "b "}, {" b", "b"}, {"\xff", "\xfe"}, {"b\x00", "b"}, {long(20), long(21)}, {long(90) + "1", long(90) + "2"}}

// long names differ from others at the end only.
func long(n int) string { return strings.Repeat("long", n) }

// faultModes: the connection is lost before or after a command, or an error is answered.
var faultModes = []string{"before", "after", "after", "ERR injected", "OOM command not allowed when used memory > 'maxmemory'.", "READONLY You can't write against a read only replica.", "LOADING Redis is loading the dataset in memory"}

// doFault performs o while faults strike.
func (w *World) doFault(r *rand.Rand, o Op) {
	if o.Op == "tick" || w.Dead {
		w.Do(o)
		return
	}
	if r.Intn(12) == 0 {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		w.DoCtx(ctx, o, func() bool { return true })
		return
	}
	var fs []fredis.Fault
	for i := 0; i < 1+r.Intn(2); i++ {
		fs = append(fs, fredis.Fault{At: 1 + r.Intn(choose(r, 3, 5, 10)), Mode: choose(r, faultModes...), Queue: r.Intn(5) == 0})
	}
	if r.Intn(6) == 0 { // a mode that goes on: every try fails
		m := choose(r, faultModes...)
		n := 1 + r.Intn(3)
		fs = nil
		for i := n; i < n+12; i++ {
			fs = append(fs, fredis.Fault{At: i, Mode: m})
		}
	}
	w.FR.Arm(fs...)
	w.DoCtx(context.Background(), o, func() bool { return w.FR.Fired() > 0 })
	w.FR.Arm()
}

func runFault(name string, p Params, seed int64, f Focus, steps int) *Trace {
	p.blowUp(rand.New(rand.NewSource(seed)), 10)
	base, unit := calibrate(p)
	w := NewWorld(name, p, seed)
	w.Tr.Judge = "conc"
	InBubble(w, func() {
		w.Open()
		g := NewGen(w, f)
		g.do = func(o Op) *Result {
			if g.pct(45) {
				w.doFault(g.r, o)
				return &Result{Res: w.lastRes()}
			}
			return w.Do(o)
		}
		for i := 0; i < steps && !w.Dead; i++ {
			g.Step()
		}
		if !w.Dead {
			for i := range w.Provs {
				g.Probe(i, 8)
			}
			w.TickTo(w.NowMS() + 2*g.refL + 10)
			w.foot(0, base, unit, false)
		}
		w.Finish()
	})
	return w.Tr
}

func (w *World) lastRes() string {
	for i := len(w.Tr.Ev) - 1; i >= 0; i-- {
		if r, ok := w.Tr.Ev[i]["res"].(string); ok {
			return r
		}
	}
	return ""
}

func init() {
	for _, kind := range []string{"mem", "bolt", "redis"} {
		kind := kind
		Families["opts-"+kind] = func(name string, r *rand.Rand) *Trace {
			p := GeneralParams(r, kind)
			p.Opts = randOpts(r, kind)
			p.Foreign = false
			p.Tags = []string{"C19"}
			p.OwnFile = false
			for i := 0; i < r.Intn(4); i++ {
				p.Noise = append(p.Noise, append(randOpts(r, kind), [2]any{"clear", 600000}))
			}
			f := Focus{W: weights(map[string]int{"create": 30, "tick": 36, "refresh": 20, "put": 3, "delete": 1, "destroy": 1, "destroytok": 2, "close": 0, "clear": 0}), Probe: 45, NKeys: 2, OneKey: true}
			if r.Intn(3) == 0 {
				return runFoot(name, p, r.Int63(), f, 14)
			}
			return runGen(name, p, r.Int63(), f, 16)
		}
		Families["foot-"+kind] = func(name string, r *rand.Rand) *Trace {
			p := GeneralParams(r, kind)
			p.OwnFile = false
			p.Foreign = false
			p.Ids = map[string]string{}
			for i := 1; i <= 7; i++ {
				p.Ids[fmt.Sprintf("u%d", i)] = fmt.Sprintf("u%d", i)
			}
			p.Toks = StdToks(p.Ids, 3)
			f := Focus{W: weights(map[string]int{"create": 36, "refresh": 18, "tick": 14, "put": 6, "delete": 3, "destroy": 9, "destroytok": 9, "close": 0, "clear": 1}), Probe: 10, NKeys: 2, OneKey: true}
			if kind == "bolt" && r.Intn(3) == 0 {
				f.W["reopen"] = 7
			}
			return runFoot(name, p, r.Int63(), f, 26)
		}
		if kind != "mem" {
			Families["ns-"+kind] = func(name string, r *rand.Rand) *Trace {
				p := GeneralParams(r, kind)
				p.OwnFile = false
				p.Foreign = true
				p.Store = []int{1, 2}
				p.Prefixes = choose(r, prefixPairs...)
				p.Buckets = choose(r, bucketPairs...)
				if r.Intn(2) == 0 {
					p.Prefixes = []string{p.Prefixes[1], p.Prefixes[0]}
					p.Buckets = []string{p.Buckets[1], p.Buckets[0]}
				}
				p.Tags = []string{"C20"}
				if r.Intn(3) == 0 {
					p.differ(r)
				}
				if r.Intn(2) == 0 {
					p.Ids = similarIds(r, kind)
					p.Toks = StdToks(p.Ids, 4)
				}
				f := Focus{W: weights(map[string]int{"create": 30, "destroy": 12, "destroytok": 8, "clear": 7, "reopen": 3, "close": 1}), Probe: 40, NKeys: 8, MaxClose: 1, Values: r.Intn(2) == 0}
				return runGen(name, p, r.Int63(), f, 26)
			}
		}
	}
	// sessions that live for ever, or nearly so
	for _, kind := range []string{"mem", "bolt", "redis"} {
		kind := kind
		Families["forever-"+kind] = func(name string, r *rand.Rand) *Trace {
			p := GeneralParams(r, kind)
			ever := Forever + r.Intn(3)
			o := p.Opts[2:]
			p.Opts = append(choose(r, [][2]any{{"refresh", ever}}, [][2]any{{"access", 1000}, {"refresh", ever}}, [][2]any{{"access", ever}},
				[][2]any{{"access", ever}, {"refresh", 3000}}, [][2]any{{"access", 2000}, {"refresh", ever}}, [][2]any{{"refresh", ever}, {"access", ever}}), o...)
			p.Tags = []string{"C02", "C19"}
			f := Focus{W: weights(map[string]int{"create": 25, "tick": 25, "refresh": 20, "put": 5, "delete": 2, "destroy": 2, "destroytok": 2, "close": 0}), Probe: 45, NKeys: 2}
			if kind == "bolt" {
				f.W["reopen"] = 8
			}
			return runGen(name, p, r.Int63(), f, 16)
		}
	}
	// several providers of one server that differ in their lifetimes
	Families["clients-redis"] = func(name string, r *rand.Rand) *Trace {
		p := fine(r, GeneralParams(r, "redis"))
		p.Store = choose(r, []int{1, 1}, []int{1, 1, 1})
		p.differ(r)
		p.Tags = []string{"C19"}
		f := Focus{W: weights(map[string]int{"create": 25, "tick": 34, "refresh": 26, "put": 5, "delete": 2, "destroy": 1, "destroytok": 2, "close": 0}), Probe: 50, NKeys: 2}
		return runGen(name, p, r.Int63(), f, 20)
	}
	Families["fault-redis"] = func(name string, r *rand.Rand) *Trace {
		p := GeneralParams(r, "redis")
		p.Foreign = false
		p.Tags = []string{"C13"}
		if r.Intn(3) == 0 {
			p.Store = []int{1, 1}
			if r.Intn(2) == 0 {
				p.differ(r)
			}
		}
		f := Focus{W: weights(map[string]int{"refresh": 24, "put": 20, "create": 20, "delete": 12, "get": 14, "keys": 10, "check": 6, "destroy": 6, "tick": 8, "close": 0}), Probe: 70, NKeys: 3}
		return runFault(name, p, r.Int63(), f, 16)
	}
}
