package core

import "math/rand"

// A bolt store that is opened again with a shorter refresh lifetime: the order of the sessions is then not the order in
// which they die.  The two executions here are fixed; they are the known findings about it.

func shrunk(name string, opts1, opts2 [][2]any, rest func(w *World)) *Trace {
	p := Params{Kind: "bolt", Ids: map[string]string{"u1": "u1", "u2": "u2", "u3": "u3"}, Opts: opts1}
	p.Toks = StdToks(p.Ids, 1)
	w := NewWorld(name, p, 1)
	InBubble(w, func() {
		w.Open()
		w.Do(Op{Op: "create", A: "u1/a1", R: "u1/r1", KV: [][2]string{{"k1", "v"}}})
		w.Do(Op{Op: "close"})
		w.P.POpts = [][][2]any{opts2}
		w.OpenProv(0)
		w.Add(Ev{"op": "reopen", "p": 1, "res": "ok", "opts": opts2})
		w.Do(Op{Op: "create", A: "u2/a1", R: "u2/r1", KV: [][2]string{{"k1", "v"}}})
		w.TickTo(5000) // the second session is dead, the first one is not
		rest(w)
		w.Finish()
	})
	return w.Tr
}

func init() {
	long := [2]any{"refresh", 100000}
	short := [2]any{"refresh", 2000}
	acc := [2]any{"access", 90000}
	Families["shrunkcap-bolt"] = func(name string, r *rand.Rand) *Trace {
		cap := [2]any{"max", 2}
		none := [2]any{"clear", 0}
		return shrunk(name, [][2]any{acc, long, cap, none}, [][2]any{acc, short, cap, none}, func(w *World) {
			w.Do(Op{Op: "create", A: "u3/a1", R: "u3/r1"})
			w.Do(Op{Op: "check", A: "u1/a1"})
		})
	}
	Families["shrunksweep-bolt"] = func(name string, r *rand.Rand) *Trace {
		sweep := [2]any{"clear", 700}
		o := [][2]any{acc, long, sweep}
		base, unit := calibrate(Params{Kind: "bolt", Ids: map[string]string{"u1": "u1"}, Toks: StdToks(map[string]string{"u1": "u1"}, 1), Opts: o})
		return shrunk(name, o, [][2]any{acc, short, sweep}, func(w *World) { w.foot(0, base, unit, false) })
	}
}
