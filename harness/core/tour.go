package core

import (
	"bufio"
	"encoding/json"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Tours through the state graphs of StoreMC.tla, made by lib/tours.py.

type tourStep struct {
	Op string      `json:"op"`
	A  string      `json:"a"`
	R  string      `json:"r"`
	NA string      `json:"na"`
	NR string      `json:"nr"`
	Id string      `json:"id"`
	KV [][2]string `json:"kv"`
	Ks []string    `json:"ks"`
}
type tour struct {
	Graph string     `json:"graph"`
	Kinds []string   `json:"kinds"`
	Max   int        `json:"max"`
	Acc   int        `json:"acc"`
	Ref   int        `json:"ref"`
	Steps []tourStep `json:"steps"`
}

var tourLines = map[string][]string{}
var tourOnce sync.Once

func loadTours() {
	dir := os.Getenv("VERIF_TOURS")
	fs, _ := filepath.Glob(filepath.Join(dir, "*.ndjson"))
	sort.Strings(fs)
	for _, fn := range fs {
		f, e := os.Open(fn)
		if e != nil {
			panic(harnessErr{e.Error()})
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<24)
		for sc.Scan() {
			l := sc.Text()
			head := l[:strings.Index(l, "]")]
			for _, k := range []string{"mem", "bolt", "redis"} {
				if strings.Contains(head, `"`+k+`"`) {
					group := strings.TrimRight(strings.SplitN(filepath.Base(fn), ".", 2)[0], "0123456789")
					group = strings.SplitN(group, "-", 2)[0]
					tourLines[group+"-"+k] = append(tourLines[group+"-"+k], l)
				}
			}
		}
		f.Close()
	}
}

// TourTrace executes a tour; the numbers of a family go through all tours in an order drawn from the seed.
func tourTrace(name, group, kind string, r *rand.Rand) *Trace {
	tourOnce.Do(loadTours)
	ls := tourLines[group+"-"+kind]
	if len(ls) == 0 {
		panic(harnessErr{"no tours for " + kind})
	}
	n, seed := numberOf(name)
	perm := rand.New(rand.NewSource(seed)).Perm(len(ls))
	var t tour
	if e := json.Unmarshal([]byte(ls[perm[n%len(ls)]]), &t); e != nil {
		panic(harnessErr{e.Error()})
	}
	u, v := "u", "v"
	if r.Intn(2) == 0 {
		all := []string{"u", "v", "v*", "*", "vu", "u?", "[uv]", "uu", "U", "\xe4\xbd\xa0", "-"}
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		u, v = all[0], all[1]
	}
	p := Params{Kind: kind, Ids: map[string]string{"u": u, "v": v}, MetaKey: "meta", Unit: time.Millisecond}
	p.Opts = [][2]any{{"access", 1000 * t.Acc}, {"refresh", 1000 * t.Ref}, {"batch", choose(r, 0, 1, 2, 128)}}
	if kind != "redis" {
		p.Opts = append(p.Opts, [2]any{"max", t.Max}, [2]any{"clear", choose(r, 0, 0, 700, 1000, 1500, 600000)})
	}
	if kind == "bolt" {
		p.OwnFile = r.Intn(2) == 0
	}
	id := func(s string) string {
		if s == "u" {
			return u
		} else if s == "v" {
			return v
		}
		return s
	}
	p.Toks = map[string]string{"bad": choose(r, "", "x", u+".y", ".", "y."+v)}
	for _, s := range []string{"a1", "a2", "a3", "r1", "r2"} {
		p.Toks[s] = u + "." + s + ".sig"
	}
	for _, s := range []string{"b1", "b2", "s1"} {
		p.Toks[s] = v + "." + s + ".sig"
	}
	p.Ids["w"] = id("w")
	probe := choose(r, 0, 20, 100)
	reopen := kind == "bolt" && r.Intn(2) == 0
	w := NewWorld(name, p, r.Int63())
	InBubble(w, func() {
		w.Open()
		closed := false
		look := func(all bool) {
			for _, a := range []string{"a1", "a2", "a3", "b1", "b2"} {
				if w.Dead || !all && r.Intn(2) == 0 {
					continue
				}
				w.Do(Op{Op: "get", A: a, Ks: []string{"k", "l"}})
				if r.Intn(3) == 0 {
					w.Do(Op{Op: "keys", A: a})
				}
			}
		}
		for _, s := range t.Steps {
			if w.Dead {
				break
			}
			if s.Op == "tick" {
				w.TickTo(w.NowMS() + 1000)
			} else {
				w.Do(Op{Op: s.Op, A: s.A, R: s.R, NA: s.NA, NR: s.NR, ID: s.Id, KV: s.KV, Ks: s.Ks})
			}
			closed = closed || s.Op == "close"
			if reopen && !closed && r.Intn(12) == 0 && !w.Dead {
				w.Reopen(0)
			}
			if probe > 0 && r.Intn(100) < probe && s.Op != "check" && s.Op != "get" && s.Op != "keys" {
				look(probe == 100 && r.Intn(2) == 0)
			}
		}
		if !w.Dead {
			look(true)
		}
		w.Finish()
	})
	return w.Tr
}

func init() {
	for _, kind := range []string{"mem", "bolt", "redis"} {
		kind := kind
		for _, group := range []string{"auth", "data", "cap", "close"} {
			group := group
			Families["tour-"+group+"-"+kind] = func(name string, r *rand.Rand) *Trace { return tourTrace(name, group, kind, r) }
		}
	}
}

// numberOf splits "family#n@seed".
func numberOf(name string) (n int, seed int64) {
	i, j := strings.IndexByte(name, '#'), strings.IndexByte(name, '@')
	n, _ = strconv.Atoi(name[i+1 : j])
	seed, _ = strconv.ParseInt(name[j+1:], 10, 64)
	return
}
