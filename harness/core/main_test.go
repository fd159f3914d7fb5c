package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"testing"
)

// Job is what the driver asks for, in the file named by VERIF_JOB.
type Job struct {
	Out      string         `json:"out"`
	Progress string         `json:"progress"`
	Scratch  string         `json:"scratch"`
	Seed     int64          `json:"seed"`
	Shard    int            `json:"shard"`
	Shards   int            `json:"shards"`
	Families map[string]int `json:"families"`
	Resume   string         `json:"resume"` // go on after this one
	Only     []string       `json:"only"`
	Budget   int            `json:"budget"`
}

func TestJob(t *testing.T) {
	T = t
	if arg := os.Getenv("VERIF_CHILD"); arg != "" {
		Child(arg)
		return
	}
	b, err := os.ReadFile(os.Getenv("VERIF_JOB"))
	if err != nil {
		t.Skip("no job")
	}
	var j Job
	if err := json.Unmarshal(b, &j); err != nil {
		t.Fatal(err)
	}
	Scratch = j.Scratch
	os.MkdirAll(Scratch, 0755)
	if j.Budget > 0 {
		ConcBudget = j.Budget
	}
	debug.SetGCPercent(400)
	only := map[string]bool{}
	for _, s := range j.Only {
		only[s] = true
	}
	outs := map[string]*os.File{}
	defer func() {
		for _, f := range outs {
			f.Close()
		}
	}()
	started := j.Resume == ""
	for _, fam := range sortedKeys(j.Families) {
		f := Families[fam]
		mf := Multi[fam]
		if f == nil && mf == nil {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR: unknown family", fam)
			os.Exit(3)
		}
		for n := j.Shard; n < j.Families[fam]; n += j.Shards {
			name := fmt.Sprintf("%s#%d@%d", fam, n, j.Seed)
			if !started {
				started = name == j.Resume
				continue
			}
			if len(only) > 0 && !only[name] {
				continue
			}
			os.WriteFile(j.Progress, []byte(name), 0644)
			emit := func(tr *Trace) {
				b, err := json.Marshal(tr)
				if err != nil {
					t.Fatal(err)
				}
				o := outs[tr.judge()]
				if o == nil {
					if o, err = os.Create(j.Out + "." + tr.judge()); err != nil {
						t.Fatal(err)
					}
					outs[tr.judge()] = o
				}
				o.Write(append(b, '\n'))
			}
			r := rand.New(rand.NewSource(seedOf(name)))
			if mf != nil {
				mf(name, r, emit)
			} else if tr := f(name, r); tr != nil {
				emit(tr)
			}
		}
	}
	m, _ := filepath.Glob(filepath.Join(Scratch, "*"))
	for _, x := range m {
		os.Remove(x)
	}
	b, _ = json.Marshal(Stats)
	fmt.Println("JOB DONE", string(b))
}

func seedOf(s string) int64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return int64(h.Sum64() >> 1)
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// judge names the specification that judges the trace.
func (tr *Trace) judge() string {
	if tr.Judge != "" {
		return tr.Judge
	}
	for _, e := range tr.Ev {
		if e["op"] == "inv" || e["op"] == "crash" {
			return "conc"
		}
	}
	return "seq"
}
