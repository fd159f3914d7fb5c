// Package race uses the real providers, unchanged, from many goroutines under the race detector.
package race

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"testing"
	"time"

	"vharness/fredis"

	"github.com/go-redis/redis/v8"
	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
	sb "github.com/powerpuffpenguin/sessionid/provider/bolt"
	sr "github.com/powerpuffpenguin/sessionid/provider/redis"
)

func env(k string, d int) int {
	if n, e := strconv.Atoi(os.Getenv(k)); e == nil {
		return n
	}
	return d
}

var kinds = map[string]func(dir string, n int, life, clear time.Duration, max, batch int) (sessionid.Provider, func()){
	"mem": func(dir string, n int, life, clear time.Duration, max, batch int) (sessionid.Provider, func()) {
		return sessionid.NewProvider(sessionid.WithProviderAccess(life), sessionid.WithProviderRefresh(life*2), sessionid.WithProviderClear(clear),
			sessionid.WithProviderMaxSize(max), sessionid.WithProviderCheckBatch(batch)), func() {}
	},
	"bolt": func(dir string, n int, life, clear time.Duration, max, batch int) (sessionid.Provider, func()) {
		p, e := sb.New(sb.WithFilename(filepath.Join(dir, fmt.Sprintf("r%d.db", n))), sb.WithAccess(life), sb.WithRefresh(life*2), sb.WithClear(clear), sb.WithMaxSize(max), sb.WithCheckBatch(batch))
		if e != nil {
			panic(e)
		}
		return p, func() {}
	},
	"redis": func(dir string, n int, life, clear time.Duration, max, batch int) (sessionid.Provider, func()) {
		s := fredis.New()
		cl := redis.NewClient(&redis.Options{Dialer: s.Dial, PoolSize: 16})
		p, e := sr.New(sr.WithClient(cl), sr.WithAccess(life), sr.WithRefresh(life*2), sr.WithCheckBatch(batch))
		if e != nil {
			panic(e)
		}
		return p, s.Shutdown
	},
}

func TestRace(t *testing.T) {
	kind := os.Getenv("VERIF_RACE_KIND")
	if kinds[kind] == nil {
		t.Skip()
	}
	dir, e := os.MkdirTemp(os.Getenv("VERIF_RACE_DIR"), "race")
	if e != nil {
		t.Fatal(e)
	}
	defer os.RemoveAll(dir)
	seed := int64(env("VERIF_RACE_SEED", 1))
	end := time.Now().Add(time.Duration(env("VERIF_RACE_MS", 1000)) * time.Millisecond)
	rounds, ops := 0, 0
	for n := 0; time.Now().Before(end); n++ {
		ops += round(kind, dir, n, rand.New(rand.NewSource(seed*1000+int64(n))))
		rounds++
	}
	fmt.Printf("RACE DONE {\"rounds\":%d,\"operations\":%d}\n", rounds, ops)
}

func round(kind, dir string, n int, r *rand.Rand) int {
	life := []time.Duration{2 * time.Millisecond, 20 * time.Millisecond, time.Second}[r.Intn(3)]
	clear := []time.Duration{0, time.Millisecond, 5 * time.Millisecond}[r.Intn(3)]
	p, done := kinds[kind](dir, n, life, clear, []int{0, 2, 4}[r.Intn(3)], []int{0, 1, 4}[r.Intn(3)])
	defer done()
	m := sessionid.NewManager(sessionid.WithProvider(p), sessionid.WithMethod([]cryptoer.SigningMethod{cryptoer.SigningMethodHMD5, cryptoer.SigningMethodHS256}[r.Intn(2)]),
		sessionid.WithKey([]byte("key")), sessionid.WithCoder(sessionid.JSONCoder{}))
	var mu sync.Mutex
	type pair struct{ a, r string }
	var toks []pair
	some := func(r *rand.Rand) pair {
		mu.Lock()
		defer mu.Unlock()
		if len(toks) == 0 {
			return pair{"u.x.s", "u.y.s"}
		}
		return toks[r.Intn(len(toks))]
	}
	add := func(x pair) {
		mu.Lock()
		if len(toks) > 12 {
			toks = toks[1:]
		}
		toks = append(toks, x)
		mu.Unlock()
	}
	seen := map[string]bool{}
	accept := func(tok string) {
		if _, e := m.Get(context.Background(), tok); e != nil {
			fmt.Printf("RACE VIOLATION C15 the manager refuses its own token %q: %v\n", tok, e)
			os.Exit(7)
		}
		mu.Lock()
		defer mu.Unlock()
		if seen[tok] {
			fmt.Printf("RACE VIOLATION C16 the token %q was issued twice\n", tok)
			os.Exit(7)
		}
		seen[tok] = true
	}
	total := 0
	var wg sync.WaitGroup
	ctx := context.Background()
	steps := 40
	if kind == "bolt" {
		steps = 15
	}
	gs := 6
	for g := 0; g < gs; g++ {
		seed := r.Int63()
		total += steps
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			for i := 0; i < steps; i++ {
				x := some(r)
				switch r.Intn(14) {
				case 0, 1, 2:
					if s, rt, e := m.Create(ctx, fmt.Sprintf("u%d", r.Intn(3)), sessionid.Pair{Key: "k", Value: i}); e == nil {
						accept(s.Token())
						accept(rt)
						add(pair{s.Token(), rt})
					}
				case 3, 4:
					if a, b, e := m.Refresh(ctx, x.a, x.r); e == nil {
						accept(a)
						accept(b)
						add(pair{a, b})
					}
				case 5:
					p.Check(ctx, x.a)
				case 6:
					kv := []sessionid.PairBytes{{Key: "k", Value: []byte("1")}, {Key: "j", Value: []byte("2")}}
					p.Put(ctx, x.a, kv)
					kv[0].Value[0], kv[1].Value[0], kv[0].Key = '3', '4', "z"
				case 7, 8:
					ks := []string{"k", "j"}
					vs, e := p.Get(ctx, x.a, ks)
					ks[0] = "z"
					if e == nil {
						for _, v := range vs {
							for i := range v.Bytes {
								v.Bytes[i]++
							}
						}
					}
				case 9:
					if ks, e := p.Keys(ctx, x.a); e == nil {
						for i := range ks {
							ks[i] = "y"
						}
					}
				case 10:
					p.Delete(ctx, x.a, []string{"k"})
				case 11:
					p.DestroyByToken(ctx, x.a)
				case 12:
					m.Destroy(ctx, fmt.Sprintf("u%d", r.Intn(3)))
				case 13:
					if s, e := m.Get(ctx, x.a); e == nil {
						var v int
						s.Get(ctx, "k", &v)
						s.Put(ctx, sessionid.Pair{Key: "k", Value: v + 1})
					}
					if c, ok := p.(interface{ Clear() error }); ok && r.Intn(4) == 0 {
						c.Clear()
					}
				}
			}
			if g == 0 && r.Intn(2) == 0 {
				p.Close()
			}
		}()
	}
	wg.Wait()
	p.Close()
	return total
}
