// Package core drives the real providers of powerpuffpenguin/sessionid and records what they do.
// It never judges: every trace is judged by the TLA+ specifications in /verif/spec.
package core

import (
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"testing/synctest"
	"time"
	"unsafe"

	"vharness/fredis"

	bolt "github.com/boltdb/bolt"
	"github.com/go-redis/redis/v8"
	"github.com/powerpuffpenguin/sessionid"
	sb "github.com/powerpuffpenguin/sessionid/provider/bolt"
	sr "github.com/powerpuffpenguin/sessionid/provider/redis"
)

// Ev is one recorded event.
type Ev map[string]any

type TokInfo struct {
	Id string `json:"id"`
	Ok bool   `json:"ok"`
}

type Cfg struct {
	Kind   string     `json:"kind"`
	Opts   [][2]any   `json:"opts"`
	Popts  [][][2]any `json:"popts,omitempty"` // of every provider, if they differ
	Store  []int      `json:"store"`           // provider -> store
	Stores int        `json:"stores"`          // number of stores
	Rejk   []string   `json:"rejk"`
	Mayk   []string   `json:"mayk"`
	Mayid  []string   `json:"mayid"`
	Tags   []string   `json:"tags"`
	Mgrs   []string   `json:"mgrs"` // manager -> name of its method and key
	Sec    int        `json:"sec"`  // one second in the time unit of the trace
}

type Trace struct {
	Name  string             `json:"name"`
	Cfg   Cfg                `json:"cfg"`
	Tok   map[string]TokInfo `json:"tok"`
	Ev    []Ev               `json:"ev"`
	Dec   map[string]Dec     `json:"dec,omitempty"` // "value|type" -> what decoding gives
	Judge string             `json:"-"`             // seq, conc, tok, cache
}

// Params describe the providers of a world.
type Params struct {
	Kind     string
	Opts     [][2]any
	Store    []int      // nil: one provider, one store
	POpts    [][][2]any `json:",omitempty"` // option lists of the providers, if they differ
	OwnFile  bool       // bolt: the provider opens (and closes) the database itself
	MetaKey  string
	Buckets  []string // bolt: bucket of each store
	Prefixes []string // redis: prefix of each store
	Ids      map[string]string
	Toks     map[string]string // symbol -> real token
	Tags     []string
	Scribble bool
	Foreign  bool
	// Strangers is the number of other keys on the server
	Strangers int           `json:",omitempty"`
	Blow      int           `json:",omitempty"` // number of keys each key of the trace stands for
	Unit      time.Duration // of all times, 0: a millisecond
	Noise     [][][2]any    // option lists of other providers opened before and after
}

type retained struct {
	b    []byte
	copy string
	what string
}

type World struct {
	P         Params
	Tr        *Trace
	Provs     []sessionid.Provider
	Start     time.Time
	ProvStart time.Time
	FR        *fredis.Server
	DB        *bolt.DB
	Path      string
	Rng       *rand.Rand
	Dead      bool // a hang or crash happened: stop
	kept      []retained
	lists     []keptList
	foreign0  string
	Clients   []*redis.Client
	Noise     []sessionid.Provider
	disk      *disk
}

var Scratch = "/dev/shm"
var worldSeq int

func (w *World) opt(name string) (int64, bool) {
	var v int64
	ok := false
	for _, o := range w.optsOf(0) {
		if o[0].(string) == name {
			v, ok = toInt(o[1]), true
		}
	}
	return v, ok
}
func toInt(x any) int64 {
	switch v := x.(type) {
	case int:
		return int64(v)
	case int64:
		return v
	case float64:
		return int64(v)
	}
	panic(fmt.Sprintf("toInt %T", x))
}

// unit is the time unit of the world that runs.
var unit = time.Millisecond

// EmptyMeta stands for the metadata key "".
const EmptyMeta = "(empty)"

// Forever and the few numbers after it stand for the longest durations there are.
const Forever = 1000000000

func ms(x any) time.Duration {
	if v := toInt(x); v >= Forever {
		return math.MaxInt64 >> min(v-Forever, 3)
	}
	return time.Duration(toInt(x)) * unit
}

func NewWorld(name string, p Params, seed int64) *World {
	if p.Store == nil {
		p.Store = []int{1}
	}
	stores := 0
	for _, s := range p.Store {
		if s > stores {
			stores = s
		}
	}
	if p.Unit == 0 {
		p.Unit = time.Millisecond
	}
	switch p.MetaKey {
	case "":
		p.MetaKey = "__private_provider_redis"
	case EmptyMeta:
		p.MetaKey = ""
	}
	for len(p.Buckets) < stores {
		p.Buckets = append(p.Buckets, fmt.Sprintf("bucket%d", len(p.Buckets)))
	}
	for len(p.Prefixes) < stores {
		p.Prefixes = append(p.Prefixes, fmt.Sprintf("pfx%d.", len(p.Prefixes)))
	}
	w := &World{P: p, Rng: rand.New(rand.NewSource(seed))}
	w.Tr = &Trace{Name: name, Tok: map[string]TokInfo{}, Cfg: Cfg{Kind: p.Kind, Opts: p.Opts, Popts: p.POpts, Store: p.Store, Stores: stores,
		Rejk: []string{}, Mayk: []string{}, Mayid: []string{}, Tags: p.Tags, Mgrs: []string{}, Sec: max(1, int(time.Second/p.Unit))}}
	if w.Tr.Cfg.Opts == nil {
		w.Tr.Cfg.Opts = [][2]any{}
	}
	if w.Tr.Cfg.Tags == nil {
		w.Tr.Cfg.Tags = []string{}
	}
	switch p.Kind {
	case "redis":
		w.Tr.Cfg.Rejk = []string{sym([]byte(p.MetaKey))}
	case "bolt":
		w.Tr.Cfg.Mayk = []string{"", sym([]byte(BigKey))}
		w.Tr.Cfg.Mayid = []string{""}
	}
	inv := map[string]string{}
	for s, real := range p.Ids {
		inv[real] = s
	}
	seen := map[string]string{}
	for s, real := range p.Toks {
		if o, ok := seen[real]; ok {
			panic("harness: one token, two symbols: " + o + " " + s)
		}
		seen[real] = s
		id, _, _, e := split(real)
		ti := TokInfo{Ok: e == nil, Id: "-"}
		if e == nil {
			ti.Id = inv[id]
			if _, ok := inv[id]; !ok {
				ti.Id = "id:" + sym([]byte(id))
			}
			if id == "" {
				w.Tr.Cfg.Mayid = append(w.Tr.Cfg.Mayid, ti.Id)
			}
		}
		w.Tr.Tok[s] = ti
	}
	return w
}

// BigKey is longer than bolt accepts.
var BigKey = strings.Repeat("K", 33000)

// split is the harness' own reading of the token grammar: id '.' anything '.' signature.
func split(token string) (id, sid, sig string, e error) {
	i := strings.LastIndexByte(token, '.')
	j := strings.IndexByte(token, '.')
	if i < 0 || i == j {
		return "", "", "", errors.New("not a token")
	}
	return token[:j], token[j+1 : i], token[i+1:], nil
}

func sym(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	ok := len(b) <= 40
	for _, c := range b {
		if c < 32 || c > 126 || c == '"' || c == '\\' {
			ok = false
			break
		}
	}
	if ok {
		return string(b)
	}
	h := sha1.Sum(b)
	return fmt.Sprintf("#%s:%d", hex.EncodeToString(h[:6]), len(b))
}

// Open starts the providers. Call inside a bubble.
func (w *World) Open() {
	w.Start = time.Now()
	switch w.P.Kind {
	case "redis":
		w.FR = fredis.New()
	case "bolt":
		worldSeq++
		w.Path = filepath.Join(Scratch, fmt.Sprintf("w%d.db", worldSeq))
		os.Remove(w.Path)
		if !w.P.OwnFile {
			w.openDB()
		}
	}
	if w.P.Foreign {
		w.plantForeign()
	}
	for i, o := range w.P.Noise {
		if i%2 == 0 {
			w.noise(o, i)
		}
	}
	for i := range w.P.Store {
		w.Provs = append(w.Provs, nil)
		if e := w.OpenProv(i); e != nil {
			w.Provs[i] = noProvider{e}
		}
	}
	for i, o := range w.P.Noise {
		if i%2 == 1 {
			w.noise(o, i)
		}
	}
	if w.P.Foreign {
		w.foreign0 = w.foreignDump()
	}
}
func (w *World) openDB() {
	db, e := bolt.Open(w.Path, 0600, &bolt.Options{Timeout: time.Second})
	if e != nil {
		panic(harnessErr{e.Error()})
	}
	w.DB = db
}

// noProvider stands for a provider that could not be opened: nothing works.
type noProvider struct{ e error }

func (p noProvider) Create(context.Context, string, string, []sessionid.PairBytes) error { return p.e }
func (p noProvider) Destroy(context.Context, string) error                               { return p.e }
func (p noProvider) DestroyByToken(context.Context, string) error                        { return p.e }
func (p noProvider) Check(context.Context, string) error                                 { return p.e }
func (p noProvider) Put(context.Context, string, []sessionid.PairBytes) error            { return p.e }
func (p noProvider) Get(context.Context, string, []string) ([]sessionid.Value, error) {
	return nil, p.e
}
func (p noProvider) Keys(context.Context, string) ([]string, error)                { return nil, p.e }
func (p noProvider) Delete(context.Context, string, []string) error                { return p.e }
func (p noProvider) Refresh(context.Context, string, string, string, string) error { return p.e }
func (p noProvider) Clear() error                                                  { return p.e }
func (p noProvider) Close() error                                                  { return p.e }

type harnessErr struct{ s string }

// noise opens a provider the trace does not speak about, with options of its own; on bolt and redis it shares the
// back end, in a bucket or under a prefix of its own.
func (w *World) noise(opts [][2]any, n int) {
	var p sessionid.Provider
	switch w.P.Kind {
	case "mem":
		p = sessionid.NewProvider(memOpts(opts)...)
	case "bolt":
		if w.DB == nil {
			return
		}
		q, e := sb.New(append(boltOpts(opts), sb.WithDB(w.DB), sb.WithBucket([]byte(fmt.Sprintf("noise%d", n))))...)
		if e != nil {
			panic(harnessErr{e.Error()})
		}
		p = q
	case "redis":
		cl := w.NewClient()
		w.Clients = append(w.Clients, cl)
		q, e := sr.New(append(redisOpts(opts), sr.WithClient(cl), sr.WithKeyPrefix(fmt.Sprintf("noise%d:", n)), sr.WithMetadataKey(fmt.Sprintf("noise%d", n)))...)
		if e != nil {
			panic(harnessErr{e.Error()})
		}
		p = q
	}
	w.Noise = append(w.Noise, p)
}

// optsOf is the option list of provider i.
func (w *World) optsOf(i int) [][2]any {
	if w.P.POpts != nil {
		return w.P.POpts[i]
	}
	return w.P.Opts
}

// change gives provider i other options, with which it is opened again.  The refresh lifetime is not shortened and the
// maximum size not made smaller than the store may be: see the known findings.
func (w *World) change(i int) [][2]any {
	r := w.Rng
	old := w.optsOf(i)
	acc, ref := Meaning(old)
	size, clear, made := int64(0), int64(600000), int64(1)
	for _, o := range old {
		switch o[0] {
		case "max":
			size = max(0, toInt(o[1]))
		case "clear":
			clear = toInt(o[1])
		}
	}
	for _, e := range w.Tr.Ev {
		if e["op"] == "create" {
			made++
		}
		if x, ok := e["e"].(Ev); ok && x["op"] == "create" {
			made++
		}
	}
	if size > 0 {
		size = choose(r, size, size, size+1, size+2, 0)
	} else {
		size = choose(r, 0, made, made+1)
	}
	if ref < Forever {
		ref = choose(r, ref, ref+1000, 2*ref)
	}
	if acc < Forever {
		acc = choose(r, acc, max(1, acc/2), ref, min(ref, 2*acc))
	}
	clear = choose(r, clear, clear, 0)
	o := [][2]any{{"access", acc}, {"refresh", ref}, {"max", size}, {"clear", clear}, {"batch", choose(r, 0, 1, 2, 128)}}
	w.POptsInit()
	w.P.POpts[i] = o
	return o
}

// POptsInit gives every provider an option list of its own.
func (w *World) POptsInit() {
	all := [][][2]any{}
	for i := range w.P.Store {
		all = append(all, w.optsOf(i))
	}
	w.P.POpts = all
}

// differ gives the providers other lifetimes than one another.
func (p *Params) differ(r *rand.Rand) {
	all := [][][2]any{p.Opts}
	for i := 1; i < len(p.Store); i++ {
		acc, ref := Meaning(p.Opts)
		ref = choose(r, ref, ref+500, 2*ref, max(1, ref/2))
		acc = min(ref, choose(r, acc, 2*acc, max(1, acc/2)))
		o := append([][2]any(nil), p.Opts...)
		all = append(all, append(o, [2]any{"access", acc}, [2]any{"refresh", ref}))
	}
	p.POpts = all
}

// OpenProv builds provider i.
func (w *World) OpenProv(i int) error {
	w.ProvStart = time.Now()
	st := w.P.Store[i] - 1
	switch w.P.Kind {
	case "mem":
		w.Provs[i] = sessionid.NewProvider(memOpts(w.optsOf(i))...)
	case "bolt":
		o := boltOpts(w.optsOf(i))
		if w.P.OwnFile {
			o = append(o, sb.WithFilename(w.Path), sb.WithTimeout(time.Second))
		} else {
			o = append(o, sb.WithDB(w.DB))
		}
		o = append(o, sb.WithBucket([]byte(w.P.Buckets[st])))
		p, e := sb.New(o...)
		if e != nil {
			return e
		}
		w.Provs[i] = p
	case "redis":
		o := redisOpts(w.optsOf(i))
		cl := w.NewClient()
		w.Clients = append(w.Clients, cl)
		o = append(o, sr.WithClient(cl), sr.WithKeyPrefix(w.P.Prefixes[st]), sr.WithMetadataKey(w.P.MetaKey))
		p, e := sr.New(o...)
		if e != nil {
			return e
		}
		w.Provs[i] = p
	}
	return nil
}

func (w *World) NewClient() *redis.Client {
	return redis.NewClient(&redis.Options{IdleCheckFrequency: -1, IdleTimeout: -1, Dialer: w.FR.Dial, PoolSize: 16,
		MinRetryBackoff: -1, MaxRetryBackoff: -1, ReadTimeout: -1, WriteTimeout: -1})
}

func memOpts(opts [][2]any) (out []sessionid.ProviderOption) {
	for _, o := range opts {
		switch o[0].(string) {
		case "access":
			out = append(out, sessionid.WithProviderAccess(ms(o[1])))
		case "refresh":
			out = append(out, sessionid.WithProviderRefresh(ms(o[1])))
		case "max":
			out = append(out, sessionid.WithProviderMaxSize(int(toInt(o[1]))))
		case "batch":
			out = append(out, sessionid.WithProviderCheckBatch(int(toInt(o[1]))))
		case "clear":
			out = append(out, sessionid.WithProviderClear(ms(o[1])))
		}
	}
	return
}
func boltOpts(opts [][2]any) (out []sb.Option) {
	for _, o := range opts {
		switch o[0].(string) {
		case "access":
			out = append(out, sb.WithAccess(ms(o[1])))
		case "refresh":
			out = append(out, sb.WithRefresh(ms(o[1])))
		case "max":
			out = append(out, sb.WithMaxSize(int(toInt(o[1]))))
		case "batch":
			out = append(out, sb.WithCheckBatch(int(toInt(o[1]))))
		case "clear":
			out = append(out, sb.WithClear(ms(o[1])))
		}
	}
	return
}
func redisOpts(opts [][2]any) (out []sr.Option) {
	for _, o := range opts {
		switch o[0].(string) {
		case "access":
			out = append(out, sr.WithAccess(ms(o[1])))
		case "refresh":
			out = append(out, sr.WithRefresh(ms(o[1])))
		case "batch":
			out = append(out, sr.WithCheckBatch(int(toInt(o[1]))))
		}
	}
	return
}

// Op is one operation to perform; arguments are symbols.
type Op struct {
	Op           string
	P            int // provider, 0-based
	A, R, NA, NR string
	ID           string
	KV           [][2]string // key, value (real strings); value "\x00nil" is a nil slice
	Ks           []string
	At           int64 // tick: absolute ms since start
}

const NilValue = "\x00nil"

func class(e error) string {
	if sessionid.IsTokenExpired(e) != errors.Is(e, sessionid.ErrTokenExpired) {
		return "err" // what callers ask by does not tell the truth
	}
	switch {
	case e == nil:
		return "ok"
	case errors.Is(e, sessionid.ErrTokenInvalid):
		return "invalid"
	case errors.Is(e, sessionid.ErrTokenNotExists):
		return "notexists"
	case errors.Is(e, sessionid.ErrTokenExpired):
		return "expired"
	case errors.Is(e, sessionid.ErrTokenIDNotMatched):
		return "idmis"
	case errors.Is(e, sessionid.ErrRefreshTokenNotMatched):
		return "refmis"
	case errors.Is(e, sessionid.ErrProviderClosed):
		return "closed"
	}
	return "err"
}

func (w *World) tok(s string) string {
	r, ok := w.P.Toks[s]
	if !ok {
		panic(harnessErr{"unknown token symbol " + s})
	}
	return r
}
func (w *World) id(s string) string {
	r, ok := w.P.Ids[s]
	if !ok {
		panic(harnessErr{"unknown id symbol " + s})
	}
	return r
}

// Result of a raw call.
type Result struct {
	Err  error
	Vals []sessionid.Value
	Keys []string
	Res  string
	Info string
	// the answers as they came
	rawVals []sessionid.Value
	rawKeys []string
	// the bytes of the caller changed during the call
	Spoilt bool
}

// arena holds all the values of a call, with other bytes of the caller in between.
// The list of pairs has room behind it that belongs to the caller, too.
type arena struct {
	now, was []byte
	kv       []sessionid.PairBytes
	want     []sessionid.PairBytes
}

func (w *World) arena(kv []sessionid.PairBytes) (_ []sessionid.PairBytes, a arena) {
	if !w.P.Scribble || kv == nil {
		return kv, a
	}
	l := make([]sessionid.PairBytes, len(kv)+3)
	copy(l, kv)
	for i := len(kv); i < len(l); i++ {
		l[i] = sessionid.PairBytes{Key: "behind", Value: []byte("behind")}
	}
	kv = l[:len(kv)]
	defer func() { a.kv, a.want = l, append([]sessionid.PairBytes(nil), l...) }()
	n := 0
	for _, p := range kv {
		n += len(p.Value) + 5
	}
	a.now = make([]byte, n)
	for i := range a.now {
		a.now[i] = byte(i) | 1
	}
	n = 0
	for i := range kv {
		if kv[i].Value != nil {
			m := copy(a.now[n:], kv[i].Value)
			kv[i].Value = a.now[n : n+m]
			n += m + 5
		}
	}
	a.was = append([]byte(nil), a.now...)
	return kv, a
}
func (a arena) spoilt() bool {
	for i, x := range a.kv {
		y := a.want[i]
		if x.Key != y.Key || len(x.Value) != len(y.Value) || unsafe.SliceData(x.Value) != unsafe.SliceData(y.Value) {
			return true
		}
	}
	return !bytes.Equal(a.now, a.was)
}

// shelf puts a list of keys where the caller has other things behind it.
func (w *World) shelf(ks []string) (_, was []string) {
	if !w.P.Scribble || ks == nil {
		return ks, append(make([]string, 0, cap(ks)), ks[:cap(ks)]...)
	}
	l := append(append(make([]string, 0, len(ks)+3), ks...), "behind", "behind", "behind")
	return l[:len(ks)], append([]string(nil), l...)
}

func pairs(kv [][2]string) []sessionid.PairBytes {
	if kv == nil {
		return nil
	}
	out := make([]sessionid.PairBytes, len(kv))
	for i, p := range kv {
		out[i].Key = p[0]
		if p[1] != NilValue {
			out[i].Value = []byte(p[1])
		}
	}
	return out
}

// Call performs the operation on the real provider in the calling goroutine.
func (w *World) Call(ctx context.Context, o Op) (r *Result) {
	r = &Result{}
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if x := recover(); x != nil {
			if h, ok := x.(harnessErr); ok {
				fmt.Fprintln(os.Stderr, "HARNESS ERROR:", h.s)
				os.Exit(3)
			}
			r.Res = "panic"
			r.Info = fmt.Sprint(x)
		}
	}()
	p := w.Provs[o.P]
	switch o.Op {
	case "create":
		kv := w.blowKV(pairs(o.KV))
		kv, a := w.arena(kv)
		r.Err = p.Create(ctx, w.tok(o.A), w.tok(o.R), kv)
		r.Spoilt = a.spoilt()
		w.scribbleIn(kv, nil)
	case "refresh":
		r.Err = p.Refresh(ctx, w.tok(o.A), w.tok(o.R), w.tok(o.NA), w.tok(o.NR))
	case "check":
		r.Err = p.Check(ctx, w.tok(o.A))
	case "put":
		kv := w.blowKV(pairs(o.KV))
		kv, a := w.arena(kv)
		r.Err = p.Put(ctx, w.tok(o.A), kv)
		r.Spoilt = a.spoilt()
		w.scribbleIn(kv, nil)
	case "get":
		ks := w.blowKs(append([]string(nil), o.Ks...))
		ks, was := w.shelf(ks)
		r.rawVals, r.Err = p.Get(ctx, w.tok(o.A), ks)
		r.Spoilt = !slices.Equal(ks[:cap(ks)], was)
		r.Vals = w.foldVals(o.Ks, r.rawVals)
		w.scribbleIn(nil, ks)
	case "keys":
		r.rawKeys, r.Err = p.Keys(ctx, w.tok(o.A))
		r.Keys = w.foldKeys(r.rawKeys)
	case "delete":
		ks := w.blowKs(append([]string(nil), o.Ks...))
		ks, was := w.shelf(ks)
		r.Err = p.Delete(ctx, w.tok(o.A), ks)
		r.Spoilt = !slices.Equal(ks[:cap(ks)], was)
		w.scribbleIn(nil, ks)
	case "destroy":
		r.Err = p.Destroy(ctx, w.id(o.ID))
	case "destroytok":
		r.Err = p.DestroyByToken(ctx, w.tok(o.A))
	case "clear":
		c, ok := p.(interface{ Clear() error })
		if !ok {
			panic(harnessErr{"no Clear"})
		}
		r.Err = c.Clear()
	case "close":
		r.Err = p.Close()
	default:
		panic(harnessErr{"op " + o.Op})
	}
	r.Res = class(r.Err)
	if r.Err != nil {
		r.Info = r.Err.Error()
	}
	return
}

func (w *World) scribbleIn(kv []sessionid.PairBytes, ks []string) {
	if !w.P.Scribble {
		return
	}
	for i := range kv {
		scribble(kv[i].Value)
		kv[i] = sessionid.PairBytes{Key: "scribbled", Value: []byte("scribbled")}
	}
	for i := range ks {
		ks[i] = "scribbled"
	}
}
func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

// Event renders an operation and its result as a trace event.
func (w *World) Event(o Op, r *Result) Ev {
	e := Ev{"op": o.Op, "p": o.P + 1, "res": r.Res}
	if r.Info != "" && (r.Res == "err" || r.Res == "panic" || r.Res == "hang") {
		e["info"] = ascii(r.Info)
	}
	switch o.Op {
	case "create":
		e["a"], e["r"], e["kv"] = o.A, o.R, kvSym(o.KV)
	case "refresh":
		e["a"], e["r"], e["na"], e["nr"] = o.A, o.R, o.NA, o.NR
	case "check", "destroytok", "keys":
		e["a"] = o.A
	case "put":
		e["a"], e["kv"] = o.A, kvSym(o.KV)
	case "get", "delete":
		ks := make([]string, len(o.Ks))
		for i, k := range o.Ks {
			ks[i] = sym([]byte(k))
		}
		e["a"], e["ks"] = o.A, ks
	case "destroy":
		e["id"] = o.ID
	}
	if r.Res == "ok" {
		switch o.Op {
		case "get":
			vals := make([][2]any, len(r.Vals))
			for i, v := range r.Vals {
				s := ""
				if v.Exists {
					s = safeSym(v.Bytes)
				}
				vals[i] = [2]any{v.Exists, s}
			}
			e["vals"] = vals
		case "keys":
			ks := make([]string, len(r.Keys))
			for i, k := range r.Keys {
				ks[i] = safeSym(unsafe.Slice(unsafe.StringData(k), len(k)))
			}
			sort.Strings(ks)
			e["keys"] = ks
		}
	}
	return e
}

func safeSym(b []byte) (s string) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if x := recover(); x != nil {
			s = "#unreadable"
		}
	}()
	return sym(b)
}

func ascii(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c < 32 || c > 126 || c == '"' || c == '\\' {
			b.WriteByte('?')
		} else {
			b.WriteRune(c)
		}
	}
	if b.Len() > 200 {
		return b.String()[:200]
	}
	return b.String()
}

func kvSym(kv [][2]string) [][2]string {
	out := make([][2]string, len(kv))
	for i, p := range kv {
		v := p[1]
		if v == NilValue {
			v = ""
		}
		out[i] = [2]string{sym([]byte(p[0])), sym([]byte(v))}
	}
	return out
}

func (w *World) Add(e Ev) { w.Tr.Ev = append(w.Tr.Ev, e) }

// Do performs one operation with hang detection and records it.
func (w *World) Do(o Op) *Result { return w.DoCtx(context.Background(), o, nil) }

// DoCtx is Do with a context; flt, if not nil, tells afterwards whether the operation was disturbed.
func (w *World) DoCtx(ctx context.Context, o Op, flt func() bool) *Result {
	if w.Dead {
		return &Result{Res: "dead"}
	}
	if o.Op == "tick" {
		w.TickTo(o.At)
		return &Result{Res: "ok"}
	}
	done := make(chan *Result, 1)
	go func() { done <- w.Call(ctx, o) }()
	var r *Result
	t := time.NewTimer(1000 * time.Hour)
	select {
	case r = <-done:
		t.Stop()
	case <-t.C:
		r = &Result{Res: "hang", Info: hangInfo()}
		w.Dead = true
	}
	ev := w.Event(o, r)
	if flt != nil && flt() {
		ev["flt"] = true
	}
	w.Add(ev)
	if r.Res == "panic" {
		w.Dead = true
	}
	if !w.Dead {
		synctest.Wait()
		w.after(o, r)
	}
	return r
}

func hangInfo() string {
	b := make([]byte, 1<<16)
	b = b[:runtime.Stack(b, true)]
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, "core.(*World).Call") {
			l := strings.Split(g, "\n")
			var fs []string
			for _, x := range l {
				if strings.HasPrefix(x, "github.com/powerpuffpenguin") {
					fs = append(fs, strings.Split(x, "(0x")[0])
				}
			}
			return strings.Join(fs, "<")
		}
	}
	return ""
}

// after keeps and scribbles over received bytes.
func (w *World) after(o Op, r *Result) {
	if !w.P.Scribble {
		return
	}
	if r.Spoilt {
		w.Add(Ev{"op": "same", "same": false, "about": []string{"C14"}, "what": "bytes of the caller changed during " + o.Op})
		w.Dead = true
		return
	}
	w.checkKept("after " + o.Op)
	// the values kept must survive the scribbling over the others of the same answer
	vals, keys := r.rawVals, r.rawKeys
	if len(o.KV) > 0 {
		// the caller has written over what it passed
		w.Add(Ev{"op": "mark", "about": []string{"C14"}})
	}
	what := fmt.Sprintf("%s %s", o.Op, o.A)
	keep := make([]bool, len(vals))
	for i, v := range vals {
		keep[i] = cap(v.Bytes) > 0 && w.Rng.Intn(2) == 0 && (i < 12 || w.Rng.Intn(len(vals)) < 12)
		if keep[i] {
			w.kept = append(w.kept, retained{v.Bytes, safeSym(v.Bytes), what})
		}
	}
	defer func() {
		if !w.Dead {
			w.checkKept("when another part of the answer was modified")
		}
	}()
	for i, k := range keys {
		if i >= 12 && w.Rng.Intn(len(keys)) >= 12 {
			continue
		}
		b := unsafe.Slice(unsafe.StringData(k), len(k))
		w.kept = append(w.kept, retained{b, safeSym(b), what})
	}
	for i, v := range vals {
		if cap(v.Bytes) == 0 || keep[i] {
			continue
		}
		if !tryScribble(v.Bytes) {
			w.Add(Ev{"op": "same", "same": false, "about": []string{"C14"}, "what": "bytes received from Get cannot be modified"})
			w.Dead = true
			return
		}
		w.Add(Ev{"op": "mark", "about": []string{"C14"}})
	}
	// the lists belong to the caller as well
	if len(keys) > 0 {
		l := keys[:cap(keys)]
		if w.Rng.Intn(3) > 0 {
			for i := range l {
				l[i] = "scribbled"
			}
		}
		w.lists = append(w.lists, keptList{l, append([]string(nil), l...), nil, nil, what})
	}
	if len(vals) > 0 {
		l := vals[:cap(vals)]
		if w.Rng.Intn(3) > 0 {
			for i := range l {
				l[i] = sessionid.Value{Exists: true, Bytes: []byte("scribbled")}
			}
		}
		w.lists = append(w.lists, keptList{nil, nil, l, append([]sessionid.Value(nil), l...), what})
	}
}

// keptList is a list received from the provider and what was in it when the caller last wrote to it.
type keptList struct {
	keys, keysWas []string
	vals, valsWas []sessionid.Value
	what          string
}

func (l *keptList) same() bool {
	for i := range l.keys {
		if unsafe.StringData(l.keys[i]) != unsafe.StringData(l.keysWas[i]) || len(l.keys[i]) != len(l.keysWas[i]) {
			return false
		}
	}
	for i := range l.vals {
		x, y := l.vals[i], l.valsWas[i]
		if x.Exists != y.Exists || len(x.Bytes) != len(y.Bytes) || unsafe.SliceData(x.Bytes) != unsafe.SliceData(y.Bytes) {
			return false
		}
	}
	return true
}
func tryScribble(b []byte) (ok bool) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if x := recover(); x != nil {
			ok = false
		}
	}()
	scribble(b)
	return true
}
func (w *World) checkKept(when string) {
	for i := range w.lists {
		if !w.lists[i].same() {
			w.Add(Ev{"op": "same", "same": false, "about": []string{"C14"}, "what": ascii("the list received from " + w.lists[i].what + " changed " + when)})
			w.Dead = true
			return
		}
	}
	for i, k := range w.kept {
		if safeSym(k.b) != k.copy {
			w.Add(Ev{"op": "same", "same": false, "about": []string{"C14"}, "what": ascii("bytes received from " + k.what + " changed " + when)})
			w.kept = append(w.kept[:i:i], w.kept[i+1:]...)
			w.Dead = true
			return
		}
	}
}

func (w *World) NowMS() int64 { return int64(time.Since(w.Start) / w.P.Unit) }

// TickTo lets time pass to the given instant.
func (w *World) TickTo(at int64) {
	d := time.Duration(at)*w.P.Unit - time.Since(w.Start)
	if d <= 0 || w.Dead {
		return
	}
	time.Sleep(d)
	synctest.Wait()
	w.Add(Ev{"op": "tick", "now": at, "from": int64(w.ProvStart.Sub(w.Start) / w.P.Unit)})
	if w.P.Scribble {
		w.checkKept("while time passed")
	}
}

// Reopen closes and reopens provider i (bolt).
func (w *World) Reopen(i int) {
	if w.Dead {
		return
	}
	w.Do(Op{Op: "close", P: i})
	if w.Dead {
		return
	}
	if !w.P.OwnFile && w.Rng.Intn(2) == 0 && len(w.Provs) == 1 {
		w.DB.Close()
		w.openDB()
	}
	ev := Ev{"op": "reopen", "p": i + 1, "res": "ok"}
	if w.Rng.Intn(3) == 0 {
		ev["opts"] = w.change(i)
	}
	if e := w.OpenProv(i); e != nil {
		ev["res"] = "err"
		ev["info"] = ascii(e.Error())
		w.Dead = true
	}
	w.Add(ev)
}

// Finish closes everything and reports leaks.
func (w *World) Finish() {
	if w.P.Foreign && !w.Dead {
		w.Add(Ev{"op": "same", "same": w.foreignDump() == w.foreign0, "about": []string{"C20"}, "what": "unrelated data on the same back end"})
	}
	for i, p := range w.Provs {
		if p == nil || w.Dead {
			continue
		}
		closed := false
		for _, e := range w.Tr.Ev {
			if e["p"] == i+1 {
				if e["op"] == "close" && e["res"] == "ok" {
					closed = true
				} else if e["op"] == "reopen" {
					closed = false
				}
			}
		}
		if !closed {
			w.Do(Op{Op: "close", P: i})
		}
	}
	for _, p := range w.Noise {
		p.Close()
	}
	for _, c := range w.Clients {
		c.Close()
	}
	if w.FR != nil {
		w.FR.Shutdown()
		Stats.Unknown = append(Stats.Unknown, w.FR.Unknown...)
	}
	if w.DB != nil && !w.Dead {
		w.DB.Close()
	}
	if w.P.Scribble && !w.Dead {
		w.checkKept("after the store was closed")
	}
	if !w.Dead {
		time.Sleep(time.Millisecond) // nothing may need time to end
		synctest.Wait()
		if l := leaked(); l != "" {
			w.Add(Ev{"op": "same", "same": false, "about": []string{"C18", "C09"}, "what": "goroutine left after Close: " + ascii(l)})
		}
	}
	if w.Path != "" {
		os.Remove(w.Path)
		os.Remove(w.Path + ".lock")
	}
}

// leaked lists goroutines of the code under test in this bubble.
func leaked() string {
	b := make([]byte, 1<<18)
	b = b[:runtime.Stack(b, true)]
	gs := strings.Split(string(b), "\n\n")
	mine := bubbleOf(gs[0])
	var out []string
	for _, g := range gs[1:] {
		if bubbleOf(g) != mine {
			continue
		}
		if i := strings.LastIndex(g, "created by github.com/powerpuffpenguin/sessionid"); i >= 0 {
			out = append(out, strings.TrimPrefix(strings.Split(g[i:], " in goroutine")[0], "created by "))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}
func bubbleOf(g string) string {
	l := strings.SplitN(g, "\n", 2)[0]
	if i := strings.Index(l, "synctest bubble "); i >= 0 {
		return strings.TrimRight(l[i:], "]: ")
	}
	return ""
}

// Foreign data on the same back end.
func (w *World) plantForeign() {
	switch w.P.Kind {
	case "redis":
		w.FR.SetString("unrelated", "x")
		w.FR.SetString("session", "y")
		w.FR.SetHash("other.u1.s1.g", map[string]string{"k1": "v", w.P.MetaKey: "zzz"})
		for i := 0; i < w.P.Strangers; i++ {
			w.FR.SetString(fmt.Sprintf("stranger%d", i), "x")
		}
		for _, p := range w.P.Prefixes {
			w.FR.SetString(strings.TrimSuffix(p, "."), "almost the prefix")
			w.FR.SetString("x"+p+"u1.s1.g", "prefix inside")
			w.FR.SetHash(strings.ToUpper(p)+"u1.s1.g", map[string]string{"k1": "v"})
		}
	case "bolt":
		if w.DB != nil {
			w.DB.Update(func(t *bolt.Tx) error {
				b, _ := t.CreateBucketIfNotExists([]byte("unrelated"))
				for _, n := range []string{"metadata", "data", "ids", "lru"} {
					c, _ := b.CreateBucketIfNotExists([]byte(n))
					c.Put([]byte("u1"), []byte("x"))
				}
				return nil
			})
		}
	}
}
func (w *World) foreignDump() string {
	switch w.P.Kind {
	case "redis":
		return w.FR.Dump(func(k string) bool {
			for _, p := range w.P.Prefixes {
				if strings.HasPrefix(k, p) {
					return false
				}
			}
			return true
		})
	case "bolt":
		if w.DB == nil {
			return ""
		}
		var out []string
		w.DB.View(func(t *bolt.Tx) error {
			return t.ForEach(func(n []byte, b *bolt.Bucket) error {
				for _, x := range w.P.Buckets {
					if string(n) == x {
						return nil
					}
				}
				dumpBucket(b, string(n), &out)
				return nil
			})
		})
		return strings.Join(out, "\n")
	}
	return ""
}
func dumpBucket(b *bolt.Bucket, path string, out *[]string) {
	*out = append(*out, path+"/")
	b.ForEach(func(k, v []byte) error {
		if v == nil {
			dumpBucket(b.Bucket(k), path+"/"+fmt.Sprintf("%q", k), out)
		} else {
			*out = append(*out, fmt.Sprintf("%s/%q=%q", path, k, v))
		}
		return nil
	})
}

// Footprint counts the items the storage of store s (0-based) holds.
func (w *World) Footprint(i int) int {
	switch w.P.Kind {
	case "redis":
		n := 0
		for _, k := range w.FR.Keys() {
			if strings.HasPrefix(k, w.P.Prefixes[w.P.Store[i]-1]) {
				n++
			}
		}
		return n
	case "bolt":
		n := 0
		w.DB.View(func(t *bolt.Tx) error {
			b := t.Bucket([]byte(w.P.Buckets[w.P.Store[i]-1]))
			if b != nil {
				n = countBucket(b)
			}
			return nil
		})
		return n
	default:
		return walk(reflect.ValueOf(w.Provs[i]), map[uintptr]bool{}, 0)
	}
}
func countBucket(b *bolt.Bucket) int {
	n := 1
	b.ForEach(func(k, v []byte) error {
		if v == nil {
			n += countBucket(b.Bucket(k))
		} else {
			n++
		}
		return nil
	})
	return n
}

// walk counts containers' elements reachable from v.
func walk(v reflect.Value, seen map[uintptr]bool, depth int) int {
	if depth > 100000 || !v.IsValid() {
		return 0
	}
	n := 0
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return 0
		}
		seen[v.Pointer()] = true
		s := v.Type().String()
		if s == "*time.Ticker" || s == "*time.Timer" || s == "*time.Location" {
			return 0
		}
		return 1 + walk(v.Elem(), seen, depth+1)
	case reflect.Interface:
		return walk(v.Elem(), seen, depth+1)
	case reflect.Struct:
		if v.Type().String() == "time.Time" {
			return 0
		}
		for i := 0; i < v.NumField(); i++ {
			n += walk(v.Field(i), seen, depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return 0
		}
		it := v.MapRange()
		for it.Next() {
			n += 1 + walk(it.Key(), seen, depth+1) + walk(it.Value(), seen, depth+1)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return 0
		}
		for i := 0; i < v.Len(); i++ {
			n += 1 + walk(v.Index(i), seen, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n += walk(v.Index(i), seen, depth+1)
		}
	}
	return n
}
