package core

import (
	"bytes"
	"context"
	"crypto"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
)

// spy counts the calls that reach the store.
type spy struct {
	sessionid.Provider
	n int64
}

func (s *spy) hit() { atomic.AddInt64(&s.n, 1) }
func (s *spy) Create(ctx context.Context, a, r string, p []sessionid.PairBytes) error {
	s.hit()
	return s.Provider.Create(ctx, a, r, p)
}
func (s *spy) Destroy(ctx context.Context, id string) error {
	s.hit()
	return s.Provider.Destroy(ctx, id)
}
func (s *spy) DestroyByToken(ctx context.Context, t string) error {
	s.hit()
	return s.Provider.DestroyByToken(ctx, t)
}
func (s *spy) Check(ctx context.Context, t string) error { s.hit(); return s.Provider.Check(ctx, t) }
func (s *spy) Put(ctx context.Context, t string, p []sessionid.PairBytes) error {
	s.hit()
	return s.Provider.Put(ctx, t, p)
}
func (s *spy) Get(ctx context.Context, t string, k []string) ([]sessionid.Value, error) {
	s.hit()
	return s.Provider.Get(ctx, t, k)
}
func (s *spy) Keys(ctx context.Context, t string) ([]string, error) {
	s.hit()
	return s.Provider.Keys(ctx, t)
}
func (s *spy) Delete(ctx context.Context, t string, k []string) error {
	s.hit()
	return s.Provider.Delete(ctx, t, k)
}
func (s *spy) Refresh(ctx context.Context, a, r, na, nr string) error {
	s.hit()
	return s.Provider.Refresh(ctx, a, r, na, nr)
}
func (s *spy) Close() error { s.hit(); return s.Provider.Close() }

var methods = []cryptoer.SigningMethod{cryptoer.SigningMethodHMD5, cryptoer.SigningMethodHS1, cryptoer.SigningMethodHS256, cryptoer.SigningMethodHS384, cryptoer.SigningMethodHS512}

// likely is another method of the package's kind that is easy to confuse with m,
// and the key to go with it.
func likely(r *rand.Rand, m cryptoer.SigningMethod, key string) (cryptoer.SigningMethod, string) {
	h := m.(*cryptoer.SigningMethodHMAC)
	hash := choose(r, crypto.MD5, crypto.SHA1, crypto.SHA224, crypto.SHA256, crypto.SHA384, crypto.SHA512)
	switch r.Intn(4) {
	case 0: // another name, the same tokens
		return &cryptoer.SigningMethodHMAC{Name: choose(r, "", h.Name+"x", "own"), Hash: h.Hash}, key
	case 1: // the same name, other tokens
		return &cryptoer.SigningMethodHMAC{Name: h.Name, Hash: hash}, key
	case 2: // name and key begin elsewhere
		if n := len(h.Name); n > 0 {
			return &cryptoer.SigningMethodHMAC{Name: h.Name[:n-1], Hash: h.Hash}, h.Name[n-1:] + key
		}
	case 3:
		if len(key) > 1 {
			return &cryptoer.SigningMethodHMAC{Name: h.Name + key[:1], Hash: h.Hash}, key[1:]
		}
	}
	return m, key
}

var signKeys = []string{"key-one", "key-two", "Key-one", strings.Repeat("long", 80), "x", strings.Repeat("0123456789abcdef", 4), strings.Repeat("0123456789abcdef", 8), strings.Repeat("k", 5000)}

type mgr struct {
	m      *sessionid.LocalManager
	method cryptoer.SigningMethod
	key    string
	mk     string // name of method and key
}

// tokWorld is a world seen through managers.
type tokWorld struct {
	w     *World
	r     *rand.Rand
	sp    *spy
	ms    []*mgr
	toks  []string // every token string that was issued, in order
	pairs [][2]string
	users []string
	inv   map[string]string // token string -> symbol
	n     int
}

// name gives a string its symbol and makes it known to the world and to the judge.
func (t *tokWorld) name(s string) string {
	if y, ok := t.inv[s]; ok {
		return y
	}
	t.n++
	y := fmt.Sprintf("t%d", t.n)
	t.inv[s] = y
	id, _, _, e := split(s)
	ti := TokInfo{Ok: e == nil, Id: "-"}
	if e == nil {
		ti.Id = sym([]byte(id))
	}
	t.w.Tr.Tok[y] = ti
	t.w.P.Toks[y] = s
	return y
}

// guard calls f and turns a panic into a result.
func guard(f func() error) (res, info string) {
	defer func() {
		if x := recover(); x != nil {
			if h, ok := x.(harnessErr); ok {
				panic(h)
			}
			res, info = "panic", ascii(fmt.Sprint(x))
		}
	}()
	e := f()
	res = class(e)
	if e != nil {
		info = ascii(e.Error())
	}
	return
}

func (t *tokWorld) add(e Ev, info string) {
	if info != "" {
		e["info"] = info
	}
	t.w.Add(e)
	if e["res"] == "panic" {
		t.w.Dead = true
	}
}

func (t *tokWorld) issued(a, r string) {
	t.toks = append(t.toks, a, r)
	t.pairs = append(t.pairs, [2]string{a, r})
}

// carried is the id section of a token.
func (t *tokWorld) carried(s string) string { return t.w.Tr.Tok[t.name(s)].Id }

func (t *tokWorld) create(k int, u string, kv [][2]string) {
	g := t.ms[k]
	var s *sessionid.Session
	var rt string
	c0 := atomic.LoadInt64(&t.sp.n)
	res, info := guard(func() (e error) {
		var ps []sessionid.Pair
		for _, p := range kv {
			ps = append(ps, sessionid.Pair{Key: p[0], Value: []byte(p[1])})
		}
		s, rt, e = g.m.Create(context.Background(), u, ps...)
		return
	})
	ev := Ev{"op": "mcreate", "m": k + 1, "p": 1, "u": "u:" + sym([]byte(u)), "kv": kvSym(kv), "res": res, "calls": atomic.LoadInt64(&t.sp.n) - c0,
		"a": "", "r": "", "ca": "", "cr": "", "sid": ""}
	if res == "ok" {
		a := s.Token()
		ev["a"], ev["r"], ev["ca"], ev["cr"], ev["sid"] = t.name(a), t.name(rt), t.carried(a), t.carried(rt), sym([]byte(s.ID()))
		t.issued(a, rt)
	}
	t.add(ev, info)
}

func (t *tokWorld) get(k int, tok string) {
	g := t.ms[k]
	var s *sessionid.Session
	c0 := atomic.LoadInt64(&t.sp.n)
	res, info := guard(func() (e error) { s, e = g.m.Get(context.Background(), tok); return })
	ev := Ev{"op": "mget", "m": k + 1, "p": 1, "t": t.name(tok), "res": res, "calls": atomic.LoadInt64(&t.sp.n) - c0, "sid": "", "same": true}
	if res == "ok" {
		ev["sid"], ev["same"] = sym([]byte(s.ID())), s.Token() == tok
	}
	t.add(ev, info)
}

func (t *tokWorld) refresh(k int, a, r string) {
	g := t.ms[k]
	var na, nr string
	c0 := atomic.LoadInt64(&t.sp.n)
	res, info := guard(func() (e error) { na, nr, e = g.m.Refresh(context.Background(), a, r); return })
	ev := Ev{"op": "mrefresh", "m": k + 1, "p": 1, "a": t.name(a), "r": t.name(r), "res": res, "calls": atomic.LoadInt64(&t.sp.n) - c0, "na": "", "nr": ""}
	if res == "ok" {
		ev["na"], ev["nr"] = t.name(na), t.name(nr)
		t.issued(na, nr)
	}
	t.add(ev, info)
}

func (t *tokWorld) destroy(k int, u string) {
	res, info := guard(func() error { return t.ms[k].m.Destroy(context.Background(), u) })
	t.add(Ev{"op": "mdestroy", "m": k + 1, "p": 1, "u": "u:" + sym([]byte(u)), "res": res}, info)
}
func (t *tokWorld) destroyTok(k int, s string) {
	res, info := guard(func() error { return t.ms[k].m.DestroyByToken(context.Background(), s) })
	t.add(Ev{"op": "mdestroytok", "m": k + 1, "p": 1, "a": t.name(s), "res": res}, info)
}

// sign makes a token with cryptoer itself.
func (t *tokWorld) sign(k int, id, sid string) string {
	g := t.ms[k]
	var s string
	res, info := guard(func() (e error) { s, e = cryptoer.Encode(g.method, []byte(g.key), id, sid); return })
	ev := Ev{"op": "enc", "m": k + 1, "p": 1, "id": "i:" + sym([]byte(id)), "sid": "s:" + sym([]byte(sid)), "nodot": !strings.Contains(sid, "."), "res": res, "t": ""}
	if res == "ok" {
		ev["t"] = t.name(s)
	}
	t.add(ev, info)
	return s
}
func (t *tokWorld) decode(k int, s string) {
	g := t.ms[k]
	var id, sid string
	res, info := guard(func() (e error) { id, sid, e = cryptoer.Decode(g.method, []byte(g.key), s); return })
	ev := Ev{"op": "dec", "m": k + 1, "p": 1, "t": t.name(s), "res": res, "id": "", "sid": ""}
	if res == "ok" {
		ev["id"], ev["sid"] = "i:"+sym([]byte(id)), "s:"+sym([]byte(sid))
	}
	t.add(ev, info)
}

// isTok asks whether strings are tokens, and takes one of them apart.
func (t *tokWorld) isTok(ss ...string) {
	syms := []string{}
	same := true
	for _, s := range ss {
		syms = append(syms, t.name(s))
		id, sid, sig, e := sessionid.Split(s)
		id0, sid0, sig0, e0 := split(s)
		if e0 != nil {
			same = same && e != nil
			continue
		}
		same = same && e == nil && id == id0 && sid == sid0 && sig == sig0 && sessionid.Join(id, sid, sig) == s && sessionid.Join(s) == s
	}
	res, info := guard(func() error { return sessionid.IsToken(ss...) })
	t.add(Ev{"op": "istok", "ts": syms, "res": res, "same": same && sessionid.Join() == ""}, info)
}

// mkTok issues a pair of tokens for an id without a store.
func (t *tokWorld) mkTok(k int, id string) {
	g := t.ms[k]
	var a, r string
	res, info := guard(func() (e error) { a, r, e = sessionid.CreateToken(g.method, []byte(g.key), id); return })
	ev := Ev{"op": "mktok", "m": k + 1, "res": res, "a": "", "r": "", "id": sym([]byte(id))}
	if res == "ok" {
		ev["a"], ev["r"] = t.name(a), t.name(r)
		t.toks = append(t.toks, a, r)
	}
	t.add(ev, info)
}

// segments checks that what goes into a token as text comes out again.
func (t *tokWorld) segments() {
	b := make([]byte, t.r.Intn(70))
	t.r.Read(b)
	s := cryptoer.EncodeSegment(b)
	o, e := cryptoer.DecodeSegment(s)
	ok := e == nil && string(o) == string(b) && !strings.Contains(s, ".")
	t.add(Ev{"op": "same", "same": ok, "about": []string{"C16"}}, "")
}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

// forge makes a string that looks like an issued token.
func (t *tokWorld) forge() string {
	r := t.r
	if len(t.toks) == 0 {
		return choose(r, "", ".", "..", "a.b", "a.b.c", "...")
	}
	s := t.toks[r.Intn(len(t.toks))]
	o := t.toks[r.Intn(len(t.toks))]
	sp, op := strings.Split(s, "."), strings.Split(o, ".")
	for len(sp) < 3 {
		sp = append(sp, "")
	}
	for len(op) < 3 {
		op = append(op, "")
	}
	j := func(x ...string) string { return strings.Join(x, ".") }
	last := len(s) - 1
	switch r.Intn(26) {
	case 0: // other trailing bits of the last character of the signature
		i := strings.IndexByte(b64, s[last])
		return s[:last] + string(b64[(i&^3)|r.Intn(4)])
	case 1:
		return s + choose(r, "=", "==", "\n", "\r", "\r\n", " ", "\x00", ".", "A", "%3D", "\t")
	case 2:
		i := strings.LastIndexByte(s, '.') + 1 + r.Intn(4)
		if i > len(s) {
			i = len(s)
		}
		return s[:i] + choose(r, "\n", "\r", "\r\n", " ", "=") + s[i:]
	case 3:
		return j(op[0], sp[1], sp[2])
	case 4:
		return j(sp[0], op[1], sp[2])
	case 5:
		return j(sp[0], sp[1], op[2])
	case 6:
		return j(op[0], op[1], sp[2])
	case 7:
		return s[:r.Intn(len(s))]
	case 8:
		return s[r.Intn(len(s)):]
	case 9:
		i := r.Intn(len(s))
		return s[:i] + s[i+1:]
	case 10:
		i := r.Intn(len(s))
		return s[:i] + string(s[i]^byte(1<<r.Intn(8))) + s[i+1:]
	case 11:
		i := r.Intn(len(s))
		return s[:i] + string(s[i]) + s[i:]
	case 12:
		return j(sp[0], sp[1], "")
	case 13:
		return j(sp[0], sp[1])
	case 14:
		return j("", sp[1], sp[2])
	case 15:
		return j(sp[0], "", sp[1], sp[2])
	case 16:
		return j(s, sp[2])
	case 17:
		return j(sp[0], s)
	case 18:
		return strings.ToUpper(s)
	case 19:
		return strings.NewReplacer("-", "+", "_", "/").Replace(s)
	case 20:
		return j(sp[0]+"."+sp[1][:len(sp[1])/2], sp[1][len(sp[1])/2:], sp[2])
	case 21:
		n := len(sp[1])
		if n > 2 {
			return j(sp[0]+sp[1][:2], sp[1][2:], sp[2])
		}
		return j(sp[0], sp[1], sp[2], "")
	case 22:
		n := len(sp[0])
		if n > 1 {
			return j(sp[0][:n-1], sp[0][n-1:]+sp[1], sp[2])
		}
		return j(sp[0], sp[0], sp[1], sp[2])
	case 23:
		return choose(r, " ", "\n", ".", "=", "A") + s
	case 24:
		return j(sp[0], sp[1]) + choose(r, ",", "-", "", "\x00") + sp[2]
	}
	// signed with another key or method
	k := r.Intn(len(t.ms))
	return t.sign(k, choose(r, sp[0], "x", "", "a.b"), choose(r, sp[1], "y", ""))
}

// edits tries every single-character edit of s on manager k.
func (t *tokWorld) edits(k int, s string) {
	g := t.ms[k]
	accepted := []string{}
	n := 0
	c0 := atomic.LoadInt64(&t.sp.n)
	try := func(x string) {
		if x == s {
			return
		}
		n++
		res, _ := guard(func() error { _, e := g.m.Get(context.Background(), x); return e })
		if (res == "ok" || res == "panic") && len(accepted) < 5 {
			accepted = append(accepted, t.name(x))
		}
		res, _ = guard(func() error { _, _, e := g.m.Refresh(context.Background(), s, x); return e })
		if (res == "ok" || res == "panic") && x != s && len(accepted) < 5 {
			accepted = append(accepted, t.name(x))
		}
	}
	step := 1 + t.r.Intn(6)
	for i := 0; i < len(s); i++ {
		try(s[:i] + s[i+1:])
		if i+1 < len(s) {
			try(s[:i] + string(s[i+1]) + string(s[i]) + s[i+2:])
		}
		for b := t.r.Intn(step); b < 256; b += step {
			if byte(b) != s[i] {
				try(s[:i] + string([]byte{byte(b)}) + s[i+1:])
			}
			try(s[:i] + string([]byte{byte(b)}) + s[i:])
		}
	}
	for b := 0; b < 256; b++ {
		try(s + string([]byte{byte(b)}))
	}
	t.add(Ev{"op": "edits", "m": k + 1, "p": 1, "t": t.name(s), "n": n, "acc": accepted, "calls": atomic.LoadInt64(&t.sp.n) - c0, "res": "ok"}, "")
}

// rawCoder hands bytes through.
type rawCoder struct{}

func (rawCoder) Encode(v interface{}) ([]byte, error) {
	b, ok := v.([]byte)
	if !ok {
		return nil, fmt.Errorf("not bytes: %T", v)
	}
	return b, nil
}
func (rawCoder) Decode(b []byte, v interface{}) error {
	p, ok := v.(*[]byte)
	if !ok {
		return fmt.Errorf("not bytes: %T", v)
	}
	*p = b
	return nil
}

var userIds = []string{"", "u", "dQ", "a.b", "a", "b", ".", "A", "\x00", "\xff\xfe\xfd", "\xe4\xbd\xa0\xe5\xa5\xbd", "u*", "0", "00", " u", "u ", "YQ", "\xfb\xff", "?", strings.Repeat("long id ", 40), strings.Repeat("very long id ", 400)}

// variant is another id that looks like u.
func variant(r *rand.Rand, u string) string {
	switch r.Intn(12) {
	case 0:
		return u + choose(r, " ", "\n", "\t", "\x00", "\u200b", "\xff", ".", "=", "\u0301")
	case 1:
		return choose(r, " ", "\n", "\ufeff", "\x00", ".", "@") + u
	case 2:
		return strings.ToUpper(u) + "a"
	case 3:
		return strings.ToUpper(u)
	case 4:
		return u + u
	case 5:
		return strings.ToValidUTF8(u, "\ufffd")
	case 6:
		return base64.RawURLEncoding.EncodeToString([]byte(u))
	case 7:
		return u + choose(r, "\xff", "\xfe", "\ufffd")
	case 8:
		return strings.TrimSpace(u)
	case 9:
		if u != "" {
			return u[:len(u)-1]
		}
	case 10:
		return strings.ReplaceAll(u, ".", "")
	}
	return u + strings.Repeat("x", r.Intn(80)) + choose(r, "1", "2")
}

func runTok(name string, r *rand.Rand, kind string, steps int, withEdits bool) *Trace {
	p := GeneralParams(r, kind)
	p.Ids, p.Toks, p.Foreign = nil, map[string]string{}, false
	p.Opts = [][2]any{{"access", choose(r, 2000, 3600000)}, {"refresh", choose(r, 5000, 86400000)}}
	w := NewWorld(name, p, r.Int63())
	w.Tr.Judge = "tok"
	w.Tr.Cfg.Mayid = []string{}
	t := &tokWorld{w: w, r: r, inv: map[string]string{}}
	mgrs := []string{}
	InBubble(w, func() {
		w.Open()
		t.sp = &spy{Provider: w.Provs[0]}
		if kind == "bolt" {
			w.Tr.Cfg.Mayid = append(w.Tr.Cfg.Mayid, "") // bolt cannot keep an empty id
		}
		n := 1 + r.Intn(4)
		for i := 0; i < n; i++ {
			g := &mgr{method: choose(r, methods...), key: choose(r, signKeys...)}
			if i > 0 && r.Intn(3) == 0 {
				g.method, g.key = t.ms[0].method, t.ms[0].key
			} else if i > 0 && r.Intn(2) == 0 {
				// a key that looks like another one
				g.key = variant(r, t.ms[0].key)
				if r.Intn(3) > 0 {
					g.method = t.ms[0].method
				}
			} else if i > 0 {
				g.method, g.key = likely(r, t.ms[0].method, t.ms[0].key)
			}
			for _, o := range t.ms {
				// HMAC pads keys with zeros
				if strings.TrimRight(o.key, "\x00") == strings.TrimRight(g.key, "\x00") {
					g.key = o.key
				}
			}
			g.mk = g.method.(*cryptoer.SigningMethodHMAC).Hash.String() + "/" + sym([]byte(g.key))
			// the caller keeps its own copy of the key
			g.m = sessionid.NewManager(sessionid.WithProvider(t.sp), sessionid.WithMethod(g.method), sessionid.WithKey([]byte(g.key)), sessionid.WithCoder(rawCoder{}))
			t.ms = append(t.ms, g)
			mgrs = append(mgrs, g.mk)
		}
		w.Tr.Cfg.Mgrs = mgrs
		nu := 2 + r.Intn(3)
		for i := 0; i < nu; i++ {
			u := choose(r, userIds...)
			if i > 0 && r.Intn(2) == 0 {
				u = variant(r, t.users[r.Intn(i)])
			}
			if withEdits && len(u) > 400 {
				u = "u" // every edit of a long token takes too long
			}
			t.users = append(t.users, u)
		}
		v := 0
		for i := 0; i < steps && !w.Dead; i++ {
			k := r.Intn(len(t.ms))
			some := func() string {
				if len(t.toks) > 0 && r.Intn(3) > 0 {
					return t.toks[r.Intn(len(t.toks))]
				}
				return t.forge()
			}
			switch c := r.Intn(100); {
			case c < 22:
				v++
				t.create(k, choose(r, t.users...), [][2]string{{"k1", fmt.Sprintf("v%d", v)}}[:r.Intn(2)])
			case c < 45:
				t.get(k, some())
			case c < 62:
				if len(t.pairs) > 0 {
					x := t.pairs[r.Intn(len(t.pairs))]
					a, b := x[0], x[1]
					switch r.Intn(10) {
					case 0:
						a = t.forge()
					case 1:
						b = t.forge()
					case 2:
						b = t.pairs[r.Intn(len(t.pairs))][1]
					case 3:
						a, b = b, a
					case 4:
						b = a
					}
					t.refresh(k, a, b)
				}
			case c < 68:
				if r.Intn(4) > 0 {
					t.destroy(k, choose(r, t.users...))
				} else {
					t.destroy(k, choose(r, append(t.users, userIds...)...))
				}
			case c < 73:
				t.destroyTok(k, some())
			case c < 80:
				s := t.sign(k, choose(r, userIds...), choose(r, "s1", "", "s-2", "\x00", "x y"))
				if r.Intn(2) == 0 && s != "" {
					t.toks = append(t.toks, s)
				}
				t.decode(r.Intn(len(t.ms)), s)
			case c < 86:
				t.decode(k, some())
			case c < 88:
				w.TickTo(w.NowMS() + int64(choose(r, 1, 1000, 2000, 5000)))
			case c < 90:
				switch r.Intn(5) {
				case 0:
					t.mkTok(k, choose(r, "u", "", "x y", "\xff\x00", "u-1", "ZXCV_"))
				case 1:
					t.segments()
				default:
					ss := []string{}
					for n := r.Intn(4); n >= 0; n-- {
						ss = append(ss, some())
					}
					t.isTok(ss...)
				}
			default:
				s := some()
				w.Do(Op{Op: choose(r, "check", "keys"), A: t.name(s)})
				w.Do(Op{Op: "get", A: t.name(s), Ks: []string{"k1"}})
			}
		}
		if withEdits && len(t.toks) > 0 && !w.Dead {
			t.edits(r.Intn(len(t.ms)), t.toks[r.Intn(len(t.toks))])
		}
		for _, s := range t.toks {
			if w.Dead {
				break
			}
			t.get(r.Intn(len(t.ms)), s)
			w.Do(Op{Op: "check", A: t.name(s)})
		}
		w.Finish()
	})
	return w.Tr
}

// runBulk issues many tokens from many goroutines with the real clock.
func runBulk(name string, r *rand.Rand) *Trace {
	tr := &Trace{Name: name, Judge: "tok", Tok: map[string]TokInfo{}, Cfg: Cfg{Kind: "mem", Opts: [][2]any{}, Store: []int{1}, Stores: 1, Rejk: []string{}, Mayk: []string{}, Mayid: []string{}, Tags: []string{}}}
	m := sessionid.NewManager(sessionid.WithProvider(sessionid.NewProvider(sessionid.WithProviderClear(0), sessionid.WithProviderMaxSize(10))))
	tr.Cfg.Mgrs = []string{"default"}
	each, gs := 3000, 4
	users := []string{choose(r, userIds...), choose(r, userIds...)}
	var mu sync.Mutex
	seen := map[string]int{}
	n, bad, refused := 0, 0, 0
	var wg sync.WaitGroup
	what := r.Intn(3)
	if what > 0 && r.Intn(4) == 0 {
		// more than what fits in a counter of 16 bits
		each = 50000
	}
	key := []byte("k")
	for g := 0; g < gs; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			l := []string{}
			nbad, nref := 0, 0
			for i := 0; i < each/2; i++ {
				var a, b string
				var e error
				switch what {
				case 0:
					var s *sessionid.Session
					if s, b, e = m.Create(context.Background(), users[(g+i)%2]); e == nil {
						a = s.Token()
						if _, e := m.Get(context.Background(), a); e != nil {
							nref++
						}
						if _, e := m.Get(context.Background(), b); e != nil {
							nref++
						}
					}
				case 1:
					a, b, e = sessionid.CreateToken(methods[g%len(methods)], key, fmt.Sprint("u", i%2))
				case 2:
					if a, e = cryptoer.SessionID(); e == nil {
						b, e = cryptoer.SessionID()
					}
				}
				if e != nil {
					nbad++
					continue
				}
				if what < 2 {
					for _, s := range []string{a, b} {
						if strings.Count(s, ".") != 2 {
							nbad++
						}
					}
				}
				l = append(l, a, b)
			}
			mu.Lock()
			for _, s := range l {
				seen[s]++
			}
			n += len(l)
			bad += nbad
			refused += nref
			mu.Unlock()
		}()
	}
	wg.Wait()
	tr.Ev = append(tr.Ev, Ev{"op": "bulk", "p": 1, "n": n, "distinct": len(seen), "bad": bad, "refused": refused, "res": "ok"})
	return tr
}

// Child is what a process started by runProcs does: it issues tokens and prints them.
func Child(arg string) {
	var users []string
	if e := json.Unmarshal([]byte(arg), &users); e != nil {
		panic(e)
	}
	m := procManager()
	out := map[string][]string{}
	for i := 0; i < 40; i++ {
		for _, u := range users {
			s, b, e := m.Create(context.Background(), u)
			if e != nil {
				panic(e)
			}
			na, nb, e := m.Refresh(context.Background(), s.Token(), b)
			if e != nil {
				panic(e)
			}
			out[u] = append(out[u], s.Token(), b, na, nb)
		}
		sid, e := cryptoer.SessionID()
		if e != nil {
			panic(e)
		}
		out["/"] = append(out["/"], sid)
	}
	b, _ := json.Marshal(out)
	fmt.Println("CHILD " + string(b))
}

func procManager() *sessionid.LocalManager {
	return sessionid.NewManager(sessionid.WithProvider(sessionid.NewProvider()), sessionid.WithKey([]byte("of all processes")), sessionid.WithMethod(cryptoer.SigningMethodHS256))
}

// runProcs issues tokens in several processes, one after the other and at the same time: they must all differ, be
// accepted everywhere and carry the same image of the user id.
func runProcs(name string, r *rand.Rand) *Trace {
	tr := &Trace{Name: name, Judge: "tok", Tok: map[string]TokInfo{}, Cfg: Cfg{Kind: "mem", Opts: [][2]any{}, Store: []int{1}, Stores: 1, Rejk: []string{}, Mayk: []string{}, Mayid: []string{}, Tags: []string{}}}
	tr.Cfg.Mgrs = []string{"default"}
	m := procManager()
	users := []string{"u1", choose(r, "", "web-1", "a.b", "\u4f60\u597d", "x y")}
	arg, _ := json.Marshal(users)
	n, bad, refused := 0, 0, 0
	seen := map[string]bool{}
	ids := map[string]string{}
	var outs [3][]byte
	run := func(i int) {
		c := exec.Command(os.Args[0], "-test.run", "^TestJob$")
		c.Env = append(os.Environ(), "VERIF_CHILD="+string(arg))
		b, e := c.CombinedOutput()
		if _, ok := e.(*exec.ExitError); e != nil && !ok {
			fmt.Fprintln(os.Stderr, "HARNESS ERROR: child:", e)
			os.Exit(3)
		}
		outs[i] = b
	}
	run(0)
	var wg sync.WaitGroup
	for i := 1; i < 3; i++ {
		i := i
		wg.Add(1)
		go func() { defer wg.Done(); run(i) }()
	}
	wg.Wait()
	for _, b := range outs {
		i := bytes.Index(b, []byte("CHILD {"))
		got := map[string][]string{}
		if i < 0 || json.NewDecoder(bytes.NewReader(b[i+6:])).Decode(&got) != nil || len(got) != 3 {
			bad++
			continue
		}
		for u, l := range got {
			for _, tok := range l {
				n++
				seen[tok] = true
				if u == "/" {
					continue
				}
				s, e := m.Get(context.Background(), tok)
				if e != nil {
					refused++
					continue
				}
				if id, ok := ids[u]; ok && id != s.ID() {
					bad++
				}
				ids[u] = s.ID()
			}
		}
	}
	tr.Ev = append(tr.Ev, Ev{"op": "bulk", "p": 1, "n": n, "distinct": len(seen), "bad": bad, "refused": refused, "res": "ok"})
	return tr
}

func init() {
	for _, kind := range []string{"mem", "bolt", "redis"} {
		kind := kind
		Families["tok-"+kind] = func(name string, r *rand.Rand) *Trace { return runTok(name, r, kind, 28, false) }
	}
	Families["edits-mem"] = func(name string, r *rand.Rand) *Trace { return runTok(name, r, "mem", 8, true) }
	Families["procs-mem"] = func(name string, r *rand.Rand) *Trace { return runProcs(name, r) }
	Families["bulk-mem"] = func(name string, r *rand.Rand) *Trace { return runBulk(name, r) }
}
