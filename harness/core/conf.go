package core

import (
	"context"
	"crypto"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/boltdb/bolt"
	"github.com/go-redis/redis/v8"
	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
	sb "github.com/powerpuffpenguin/sessionid/provider/bolt"
	sr "github.com/powerpuffpenguin/sessionid/provider/redis"

	"vharness/fredis"
)

// Options that name components: which manager, client, file, coder ... is the one used (spec/Configure.tla).

// idCoder marks what it encodes with its name, and fails when told to.
type idCoder struct {
	id       string
	inner    sessionid.Coder
	failE    bool
	failD    bool
	enc, dec int
}

func (c *idCoder) Encode(v interface{}) ([]byte, error) {
	c.enc++
	if c.failE {
		return nil, errors.New("this coder does not encode")
	}
	b, e := c.inner.Encode(v)
	if e != nil {
		return nil, e
	}
	return append([]byte("<"+c.id+">"), b...), nil
}
func (c *idCoder) Decode(b []byte, v interface{}) error {
	c.dec++
	p := "<" + c.id + ">"
	if c.failD || !strings.HasPrefix(string(b), p) {
		return errors.New("this coder does not decode " + ascii(string(b)))
	}
	return c.inner.Decode(b[len(p):], v)
}

// coderOf names the coder that made b.
func coderOf(b []byte) string {
	s := string(b)
	if i := strings.Index(s, ">"); strings.HasPrefix(s, "<") && i > 0 {
		return s[1:i]
	}
	return "gob"
}

type jsonCoder struct{}

func (jsonCoder) Encode(v interface{}) ([]byte, error) { return json.Marshal(v) }
func (jsonCoder) Decode(b []byte, v interface{}) error { return json.Unmarshal(b, v) }

// ownMethod is a signing method of the harness.
type ownMethod struct{ id string }

func (m ownMethod) Alg() string { return m.id }
func (m ownMethod) Sign(s string, key interface{}) (string, error) {
	h := sha256.Sum256([]byte(m.id + "\x00" + string(key.([]byte)) + "\x00" + s))
	return base64.RawURLEncoding.EncodeToString(h[:9]), nil
}
func (m ownMethod) Verify(s, sig string, key interface{}) error {
	x, _ := m.Sign(s, key)
	if x != sig {
		return cryptoer.ErrSignatureInvalid
	}
	return nil
}

var stdHashes = map[string]crypto.Hash{"HMD5": crypto.MD5, "HS1": crypto.SHA1, "HS256": crypto.SHA256, "HS384": crypto.SHA384, "HS512": crypto.SHA512}

func stdMethod(n string) cryptoer.SigningMethod {
	return map[string]*cryptoer.SigningMethodHMAC{"HMD5": cryptoer.SigningMethodHMD5, "HS1": cryptoer.SigningMethodHS1, "HS256": cryptoer.SigningMethodHS256,
		"HS384": cryptoer.SigningMethodHS384, "HS512": cryptoer.SigningMethodHS512}[n]
}

// refSign signs independently of the code under test.
func refSign(method, s string, key []byte) string {
	if h, ok := stdHashes[method]; ok {
		m := hmac.New(h.New, key)
		m.Write([]byte(s))
		return base64.RawURLEncoding.EncodeToString(m.Sum(nil))
	}
	x, _ := ownMethod{method}.Sign(s, key)
	return x
}

type confWorld struct {
	tr   *Trace
	r    *rand.Rand
	opts [][2]string
}

func newConf(name string, r *rand.Rand) *confWorld {
	return &confWorld{tr: &Trace{Name: name, Judge: "conf", Tok: map[string]TokInfo{}, Cfg: Cfg{Kind: "conf", Opts: [][2]any{}, Store: []int{1}, Stores: 1, Rejk: []string{}, Mayk: []string{}, Mayid: []string{}, Tags: []string{}, Mgrs: []string{}}}, r: r}
}
func (c *confWorld) add(e Ev) { c.tr.Ev = append(c.tr.Ev, e) }

// draw chooses an option list over the names: each name up to three times, in any order.
func (c *confWorld) draw(pool map[string][]string) {
	c.opts = [][2]string{}
	names := make([]string, 0, len(pool))
	for n := range pool {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for k := choose(c.r, 0, 1, 1, 1, 2, 3); k > 0; k-- {
			c.opts = append(c.opts, [2]string{n, choose(c.r, pool[n]...)})
		}
	}
	c.r.Shuffle(len(c.opts), func(i, j int) { c.opts[i], c.opts[j] = c.opts[j], c.opts[i] })
}
func (c *confWorld) last(n, d string) string {
	for _, o := range c.opts {
		if o[0] == n {
			d = o[1]
		}
	}
	return d
}
func (c *confWorld) seen(kind, res, info string, seen [][2]string) {
	if seen == nil {
		seen = [][2]string{}
	}
	e := Ev{"op": "conf", "kind": kind, "opts": c.opts, "res": res, "seen": seen}
	if info != "" {
		e["info"] = info
	}
	c.add(e)
}

// refused records that a component failed: the operation has to fail and nothing may have happened.
func (c *confWorld) refused(what, res, info string, same bool) {
	e := Ev{"op": "refused", "what": what, "res": res, "same": same}
	if info != "" {
		e["info"] = info
	}
	c.add(e)
}

func runConfMgr(name string, r *rand.Rand) *Trace {
	c := newConf(name, r)
	c.registry(name)
	for n := 0; n < 3; n++ {
		c.manager()
	}
	c.registry(name + "'")
	return c.tr
}

func (c *confWorld) manager() {
	ctx := context.Background()
	keys := map[string][]byte{"k1": []byte("k1"), "k2": []byte("k2"), "long": []byte(strings.Repeat("long", 70)), "bin": {1, 0, 0xff, '.', 7}, "empty": {}, "k1line": []byte("k1\n"), "K1": []byte("K1"), "k1space": []byte(" k1"), "long2": []byte(strings.Repeat("long", 69)), "bin2": {1, 0, 0xff, '.', 8}}
	methods := []string{"HMD5", "HS1", "HS256", "HS384", "HS512", "own1", "own2"}
	provs := map[string]sessionid.Provider{}
	for _, p := range []string{"p1", "p2", "p3"} {
		provs[p] = sessionid.NewProvider(sessionid.WithProviderClear(0))
		defer provs[p].Close()
	}
	coders := map[string]*idCoder{"A": {id: "A", inner: sessionid.GOBCoder{}}, "B": {id: "B", inner: jsonCoder{}}, "C": {id: "C", inner: sessionid.GOBCoder{}}}
	kn := make([]string, 0)
	for k := range keys {
		kn = append(kn, k)
	}
	sort.Strings(kn)
	c.draw(map[string][]string{"method": methods, "key": kn, "provider": {"p1", "p2", "p3"}, "coder": {"A", "B", "C", "gob"}})
	// without a provider the manager uses one that all managers share
	shared := c.r.Intn(4) == 0
	if !shared && c.last("provider", "") == "" {
		c.opts = append(c.opts, [2]string{"provider", "p1"})
	}
	var os []sessionid.Option
	var given [][]byte
	for _, o := range c.opts {
		switch o[0] {
		case "method":
			if _, ok := stdHashes[o[1]]; ok {
				os = append(os, sessionid.WithMethod(stdMethod(o[1])))
			} else {
				os = append(os, sessionid.WithMethod(ownMethod{o[1]}))
			}
		case "key":
			k := append([]byte(nil), keys[o[1]]...)
			given = append(given, k)
			os = append(os, sessionid.WithKey(k))
		case "provider":
			os = append(os, sessionid.WithProvider(provs[o[1]]))
		case "coder":
			if o[1] == "gob" {
				os = append(os, sessionid.WithCoder(sessionid.GOBCoder{}))
			} else {
				os = append(os, sessionid.WithCoder(coders[o[1]]))
			}
		}
	}
	m := sessionid.NewManager(os...)
	// another manager, with options of its own, changes nothing
	sessionid.NewManager(sessionid.WithKey([]byte("other")), sessionid.WithMethod(ownMethod{"other"}), sessionid.WithProvider(provs["p1"]),
		sessionid.WithCoder(coders["A"]))
	if c.r.Intn(2) == 0 {
		for _, k := range given {
			for i := range k {
				k[i] ^= 0x55
			}
		}
	}
	var s *sessionid.Session
	var rt string
	res, info := guard(func() (e error) {
		s, rt, e = m.Create(ctx, choose(c.r, "u", "v", ""), sessionid.Pair{Key: "k", Value: "value"})
		return
	})
	if res != "ok" || s == nil {
		c.seen("manager", "failed "+res, info, nil)
		return
	}
	keys["default"] = []byte("github.com/powerpuffpenguin/sessionid")
	who := func(tok string) [][2]string {
		i := strings.LastIndex(tok, ".")
		if i < 0 {
			return [][2]string{{"method", "none"}, {"key", "none"}}
		}
		for _, mn := range methods {
			for kname, k := range keys {
				if refSign(mn, tok[:i], k) == tok[i+1:] {
					return [][2]string{{"method", mn}, {"key", kname}}
				}
			}
		}
		return [][2]string{{"method", "none"}, {"key", "none"}}
	}
	where := func(tok string) [][2]string {
		var in []string
		for _, p := range []string{"p1", "p2", "p3"} {
			if provs[p].Check(ctx, tok) == nil {
				in = append(in, p)
			}
		}
		out := [][2]string{{"provider", strings.Join(in, "+")}}
		for _, p := range in {
			if v, e := provs[p].Get(ctx, tok, []string{"k"}); e == nil && len(v) == 1 && v[0].Exists {
				out = append(out, [2]string{"coder", coderOf(v[0].Bytes)})
			}
		}
		return out
	}
	tok := s.Token()
	c.seen("manager", "ok", "", append(append(who(tok), who(rt)...), where(tok)...))
	// a session got back decodes with the same coder
	read := func(tok string) (string, string) {
		var v string
		r, i := guard(func() error {
			s, e := m.Get(ctx, tok)
			if e != nil {
				return e
			}
			return s.Get(ctx, "k", &v)
		})
		if r == "ok" && v != "value" {
			r = "other value"
		}
		return r, i
	}
	r1, i1 := read(tok)
	c.seen("manager", r1, i1, nil)
	// and a new pair is signed and kept the same way
	var na, nr string
	res, info = guard(func() (e error) { na, nr, e = m.Refresh(ctx, tok, rt); return })
	if res != "ok" {
		c.seen("manager", "failed "+res, info, nil)
		return
	}
	c.seen("manager", "ok", "", append(append(who(na), who(nr)...), where(na)...))
	r1, i1 = read(na)
	c.seen("manager", r1, i1, nil)
	if cd := coders[c.last("coder", "gob")]; cd != nil {
		cd.failE = true
		p := provs[c.last("provider", "p1")]
		res, info = guard(func() error {
			s, _, e := m.Create(ctx, "z", sessionid.Pair{Key: "k", Value: 1})
			if e == nil && s == nil {
				return errors.New("no session")
			}
			return e
		})
		c.refused("create with a coder that does not encode", res, info, true)
		if s, e := m.Get(ctx, na); e == nil {
			res, info = guard(func() error { return s.Put(ctx, sessionid.Pair{Key: "k", Value: "other"}) })
			v, _ := p.Get(ctx, na, []string{"k"})
			cd.failE = false
			want, _ := cd.Encode("value")
			c.refused("put with a coder that does not encode", res, info, len(v) == 0 || string(v[0].Bytes) == string(want))
		}
		cd.failE, cd.failD = false, true
		var v string
		res, info = guard(func() error {
			s, e := m.Get(ctx, na)
			if e != nil {
				return e
			}
			return s.Get(ctx, "k", &v)
		})
		c.refused("get with a coder that does not decode", res, info, true)
		cd.failD = false
		r1, i1 = read(na)
		c.seen("manager", r1, i1, nil)
	}
}

// registry registers and looks up signing methods by name.
func (c *confWorld) registry(name string) {
	std := []string{"HMD5", "HS1", "HS256", "HS384", "HS512"}
	own := []string{name + "/a", name + "/b", name + "/c", ""}
	look := func(n string) {
		m := cryptoer.GetSigningMethod(n)
		got := "none"
		switch x := m.(type) {
		case nil:
		case ownMethod:
			got = x.id
		default:
			got = "other"
			for _, s := range std {
				sig, e := m.Sign("some.thing", []byte("key"))
				if e == nil && m.Alg() == s && sig == refSign(s, "some.thing", []byte("key")) && m.Verify("some.thing", sig, []byte("key")) == nil && m == stdMethod(s) {
					got = s
				}
			}
		}
		c.add(Ev{"op": "look", "name": n, "m": got})
	}
	for _, n := range std {
		look(n)
		look(choose(c.r, strings.ToLower(n), n+" ", " "+n, n+"\x00", n[:len(n)-1], n+n, strings.Title(strings.ToLower(n)), "alg:"+n))
	}
	for k := 0; k < 8; k++ {
		if n := choose(c.r, own[:3]...); c.r.Intn(2) == 0 {
			id := fmt.Sprintf("%s:%d", n, k)
			cryptoer.RegisterSigningMethod(n, func() cryptoer.SigningMethod { return ownMethod{id} })
			c.add(Ev{"op": "register", "name": n, "m": id})
		} else {
			look(choose(c.r, append(own, std...)...))
		}
	}
	for _, n := range own {
		look(n)
		look(choose(c.r, strings.ToUpper(n), n+" ", n+"/"))
	}
}

func runConfBolt(name string, r *rand.Rand) *Trace {
	c := newConf(name, r)
	InBubble(nil, func() {
		for n := 0; n < 2; n++ {
			c.bolt(n)
		}
		c.lock()
		c.lock()
	})
	return c.tr
}

var confSeq int

// where lists the buckets of a database that hold the token; db nil: of the file.
func boltWhere(path string, db *bolt.DB, tok string) (out []string) {
	if db == nil {
		if _, e := os.Stat(path); e != nil {
			return nil
		}
		d, e := bolt.Open(path, 0600, &bolt.Options{Timeout: time.Second})
		if e != nil {
			return []string{"cannot be opened: " + e.Error()}
		}
		defer d.Close()
		db = d
	}
	var has func(b *bolt.Bucket) bool
	has = func(b *bolt.Bucket) bool {
		found := false
		b.ForEach(func(k, v []byte) error {
			if v == nil {
				found = found || has(b.Bucket(k))
			} else if strings.Contains(string(k)+string(v), tok) {
				found = true
			}
			return nil
		})
		return found
	}
	db.View(func(t *bolt.Tx) error {
		return t.ForEach(func(n []byte, b *bolt.Bucket) error {
			if has(b) {
				out = append(out, string(n))
			}
			return nil
		})
	})
	return
}

func (c *confWorld) bolt(n int) {
	ctx := context.Background()
	syscall.Umask(0)
	dir := filepath.Join(Scratch, "conf")
	os.MkdirAll(dir, 0755)
	confSeq++
	files := map[string]string{"f1": filepath.Join(dir, fmt.Sprintf("f1-%d", confSeq)), "f2": filepath.Join(dir, fmt.Sprintf("f2-%d", confSeq)), "sessionid.db": "sessionid.db"}
	dbs := map[string]*bolt.DB{"d1": nil, "d2": nil}
	dpath := map[string]string{}
	for _, d := range []string{"d1", "d2"} {
		dpath[d] = filepath.Join(dir, fmt.Sprintf("%s-%d", d, confSeq))
		db, e := bolt.Open(dpath[d], 0600, &bolt.Options{Timeout: time.Second})
		if e != nil {
			panic(harnessErr{e.Error()})
		}
		dbs[d] = db
	}
	defer func() {
		for d, db := range dbs {
			db.Close()
			os.Remove(dpath[d])
		}
		for _, f := range files {
			os.Remove(f)
		}
	}()
	pool := map[string][]string{"file": {"f1", "f2"}, "mode": {"600", "640", "644", "660"}, "bucket": {"b1", "b2", "sessionid", "b\x00", "metadata", "B1", "b1 ", long(60) + "1", long(60) + "2"}}
	if c.r.Intn(2) == 0 {
		pool["db"] = []string{"d1", "d2", ""}
	}
	c.draw(pool)
	var opts []sb.Option
	var given [][]byte
	for _, o := range c.opts {
		switch o[0] {
		case "file":
			opts = append(opts, sb.WithFilename(files[o[1]]))
		case "mode":
			m, _ := strconv.ParseUint(o[1], 8, 32)
			opts = append(opts, sb.WithFileMode(os.FileMode(m)))
		case "bucket":
			b := []byte(o[1])
			given = append(given, b)
			opts = append(opts, sb.WithBucket(b))
		case "db":
			opts = append(opts, sb.WithDB(dbs[o[1]]))
		}
	}
	var p *sb.Provider
	res, info := guard(func() (e error) { p, e = sb.New(opts...); return })
	if res != "ok" {
		c.seen("bolt", "failed "+res, info, nil)
		return
	}
	for _, b := range given {
		for i := range b {
			b[i] ^= 0x15
		}
	}
	res, info = guard(func() error {
		if e := p.Create(ctx, "u.tokentoken.s", "u.r.s", []sessionid.PairBytes{{Key: "k", Value: []byte("v")}}); e != nil {
			return e
		}
		return p.Check(ctx, "u.tokentoken.s")
	})
	p.Close()
	var seen [][2]string
	var stores, buckets []string
	for _, d := range []string{"d1", "d2"} {
		if b := boltWhere("", dbs[d], "tokentoken"); b != nil {
			stores, buckets = append(stores, d), append(buckets, b...)
		}
	}
	for _, f := range []string{"f1", "f2", "sessionid.db"} {
		if st, e := os.Stat(files[f]); e == nil {
			seen = append(seen, [2]string{"mode", strconv.FormatUint(uint64(st.Mode().Perm()), 8)})
			stores = append(stores, f)
			buckets = append(buckets, boltWhere(files[f], nil, "tokentoken")...)
		}
	}
	seen = append(seen, [2]string{"store", strings.Join(stores, "+")}, [2]string{"bucket", strings.Join(buckets, "+")})
	c.seen("bolt", res, info, seen)

	// a store that cannot be made is an error, and the file is free again
	f := filepath.Join(dir, fmt.Sprintf("bad-%d", confSeq))
	defer os.Remove(f)
	var q *sb.Provider
	res, info = guard(func() (e error) {
		q, e = sb.New(sb.WithFilename(f), sb.WithTimeout(time.Second), sb.WithBucket(choose(c.r, nil, []byte{})))
		return
	})
	free := false
	if q == nil {
		if d, e := bolt.Open(f, 0600, &bolt.Options{Timeout: time.Millisecond}); e == nil {
			d.Close()
			free = true
		}
	} else {
		q.Close()
	}
	c.refused("a bucket without a name", res, info, free)
	res, info = guard(func() (e error) { q, e = sb.New(sb.WithFilename(filepath.Join(dir, "no", "such", "folder"))); return })
	c.refused("a file in no folder", res, info, true)
}

// lock opens a file somebody else holds for a while.
func (c *confWorld) lock() {
	dir := filepath.Join(Scratch, "conf")
	os.MkdirAll(dir, 0755)
	confSeq++
	f := filepath.Join(dir, fmt.Sprintf("lock-%d", confSeq))
	defer os.Remove(f)
	db, e := bolt.Open(f, 0600, &bolt.Options{Timeout: time.Second})
	if e != nil {
		panic(harnessErr{e.Error()})
	}
	timeouts := []int{}
	opts := []sb.Option{sb.WithFilename(f)}
	for k := choose(c.r, 0, 1, 1, 1, 2); k > 0; k-- {
		t := choose(c.r, 1000, 300, 5000, 60000, 0, -1)
		timeouts = append(timeouts, t)
		opts = append(opts, sb.WithTimeout(time.Duration(t)*time.Millisecond))
	}
	if len(timeouts) == 0 && c.r.Intn(2) == 0 { // a timeout for another one
		sb.New(sb.WithDB(db), sb.WithTimeout(time.Millisecond), sb.WithBucket(nil))
	}
	held := choose(c.r, 0, 200, 700, 2000, 10000, 40000, 100000)
	start := time.Now()
	go func() {
		time.Sleep(time.Duration(held) * time.Millisecond)
		db.Close()
	}()
	var p *sb.Provider
	res, info := guard(func() (e error) { p, e = sb.New(opts...); return })
	took := time.Since(start).Milliseconds()
	time.Sleep(time.Duration(held+1000) * time.Millisecond)
	if p != nil && res == "ok" {
		p.Close()
	}
	ev := Ev{"op": "lock", "timeouts": timeouts, "held": held, "res": res, "took": took}
	if info != "" {
		ev["info"] = info
	}
	c.add(ev)
}

func runConfRedis(name string, r *rand.Rand) *Trace {
	c := newConf(name, r)
	c.redis()
	c.redis()
	return c.tr
}

func (c *confWorld) redis() {
	ctx := context.Background()
	servers := map[string]*fredis.Server{"s1": fredis.New(), "s2": fredis.New(), "u1": fredis.New(), "u2": fredis.New()}
	names := []string{"s1", "s2", "u1", "u2"}
	pool := map[string][]string{"prefix": {"p1.", "p2.", "sessionid.", "", "p[1]*.", "P1.", " p1.", "p1.\t", long(60) + "1", long(60) + "2"}, "meta": {"m1", "m2", "\x00", "M1", " m1", "m1\n", long(60) + "1", long(60) + "2"}, "coder": {"A", "B", "C", "gob"}}
	byURL := c.r.Intn(3) == 0
	if byURL {
		pool["url"] = []string{"u1", "u2"}
		if c.r.Intn(3) == 0 {
			pool["client"] = []string{"s1", ""}
		}
	} else {
		pool["client"] = []string{"s1", "s2"}
		if c.r.Intn(3) == 0 {
			pool["url"] = []string{"bad"}
		}
	}
	c.draw(pool)
	// the default url is no place to go to
	if c.last("client", "") == "" && c.last("url", "bad") == "bad" {
		c.opts = append(c.opts, [2]string{"client", "s2"})
	}
	urls := map[string]string{"bad": "what:is/this"}
	for _, u := range []string{"u1", "u2"} {
		if c.last("url", "") == "" {
			break
		}
		l, e := net.Listen("tcp", "127.0.0.1:0")
		if e != nil {
			panic(harnessErr{e.Error()})
		}
		defer l.Close()
		s := servers[u]
		db, login := 0, ""
		if c.r.Intn(2) == 0 {
			// a login and another database
			if login = choose(c.r, "", ":secret@", "some:secret@", "some:a%2Fb@"); login != "" {
				s.Password = strings.Replace(strings.Trim(login[strings.Index(login, ":"):], ":@"), "%2F", "/", 1)
				s.User = login[:strings.Index(login, ":")]
			}
			db = choose(c.r, 0, 1, 5, 15)
		}
		if db != 0 {
			servers[u+"/0"] = s
			names = append(names, u+"/0")
			servers[u] = s.DB(db)
		}
		go func() {
			for {
				nc, e := l.Accept()
				if e != nil {
					return
				}
				s.Serve(nc)
			}
		}()
		urls[u] = fmt.Sprintf("redis://%s%s/%d", login, l.Addr().String(), db)
	}
	coders := map[string]*idCoder{"A": {id: "A", inner: sessionid.GOBCoder{}}, "B": {id: "B", inner: jsonCoder{}}, "C": {id: "C", inner: sessionid.GOBCoder{}}}
	var opts []sr.Option
	for _, o := range c.opts {
		switch o[0] {
		case "prefix":
			opts = append(opts, sr.WithKeyPrefix(o[1]))
		case "meta":
			opts = append(opts, sr.WithMetadataKey(o[1]))
		case "coder":
			if o[1] == "gob" {
				opts = append(opts, sr.WithCoder(sessionid.GOBCoder{}))
			} else {
				opts = append(opts, sr.WithCoder(coders[o[1]]))
			}
		case "url":
			opts = append(opts, sr.WithURL(urls[o[1]]))
		case "client":
			var cl *redis.Client
			if o[1] != "" {
				cl = redis.NewClient(&redis.Options{IdleCheckFrequency: -1, Dialer: servers[o[1]].Dial, MinRetryBackoff: -1, MaxRetryBackoff: -1})
			}
			opts = append(opts, sr.WithClient(cl))
		}
	}
	var p *sr.Provider
	res, info := guard(func() (e error) { p, e = sr.New(opts...); return })
	if res != "ok" {
		c.seen("redis", "failed "+res, info, nil)
		return
	}
	defer func() {
		p.Close()
		for _, s := range servers {
			s.Shutdown()
		}
	}()
	const a, rt = "u.tokentoken.s", "u.r.s"
	look := func(tok string) (seen [][2]string) {
		var srv []string
		for _, s := range names {
			for _, k := range servers[s].Keys() {
				if !strings.HasSuffix(k, tok) {
					continue
				}
				srv = append(srv, s)
				seen = append(seen, [2]string{"prefix", k[:len(k)-len(tok)]})
				for f, v := range servers[s].Hash(k) {
					if f != "k" {
						seen = append(seen, [2]string{"meta", f}, [2]string{"coder", coderOf([]byte(v))})
					}
				}
			}
		}
		return append(seen, [2]string{"server", strings.Join(srv, "+")})
	}
	read := func(tok string) (string, string) {
		var v []sessionid.Value
		r, i := guard(func() (e error) { v, e = p.Get(ctx, tok, []string{"k"}); return })
		if r == "ok" && (len(v) != 1 || !v[0].Exists || string(v[0].Bytes) != "v") {
			r = "other value"
		}
		return r, i
	}
	res, info = guard(func() error { return p.Create(ctx, a, rt, []sessionid.PairBytes{{Key: "k", Value: []byte("v")}}) })
	c.seen("redis", res, info, look(a))
	res, info = read(a)
	c.seen("redis", res, info, nil)
	const na, nr = "u.newtoken.s", "u.r2.s"
	res, info = guard(func() error { return p.Refresh(ctx, a, rt, na, nr) })
	c.seen("redis", res, info, look(na))
	res, info = read(na)
	c.seen("redis", res, info, nil)
	if cd := coders[c.last("coder", "gob")]; cd != nil {
		dump := func() (out string) {
			for _, s := range names {
				out += s + servers[s].Dump(func(string) bool { return true })
			}
			return
		}
		try := func(what string, f func() error) {
			before := dump()
			res, info := guard(f)
			c.refused(what, res, info, dump() == before)
		}
		cd.failE = true
		try("create, coder does not encode", func() error { return p.Create(ctx, "u.third.s", "u.r3.s", nil) })
		try("create again, coder does not encode", func() error { return p.Create(ctx, na, "u.r3.s", nil) })
		try("refresh, coder does not encode", func() error { return p.Refresh(ctx, na, nr, "u.third.s", "u.r3.s") })
		cd.failE, cd.failD = false, true
		try("check, coder does not decode", func() error { return p.Check(ctx, na) })
		try("put, coder does not decode", func() error { return p.Put(ctx, na, []sessionid.PairBytes{{Key: "k", Value: []byte("w")}}) })
		try("keys, coder does not decode", func() error { _, e := p.Keys(ctx, na); return e })
		try("delete, coder does not decode", func() error { return p.Delete(ctx, na, []string{"k"}) })
		try("refresh, coder does not decode", func() error { return p.Refresh(ctx, na, nr, "u.third.s", "u.r3.s") })
		cd.failD = false
		res, info = read(na)
		c.seen("redis", res, info, look(na))
		// Get gives back what it cannot read
		cd.failD = true
		res, info = guard(func() error { _, e := p.Get(ctx, na, []string{"k"}); return e })
		c.refused("get, coder does not decode", res, info, true)
	}
	if c.r.Intn(3) == 0 {
		var q *sr.Provider
		res, info = guard(func() (e error) {
			q, e = sr.New(sr.WithURL(choose(c.r, "what:is/this", "http://localhost/", "redis://localhost/x")))
			return
		})
		if q != nil && res == "ok" {
			q.Close()
		}
		c.refused("a url that is none", res, info, true)
	}
}

func init() {
	Families["conf-mgr"] = runConfMgr
	Families["conf-bolt"] = runConfBolt
	Families["conf-redis"] = runConfRedis
}
