package core

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
)

// meddler stands between the session objects and the store and spoils the next call when told to.
type meddler struct {
	sessionid.Provider
	inj string
}

var errInjected = errors.New("injected")

func (m *meddler) take() string { x := m.inj; m.inj = ""; return x }
func (m *meddler) do(f func() error) error {
	switch m.take() {
	case "before":
		return errInjected
	case "after":
		f()
		return errInjected
	}
	return f()
}
func (m *meddler) Put(ctx context.Context, t string, p []sessionid.PairBytes) error {
	return m.do(func() error { return m.Provider.Put(ctx, t, p) })
}
func (m *meddler) Check(ctx context.Context, t string) error {
	return m.do(func() error { return m.Provider.Check(ctx, t) })
}
func (m *meddler) Delete(ctx context.Context, t string, k []string) error {
	return m.do(func() error { return m.Provider.Delete(ctx, t, k) })
}
func (m *meddler) DestroyByToken(ctx context.Context, t string) error {
	return m.do(func() error { return m.Provider.DestroyByToken(ctx, t) })
}
func (m *meddler) Keys(ctx context.Context, t string) (ks []string, e error) {
	e = m.do(func() (e error) { ks, e = m.Provider.Keys(ctx, t); return })
	if e != nil {
		ks = nil
	}
	return
}
func (m *meddler) Get(ctx context.Context, t string, k []string) (vs []sessionid.Value, e error) {
	short := m.inj == "short"
	e = m.do(func() (e error) { vs, e = m.Provider.Get(ctx, t, k); return })
	if e != nil {
		vs = nil
	} else if short && len(vs) > 0 {
		vs = vs[:len(vs)-1]
	}
	return
}

// Types the callers put and ask for.
type (
	myInt  int
	myStr  string
	secret string // has a JSON form of its own
	count  int    // likewise
	point  struct{ A, B int }
	pixel  struct{ A, B int }
	deep   struct {
		N int
		P *int
		L []string
		M map[string]int
		S *point
	}
	wide struct {
		A int
		C string
	}
	myBytes []byte
)

func (s secret) MarshalJSON() ([]byte, error) { return json.Marshal("<" + string(s) + ">") }
func (s *secret) UnmarshalJSON(b []byte) error {
	var x string
	if e := json.Unmarshal(b, &x); e != nil {
		return e
	}
	if !strings.HasPrefix(x, "<") {
		return errors.New("not a secret")
	}
	*s = secret(strings.Trim(x, "<>"))
	return nil
}
func (c *count) UnmarshalJSON(b []byte) error {
	n, e := strconv.Atoi(string(b))
	*c = count(n + 1000)
	return e
}

var cacheTypes = map[string]reflect.Type{}

func addType[T any](name string) { cacheTypes[name] = reflect.TypeOf((*T)(nil)).Elem() }

func init() {
	addType[int]("int")
	addType[int8]("int8")
	addType[int64]("int64")
	addType[uint16]("uint16")
	addType[myInt]("myInt")
	addType[count]("count")
	addType[string]("string")
	addType[myStr]("myStr")
	addType[secret]("secret")
	addType[bool]("bool")
	addType[float64]("float64")
	addType[float32]("float32")
	addType[[]byte]("bytes")
	addType[myBytes]("myBytes")
	addType[[]int]("ints")
	addType[[]string]("strings")
	addType[[]*point]("points")
	addType[[2]int]("pair")
	addType[[2][]int]("pairs")
	addType[map[string]int]("map")
	addType[map[string][]int]("maps")
	addType[point]("point")
	addType[pixel]("pixel")
	addType[deep]("deep")
	addType[wide]("wide")
	addType[interface{}]("any")
	addType[time.Duration]("duration")
	addType[complex128]("complex")
	addType[json.RawMessage]("raw")
}

// show writes a value down completely, following pointers.
func show(v reflect.Value) string {
	if !v.IsValid() {
		return "nothing"
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return v.Type().String() + "(nil)"
		}
		return "&" + show(v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return v.Type().String() + "(nil)"
		}
		s := v.Type().String() + "["
		for i := 0; i < v.Len(); i++ {
			s += show(v.Index(i)) + ","
		}
		return s + "]"
	case reflect.Map:
		if v.IsNil() {
			return v.Type().String() + "(nil)"
		}
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, show(k)+":"+show(v.MapIndex(k)))
		}
		sort.Strings(l)
		return v.Type().String() + "{" + strings.Join(l, ",") + "}"
	case reflect.Struct:
		s := v.Type().String() + "{"
		for i := 0; i < v.NumField(); i++ {
			s += show(v.Field(i)) + ","
		}
		return s + "}"
	case reflect.String:
		return v.Type().String() + "(" + strconv.Quote(v.String()) + ")"
	case reflect.Float32, reflect.Float64:
		return v.Type().String() + "(" + strconv.FormatUint(math.Float64bits(v.Float()), 16) + ")"
	}
	return fmt.Sprintf("%s(%v)", v.Type(), v)
}

// scramble changes everything that can be reached from v without replacing v itself.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Slice:
		w := v.Slice(0, v.Cap())
		for i := 0; i < w.Len(); i++ {
			scramble(w.Index(i))
		}
	case reflect.Array, reflect.Struct:
		n := 0
		if v.Kind() == reflect.Array {
			n = v.Len()
		} else {
			n = v.NumField()
		}
		for i := 0; i < n; i++ {
			if v.Kind() == reflect.Array {
				scramble(v.Index(i))
			} else {
				scramble(v.Field(i))
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			scramble(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Value{})
		}
		v.SetMapIndex(reflect.ValueOf("scrambled").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString("scrambled")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(77)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(77)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(0.25)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

// draw makes a value; calling it again with an equal r makes an equal value that shares nothing with the first.
func draw(r *rand.Rand, coder string) interface{} {
	n := r.Intn(200) - 100
	switch r.Intn(22) {
	case 0:
		return n
	case 1:
		return int64(n) << 40
	case 2:
		return myInt(n)
	case 3:
		return "s" + strconv.Itoa(n)
	case 4:
		return myStr("m" + strconv.Itoa(n))
	case 5:
		return secret("x" + strconv.Itoa(n))
	case 6:
		return r.Intn(2) == 0
	case 7:
		return float64(n) / 8
	case 8:
		return []byte{byte(n), 1, 2}
	case 9:
		return []int{n, n + 1}[:r.Intn(3)]
	case 10:
		return []string{"a", strconv.Itoa(n)}
	case 11:
		return map[string]int{"k": n}
	case 12:
		return map[string][]int{"l": {n, 2}}
	case 13:
		return point{n, 2}
	case 14:
		return &point{n, 3}
	case 15:
		return deep{N: n, P: &n, L: []string{"x", "y"}, M: map[string]int{"z": n}, S: &point{n, 1}}
	case 16:
		return []*point{{n, 0}, {1, n}}
	case 17:
		return [2]int{n, 1}
	case 18:
		return uint16(n + 100)
	case 19:
		return &deep{N: n}
	case 20:
		return time.Duration(n) * time.Second
	}
	switch r.Intn(6) {
	case 0:
		return json.RawMessage(`{"A":1, "B" : 2}`)
	case 1:
		return complex(float64(n), 1)
	case 2:
		return [2][]int{{n}, {1, 2}}
	case 3:
		if coder == "json" {
			return nil
		}
		return n
	case 4:
		return count(n)
	}
	return strings.Repeat("long", 700)
}

// unencodable values
func undraw(r *rand.Rand, coder string) interface{} {
	switch r.Intn(3) {
	case 0:
		return make(chan int)
	case 1:
		return func() {}
	}
	if coder == "json" {
		return math.NaN()
	}
	return struct{ C chan int }{make(chan int)}
}

// The same codings without the code under test.
type stdCoder string

func (c stdCoder) Encode(v interface{}) ([]byte, error) {
	switch c {
	case "gob":
		var b bytes.Buffer
		e := gob.NewEncoder(&b).Encode(v)
		return b.Bytes(), e
	case "json":
		return json.Marshal(v)
	case "xml":
		return xml.Marshal(v)
	}
	return rawCoder{}.Encode(v)
}
func (c stdCoder) Decode(b []byte, v interface{}) error {
	switch c {
	case "gob":
		return gob.NewDecoder(bytes.NewReader(b)).Decode(v)
	case "json":
		return json.Unmarshal(b, v)
	case "xml":
		return xml.Unmarshal(b, v)
	}
	return rawCoder{}.Decode(b, v)
}

type Dec struct {
	Ok  bool   `json:"ok"`
	Out string `json:"out"`
}

// decodeNew decodes b into a new variable of type ty.
func decodeNew(c sessionid.Coder, b []byte, ty reflect.Type) (d Dec) {
	defer func() {
		if x := recover(); x != nil {
			d = Dec{false, ""}
		}
	}()
	p := reflect.New(ty)
	if e := c.Decode(append([]byte(nil), b...), p.Interface()); e != nil {
		return Dec{false, ""}
	}
	return Dec{true, sym([]byte(show(p.Elem())))}
}

type cacheWorld struct {
	*tokWorld
	med   *meddler
	mgr   *sessionid.LocalManager
	coder sessionid.Coder
	cname string
	obs   []*sessionid.Session
	toks2 []string // symbol of the token of each object
	vals  map[string][]byte
	big   bool // puts of many pairs
	types map[string]bool
	reuse map[string]reflect.Value // last target per object, key and type with what it held
}

func (t *cacheWorld) enc(x interface{}) (b []byte, bad bool) {
	b, e := t.coder.Encode(x)
	if e != nil {
		return nil, true
	}
	b = append([]byte(nil), b...)
	t.vals[sym(b)] = b
	return b, false
}

func (t *cacheWorld) class(e error) string {
	switch {
	case errors.Is(e, sessionid.ErrKeyNotExists):
		return "nokey"
	}
	return class(e)
}

func (t *cacheWorld) guard2(f func() error) (res, info string) {
	var err error
	res, info = guard(func() error { err = f(); return err })
	if res != "panic" {
		res = t.class(err)
	}
	t.med.inj = ""
	return
}

// pairs draws pairs to put. Every value is made twice: one goes to the reference, the other to the code.
func (t *cacheWorld) pairs(n int, badly bool) (ps []sessionid.Pair, kv [][2]string, bad bool) {
	kv = [][2]string{}
	seenBad := false
	badAt := n - 1
	if n > 1 && t.r.Intn(2) == 0 {
		badAt = t.r.Intn(n)
	}
	for i := 0; i < n; i++ {
		k := t.key()
		if n > 8 {
			k = fmt.Sprint("k", 1+t.r.Intn(n+n/2))
		}
		seed := t.r.Int63()
		mk := func() interface{} { return draw(rand.New(rand.NewSource(seed)), t.cname) }
		if t.cname == "raw" {
			mk = func() interface{} { return []byte(fmt.Sprintf("raw%d", seed%1000)) }
		}
		if badly && i == badAt {
			mk = func() interface{} { return undraw(rand.New(rand.NewSource(seed)), t.cname) }
		}
		b, isBad := t.enc(mk())
		if isBad {
			seenBad = true
		}
		kv = append(kv, [2]string{sym([]byte(k)), sym(b)})
		ps = append(ps, sessionid.Pair{Key: k, Value: mk()})
		if n < 9 {
			t.codecs(mk())
		}
	}
	return ps, kv, seenBad
}

// codecs compares the coder with the same coding made by the standard library.
func (t *cacheWorld) codecs(x interface{}) {
	ty := reflect.TypeOf(x)
	if ty == nil || t.cname == "raw" {
		return
	}
	if ty.Kind() == reflect.Ptr {
		ty = ty.Elem()
	}
	std := stdCoder(t.cname)
	want, got := Dec{}, Dec{}
	b, e := std.Encode(x)
	if e == nil {
		want = decodeNew(std, b, ty)
	}
	b, e2 := t.coder.Encode(x)
	if e2 == nil {
		b1 := append([]byte(nil), b...)
		t.coder.Encode("something else that is encoded later on")
		if !bytes.Equal(b, b1) {
			t.add(Ev{"op": "same", "same": false, "about": []string{"C17"}, "what": "encoded bytes change later"}, "")
		}
		got = decodeNew(t.coder, b, ty)
	}
	if (e == nil) != (e2 == nil) || want != got {
		t.add(Ev{"op": "same", "same": false, "about": []string{"C17"}, "what": ascii(fmt.Sprintf("%s of %T: %v %v, expected %v %v", t.cname, x, got, e2, want, e))}, "")
	}
}

func scrambleAny(x interface{}) {
	v := reflect.ValueOf(x)
	if !v.IsValid() || v.Kind() == reflect.Chan || v.Kind() == reflect.Func {
		return
	}
	scramble(v)
}

func (t *cacheWorld) key() string { return choose(t.r, "k1", "k1", "k2", "k3", "k4") }
func (t *cacheWorld) keys() []string {
	ks := []string{}
	for n := t.r.Intn(5); n > 0; n-- {
		ks = append(ks, t.key())
	}
	return ks
}
func syms(ks []string) []string {
	out := []string{}
	for _, k := range ks {
		out = append(out, sym([]byte(k)))
	}
	return out
}

func (t *cacheWorld) object(s *sessionid.Session, tok string) {
	t.obs = append(t.obs, s)
	t.toks2 = append(t.toks2, tok)
}

func (t *cacheWorld) screate(u string) {
	badly := t.r.Intn(8) == 0
	n := t.r.Intn(3)
	if t.big && t.r.Intn(2) == 0 {
		n = choose(t.r, 9, 20, 40, 70, 105, 140)
		badly = t.r.Intn(3) == 0
	}
	if badly && n == 0 {
		n = 1
	}
	ps, kv, bad := t.pairs(n, badly)
	var s *sessionid.Session
	var rt string
	res, info := t.guard2(func() (e error) { s, rt, e = t.mgr.Create(context.Background(), u, ps...); return })
	if res == "ok" && s == nil {
		res = "nosession"
	}
	ev := Ev{"op": "screate", "p": 1, "kv": kv, "bad": bad, "res": res, "a": "", "r": ""}
	if res == "ok" && s != nil {
		ev["a"], ev["r"] = t.name(s.Token()), t.name(rt)
		t.object(s, t.name(s.Token()))
		t.issued(s.Token(), rt)
	}
	t.add(ev, info)
	for _, p := range ps {
		scrambleAny(p.Value)
	}
}

func (t *cacheWorld) snew(tok string) {
	var s *sessionid.Session
	var e error
	if t.r.Intn(2) == 0 {
		s, e = t.mgr.Get(context.Background(), tok)
	} else {
		s, e = sessionid.NewSession(tok, t.med, t.coder)
	}
	if e != nil {
		t.add(Ev{"op": "same", "same": false, "about": []string{"C15", "C17"}, "what": "no session for a token: " + ascii(e.Error())}, "")
		return
	}
	t.object(s, t.name(tok))
	t.add(Ev{"op": "snew", "a": t.name(tok), "res": "ok"}, "")
}

// spoil chooses what the store does to the next call.
func (t *cacheWorld) spoil(get bool) string {
	if t.r.Intn(8) > 0 {
		return ""
	}
	if get {
		return choose(t.r, "before", "after", "short")
	}
	return choose(t.r, "before", "after")
}

func (t *cacheWorld) sget(o int, k string) {
	names := sortedTypes()
	if t.cname == "raw" {
		names = []string{"bytes", "bytes", "bytes", "string", "ints"}
	}
	ty := names[t.r.Intn(len(names))]
	t.types[ty] = true
	tgt := "ptr"
	p := reflect.New(cacheTypes[ty])
	var arg interface{} = p.Interface()
	switch t.r.Intn(30) {
	case 0:
		tgt, arg = "nil", choose[interface{}](t.r, nil, (*int)(nil), (*deep)(nil))
	case 1:
		tgt, arg = "nonptr", p.Elem().Interface()
		if arg == nil {
			arg = 1
		}
		if ty == "any" {
			arg = 5
		}
	case 2:
		q := reflect.New(p.Type())
		if t.r.Intn(2) == 0 {
			q.Elem().Set(p)
		}
		tgt, arg = "ptrptr", q.Interface()
	}
	inj := t.spoil(true)
	t.med.inj = inj
	res, info := t.guard2(func() error { return t.obs[o].Get(context.Background(), k, arg) })
	ev := Ev{"op": "sget", "o": o + 1, "k": sym([]byte(k)), "ty": ty, "tgt": tgt, "inj": inj, "res": res, "out": ""}
	if res == "ok" {
		if tgt == "ptr" {
			ev["out"] = sym([]byte(show(p.Elem())))
		}
	}
	t.add(ev, info)
	if res == "ok" && tgt == "ptr" {
		scramble(p)
	}
}

func sortedTypes() []string {
	var l []string
	for k := range cacheTypes {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (t *cacheWorld) sput(o int) {
	n := t.r.Intn(4)
	badly := t.r.Intn(7) == 0
	if t.big && t.r.Intn(2) == 0 {
		n = choose(t.r, 9, 20, 40, 70, 105, 140)
		badly = t.r.Intn(3) == 0
	}
	if badly && n == 0 {
		n = 2
	}
	ps, kv, bad := t.pairs(n, badly)
	if n > 0 && !bad && t.w.P.Kind == "redis" && t.r.Intn(20) == 0 {
		ps[0].Key = t.w.P.MetaKey
		kv[0][0] = sym([]byte(ps[0].Key))
	}
	inj := t.spoil(false)
	t.med.inj = inj
	res, info := t.guard2(func() error { return t.obs[o].Put(context.Background(), ps...) })
	t.add(Ev{"op": "sput", "o": o + 1, "kv": kv, "bad": bad, "inj": inj, "res": res}, info)
	for i := range ps {
		scrambleAny(ps[i].Value)
		ps[i] = sessionid.Pair{Key: "scrambled", Value: 1}
	}
}

func (t *cacheWorld) sprepare(o int) {
	ks := t.keys()
	inj := t.spoil(true)
	t.med.inj = inj
	arg := append([]string(nil), ks...)
	res, info := t.guard2(func() error { return t.obs[o].Prepare(context.Background(), arg...) })
	for i := range arg {
		arg[i] = "scrambled"
	}
	t.add(Ev{"op": "sprepare", "o": o + 1, "ks": syms(ks), "inj": inj, "res": res}, info)
}

func (t *cacheWorld) sdelete(o int) {
	ks := t.keys()
	tok := t.obs[o].Token()
	switch t.r.Intn(8) {
	case 0:
		tok = t.toks[t.r.Intn(len(t.toks))]
	case 1:
		tok = choose(t.r, "", "x", "a.b.c", tok+"x")
	}
	inj := t.spoil(false)
	t.med.inj = inj
	arg := append([]string(nil), ks...)
	res, info := t.guard2(func() error { return t.obs[o].Delete(context.Background(), tok, arg...) })
	for i := range arg {
		arg[i] = "scrambled"
	}
	t.add(Ev{"op": "sdelete", "o": o + 1, "a": t.name(tok), "ks": syms(ks), "inj": inj, "res": res}, info)
}

func (t *cacheWorld) simple(o int, op string) {
	inj := t.spoil(false)
	t.med.inj = inj
	var ks []string
	res, info := t.guard2(func() (e error) {
		switch op {
		case "skeys":
			ks, e = t.obs[o].Keys(context.Background())
		case "scheck":
			e = t.obs[o].Check(context.Background())
		case "sdestroy":
			e = t.obs[o].Destroy(context.Background())
		}
		return
	})
	t.add(Ev{"op": op, "o": o + 1, "inj": inj, "res": res, "keys": syms(ks)}, info)
}

func runCache(name string, r *rand.Rand, kind string, steps int) *Trace {
	p := GeneralParams(r, kind)
	if p.MetaKey == "k3" { // the keys of this family are ordinary ones
		p.MetaKey = "meta"
	}
	p.Ids, p.Toks, p.Foreign = nil, map[string]string{}, false
	p.Opts = [][2]any{{"access", choose(r, 2000, 3600000)}, {"refresh", choose(r, 5000, 86400000)}}
	if kind != "redis" && r.Intn(4) == 0 {
		p.Opts = append(p.Opts, [2]any{"max", 1})
	}
	w := NewWorld(name, p, r.Int63())
	w.Tr.Judge = "cache"
	t := &cacheWorld{tokWorld: &tokWorld{w: w, r: r, inv: map[string]string{}}, vals: map[string][]byte{}, types: map[string]bool{}}
	switch t.cname = choose(r, "gob", "json", "json", "xml", "raw"); t.cname {
	case "gob":
		t.coder = sessionid.GOBCoder{}
	case "json":
		t.coder = sessionid.JSONCoder{}
	case "xml":
		t.coder = sessionid.XMLCoder{}
	case "raw":
		t.coder = rawCoder{}
	}
	t.big = r.Intn(12) == 0
	if t.big {
		steps /= 2
	}
	InBubble(w, func() {
		w.Open()
		t.med = &meddler{Provider: w.Provs[0]}
		t.mgr = sessionid.NewManager(sessionid.WithProvider(t.med), sessionid.WithMethod(cryptoer.SigningMethodHMD5), sessionid.WithKey([]byte("k")), sessionid.WithCoder(t.coder))
		t.screate("u1")
		for i := 0; i < steps && !w.Dead; i++ {
			if len(t.obs) == 0 {
				t.screate("u1")
				continue
			}
			// most of the time the object made last
			o := len(t.obs) - 1
			if r.Intn(3) == 0 {
				o = r.Intn(len(t.obs))
			}
			switch c := r.Intn(100); {
			case c < 34:
				t.sget(o, t.key())
			case c < 52:
				t.sput(o)
				if t.big {
					w.Do(Op{Op: "keys", A: t.toks2[o]})
				}
			case c < 62:
				t.sprepare(o)
			case c < 70:
				t.sdelete(o)
			case c < 75:
				t.simple(o, choose(r, "skeys", "scheck", "skeys", "scheck", "sdestroy"))
			case c < 81:
				t.snew(t.obs[o].Token())
			case c < 83:
				t.screate(choose(r, "u1", "u2"))
			case c < 84:
				w.TickTo(w.NowMS() + int64(choose(r, 1, 2000, 5000)))
			case c < 92: // behind the object's back
				b, bad := t.enc(draw(r, t.cname))
				if bad || t.cname == "raw" {
					b = []byte(choose(r, "junk", "", "5", "{", "raw"))
					t.vals[sym(b)] = b
				}
				w.Do(Op{Op: "put", A: t.toks2[o], KV: [][2]string{{t.key(), string(b)}}})
			case c < 94:
				w.Do(Op{Op: "delete", A: t.toks2[o], Ks: t.keys()})
			default:
				w.Do(Op{Op: "get", A: t.toks2[o], Ks: []string{"k1", "k2", "k3", "k4"}})
				w.Do(Op{Op: "keys", A: t.toks2[o]})
			}
		}
		for o := range t.obs {
			if w.Dead {
				break
			}
			for _, k := range []string{"k1", "k2", "k3", "k4"} {
				t.sget(o, k)
			}
			w.Do(Op{Op: "get", A: t.toks2[o], Ks: []string{"k1", "k2", "k3", "k4"}})
			w.Do(Op{Op: "keys", A: t.toks2[o]})
		}
		w.Finish()
	})
	w.Tr.Dec = map[string]Dec{}
	t.vals[""] = []byte{}
	for s, b := range t.vals {
		for ty := range t.types {
			w.Tr.Dec[s+"|"+ty] = decodeNew(t.coder, b, cacheTypes[ty])
		}
	}
	return w.Tr
}

func init() {
	for _, kind := range []string{"mem", "bolt", "redis"} {
		kind := kind
		Families["cache-"+kind] = func(name string, r *rand.Rand) *Trace { return runCache(name, r, kind, 30) }
	}
}
