// Package fredis is a small in-process redis server (RESP2 over buffered in-process connections) holding hashes and strings.
// It executes one command (or one MULTI/EXEC block) at a time, in an order its Gate decides, uses time.Now
// (the fake clock inside a synctest bubble) for expiry, and can inject connection losses and error replies.
package fredis

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type entry struct {
	hash   map[string]string
	str    string
	isHash bool
	expire int64 // unix ms, 0: none
}

// Fault decides what happens to the n-th gated command since Arm (1-based).
type Fault struct {
	At    int
	Queue bool   // At counts the commands queued inside MULTI instead
	Mode  string // "before": connection lost before the command; "after": lost after it was applied; otherwise an error reply
}

type Server struct {
	mu    sync.Mutex
	db    map[string]*entry
	conns map[*conn]bool
	dbs   map[int]*Server
	// User and Password, if there is a password, must be given before anything else
	User, Password string
	nconn          int
	Gate           func(label string) // called before every command takes effect; may block
	fault          []Fault
	count          int
	queued         int
	fired          int
	Unknown        []string // commands this server does not implement: the harness must not judge such a run
	Log            []string
	KeepLog        bool
	commands       int
	down           bool
	// down makes every new connection fail
}

type conn struct {
	s       *Server
	id      int
	nc      net.Conn
	watched map[string]bool
	dirty   bool
	multi   bool
	queue   [][]string
	qerr    bool
	authed  bool
	main    *Server // of which s is a database
}

func New() *Server {
	return &Server{db: map[string]*entry{}, conns: map[*conn]bool{}}
}

func (s *Server) Dial(ctx context.Context, network, addr string) (net.Conn, error) {
	s.mu.Lock()
	if s.down {
		s.mu.Unlock()
		return nil, errors.New("fredis: connection refused")
	}
	a, b := newLink()
	s.nconn++
	c := &conn{s: s, id: s.nconn, nc: b, watched: map[string]bool{}}
	s.conns[c] = true
	s.mu.Unlock()
	go c.serve()
	return a, nil
}

// Serve serves one more connection, in the background.
func (s *Server) Serve(nc net.Conn) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.down {
		nc.Close()
		return
	}
	s.nconn++
	c := &conn{s: s, id: s.nconn, nc: nc, watched: map[string]bool{}}
	s.conns[c] = true
	go c.serve()
}

// Hash returns a copy of a hash.
func (s *Server) Hash(k string) map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string]string{}
	if e := s.db[k]; e != nil {
		for f, v := range e.hash {
			out[f] = v
		}
	}
	return out
}

// half is one direction of a connection: what was written is there to be read, even after the writer closed.
type half struct {
	mu   sync.Mutex
	cond *sync.Cond
	buf  []byte
	wend bool // no more will be written
	rend bool // nobody reads any more
}

func newHalf() *half { h := &half{}; h.cond = sync.NewCond(&h.mu); return h }

func (h *half) read(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for len(h.buf) == 0 && !h.wend && !h.rend {
		h.cond.Wait()
	}
	if h.rend {
		return 0, net.ErrClosed
	}
	if len(h.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(b, h.buf)
	h.buf = h.buf[n:]
	return n, nil
}
func (h *half) write(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.wend {
		return 0, net.ErrClosed
	}
	if h.rend {
		return 0, io.ErrClosedPipe
	}
	h.buf = append(h.buf, b...)
	h.cond.Broadcast()
	return len(b), nil
}

// end is one end of a connection. Deadlines are not supported, the harness sets none.
type end struct{ in, out *half }

func newLink() (net.Conn, net.Conn) {
	x, y := newHalf(), newHalf()
	return &end{x, y}, &end{y, x}
}
func (e *end) Read(b []byte) (int, error)  { return e.in.read(b) }
func (e *end) Write(b []byte) (int, error) { return e.out.write(b) }
func (e *end) Close() error {
	e.in.mu.Lock()
	e.in.rend = true
	e.in.cond.Broadcast()
	e.in.mu.Unlock()
	e.out.mu.Lock()
	e.out.wend = true
	e.out.cond.Broadcast()
	e.out.mu.Unlock()
	return nil
}

type linkAddr struct{}

func (linkAddr) Network() string                  { return "fredis" }
func (linkAddr) String() string                   { return "fredis" }
func (e *end) LocalAddr() net.Addr                { return linkAddr{} }
func (e *end) RemoteAddr() net.Addr               { return linkAddr{} }
func (e *end) SetDeadline(t time.Time) error      { return nil }
func (e *end) SetReadDeadline(t time.Time) error  { return nil }
func (e *end) SetWriteDeadline(t time.Time) error { return nil }

// Arm installs a fault plan and restarts the command counter.
func (s *Server) Arm(f ...Fault) {
	s.mu.Lock()
	s.fault, s.count, s.queued, s.fired = f, 0, 0, 0
	s.mu.Unlock()
}

// Count returns the number of commands since Arm, Fired how many faults struck.
func (s *Server) Count() int  { s.mu.Lock(); defer s.mu.Unlock(); return s.count }
func (s *Server) Queued() int { s.mu.Lock(); defer s.mu.Unlock(); return s.queued }
func (s *Server) Fired() int  { s.mu.Lock(); defer s.mu.Unlock(); return s.fired }

// Shutdown closes all connections.
func (s *Server) Shutdown() {
	s.mu.Lock()
	s.down = true
	cs := s.conns
	s.conns = map[*conn]bool{}
	dbs := s.dbs
	s.mu.Unlock()
	for _, d := range dbs {
		d.Shutdown()
	}
	for c := range cs {
		c.nc.Close()
	}
}

// Keys lists the live keys (harness view).
func (s *Server) Keys() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.purge()
	out := make([]string, 0, len(s.db))
	for k := range s.db {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Dump returns a deterministic rendering of every key outside the given prefix.
func (s *Server) Dump(match func(string) bool) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.purge()
	var out []string
	for k, e := range s.db {
		if !match(k) {
			continue
		}
		var f []string
		for x, v := range e.hash {
			f = append(f, fmt.Sprintf("%q=%q", x, v))
		}
		sort.Strings(f)
		out = append(out, fmt.Sprintf("%q:%v:%q:%d", k, f, e.str, e.expire))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// SetString stores an unrelated plain string key.
func (s *Server) SetString(k, v string) { s.mu.Lock(); s.db[k] = &entry{str: v}; s.mu.Unlock() }

// SetHash stores an unrelated hash key.
func (s *Server) SetHash(k string, kv map[string]string) {
	s.mu.Lock()
	s.db[k] = &entry{isHash: true, hash: kv}
	s.mu.Unlock()
}

func nowMS() int64 { return time.Now().UnixNano() / int64(time.Millisecond) }

func (s *Server) purge() {
	now := nowMS()
	for k, e := range s.db {
		if e.expire != 0 && now > e.expire {
			s.del(k)
		}
	}
}
func (s *Server) touch(k string) {
	for c := range s.conns {
		if c.watched[k] {
			c.dirty = true
		}
	}
}
func (s *Server) del(k string) bool {
	if _, ok := s.db[k]; ok {
		delete(s.db, k)
		s.touch(k)
		return true
	}
	return false
}

// DB is another database of the server.
func (s *Server) DB(n int) *Server {
	if n == 0 {
		return s
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.dbs == nil {
		s.dbs = map[int]*Server{}
	}
	if s.dbs[n] == nil {
		s.dbs[n] = New()
	}
	return s.dbs[n]
}

// use goes on with another database.
func (c *conn) use(n int) {
	if c.main == nil {
		c.main = c.s
	}
	d := c.main.DB(n)
	if d == c.s {
		return
	}
	c.s.mu.Lock()
	delete(c.s.conns, c)
	c.s.mu.Unlock()
	d.mu.Lock()
	d.conns[c] = true
	d.mu.Unlock()
	c.s = d
}

func (c *conn) serve() {
	defer func() {
		c.s.mu.Lock()
		delete(c.s.conns, c)
		c.s.mu.Unlock()
		c.nc.Close()
	}()
	rd := bufio.NewReader(c.nc)
	wr := bufio.NewWriter(c.nc)
	for {
		args, err := readCommand(rd)
		if err != nil {
			return
		}
		ok := c.handle(args, wr)
		if !ok {
			return
		}
		// Replies are flushed when no further pipelined command is waiting.
		if rd.Buffered() == 0 {
			if wr.Flush() != nil {
				return
			}
		}
	}
}

func readLine(rd *bufio.Reader) (string, error) {
	l, err := rd.ReadString('\n')
	if err != nil {
		return "", err
	}
	return strings.TrimSuffix(l, "\r\n"), nil
}
func readCommand(rd *bufio.Reader) ([]string, error) {
	l, err := readLine(rd)
	if err != nil {
		return nil, err
	}
	if len(l) == 0 || l[0] != '*' {
		return nil, errors.New("protocol error")
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil {
		return nil, err
	}
	out := make([]string, n)
	for i := range out {
		l, err = readLine(rd)
		if err != nil {
			return nil, err
		}
		m, err := strconv.Atoi(l[1:])
		if err != nil {
			return nil, err
		}
		b := make([]byte, m+2)
		if _, err = io.ReadFull(rd, b); err != nil {
			return nil, err
		}
		out[i] = string(b[:m])
	}
	return out, nil
}

type reply interface{}
type status string
type rerr string
type bulkNil struct{}

func write(w *bufio.Writer, r reply) {
	switch v := r.(type) {
	case status:
		fmt.Fprintf(w, "+%s\r\n", string(v))
	case rerr:
		fmt.Fprintf(w, "-%s\r\n", string(v))
	case bulkNil:
		fmt.Fprint(w, "$-1\r\n")
	case string:
		fmt.Fprintf(w, "$%d\r\n%s\r\n", len(v), v)
	case int:
		fmt.Fprintf(w, ":%d\r\n", v)
	case int64:
		fmt.Fprintf(w, ":%d\r\n", v)
	case []reply:
		if v == nil {
			fmt.Fprint(w, "*-1\r\n")
			return
		}
		fmt.Fprintf(w, "*%d\r\n", len(v))
		for _, x := range v {
			write(w, x)
		}
	default:
		panic(fmt.Sprintf("fredis reply %T", r))
	}
}

// gate waits for the scheduler and applies the fault plan. It returns (drop before, drop after, error reply).
func (c *conn) gate(label string) (before, after bool, e string) {
	s := c.s
	if s.Gate != nil {
		s.Gate(fmt.Sprintf("redis%d:%s", c.id, label))
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.count++
	for _, f := range s.fault {
		if f.At == s.count && !f.Queue {
			s.fired++
			switch f.Mode {
			case "before":
				before = true
			case "after":
				after = true
			default:
				e = f.Mode
			}
		}
	}
	return
}

func (c *conn) handle(args []string, w *bufio.Writer) bool {
	s := c.s
	name := strings.ToUpper(args[0])
	if s.Password != "" && !c.authed && name != "AUTH" {
		write(w, rerr("NOAUTH Authentication required."))
		return true
	}
	if c.multi && name != "EXEC" && name != "DISCARD" && name != "MULTI" && name != "WATCH" {
		if !known[name] {
			s.mu.Lock()
			s.Unknown = append(s.Unknown, name)
			s.mu.Unlock()
			c.qerr = true
			write(w, rerr("ERR unknown command '"+name+"'"))
			return true
		}
		s.mu.Lock()
		s.queued++
		strike := ""
		for _, f := range s.fault {
			if f.Queue && f.At == s.queued {
				s.fired++
				strike = f.Mode
			}
		}
		s.mu.Unlock()
		if strike == "before" || strike == "after" {
			return false
		}
		if strike != "" {
			c.qerr = true
			write(w, rerr(strike))
			return true
		}
		c.queue = append(c.queue, args)
		write(w, status("QUEUED"))
		return true
	}
	switch name {
	case "MULTI":
		c.multi, c.queue, c.qerr = true, nil, false
		write(w, status("OK"))
		return true
	case "DISCARD":
		c.multi, c.queue = false, nil
		s.mu.Lock()
		c.watched, c.dirty = map[string]bool{}, false
		s.mu.Unlock()
		write(w, status("OK"))
		return true
	case "UNWATCH":
		s.mu.Lock()
		c.watched, c.dirty = map[string]bool{}, false
		s.mu.Unlock()
		write(w, status("OK"))
		return true
	case "PING":
		write(w, status("PONG"))
		return true
	case "AUTH":
		a := args[1:]
		if len(a) == 1 {
			a = []string{"", a[0]}
		}
		if s.Password == "" || len(a) != 2 || a[0] != s.User || a[1] != s.Password {
			write(w, rerr("WRONGPASS invalid username-password pair"))
			return true
		}
		c.authed = true
		write(w, status("OK"))
		return true
	case "HELLO", "CLIENT", "READONLY":
		write(w, status("OK"))
		return true
	}
	if name == "SELECT" {
		if n, err := strconv.Atoi(args[1]); err != nil || n < 0 || n > 15 {
			write(w, rerr("ERR DB index is out of range"))
		} else {
			c.use(n)
			write(w, status("OK"))
		}
		return true
	}
	before, after, e := c.gate(name)
	if before {
		return false
	}
	if e != "" {
		if name == "EXEC" {
			s.mu.Lock()
			c.multi, c.queue = false, nil
			c.watched, c.dirty = map[string]bool{}, false
			s.mu.Unlock()
		}
		write(w, rerr(e))
		return true
	}
	s.mu.Lock()
	s.purge()
	var r reply
	if name == "EXEC" {
		switch {
		case !c.multi:
			r = rerr("ERR EXEC without MULTI")
		case c.qerr:
			r = rerr("EXECABORT Transaction discarded because of previous errors.")
		case c.dirty:
			r = []reply(nil)
		default:
			rs := make([]reply, 0, len(c.queue))
			for _, q := range c.queue {
				rs = append(rs, s.exec(c, q))
			}
			r = rs
		}
		c.multi, c.queue = false, nil
		c.watched, c.dirty = map[string]bool{}, false
	} else if name == "WATCH" {
		for _, k := range args[1:] {
			c.watched[k] = true
		}
		r = status("OK")
	} else {
		r = s.exec(c, args)
	}
	s.mu.Unlock()
	if after {
		return false
	}
	write(w, r)
	return true
}

var known = map[string]bool{}

func init() {
	for _, k := range strings.Fields("GET SET SETNX DEL UNLINK EXISTS TYPE KEYS SCAN HSCAN GETDEL MGET COPY EXPIRE PEXPIRE EXPIREAT PEXPIREAT PERSIST TTL PTTL RENAME RENAMENX HSET HMSET HSETNX HGET HMGET HGETALL HKEYS HVALS HLEN HEXISTS HDEL HSTRLEN PING TIME TOUCH") {
		known[k] = true
	}
}

const wrongType = rerr("WRONGTYPE Operation against a key holding the wrong kind of value")

func (s *Server) hash(k string) (*entry, bool) {
	e := s.db[k]
	if e == nil {
		return nil, true
	}
	return e, e.isHash
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *Server) exec(c *conn, a []string) reply {
	s.commands++
	if s.KeepLog {
		s.Log = append(s.Log, fmt.Sprintf("%d %q", c.id, a))
	}
	name := strings.ToUpper(a[0])
	n := len(a)
	argErr := rerr("ERR wrong number of arguments for '" + strings.ToLower(name) + "' command")
	need := func(k int) bool { return n >= k }
	switch name {
	case "TIME":
		t := time.Now()
		return []reply{strconv.FormatInt(t.Unix(), 10), strconv.Itoa(t.Nanosecond() / 1000)}
	case "GET":
		if !need(2) {
			return argErr
		}
		e := s.db[a[1]]
		if e == nil {
			return bulkNil{}
		}
		if e.isHash {
			return wrongType
		}
		return e.str
	case "SET":
		if !need(3) {
			return argErr
		}
		e := &entry{str: a[2]}
		for i := 3; i < n; i++ {
			switch strings.ToUpper(a[i]) {
			case "EX", "PX":
				v, _ := strconv.ParseInt(a[i+1], 10, 64)
				if strings.ToUpper(a[i]) == "EX" {
					v *= 1000
				}
				e.expire = nowMS() + v
				i++
			case "NX":
				if s.db[a[1]] != nil {
					return bulkNil{}
				}
			case "XX":
				if s.db[a[1]] == nil {
					return bulkNil{}
				}
			}
		}
		s.db[a[1]] = e
		s.touch(a[1])
		return status("OK")
	case "GETDEL":
		if !need(2) {
			return argErr
		}
		e := s.db[a[1]]
		if e == nil {
			return bulkNil{}
		} else if e.isHash {
			return wrongType
		}
		v := e.str
		s.del(a[1])
		return v
	case "MGET":
		out := []reply{}
		for _, k := range a[1:] {
			if e := s.db[k]; e != nil && !e.isHash {
				out = append(out, e.str)
			} else {
				out = append(out, bulkNil{})
			}
		}
		return out
	case "COPY":
		if !need(3) {
			return argErr
		}
		e := s.db[a[1]]
		if e == nil || a[1] == a[2] {
			return 0
		}
		replace := n > 3 && strings.ToUpper(a[3]) == "REPLACE"
		if s.db[a[2]] != nil && !replace {
			return 0
		}
		c := *e
		if e.isHash {
			c.hash = map[string]string{}
			for k, v := range e.hash {
				c.hash[k] = v
			}
		}
		s.touch(a[2])
		s.db[a[2]] = &c
		return 1
	case "SETNX":
		if s.db[a[1]] != nil {
			return 0
		}
		s.db[a[1]] = &entry{str: a[2]}
		s.touch(a[1])
		return 1
	case "DEL", "UNLINK":
		if !need(2) {
			return argErr
		}
		k := 0
		for _, x := range a[1:] {
			k += b2i(s.del(x))
		}
		return k
	case "EXISTS", "TOUCH":
		k := 0
		for _, x := range a[1:] {
			k += b2i(s.db[x] != nil)
		}
		return k
	case "TYPE":
		e := s.db[a[1]]
		if e == nil {
			return status("none")
		} else if e.isHash {
			return status("hash")
		}
		return status("string")
	case "KEYS":
		if !need(2) {
			return argErr
		}
		out := []reply{}
		for _, k := range s.sorted() {
			if Glob(a[1], k) {
				out = append(out, k)
			}
		}
		return out
	case "SCAN", "HSCAN":
		o := 1
		if name == "HSCAN" {
			o = 2
		}
		if !need(o + 1) {
			return argErr
		}
		cur, err := strconv.ParseUint(a[o], 10, 64)
		if err != nil {
			return rerr("ERR invalid cursor")
		}
		pat, count, typ := "*", 10, ""
		for i := o + 1; i < n; i += 2 {
			if i+1 >= n {
				return rerr("ERR syntax error")
			}
			switch strings.ToUpper(a[i]) {
			case "MATCH":
				pat = a[i+1]
			case "COUNT":
				if count, err = strconv.Atoi(a[i+1]); err != nil || count < 1 {
					return rerr("ERR syntax error")
				}
			case "TYPE":
				typ = a[i+1]
			default:
				return rerr("ERR syntax error")
			}
		}
		var names []string
		var e *entry
		if name == "SCAN" {
			names = s.sorted()
		} else {
			var ok bool
			if e, ok = s.hash(a[1]); !ok {
				return wrongType
			}
			if e != nil {
				for f := range e.hash {
					names = append(names, f)
				}
				if len(names) <= 128 {
					count = len(names)
				}
			}
		}
		// the cursor is a position in the order of hashes, so that what is there all the time is found
		sort.Slice(names, func(i, j int) bool {
			a, b := scanHash(names[i]), scanHash(names[j])
			return a < b || a == b && names[i] < names[j]
		})
		out, next, seen := []reply{}, uint64(0), 0
		for _, k := range names {
			h := scanHash(k)
			if h < cur {
				continue
			}
			if seen >= count && h >= next {
				cur = next
				seen = -1
				break
			}
			seen++
			next = h + 1
			if !Glob(pat, k) {
				continue
			}
			if e != nil {
				out = append(out, k, e.hash[k])
			} else if typ == "" || typ == "hash" && s.db[k].isHash || typ == "string" && !s.db[k].isHash {
				out = append(out, k)
			}
		}
		if seen >= 0 {
			next = 0
		}
		return []reply{strconv.FormatUint(next, 10), out}
	case "EXPIRE", "PEXPIRE", "EXPIREAT", "PEXPIREAT":
		if !need(3) {
			return argErr
		}
		v, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return rerr("ERR value is not an integer or out of range")
		}
		switch name {
		case "EXPIRE":
			v = nowMS() + v*1000
		case "PEXPIRE":
			v = nowMS() + v
		case "EXPIREAT":
			v *= 1000
		}
		e := s.db[a[1]]
		if e == nil {
			return 0
		}
		if v <= nowMS() {
			s.del(a[1])
			return 1
		}
		e.expire = v
		s.touch(a[1])
		return 1
	case "PERSIST":
		e := s.db[a[1]]
		if e == nil || e.expire == 0 {
			return 0
		}
		e.expire = 0
		s.touch(a[1])
		return 1
	case "TTL", "PTTL":
		e := s.db[a[1]]
		if e == nil {
			return -2
		}
		if e.expire == 0 {
			return -1
		}
		d := e.expire - nowMS()
		if name == "TTL" {
			return (d + 500) / 1000
		}
		return d
	case "RENAME", "RENAMENX":
		if !need(3) {
			return argErr
		}
		e := s.db[a[1]]
		if e == nil {
			return rerr("ERR no such key")
		}
		if name == "RENAMENX" && s.db[a[2]] != nil {
			return 0
		}
		if a[1] != a[2] {
			delete(s.db, a[1])
			s.db[a[2]] = e
			s.touch(a[1])
		}
		s.touch(a[2])
		if name == "RENAMENX" {
			return 1
		}
		return status("OK")
	case "HSET", "HMSET", "HSETNX":
		if n < 4 || n%2 != 0 {
			return argErr
		}
		e, ok := s.hash(a[1])
		if !ok {
			return wrongType
		}
		if e == nil {
			e = &entry{isHash: true, hash: map[string]string{}}
			s.db[a[1]] = e
		}
		added := 0
		for i := 2; i < n; i += 2 {
			_, ex := e.hash[a[i]]
			if name == "HSETNX" && ex {
				continue
			}
			added += b2i(!ex)
			e.hash[a[i]] = a[i+1]
		}
		s.touch(a[1])
		if name == "HMSET" {
			return status("OK")
		}
		return added
	case "HGET":
		if !need(3) {
			return argErr
		}
		e, ok := s.hash(a[1])
		if !ok {
			return wrongType
		}
		if e != nil {
			if v, ex := e.hash[a[2]]; ex {
				return v
			}
		}
		return bulkNil{}
	case "HMGET":
		if !need(3) {
			return argErr
		}
		e, ok := s.hash(a[1])
		if !ok {
			return wrongType
		}
		out := []reply{}
		for _, f := range a[2:] {
			if e != nil {
				if v, ex := e.hash[f]; ex {
					out = append(out, v)
					continue
				}
			}
			out = append(out, bulkNil{})
		}
		return out
	case "HGETALL", "HKEYS", "HVALS":
		e, ok := s.hash(a[1])
		if !ok {
			return wrongType
		}
		out := []reply{}
		if e != nil {
			var fs []string
			for f := range e.hash {
				fs = append(fs, f)
			}
			sort.Strings(fs)
			for _, f := range fs {
				if name != "HVALS" {
					out = append(out, f)
				}
				if name != "HKEYS" {
					out = append(out, e.hash[f])
				}
			}
		}
		return out
	case "HLEN":
		e, ok := s.hash(a[1])
		if !ok {
			return wrongType
		}
		if e == nil {
			return 0
		}
		return len(e.hash)
	case "HEXISTS", "HSTRLEN":
		e, ok := s.hash(a[1])
		if !ok {
			return wrongType
		}
		if e == nil {
			return 0
		}
		v, ex := e.hash[a[2]]
		if name == "HSTRLEN" {
			return len(v)
		}
		return b2i(ex)
	case "HDEL":
		if !need(3) {
			return argErr
		}
		e, ok := s.hash(a[1])
		if !ok {
			return wrongType
		}
		if e == nil {
			return 0
		}
		k := 0
		for _, f := range a[2:] {
			if _, ex := e.hash[f]; ex {
				delete(e.hash, f)
				k++
			}
		}
		if k > 0 {
			s.touch(a[1])
		}
		if len(e.hash) == 0 {
			s.del(a[1])
		}
		return k
	}
	s.Unknown = append(s.Unknown, name)
	return rerr("ERR unknown command '" + name + "'")
}

// scanHash is the place of a key in a scan, never 0
func scanHash(k string) uint64 {
	h := fnv.New32a()
	h.Write([]byte(k))
	return uint64(h.Sum32()) + 1
}

func (s *Server) sorted() []string {
	out := make([]string, 0, len(s.db))
	for k := range s.db {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = path.Match

// Glob is redis' stringmatchlen.
func Glob(p, s string) bool { return glob([]byte(p), []byte(s)) }
func glob(p, s []byte) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for len(p) > 1 && p[1] == '*' {
				p = p[1:]
			}
			if len(p) == 1 {
				return true
			}
			for i := 0; i <= len(s); i++ {
				if glob(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if len(s) == 0 {
				return false
			}
			s = s[1:]
			p = p[1:]
		case '[':
			if len(s) == 0 {
				return false
			}
			p = p[1:]
			not := len(p) > 0 && p[0] == '^'
			if not {
				p = p[1:]
			}
			match := false
			for {
				if len(p) >= 2 && p[0] == '\\' {
					p = p[1:]
					if p[0] == s[0] {
						match = true
					}
				} else if len(p) == 0 {
					break
				} else if p[0] == ']' {
					break
				} else if len(p) >= 3 && p[1] == '-' {
					lo, hi := p[0], p[2]
					if lo > hi {
						lo, hi = hi, lo
					}
					p = p[2:]
					if s[0] >= lo && s[0] <= hi {
						match = true
					}
				} else if p[0] == s[0] {
					match = true
				}
				p = p[1:]
			}
			if not {
				match = !match
			}
			if !match {
				return false
			}
			s = s[1:]
			if len(p) > 0 {
				p = p[1:]
			}
		case '\\':
			if len(p) >= 2 {
				p = p[1:]
			}
			fallthrough
		default:
			if len(s) == 0 || p[0] != s[0] {
				return false
			}
			s = s[1:]
			p = p[1:]
		}
	}
	return len(s) == 0
}
