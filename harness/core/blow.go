package core

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"github.com/powerpuffpenguin/sessionid"
)

// A world may be blown up: every key of the trace then stands for Blow keys of the store, written, read and deleted
// together.  The first of them is the key itself and holds the value itself, the others hold a copy of it (of a large
// value: its name).  What is read is folded again; if the members of a key disagree the answer is a value that was never
// written.  So a few keys in a trace exercise operations on hundreds of them, also under faults, crashes and schedules.

const tornValue = "#torn"

func (p *Params) blowUp(r *rand.Rand, percent int) {
	if r.Intn(100) < percent {
		p.Blow = choose(r, 2, 11, 40, 101, 130, 260, 300, 520, 1030)
	}
}

func (w *World) members(k string) int {
	if w.P.Blow < 2 || len(k) > 200 {
		return 1
	}
	return w.P.Blow
}
func member(k string, i int) string {
	if i == 0 {
		return k
	}
	return fmt.Sprintf("%s~%04d", k, i)
}

// copyOf is what the other members hold.
func copyOf(v []byte) []byte {
	if len(v) > 64 {
		return []byte(safeSym(v))
	}
	return v
}

func (w *World) blowKV(kv []sessionid.PairBytes) []sessionid.PairBytes {
	if w.P.Blow < 2 || kv == nil {
		return kv
	}
	out := []sessionid.PairBytes{}
	for _, p := range kv {
		for i, n := 0, w.members(p.Key); i < n; i++ {
			v := p.Value
			if i > 0 && v != nil {
				v = append([]byte{}, copyOf(v)...)
			}
			out = append(out, sessionid.PairBytes{Key: member(p.Key, i), Value: v})
		}
	}
	return out
}
func (w *World) blowKs(ks []string) []string {
	if w.P.Blow < 2 || ks == nil {
		return ks
	}
	out := []string{}
	for _, k := range ks {
		for i, n := 0, w.members(k); i < n; i++ {
			out = append(out, member(k, i))
		}
	}
	return out
}

// foldVals folds the answer to blowKs(ks).  An answer of another length is left as it is.
func (w *World) foldVals(ks []string, vals []sessionid.Value) []sessionid.Value {
	n := 0
	for _, k := range ks {
		n += w.members(k)
	}
	if w.P.Blow < 2 || len(vals) != n {
		return vals
	}
	out := make([]sessionid.Value, 0, len(ks))
	for _, k := range ks {
		n := w.members(k)
		v := vals[0]
		c := copyOf(v.Bytes)
		for _, o := range vals[1:n] {
			if o.Exists != v.Exists || !bytes.Equal(o.Bytes, c) {
				v = sessionid.Value{Exists: true, Bytes: []byte(tornValue)}
			}
		}
		out = append(out, v)
		vals = vals[n:]
	}
	return out
}

func (w *World) foldKeys(keys []string) []string {
	if w.P.Blow < 2 {
		return keys
	}
	count := map[string]int{}
	seen := map[string]bool{}
	var out, order []string
	for _, k := range keys {
		if seen[k] {
			out = append(out, k)
			continue
		}
		seen[k] = true
		base, i := k, 0
		if j := strings.LastIndexByte(k, '~'); j >= 0 && len(k) == j+5 {
			if _, e := fmt.Sscanf(k[j+1:], "%04d", &i); e == nil && i > 0 && i < w.P.Blow {
				base = k[:j]
			}
		}
		if count[base] == 0 {
			order = append(order, base)
		}
		count[base]++
	}
	for _, b := range order {
		if count[b] != w.members(b) {
			b = fmt.Sprintf("%s: %d of %d keys", b, count[b], w.members(b))
		}
		out = append(out, b)
	}
	return out
}
