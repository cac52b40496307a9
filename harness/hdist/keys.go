package hdist

import (
	"context"
	"slices"
	"strings"

	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// tok is one element of a glob: a literal, any character, any sequence or a class.
type tok struct {
	kind   byte // 'c', '?', '*', '['
	c      byte
	neg    bool
	ranges [][2]byte
}

// parseGlob reads a glob by the syntax that package path documents.
func parseGlob(p string) (toks []tok, ok bool) {
	char := func(i int) (c byte, next int, ok bool) { // a character of a class
		if i >= len(p) || p[i] == '-' || p[i] == ']' {
			return 0, i, false
		}
		if p[i] == '\\' {
			i++
			if i >= len(p) {
				return 0, i, false
			}
		}
		return p[i], i + 1, i+1 < len(p)
	}
	for i := 0; i < len(p); {
		switch p[i] {
		case '*', '?':
			toks = append(toks, tok{kind: p[i]})
			i++
		case '\\':
			if i+1 >= len(p) {
				return nil, false
			}
			toks = append(toks, tok{kind: 'c', c: p[i+1]})
			i += 2
		case '[':
			t := tok{kind: '['}
			i++
			if i < len(p) && p[i] == '^' {
				t.neg = true
				i++
			}
			for {
				if i < len(p) && p[i] == ']' && len(t.ranges) > 0 {
					i++
					break
				}
				lo, n, ok := char(i)
				if !ok {
					return nil, false
				}
				hi := lo
				if p[n] == '-' {
					if hi, n, ok = char(n + 1); !ok {
						return nil, false
					}
				}
				i = n
				t.ranges = append(t.ranges, [2]byte{lo, hi})
			}
			toks = append(toks, t)
		default:
			toks = append(toks, tok{kind: 'c', c: p[i]})
			i++
		}
	}
	return toks, true
}

func globs(toks []tok, s string) bool {
	if len(toks) == 0 {
		return s == ""
	}
	t := toks[0]
	if t.kind == '*' {
		for i := 0; ; i++ {
			if globs(toks[1:], s[i:]) {
				return true
			}
			if i == len(s) || s[i] == '/' {
				return false
			}
		}
	}
	if s == "" {
		return false
	}
	switch t.kind {
	case 'c':
		if s[0] != t.c {
			return false
		}
	case '?':
		if s[0] == '/' {
			return false
		}
	case '[':
		in := false
		for _, r := range t.ranges {
			if r[0] <= s[0] && s[0] <= r[1] {
				in = true
			}
		}
		if in == t.neg {
			return false
		}
	}
	return globs(toks[1:], s[1:])
}

// Patterns decides D05: what a pattern matches.
func Patterns() {
	w := newNetwork(1, 1)
	pool := []string{"a", "b", "ab", "a/b", "ba", "*a", "abc", "a*", "[a", "-"}
	for _, k := range pool {
		w.nodes[0].DebugInject(&cache.Item{Key: k, Value: 1, Version: 1})
	}
	p := vx.String("pattern", vx.Param("len", 3))
	for i := range len(p) {
		vx.Assume(strings.IndexByte(`ab*?[]-^\/`, p[i]) >= 0)
	}
	res, err := w.nodes[0].ListKeys(ctx, p, 0)
	glob := false
	for i := range len(p) {
		if p[i] == '*' || p[i] == '?' || p[i] == '[' {
			glob = true
		}
	}
	toks, valid := []tok(nil), true
	if glob {
		toks, valid = parseGlob(p)
	}
	if !valid {
		vx.Assert(err != nil && len(res.Keys) == 0, "an invalid pattern is an error")
		return
	}
	vx.Assert(err == nil, "a valid pattern is no error")
	vx.Assert(slices.IsSorted(res.Keys), "a listing is sorted")
	for _, k := range pool {
		want := glob && globs(toks, k) || !glob && strings.HasPrefix(k, p)
		n := 0
		for _, r := range res.Keys {
			if r == k {
				n++
			}
		}
		vx.Assert(want == (n == 1) && n < 2, "a pattern lists exactly the keys it denotes, once")
	}
	vx.Assert(!res.Truncated && len(res.PartialNodes) == 0, "a complete listing is not flagged")
	vx.Reach("end")
}

// Merged decides D05: one listing of several nodes.
func Merged() {
	n := vx.Param("nodes", 3)
	w := newNetwork(n, n)
	l := w.lose(1)
	pool := []string{"kb", "ka", "x", "kc"}[:vx.Param("keys", 3)]
	union := map[string]bool{}
	var down []string
	for i, dm := range w.nodes {
		if i > 0 && vx.Choose("down", 2) == 1 {
			l.down[w.owners[i]] = true
			down = append(down, w.owners[i])
		}
		for _, k := range pool {
			if vx.Choose("has", 2) == 1 {
				dm.DebugInject(&cache.Item{Key: k, Value: i, Version: 1})
				if !l.down[w.owners[i]] && k[0] == 'k' {
					union[k] = true
				}
			}
		}
	}
	limit := vx.Choose("limit", 4)
	c, cancel := context.WithCancel(ctx)
	defer cancel()
	canceled := len(down) > 0 && vx.Choose("canceled", 2) == 1
	if canceled {
		cancel()
	}
	res, err := w.nodes[0].ListKeys(c, "k", limit)
	if canceled && err != nil {
		return
	}
	vx.Assert(err == nil, "a listing is best effort")
	if limit == 0 {
		limit = 1000
	}
	vx.Assert(len(res.Keys) == min(limit, len(union)), "a listing has every key, or as many as asked for")
	vx.Assert(res.Truncated == (len(union) > limit), "a listing is flagged exactly when a key is left out for the limit")
	for i, k := range res.Keys {
		vx.Assert(union[k], "a listing has only keys that match and that a node holds")
		vx.Assert(i == 0 || res.Keys[i-1] < k, "a listing is sorted and has no key twice")
	}
	slices.Sort(down)
	slices.Sort(res.PartialNodes)
	vx.Assert(slices.Equal(down, res.PartialNodes), "the nodes that did not answer are named")
	vx.Reach("end")
}

// state of a key on a node: 0 nothing, 1 a write, 2 a deletion of a write.
type state struct {
	kind    int
	version uint64
	value   int
}

func (w *network) plant(i int, k string, tag, kinds int) state {
	s := state{kind: vx.Choose("state", kinds), value: tag}
	if s.kind == 0 {
		return s
	}
	s.version = vx.Uint64("version")
	vx.Assume(vx.And(s.version > 0, s.version < 1<<62))
	vx.Assert(w.tr.ForwardSet(ctx, w.owners[i], &cache.Item{Key: k, Value: tag, Version: s.version, Origin: names[0]}, false) == nil, "a replicated write is accepted")
	if s.kind == 2 {
		vx.Assert(w.tr.ForwardRemove(ctx, w.owners[i], k, false) == nil, "a delete is accepted")
	}
	return s
}

// adopt is what a node in state s is in once it has synchronised with a peer in state p.
func adopt(s, p state) state {
	switch {
	case p.kind == 0:
		return s
	case s.kind == 0:
		if p.kind == 1 {
			return p
		}
		return s
	case p.kind == 1 && p.version > s.version: // over an older write or an older deletion
		return p
	case p.kind == 2 && s.kind == 1 && p.version >= s.version:
		return p
	}
	return s
}

// Sync decides D06.
func Sync() {
	nk := vx.Param("keys", 2)
	synchronise(nk, 1+vx.Choose("chunk", vx.Param("chunks", 2)), 3)
}

// Spread decides D06: writes only, more keys and chunks.
func Spread() {
	synchronise(vx.Param("keys", 3), 1+vx.Choose("chunk", vx.Param("chunks", 2)), 2)
}

func synchronise(nk, chunk, kinds int) {
	w := newNetwork(2, 2, backend.WithDistMerkleChunkSize(chunk))
	ks := []string{"b", "a", "c", "d"}[:nk]
	a, b := make([]state, nk), make([]state, nk)
	for i, k := range ks {
		a[i], b[i] = w.plant(0, k, 10+i, kinds), w.plant(1, k, 20+i, kinds)
		if a[i].kind > 0 && b[i].kind > 0 {
			// which of two writes with one version, and of a deletion and a write just above it, is not compared here
			vx.Assume(a[i].version != b[i].version || a[i].kind != b[i].kind)
			vx.Assume(a[i].kind != 2 || b[i].version != a[i].version+1)
			vx.Assume(b[i].kind != 2 || a[i].version != b[i].version+1)
		}
	}
	holds := func(node int, want []state, label string) {
		for i, k := range ks {
			it, ok, err := w.tr.ForwardGet(ctx, w.owners[node], k)
			vx.Assert(err == nil && ok == (want[i].kind == 1), label)
			if ok {
				vx.Assert(vx.And(it.Version == want[i].version, it.Value == want[i].value), label)
			}
		}
	}
	vx.Assert(w.nodes[0].SyncWith(ctx, w.owners[1]) == nil, "a sync succeeds")
	after := make([]state, nk)
	for i := range ks {
		after[i] = adopt(a[i], b[i])
	}
	holds(0, after, "after a sync a node holds the newer of its own and the peer's state of every key")
	holds(1, b, "a sync does not change the peer")
	vx.Assert(w.nodes[1].SyncWith(ctx, w.owners[0]) == nil, "a sync succeeds")
	for i := range ks {
		b[i] = adopt(b[i], after[i])
		vx.Assert((b[i].kind == 1) == (after[i].kind == 1), "nodes that synchronised with each other hold the same keys")
	}
	holds(1, b, "after a sync a node holds the newer of its own and the peer's state of every key")
	holds(0, after, "a sync does not change the peer")
	vx.Reach("end")
}
