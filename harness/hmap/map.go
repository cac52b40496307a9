// Package hmap: harnesses for pkg/cache/v2.
package hmap

import (
	"sync"
	"sync/atomic"

	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

const (
	opSet = iota
	opGet
	opCopy
	opHas
	opTouch
	opPop
	opRemove
	opClear
	opAll
	opCount
	opKinds
)

// call is one operation with what it returned: found, and the identity of the item.
type call struct {
	kind     int
	key      string
	id       int64
	ok       bool
	got      int64
	inv, ret int64
}

// perform does c on m.
func perform(m *cache.ConcurrentMap, c *call) {
	switch c.kind {
	case opSet:
		m.Set(c.key, &cache.Item{Key: c.key, Size: c.id})
	case opGet:
		it, ok := m.Get(c.key)
		c.ok = ok
		if ok {
			c.got = it.Size
		} else {
			vx.Assert(it == nil, "a key that is absent has no item")
		}
	case opCopy:
		it, ok := m.GetCopy(c.key)
		c.ok = ok
		if ok {
			c.got = it.Size
		} else {
			vx.Assert(it == nil, "a key that is absent has no item")
		}
	case opHas:
		c.ok = m.Has(c.key)
	case opTouch:
		c.ok = m.Touch(c.key)
	case opPop:
		it, ok := m.Pop(c.key)
		c.ok = ok
		if ok {
			c.got = it.Size
		} else {
			vx.Assert(it == nil, "a key that is absent has no item")
		}
	case opRemove:
		m.Remove(c.key)
	case opClear:
		m.Clear()
	case opAll:
		for k, it := range m.All() {
			if k == c.key {
				vx.Assert(!c.ok, "a key is listed once")
				c.ok, c.got = true, it.Size
			}
			vx.Assert(it.Key == k, "a key is listed with its item")
		}
	case opCount:
		c.got = int64(m.Count())
	}
}

// agrees says whether a map of one key holding cur (0: absent) may answer c as it did, and what it holds then.
func agrees(c *call, key string, cur int64) (int64, bool) {
	mine := c.key == key
	switch c.kind {
	case opSet:
		if mine {
			return c.id, true
		}
	case opGet, opCopy, opAll:
		return cur, !mine || c.ok == (cur != 0) && (!c.ok || c.got == cur)
	case opHas, opTouch:
		return cur, !mine || c.ok == (cur != 0)
	case opPop:
		if mine {
			return 0, c.ok == (cur != 0) && (!c.ok || c.got == cur)
		}
	case opRemove:
		if mine {
			return 0, true
		}
	case opClear:
		return 0, true
	}
	return cur, true
}

// explained says whether some sequential order of calls, which respects the order of those that did not
// overlap, answers every call on key as it was, from cur to end.
func explained(calls []*call, key string, cur, end int64) bool {
	if len(calls) == 0 {
		return cur == end
	}
	for i, c := range calls {
		first := true
		for j, d := range calls {
			if j != i && d.ret < c.inv {
				first = false
			}
		}
		if !first {
			continue
		}
		next, ok := agrees(c, key, cur)
		if !ok {
			continue
		}
		rest := append(append([]*call{}, calls[:i]...), calls[i+1:]...)
		if explained(rest, key, next, end) {
			return true
		}
	}
	return false
}

var keys = []string{"a", "b"}

// spread keeps the hashes of the keys to the first, second and last shard.
func spread(ks []string) {
	for _, k := range ks {
		s := cache.Hash(k) % cache.ShardCount32
		vx.Assume(vx.Or(s <= 1, s == cache.ShardCount32-1))
	}
}

// holds is the identity of the item of key in m, 0 when it has none.
func holds(m *cache.ConcurrentMap, key string) int64 {
	it, ok := m.Get(key)
	vx.Assert(ok == m.Has(key), "a key is present when its item is")
	if !ok {
		return 0
	}
	return it.Size
}

func consistent(m *cache.ConcurrentMap, ks []string) {
	n, listed := 0, 0
	for _, k := range ks {
		if m.Has(k) {
			n++
		}
	}
	for k, it := range m.All() {
		listed++
		vx.Assert(it.Key == k && m.Has(k), "what is listed is stored")
	}
	vx.Assert(listed == n, "every stored key is listed once")
	vx.Assert(m.Count() == n, "the count is the number of stored keys")
}

// Sequence decides M01 for one caller.
func Sequence() {
	m := cache.New()
	ks := []string{"a", "b", "c"}[:vx.Param("keys", 2)]
	spread(ks)
	n := vx.Param("ops", 4)
	cur := map[string]int64{}
	used := 0
	for i := 0; i < n; i++ {
		c := &call{kind: vx.Choose("op", opKinds), id: int64(i + 1)}
		if c.kind != opClear && c.kind != opCount {
			j := vx.Choose("key", min(used+1, len(ks)))
			if j == used {
				used++
			}
			c.key = ks[j]
		}
		perform(&m, c)
		if c.kind == opCount {
			stored := 0
			for _, k := range ks {
				if cur[k] != 0 {
					stored++
				}
			}
			vx.Assert(c.got == int64(stored), "the count is the number of stored keys")
		}
		for _, k := range ks {
			next, ok := agrees(c, k, cur[k])
			vx.Assert(ok, "the map answers what it holds")
			cur[k] = next
		}
	}
	for _, k := range ks {
		vx.Assert(holds(&m, k) == cur[k], "the map holds what the calls left")
	}
	consistent(&m, ks)
	vx.Reach("end")
}

// Concurrent decides M01 for concurrent callers.
func Concurrent() {
	m := cache.New()
	spread(keys)
	var start [2]int64
	for i, k := range keys {
		if i == 0 && vx.Choose("present", 2) == 1 || i == 1 && vx.Param("other", 1) == 1 {
			start[i] = int64(100 + i)
			m.Set(k, &cache.Item{Key: k, Size: start[i]})
		}
	}
	lens := []int{vx.Param("first", 2), vx.Param("second", 1), vx.Param("third", 0)}
	var calls []*call
	var clock atomic.Int64
	var wg sync.WaitGroup
	for t, n := range lens {
		var mine []*call
		for i := 0; i < n; i++ {
			c := &call{kind: vx.Choose("op", opAll+1), id: int64(len(calls) + 1), key: "a"}
			if t == 0 && i == 0 && c.kind != opClear && vx.Param("twokeys", 1) == 1 {
				c.key = keys[vx.Choose("key", 2)]
			}
			mine = append(mine, c)
			calls = append(calls, c)
		}
		if n == 0 {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i, c := range mine {
				if len(mine) > 1 || vx.Param("third", 0) > 0 {
					c.inv = clock.Add(1)
				}
				perform(&m, c)
				if i < len(mine)-1 || vx.Param("third", 0) > 0 {
					c.ret = clock.Add(1)
				} else {
					c.ret = 1 << 40
				}
			}
		}()
	}
	wg.Wait()
	for i, k := range keys {
		vx.Assert(explained(calls, k, start[i], holds(&m, k)), "the answers are those of some sequential order")
	}
	consistent(&m, keys)
	vx.Reach("end")
}

// Copies decides M01 for copies: what was copied stays as it was.
func Copies() {
	m := cache.New()
	count := vx.Uint32("accesses")
	size := vx.Int64("size")
	m.Set("a", &cache.Item{Key: "a", Value: "v", Size: size, AccessCount: count})
	it, ok := m.GetCopy("a")
	vx.Assert(ok, "a stored key is found")
	seen := *it
	vx.Assert(vx.And(it.Size == size, it.AccessCount == count) && it.Key == "a" && it.Value == any("v"), "a copy has what was stored")
	op := vx.Choose("op", 4)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		switch op {
		case 0:
			m.Set("a", &cache.Item{Key: "a", Value: "w", Size: size + 1})
		case 1:
			m.Touch("a")
		case 2:
			m.Remove("a")
		default:
			m.Clear()
		}
	}()
	late, found := m.GetCopy("a")
	wg.Wait()
	vx.Assert(vx.And(it.Size == seen.Size, it.AccessCount == seen.AccessCount) && it.Value == seen.Value && it.LastAccess == seen.LastAccess, "a copy never changes")
	if found {
		old := vx.And(late.Size == size, vx.Or(late.AccessCount == count, late.AccessCount == count+1)) && late.Value == any("v")
		upd := late.Size == size+1 && late.Value == any("w")
		vx.Assert(vx.Or(old, op == 0 && upd), "a copy is never a mixture of two items")
	}
	if op == 1 {
		now, _ := m.GetCopy("a")
		vx.Assert(now.AccessCount == count+1, "a touch counts one access")
	}
	vx.Reach("end")
}
