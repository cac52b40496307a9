// Package hcache: harnesses for the cache itself.
package hcache

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/pkg/eviction"
)

var ctx = context.Background()

type (
	inMemory = hypercache.HyperCache[backend.InMemory]
	option   = hypercache.Option[backend.InMemory]
)

func newCache(capacity int, opts ...option) *inMemory {
	cfg, err := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
	vx.Assert(err == nil, "a configuration is made")
	cfg.InMemoryOptions = []backend.Option[backend.InMemory]{backend.WithCapacity[backend.InMemory](capacity)}
	cfg.HyperCacheOptions = append(append(cfg.HyperCacheOptions,
		hypercache.WithEvictionInterval[backend.InMemory](0),
		hypercache.WithExpirationInterval[backend.InMemory](0)), opts...)
	c, err := hypercache.New(ctx, hypercache.NewBackendManager(), cfg)
	vx.Assert(err == nil && c != nil, "a cache is made")
	vx.Settle()
	return c
}

func stop(c *inMemory) {
	vx.Assert(c.Stop(ctx) == nil, "the cache stops")
	vx.Quiesce()
	vx.Assert(vx.Live() == 0, "no goroutine is left once the cache has stopped")
}

// sized is a value of any size.
type sized struct {
	n  int
	id int64
}

func (s sized) SizeBytes() int { return s.n }

var keys = []string{"a", "b", "c", "d"}

// entry is what the model holds for a key.
type entry struct {
	value  any
	size   int
	exp    int
	access int // when it was last set or read
}

const margin = int(10 * time.Millisecond)

// model is a map of keys with a clock.
type model struct {
	now int
	m   map[string]*entry
}

// live: the entry of key unless it has expired; instants within the margin of an expiry are left to M02.
func (m *model) live(key string) (e *entry, stored bool) {
	e = m.m[key]
	if e == nil {
		return nil, false
	}
	if e.exp == 0 {
		return e, true
	}
	age := m.now - e.access
	vx.Assume(vx.Or(age+margin < e.exp, age > e.exp+margin))
	if age > e.exp {
		return nil, true
	}
	return e, true
}

// Results decides H01.
func Results() {
	c := newCache(4)
	m := &model{m: map[string]*entry{}}
	n := vx.Param("ops", 3)
	nk := vx.Param("keys", 2)
	used := 0
	pick := func() string {
		i := vx.Choose("key", min(used+1, nk))
		if i == used {
			used++
		}
		return keys[i]
	}
	check := func(key string, v any, ok bool) {
		e, _ := m.live(key)
		if e == nil {
			vx.Assert(!ok && v == nil, "a key that is absent or expired is not found")
			return
		}
		vx.Assert(ok, "a key that was set and has not expired is found")
		vx.Assert(v == e.value, "a get returns the value last set")
		e.access = m.now
	}
	for i := 0; i < n; i++ {
		kind := 0
		if i > 0 {
			kind = vx.Choose("op", 9)
		}
		var v any
		if kind < 2 {
			v = vx.Int64("number")
		}
		if kind == 8 {
			kind = i % 2 // with a nil value
		}
		switch kind {
		case 0, 1: // set, get-or-set
			key := pick()
			exp := vx.IntRange("expiration", 0, 60_000_000)
			if kind == 0 {
				err := c.Set(ctx, key, v, time.Duration(exp))
				vx.Assert((err == nil) == (v != nil), "exactly a nil value is refused")
				if err == nil {
					m.m[key] = &entry{value: v, exp: exp, access: m.now}
				}
				break
			}
			got, err := c.GetOrSet(ctx, key, v, time.Duration(exp))
			e, stored := m.live(key)
			switch {
			case e != nil:
				vx.Assert(err == nil && got == e.value, "get-or-set returns the value that is there")
				e.access = m.now
			case stored && err != nil && errors.Is(err, sentinel.ErrKeyExpired):
				vx.Assert(got == nil, "an expired value is not returned")
			case v == nil:
				vx.Assert(err != nil && got == nil, "a nil value is refused")
				delete(m.m, key)
			default:
				vx.Assert(err == nil && got == v, "get-or-set stores the value when the key is absent")
				m.m[key] = &entry{value: v, exp: exp, access: m.now}
			}
		case 2:
			key := pick()
			v, ok := c.Get(ctx, key)
			check(key, v, ok)
		case 3:
			key := pick()
			it, ok := c.GetWithInfo(ctx, key)
			vx.Assert(ok == (it != nil), "an item is returned exactly when found")
			if ok {
				check(key, it.Value, ok)
				vx.Assert(it.Key == key && it.Expiration == time.Duration(m.m[key].exp), "the item is the one that was set")
			} else {
				check(key, nil, ok)
			}
		case 4:
			found, failed := c.GetMultiple(ctx, keys[:nk]...)
			vx.Assert(len(found)+len(failed) == nk, "every key of a batch has one result")
			for _, key := range keys[:nk] {
				v, ok := found[key]
				vx.Assert((failed[key] != nil) == !ok, "every key of a batch is either found or failed")
				check(key, v, ok)
			}
			used = nk
		case 5:
			key := pick()
			vx.Assert(c.Remove(ctx, key) == nil, "a key is removed")
			delete(m.m, key)
		case 6:
			vx.Assert(c.Clear(ctx) == nil, "the cache is cleared")
			clear(m.m)
			vx.Assert(c.Count(ctx) == 0, "a cleared cache is empty")
		case 7:
			d := vx.IntRange("wait", 0, 60_000_000)
			vx.Advance(int64(d))
			m.now += d
			if vx.Choose("settle", 2) == 1 {
				c.TriggerExpiration()
				vx.Quiesce()
			}
		}
	}
	for _, key := range keys[:nk] {
		v, ok := c.Get(ctx, key)
		check(key, v, ok)
	}
	stop(c)
	vx.Reach("end")
}

// Sliding decides H01 for reads of every kind between two waits: they renew the expiration.
func Sliding() {
	c := newCache(2)
	exp := vx.IntRange("expiration", 0, 60_000_000)
	v := vx.Int64("number")
	vx.Assert(c.Set(ctx, "a", v, time.Duration(exp)) == nil, "a value is set")
	m := &model{m: map[string]*entry{"a": {value: v, exp: exp}}}
	for i := 0; i < 1+vx.Param("reads", 1); i++ {
		d := vx.IntRange("wait", 0, 60_000_000)
		vx.Advance(int64(d))
		m.now += d
		if vx.Choose("settle", 2) == 1 {
			c.TriggerExpiration()
			vx.Quiesce()
		}
		var (
			got any
			ok  bool
		)
		switch vx.Choose("read", 4) {
		case 0:
			got, ok = c.Get(ctx, "a")
		case 1:
			var it *cache.Item
			it, ok = c.GetWithInfo(ctx, "a")
			if ok {
				got = it.Value
			}
		case 2:
			found, _ := c.GetMultiple(ctx, "b", "a")
			got, ok = found["a"]
		case 3:
			var err error
			got, err = c.GetOrSet(ctx, "a", nil, 0) // stores nothing
			ok = err == nil
		}
		e, _ := m.live("a")
		if e == nil {
			vx.Assert(!ok && got == nil, "a key that is expired is not found")
			break
		}
		vx.Assert(ok, "a key that was read within its expiration is found")
		vx.Assert(got == e.value, "a get returns the value last set")
		e.access = m.now
	}
	vx.Reach("end")
}

// Renewed decides H01 against the removal of expired items going on meanwhile.
func Renewed() {
	c := newCache(0)
	exp := vx.IntRange("expiration", 20_000_000, 40_000_000)
	vx.Assert(c.Set(ctx, "a", sized{7, 1}, time.Duration(exp)) == nil, "a value is set")
	vx.Advance(60_000_000)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		_, ok := c.Get(ctx, "a")
		_ = ok
		c.TriggerExpiration()
	}()
	vx.Assert(c.Set(ctx, "a", sized{5, 2}, 0) == nil, "a value is set")
	v, ok := c.Get(ctx, "a")
	vx.Assert(ok && v == any(sized{5, 2}), "a value set while expired ones are removed is found")
	wg.Wait()
	vx.Quiesce()
	v, ok = c.Get(ctx, "a")
	vx.Assert(ok && v == any(sized{5, 2}), "a value set while expired ones are removed stays")
	vx.Assert(c.Allocation() == 5, "the allocation is the size of the value that is there")
	vx.Reach("end")
}

// held is the size of what is stored.
func held(c *inMemory) int64 {
	items, err := c.List(ctx)
	vx.Assert(err == nil, "the items are listed")
	var total int64
	for _, it := range items {
		s, ok := it.Value.(sized)
		vx.Assert(ok && it.Size == int64(s.n), "an item has the size of its value")
		total += it.Size
	}
	return total
}

// Accounting decides H02 for one caller.
func Accounting() {
	limit := vx.IntRange("limit", 0, 2000)
	c := newCache(vx.Choose("capacity", 2)*vx.Param("capacity", 1), hypercache.WithMaxCacheSize[backend.InMemory](int64(limit)))
	m := map[string]int{}
	n := vx.Param("ops", 3)
	nk := vx.Param("keys", 2)
	used := 0
	pick := func() string {
		i := vx.Choose("key", min(used+1, nk))
		if i == used {
			used++
		}
		return keys[i]
	}
	for i := 0; i < n; i++ {
		before := c.Allocation()
		kind := vx.Choose("op", 6)
		switch kind {
		case 0, 1:
			key := pick()
			s := vx.IntRange("size", 0, 1000)
			exp := []time.Duration{0, 20 * time.Millisecond, -1}[vx.Choose("expiration", 3)]
			old, had := m[key]
			var err error
			if kind == 0 {
				err = c.Set(ctx, key, sized{s, int64(i)}, exp)
			} else {
				_, err = c.GetOrSet(ctx, key, sized{s, int64(i)}, exp)
			}
			switch {
			case kind == 1 && had:
				s = old // whether or not it has expired
			case err == nil:
				vx.Assert(exp >= 0, "an invalid expiration is refused")
				vx.Assert(vx.Or(limit == 0, vx.Or(before-int64(old)+int64(s) <= int64(limit), s <= old)), "a set beyond the maximum size is refused")
				m[key] = s
			case errors.Is(err, sentinel.ErrCacheFull):
				vx.Assert(limit > 0 && before-int64(old)+int64(s) > int64(limit), "only a set beyond the maximum size is refused")
			default:
				vx.Assert(exp < 0, "only an invalid set fails")
			}
			if err != nil {
				vx.Assert(c.Allocation() == before, "a refused set leaves the allocation as it was")
			}
		case 2:
			key := pick()
			list := [][]string{{key}, {key, key}, {"zz", key}}[vx.Choose("list", 3)]
			vx.Assert(c.Remove(ctx, list...) == nil, "keys are removed")
			delete(m, key)
		case 3:
			vx.Assert(c.Clear(ctx) == nil, "the cache is cleared")
			clear(m)
		case 4:
			vx.Advance(int64(40 * time.Millisecond))
			c.TriggerExpiration()
			vx.Quiesce()
		case 5:
			_, _ = c.Get(ctx, pick())
		}
		vx.Assert(c.Allocation() == held(c), "the allocation is the size of what is stored")
		vx.Assert(c.Allocation() >= 0, "the allocation is never negative")
		vx.Assert(vx.Or(limit == 0, c.Allocation() <= int64(limit)), "the allocation stays within the maximum size")
		// what went, by expiry or eviction
		for _, key := range keys[:nk] {
			items, _ := c.List(ctx)
			there := false
			for _, it := range items {
				if it.Key == key {
					there = true
					vx.Assert(it.Size == int64(m[key]), "what is stored is what was set")
				}
			}
			if _, ok := m[key]; ok && !there {
				delete(m, key)
			} else {
				vx.Assert(ok == there, "only what was set is stored")
			}
		}
	}
	vx.Reach("end")
}

// act is one call of a concurrent caller.
func act(c *inMemory, kind, size int) {
	switch kind {
	case 0:
		vx.Assert(c.Set(ctx, "a", sized{size, 0}, 0) == nil, "a value is set")
	case 1:
		vx.Assert(c.Remove(ctx, "a") == nil, "a key is removed")
	case 2:
		_, err := c.GetOrSet(ctx, "a", sized{size, 0}, 0)
		vx.Assert(err == nil || errors.Is(err, sentinel.ErrKeyExpired), "get-or-set works")
	case 3:
		vx.Assert(c.Set(ctx, "b", sized{size, 0}, 0) == nil, "a value is set")
	case 4:
		vx.Assert(c.Clear(ctx) == nil, "the cache is cleared")
	case 5:
		c.TriggerExpiration()
	}
}

// Concurrent decides H02 and H03 for 2 callers.
func Concurrent() {
	capacity := vx.Choose("capacity", 2)
	c := newCache(capacity)
	if vx.Choose("present", 2) == 1 {
		vx.Assert(c.Set(ctx, "a", sized{vx.IntRange("size0", 0, 100), 0}, 20*time.Millisecond) == nil, "a value is set")
		vx.Advance(int64(40 * time.Millisecond))
	}
	x := vx.Choose("first", vx.Param("kinds", 5))
	y := vx.Choose("second", x+1)
	sx, sy := vx.IntRange("size1", 0, 100), vx.IntRange("size2", 0, 100)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); act(c, x, sx) }()
	act(c, y, sy)
	wg.Wait()
	vx.Quiesce()
	vx.Assert(c.Allocation() == held(c), "once the calls are over the allocation is the size of what is stored")
	if capacity > 0 {
		vx.Assert(c.Count(ctx) <= capacity, "once the calls are over the capacity is respected")
		act(c, 3, 1)
		vx.Assert(c.Count(ctx) <= capacity, "the capacity is respected by what follows")
		vx.Assert(c.Set(ctx, "d", sized{2, 0}, 0) == nil, "a value is set")
		vx.Assert(c.Count(ctx) <= capacity, "the capacity is respected by what follows")
		vx.Assert(c.Allocation() == held(c), "the allocation is the size of what is stored afterwards")
	}
	vx.Reach("end")
}

var algorithms = []string{"lru", "lfu", "clock", "cawolfu"}

func stored(c *inMemory) map[string]bool {
	items, err := c.List(ctx)
	vx.Assert(err == nil, "the items are listed")
	m := map[string]bool{}
	for _, it := range items {
		m[it.Key] = true
	}
	return m
}

// Capacity decides H03 for proactive eviction.
func Capacity() {
	capacity := 1 + vx.Choose("capacity", vx.Param("capacity", 2))
	name := algorithms[vx.Choose("algorithm", len(algorithms))]
	shards := []int{1, 2}[vx.Choose("shards", 2)]
	c := newCache(capacity, hypercache.WithEvictionAlgorithm[backend.InMemory](name), hypercache.WithEvictionShardCount[backend.InMemory](shards))
	mirror, err := eviction.NewEvictionAlgorithm(name, capacity)
	if shards > 1 {
		mirror, err = eviction.NewSharded(name, capacity, shards)
	}
	vx.Assert(err == nil, "an algorithm is made")
	n := vx.Param("ops", 4)
	nk := vx.Param("keys", 3)
	for _, k := range keys[:nk] {
		vx.Assume(cache.Hash(k)&31 <= 1)
	}
	used := 0
	pick := func() string {
		i := vx.Choose("key", min(used+1, nk))
		if i == used {
			used++
		}
		return keys[i]
	}
	m := map[string]bool{}
	for i := 0; i < n; i++ {
		kind := 0
		if i > 0 {
			kind = vx.Choose("op", 4)
		}
		switch kind {
		case 0, 1:
			key := pick()
			if kind == 0 {
				vx.Assert(c.Set(ctx, key, i, 0) == nil, "a value is set")
			} else {
				_, err := c.GetOrSet(ctx, key, i, 0)
				vx.Assert(err == nil, "a value is set")
				if m[key] {
					break
				}
			}
			m[key] = true
			mirror.Set(key, i)
			if len(m) > capacity {
				gone, ok := mirror.Evict()
				vx.Assert(ok, "there is something to evict")
				delete(m, gone)
				mirror.Delete(gone)
			}
		case 2:
			key := pick()
			vx.Assert(c.Remove(ctx, key) == nil, "a key is removed")
			if m[key] {
				delete(m, key)
				mirror.Delete(key)
			}
		case 3:
			_, ok := c.Get(ctx, pick())
			_ = ok
		}
		vx.Assert(c.Count(ctx) <= capacity, "the number of items does not exceed the capacity")
		now := stored(c)
		vx.Assert(len(now) == len(m), "items are removed only beyond the capacity")
		for k := range m {
			vx.Assert(now[k], "only the item that the algorithm chose is removed")
		}
	}
	vx.Reach("end")
}

// Cycle decides H03 for eviction cycles.
func Cycle() {
	capacity := vx.Choose("capacity", 3)
	maximum := vx.Choose("maximum", 4) // 0: the capacity, or 1
	name := algorithms[vx.Choose("algorithm", len(algorithms))]
	shards := []int{1, 2}[vx.Choose("shards", 2)]
	for _, k := range keys {
		vx.Assume(cache.Hash(k)&31 <= 1)
	}
	c := newCache(capacity, hypercache.WithEvictionInterval[backend.InMemory](time.Hour), hypercache.WithEvictionAlgorithm[backend.InMemory](name),
		hypercache.WithEvictionShardCount[backend.InMemory](shards), hypercache.WithMaxEvictionCount[backend.InMemory](uint(maximum)))
	if maximum == 0 {
		maximum = capacity
	}
	mirror, err := eviction.NewEvictionAlgorithm(name, maximum)
	if shards > 1 {
		mirror, err = eviction.NewSharded(name, maximum, shards)
	}
	vx.Assert(err == nil, "an algorithm is made")
	n := vx.Choose("items", len(keys)+1)
	m := map[string]bool{}
	for i := 0; i < n; i++ {
		vx.Assert(c.Set(ctx, keys[i], i, 0) == nil, "a value is set")
		m[keys[i]] = true
		mirror.Set(keys[i], i)
	}
	vx.Assert(c.Count(ctx) == n, "without proactive eviction a set removes nothing")
	if vx.Choose("how", 2) == 0 {
		c.TriggerEviction(ctx)
	} else {
		capacity = vx.Choose("lower", 3)
		c.SetCapacity(ctx, capacity)
		vx.Assert(c.Capacity() == capacity, "the capacity is set")
	}
	vx.Quiesce()
	now := stored(c)
	vx.Assert(n-len(now) <= maximum, "a cycle removes at most the configured number of items")
	vx.Assert(len(now) == n || len(now) >= capacity, "a cycle stops at the capacity")
	for removed := 0; removed < maximum && len(m) > capacity; removed++ {
		key, ok := mirror.Evict()
		if !ok {
			break
		}
		delete(m, key)
		mirror.Delete(key)
	}
	vx.Assert(len(m) == len(now), "a cycle removes what is beyond the capacity")
	for k := range m {
		vx.Assert(now[k], "only the items that the algorithm chose are removed")
	}
	vx.Reach("end")
}
