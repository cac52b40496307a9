// Package hevict: harnesses for pkg/eviction.
package hevict

import (
	"sync"

	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/eviction"
)

func try(a eviction.IAlgorithm, err error) eviction.IAlgorithm {
	vx.Assert(err == nil, "a policy with a capacity of zero or more is made")
	return a
}

func lru(c int) (eviction.IAlgorithm, error)     { return eviction.NewLRUAlgorithm(c) }
func lfu(c int) (eviction.IAlgorithm, error)     { return eviction.NewLFUAlgorithm(c) }
func clock(c int) (eviction.IAlgorithm, error)   { return eviction.NewClockAlgorithm(c) }
func cawolfu(c int) (eviction.IAlgorithm, error) { return eviction.NewCAWOLFU(c) }
func arc(c int) (eviction.IAlgorithm, error)     { return eviction.NewARCAlgorithm(c) }

const (
	opSet = iota
	opGet
	opDelete
	opEvict
)

type op struct {
	kind  int
	key   string
	value int64
}

// history is a sequence of n operations on arbitrary one-letter keys and arbitrary values.
func history(n int, key func() string) []op {
	ops := make([]op, n)
	for i := range ops {
		if i < n-1 && i > 0 || n == 1 {
			ops[i].kind = vx.Choose("op", 4)
		} else if i > 0 {
			ops[i].kind = vx.Choose("last", 4)
		}
		if ops[i].kind != opEvict {
			ops[i].key = key()
		}
		if ops[i].kind == opSet {
			ops[i].value = vx.Int64("value")
		}
	}
	return ops
}

// letter is an arbitrary key.
func letter() string { return vx.StringN("key", 1) }

// names is a source of keys that are interchangeable: only which of them are equal matters.
func names() func() string {
	used := 0
	return func() string {
		i := vx.Choose("name", used+1)
		if i == used {
			used++
		}
		return "abcdefgh"[i : i+1]
	}
}

// apply performs o.
func apply(a eviction.IAlgorithm, o op) (string, any, bool) {
	switch o.kind {
	case opSet:
		a.Set(o.key, o.value)
	case opGet:
		v, ok := a.Get(o.key)
		return "", v, ok
	case opDelete:
		a.Delete(o.key)
	default:
		k, ok := a.Evict()
		return k, nil, ok
	}
	return "", nil, false
}

// lastSet is the value last set for key in ops.
func lastSet(ops []op, key string) (int64, bool) {
	for i := len(ops) - 1; i >= 0; i-- {
		if ops[i].kind == opSet && ops[i].key == key {
			return ops[i].value, true
		}
	}
	return 0, false
}

func has(ks []string, k string) bool {
	for _, x := range ks {
		if x == k {
			return true
		}
	}
	return false
}

// tracked is what a answers for every key of ops: the tracked keys, each with the value last set.
func tracked(a eviction.IAlgorithm, ops, asked []op) []string {
	var out, seen []string
	for _, o := range asked {
		if o.kind == opEvict || has(seen, o.key) {
			continue
		}
		seen = append(seen, o.key)
		v, ok := a.Get(o.key)
		if !ok {
			continue
		}
		want, set := lastSet(ops, o.key)
		vx.Assert(set, "a key never set is not tracked")
		got, is := v.(int64)
		vx.Assert(is && got == want, "a tracked key has the value last set")
		out = append(out, o.key)
	}
	return out
}

// step checks what the last operation of ops changes: mk makes the policy, full says when a set of an
// untracked key may displace another one, and never more than max keys are tracked.
func step(mk func() eviction.IAlgorithm, ops []op, max int, full func(n int) bool) {
	past, last := ops[:len(ops)-1], ops[len(ops)-1]
	a := mk()
	for _, o := range past {
		apply(a, o)
	}
	before := tracked(a, past, ops)
	a = mk()
	for _, o := range past {
		apply(a, o)
	}
	k, v, ok := apply(a, last)
	after := tracked(a, ops, ops)
	vx.Assert(len(after) <= max, "no more keys are tracked than the capacity")
	gone := 0
	for _, x := range before {
		if !has(after, x) {
			gone++
		}
	}
	added := 0
	for _, x := range after {
		if !has(before, x) {
			added++
		}
	}
	switch last.kind {
	case opSet:
		was := has(before, last.key)
		vx.Assert(max == 0 || has(after, last.key), "a key just set is tracked")
		vx.Assert(added == 0 || !was && added == 1, "a set adds only its key")
		vx.Assert(gone == 0 || !was && gone == 1 && full(len(before)), "a set displaces one key, and only for a new key when full")
	case opGet:
		vx.Assert(ok == has(before, last.key), "a get finds exactly the tracked keys")
		if ok {
			want, _ := lastSet(past, last.key)
			got, is := v.(int64)
			vx.Assert(is && got == want, "a get returns the value last set")
		} else {
			vx.Assert(v == nil, "a get of an untracked key returns nothing")
		}
		vx.Assert(gone == 0 && added == 0, "a get changes no membership")
	case opDelete:
		vx.Assert(!has(after, last.key), "a deleted key is gone")
		vx.Assert(added == 0 && gone == len(before)-len(after), "a delete adds nothing")
		if has(before, last.key) {
			vx.Assert(gone == 1, "a delete removes its key only")
		} else {
			vx.Assert(gone == 0, "a delete of an untracked key removes nothing")
		}
	default:
		vx.Assert(ok == (len(before) > 0), "an eviction succeeds exactly when a key is tracked")
		if ok {
			vx.Assert(has(before, k) && !has(after, k), "an eviction removes the tracked key it returns")
			vx.Assert(gone == 1 && added == 0, "an eviction removes one key only")
		} else {
			vx.Assert(k == "", "a failed eviction names no key")
		}
	}
	drain(a, after)
	vx.Assert(len(tracked(a, ops, ops)) == 0, "evicted keys are gone")
}

// drain evicts until nothing is left and checks that exactly ks come out.
func drain(a eviction.IAlgorithm, ks []string) {
	var out []string
	for range ks {
		k, ok := a.Evict()
		vx.Assert(ok, "an eviction succeeds while a key is tracked")
		vx.Assert(has(ks, k) && !has(out, k), "an eviction returns a tracked key, once")
		out = append(out, k)
	}
	k, ok := a.Evict()
	vx.Assert(!ok && k == "", "an eviction fails when no key is tracked")
}

func contract(mk func(int) (eviction.IAlgorithm, error)) {
	c := vx.Param("cap0", 0) + vx.Choose("capacity", vx.Param("caps", 4))
	n := vx.Param("ops", 4)
	step(func() eviction.IAlgorithm { return try(mk(c)) }, history(n, letter), c, func(k int) bool { return k >= c })
	vx.Reach("end")
}

// LRU, LFU, Clock, CAWOLFU and ARC decide V01 for one policy each.
func LRU()     { contract(lru) }
func LFU()     { contract(lfu) }
func Clock()   { contract(clock) }
func CAWOLFU() { contract(cawolfu) }
func ARC()     { contract(arc) }

// Made decides V01 for the constructors, by every registered name.
func Made() {
	c := vx.Int("capacity")
	i := vx.Choose("policy", 9)
	var a eviction.IAlgorithm
	var err error
	vx.Assume(c <= 2)
	switch i {
	case 0:
		a, err = lru(c)
	case 1:
		a, err = lfu(c)
	case 2:
		a, err = clock(c)
	case 3:
		a, err = cawolfu(c)
	case 4:
		a, err = arc(c)
	default:
		a, err = eviction.NewEvictionAlgorithm([]string{"lru", "lfu", "clock", "cawolfu"}[i-5], c)
	}
	vx.Assert((err != nil) == (c < 0), "exactly a negative capacity is rejected")
	if err != nil {
		vx.Reach("rejected")
		return
	}
	a.Set("a", 1)
	_, ok := a.Get("a")
	vx.Assert(ok == (c > 0), "a capacity of zero tracks nothing")
	_, ok = a.Evict()
	vx.Assert(ok == (c > 0), "with a capacity of zero nothing is evicted")
	vx.Reach("made")
}

// policy is the reference of an ordered policy: the tracked keys, the next to go first.
type policy struct {
	keys   []string
	counts []int
	lfu    bool
	cap    int
}

func (p *policy) find(k string) int {
	for i, x := range p.keys {
		if x == k {
			return i
		}
	}
	return -1
}

func (p *policy) remove(i int) int {
	c := p.counts[i]
	p.keys = append(append([]string{}, p.keys[:i]...), p.keys[i+1:]...)
	p.counts = append(append([]int{}, p.counts[:i]...), p.counts[i+1:]...)
	return c
}

// use places k as the most recently used one with count c, after those used no more often.
func (p *policy) use(k string, c int) {
	i := len(p.keys)
	if p.lfu {
		for i > 0 && p.counts[i-1] > c {
			i--
		}
	}
	p.keys = append(append(append([]string{}, p.keys[:i]...), k), p.keys[i:]...)
	p.counts = append(append(append([]int{}, p.counts[:i]...), c), p.counts[i:]...)
}

func (p *policy) do(o op) (string, bool) {
	switch o.kind {
	case opSet, opGet:
		i := p.find(o.key)
		switch {
		case i >= 0:
			p.use(o.key, p.remove(i)+1)
		case o.kind == opSet && p.cap > 0:
			if len(p.keys) == p.cap {
				p.remove(0)
			}
			p.use(o.key, 1)
		}
	case opDelete:
		if i := p.find(o.key); i >= 0 {
			p.remove(i)
		}
	default:
		if len(p.keys) > 0 {
			k := p.keys[0]
			p.remove(0)
			return k, true
		}
	}
	return "", false
}

func order(mk func(int) (eviction.IAlgorithm, error), isLFU bool) {
	c := 1 + vx.Choose("capacity", vx.Param("caps", 3))
	a := try(mk(c))
	p := &policy{lfu: isLFU, cap: c}
	for _, o := range history(vx.Param("ops", 5), letter) {
		k, _, ok := apply(a, o)
		wk, wok := p.do(o)
		if o.kind == opEvict {
			vx.Assert(ok == wok && k == wk, "the key evicted is the one the policy defines")
		}
	}
	for {
		wk, wok := p.do(op{kind: opEvict})
		k, ok := a.Evict()
		vx.Assert(ok == wok && k == wk, "keys leave in the order the policy defines")
		if !ok {
			break
		}
	}
	vx.Reach("end")
}

// OrderLRU and OrderLFU decide V02.
func OrderLRU() { order(lru, false) }
func OrderLFU() { order(lfu, true) }

// Sharded decides V03 for one caller, with arbitrary hashes of the keys.
func Sharded() {
	name := []string{"lru", "lfu", "clock", "cawolfu"}[vx.Choose("policy", vx.Param("policies", 1))]
	shards := 1 << vx.Choose("shards", vx.Param("logshards", 3))
	c := vx.Choose("capacity", vx.Param("caps", 4))
	per := (c + shards - 1) / shards
	mk := func() eviction.IAlgorithm {
		a, err := eviction.NewSharded(name, c, shards)
		vx.Assert(err == nil, "a sharded policy with a power of two of shards is made")
		return a
	}
	step(mk, history(vx.Param("ops", 4), names()), per*shards, func(n int) bool { return n >= per })
	vx.Reach("end")
}

// Shape decides V03 for the constructor.
func Shape() {
	c, n := vx.Int("capacity"), vx.Int("shards")
	vx.Assume(c <= 3)
	vx.Assume(n <= 9)
	_, err := eviction.NewSharded("lru", c, n)
	pow := vx.Or(vx.Or(n == 1, n == 2), vx.Or(n == 4, n == 8))
	vx.Assert((err == nil) == vx.And(pow, c >= 0), "exactly a power of two of shards and a capacity of zero or more are accepted")
	vx.Reach("end")
}

// Concurrent decides V03 for concurrent callers.
func Concurrent() {
	shards := 1 << vx.Choose("shards", 2)
	mk := []string{"lru", "lfu", "clock", "cawolfu"}[vx.Choose("policy", 4)]
	s, err := eviction.NewSharded(mk, 4*shards, shards)
	vx.Assert(err == nil, "a sharded policy with a power of two of shards is made")
	keys := []string{"a", "b", "c"}
	s.Set("a", 1)
	s.Set("b", 2)
	kind := vx.Choose("kind", 4)
	var wg sync.WaitGroup
	var k1, k2 string
	var ok1, ok2 bool
	wg.Add(2)
	go func() {
		defer wg.Done()
		switch kind {
		case 0:
			s.Set("c", 3)
		case 1:
			v, ok := s.Get("a")
			vx.Assert(ok && v == any(1), "a concurrent get finds a tracked key")
		case 2:
			s.Delete("a")
		default:
			k1, ok1 = s.Evict()
		}
	}()
	other := vx.Choose("other", 3)
	go func() {
		defer wg.Done()
		switch other {
		case 0:
			s.Set("c", 4)
		case 1:
			s.Get("b")
		default:
			if kind != 1 {
				k2, ok2 = s.Evict()
			}
		}
	}()
	wg.Wait()
	var left []string
	for _, k := range keys {
		if _, ok := s.Get(k); ok {
			left = append(left, k)
		}
	}
	vx.Assert(!ok1 || k1 != "" && (k1 == "c" || !has(left, k1)), "an evicted key is gone")
	vx.Assert(!ok2 || k2 != "" && (k2 == "c" || !has(left, k2)), "an evicted key is gone")
	vx.Assert(!ok1 || !ok2 || k1 != k2, "no key is evicted twice")
	if kind == 3 {
		vx.Assert(ok1, "an eviction succeeds while a key is tracked")
	}
	if other == 2 && kind != 1 {
		vx.Assert(ok2, "an eviction succeeds while a key is tracked")
	}
	total := len(left)
	if ok1 {
		total++
	}
	if ok2 {
		total++
	}
	want := 2
	if kind == 0 || other == 0 {
		want = 3
	}
	if kind == 2 && !(ok2 && k2 == "a") {
		want--
	}
	vx.Assert(total == want, "no key is lost")
	drain(s, left)
	vx.Reach("end")
}
