package main

import (
	"strings"
	"sync"
	"sync/atomic"
)

// Partial-order reduction.  A goroutine offers a preemption only before an operation on a
// synchronisation object that callers contend for: one with two conflicting operations, by
// different goroutines, that nothing orders.  The set of those objects is computed by the
// exploration itself: an execution that shows a new one restarts the exploration with it, so that
// on the executions of the last round every operation on an object outside the set commutes with
// whatever other goroutines do.  Objects have names so that the set carries over between executions.

type porShared struct {
	mu  sync.Mutex
	set atomic.Pointer[map[uint64]bool]
	gen atomic.Int64
}

func newPor() *porShared {
	p := &porShared{}
	p.set.Store(&map[uint64]bool{})
	return p
}

// grow adds names; it reports whether any is new.
func (p *porShared) grow(names map[uint64]bool) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	old := *p.set.Load()
	n := make(map[uint64]bool, len(old)+len(names))
	for k := range old {
		n[k] = true
	}
	for k := range names {
		n[k] = true
	}
	if len(n) == len(old) {
		return false
	}
	p.set.Store(&n)
	p.gen.Add(1)
	return true
}

type porEpoch struct {
	g int
	c int32
}

type porObj struct {
	name          uint64
	reads, writes []porEpoch
}

type porPath struct {
	shared *porShared
	set    map[uint64]bool
	gen    int64
	objs   map[any]*porObj
	nnames map[int]int
	fresh  map[uint64]bool
}

func (p *porShared) path() *porPath {
	gen := p.gen.Load()
	return &porPath{shared: p, set: *p.set.Load(), gen: gen, objs: map[any]*porObj{}, nnames: map[int]int{}, fresh: map[uint64]bool{}}
}

// access records an operation of g on o and reports whether o is contended.
func (p *porPath) access(g *G, o any, read bool) bool {
	x := p.objs[o]
	if x == nil {
		x = &porObj{}
		k := p.nnames[g.id]
		p.nnames[g.id] = k + 1
		x.name = mix(g.lineage, uint64(k)+1)
		p.objs[o] = x
	}
	racing := func(es []porEpoch) bool {
		for _, e := range es {
			if e.g != g.id && g.vc.at(e.g) < e.c {
				return true
			}
		}
		return false
	}
	if !p.set[x.name] && !p.fresh[x.name] && (racing(x.writes) || !read && racing(x.reads)) {
		p.fresh[x.name] = true
	}
	es := &x.writes
	if read {
		es = &x.reads
	}
	c := g.vc.at(g.id)
	for i := range *es {
		if (*es)[i].g == g.id {
			(*es)[i].c = c
			return p.set[x.name]
		}
	}
	*es = append(*es, porEpoch{g.id, c})
	return p.set[x.name]
}

// settle forgets the accesses so far: what follows cannot be reordered with them.
func (p *porPath) settle() {
	for _, x := range p.objs {
		x.reads, x.writes = nil, nil
	}
}

func mix(a, b uint64) uint64 {
	h := a*0x9e3779b97f4a7c15 + b
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return h
}

// visibleOn reports whether g must yield to the scheduler before an operation on objs, and whether
// the scheduling choice g was resumed with still stands after it.
func (m *Machine) visibleOn(g *G, fr *Frame, read bool, objs ...any) (yield, keep bool) {
	if m.por == nil {
		return m.visible(g, fr), false
	}
	if m.initMode > 0 || m.atomicAll > 0 || !fr.info.instr || len(m.gs) < 2 || fr.info.vmodel && !m.instrTop(g) {
		return false, false
	}
	hit := false
	for _, o := range objs {
		if m.por.access(g, o, read) {
			hit = true
		}
	}
	if !hit {
		return false, g.granted
	}
	return !g.granted && g.atomic == 0, false
}

// syncRead: operations that commute with each other.
func syncRead(name string) bool {
	return strings.HasSuffix(name, "RLock") || strings.Contains(name, "sync/atomic") && strings.Contains(name, "Load")
}
