package hdist

import (
	"errors"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var levels = []backend.ConsistencyLevel{backend.ConsistencyOne, backend.ConsistencyQuorum, backend.ConsistencyAll}

func needs(level backend.ConsistencyLevel, n int) int {
	switch level {
	case backend.ConsistencyAll:
		return n
	case backend.ConsistencyQuorum:
		return n/2 + 1
	}
	return 1
}

// Quorum decides D02.
func Quorum() {
	n := vx.Param("owners", 3)
	if n > 2 {
		n = 2 + vx.Choose("owners", n-1)
	}
	total := n + vx.Param("others", 1)
	wl, rl := levels[vx.Choose("writelevel", 3)], levels[vx.Choose("readlevel", 3)]
	w := newNetwork(total, n, backend.WithDistWriteConsistency(wl), backend.WithDistReadConsistency(rl),
		backend.WithDistParallelReads(vx.Param("parallel", 0) == 1))
	l := w.lose(vx.Choose("failure", vx.Param("failures", 1)))

	// every owner holds some write, the primary the newest of them
	old := make([]*cache.Item, n)
	same := true
	for i := range old {
		old[i] = writeBy(-1-i, names[0])
		if i > 0 {
			vx.Assume(old[i].Version <= old[0].Version)
			same = vx.And(same, old[i].Version == old[0].Version)
		}
		vx.Assert(w.tr.ForwardSet(ctx, w.owners[i], old[i], false) == nil, "a replicated write is accepted")
	}

	c := vx.Choose("writer", total)
	up := 0
	for i := range n {
		if i != c && vx.Choose("down", 2) == 1 {
			l.down[w.owners[i]] = true
			if i == 0 { // a write that bypasses the primary starts from what the owners hold
				vx.Assume(same)
			}
		} else {
			up++
		}
	}
	value := vx.Int64("value")
	err := w.nodes[c].Set(ctx, &cache.Item{Key: key, Value: value})
	holders := 0
	for i := range n {
		it := w.held(i)
		vx.Assert(it != nil, "an owner does not lose a key")
		if x, ok := it.Value.(int64); ok && x == value {
			holders++
			vx.Assert(it.Version > old[0].Version, "a write is newer than what it replaces")
		} else {
			vx.Assert(it.Value == old[i].Value, "an owner holds a value that was written")
		}
	}
	if l.down[w.owners[0]] && c >= n {
		vx.Assert(err != nil && holders == 0, "a write that reaches no owner fails")
	} else {
		vx.Assert(holders == up, "a write reaches every owner that can be reached")
		if holders >= needs(wl, n) {
			vx.Assert(err == nil, "a write that enough owners acknowledged succeeds")
		} else {
			vx.Assert(errors.Is(err, sentinel.ErrQuorumFailed), "a write that too few owners acknowledged fails")
		}
	}

	r := vx.Choose("reader", total)
	up = 0
	for i := range n {
		l.down[w.owners[i]] = i != r && vx.Choose("down", 2) == 1
		if !l.down[w.owners[i]] {
			up++
		}
	}
	got, ok := w.nodes[r].Get(ctx, key)
	vx.Assert(ok == (up >= needs(rl, n)), "a read succeeds when enough owners answer")
	if !ok {
		return
	}
	x, is := got.Value.(int64)
	if err == nil && needs(wl, n)+needs(rl, n) > n {
		vx.Assert(is && x == value, "a read sees the write that was acknowledged before it")
	}
	if holders == 0 {
		vx.Assert(!is, "a write that failed everywhere is not read")
	}
	vx.Reach("end")
}

// Reads decides D02: which reads succeed when owners lack the key or do not answer.
func Reads() {
	n := 2 + vx.Choose("owners", vx.Param("owners", 3)-1)
	total := n + 1
	level := levels[vx.Choose("level", 3)]
	parallel := vx.Choose("parallel", 2) == 1
	w := newNetwork(total, n, backend.WithDistReadConsistency(level), backend.WithDistParallelReads(parallel))
	l := w.lose(0)
	r := 0
	if vx.Choose("outside", 2) == 1 {
		r = n
	}
	answers := 0
	it := writeBy(1, names[0])
	for i := range n {
		switch vx.Choose("state", 3) {
		case 0:
			vx.Assert(w.tr.ForwardSet(ctx, w.owners[i], it, false) == nil, "a replicated write is accepted")
			answers++
		case 1: // the owner lacks the key
		case 2:
			vx.Assume(i != r)
			l.down[w.owners[i]] = true
		}
	}
	got, ok := w.nodes[r].Get(ctx, key)
	vx.Assert(ok == (answers >= needs(level, n)), "a read succeeds when enough owners that hold the key answer")
	if ok {
		vx.Assert(vx.And(got.Version == it.Version, got.Value == it.Value), "a read returns what the owners hold")
	}
	for i := range n {
		if !ok && i != r {
			continue
		}
		if h := w.held(i); ok && level != backend.ConsistencyOne && !l.down[w.owners[i]] {
			vx.Assert(h != nil && h.Version == it.Version, "a read leaves its result on every owner that can be reached")
		}
	}
	vx.Reach("end")
}
