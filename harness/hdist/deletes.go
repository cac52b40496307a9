package hdist

import (
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// Deleted decides D03 on one node: whatever brings a write after a deletion.
func Deleted() {
	w := newNetwork(2, 2)
	n := vx.Param("ops", 3)
	var held *cache.Item // what the node should hold
	var bar uint64       // the newest version the node has held when it deleted the key
	deleted := 0         // deletions since then
	for i := 0; i < n; i++ {
		if i == 0 || vx.Choose("op", 2) == 0 {
			it := write(i)
			if deleted > 0 { // a version between the one deleted and the deletion's own: either
				vx.Assume(vx.Or(it.Version <= bar, it.Version > bar+uint64(deleted)))
			}
			if held != nil {
				vx.Assume(it.Version != held.Version)
			}
			path := *it
			if w.deliver(&path) && held != nil {
				// a read that finds the node's own copy does not look further
			} else if deleted > 0 && it.Version <= bar || held != nil && it.Version < held.Version {
				// refused
			} else {
				held = it
				deleted = 0
			}
		} else {
			vx.Assert(w.tr.ForwardRemove(ctx, w.owners[0], key, vx.Choose("fanout", 2) == 1) == nil, "a delete is accepted")
			w.nodes[1].DebugDropLocal(key)
			if held != nil {
				bar, held = held.Version, nil
			}
			deleted++
		}
		got := w.held(0)
		if held == nil {
			vx.Assert(got == nil && !w.nodes[0].LocalContains(key), "nothing up to the deleted version brings a key back")
			continue
		}
		vx.Assert(got != nil, "a write newer than the deletion brings the key back")
		vx.Assert(vx.And(got.Version == held.Version, got.Value == held.Value), "a node holds the newest write it has seen")
	}
	vx.Reach("end")
}

// Removed decides D03 on a cluster: a client's delete, copies that come back, a client's write.
func Removed() {
	n := vx.Param("owners", 2)
	total := n + 1
	w := newNetwork(total, n, backend.WithDistReadConsistency(backend.ConsistencyAll))
	v := writeBy(1, names[vx.Choose("origin", 2)])
	for i := range n {
		cp := *v
		vx.Assert(w.tr.ForwardSet(ctx, w.owners[i], &cp, false) == nil, "a replicated write is accepted")
	}
	vx.Assert(w.nodes[vx.Choose("remover", total)].Remove(ctx, key) == nil, "a delete is accepted")
	none := func() {
		for i := range w.nodes {
			vx.Assert(w.held(i) == nil, "a deleted key stays deleted on every owner")
			_, ok := w.nodes[i].Get(ctx, key)
			vx.Assert(!ok, "a deleted key is not found")
		}
	}
	none()
	old := writeBy(2, names[vx.Choose("origin", 2)])
	vx.Assume(old.Version <= v.Version)
	at := vx.Choose("at", n)
	vx.Assert(w.tr.ForwardSet(ctx, w.owners[at], old, vx.Choose("handover", 2) == 1) == nil, "an old copy arrives")
	none()
	// a node outside the deletion still has an old copy
	w.nodes[n].DebugInject(old)
	vx.Assert(w.nodes[at].SyncWith(ctx, w.owners[n]) == nil, "a sync succeeds")
	w.nodes[n].DebugDropLocal(key)
	none()
	value := vx.Int64("value")
	vx.Assert(w.nodes[vx.Choose("writer", total)].Set(ctx, &cache.Item{Key: key, Value: value}) == nil, "a write is accepted")
	for i := range n {
		it := w.held(i)
		vx.Assert(it != nil && it.Value == value, "a write after a delete is held by every owner")
		vx.Assert(it.Version > v.Version, "a write after a delete is newer than what was deleted")
		got, ok := w.nodes[i].Get(ctx, key)
		vx.Assert(ok && got.Value == value, "a write after a delete is found")
	}
	vx.Reach("end")
}

// Kept decides D03: how long the record of a deletion is kept.
func Kept() {
	ttl := time.Duration(vx.IntRange("ttl", 0, 5000)) * time.Millisecond
	sweep := time.Duration(vx.Choose("sweep", 2)) * time.Second
	w := newNetworkOf(2, 2, func(i int) []backend.DistMemoryOption {
		if i > 0 {
			return nil
		}
		return []backend.DistMemoryOption{backend.WithDistTombstoneTTL(ttl), backend.WithDistTombstoneSweep(sweep)}
	})
	time.Sleep(time.Duration(vx.Choose("before", 2)) * 700 * time.Millisecond)
	v := write(1)
	vx.Assert(w.tr.ForwardSet(ctx, w.owners[0], v, false) == nil, "a replicated write is accepted")
	vx.Assert(w.tr.ForwardRemove(ctx, w.owners[0], key, false) == nil, "a delete is accepted")
	wait := time.Duration(vx.Choose("wait", vx.Param("waits", 4))) * 1300 * time.Millisecond
	time.Sleep(wait)
	dm := w.nodes[0]
	if wait < ttl || ttl == 0 || sweep == 0 {
		old := write(2)
		vx.Assume(old.Version <= v.Version)
		w.deliver(old)
		vx.Assert(w.held(0) == nil, "the record of a deletion is kept for its lifetime")
		vx.Assert(dm.Metrics().TombstonesPurged == 0, "no record is dropped before its lifetime is over")
	}
	if sweep > 0 && ttl > 0 && wait >= ttl+2*sweep {
		vx.Assert(dm.Metrics().TombstonesPurged == 1, "the record of a deletion is dropped after its lifetime")
		vx.Assert(dm.Metrics().TombstonesActive == 0, "no record is left once it is dropped")
	}
	vx.Reach("end")
}

// Racing decides D03: deletes and writes arriving at the same time.
func Racing() {
	w := newNetwork(1, 1, backend.WithDistTombstoneTTL(time.Hour))
	put := func(v uint64) {
		_ = w.tr.ForwardSet(ctx, w.owners[0], &cache.Item{Key: key, Value: int(v), Version: v, Origin: "A"}, false)
	}
	put(5)
	var wg sync.WaitGroup
	wg.Add(2)
	kind := vx.Choose("kind", 3)
	go func() {
		defer wg.Done()
		_ = w.tr.ForwardRemove(ctx, w.owners[0], key, vx.Choose("fanout", 2) == 1)
	}()
	go func() {
		defer wg.Done()
		switch kind {
		case 0:
			put(4)
		case 1:
			put(9)
		case 2:
			_ = w.tr.ForwardRemove(ctx, w.owners[0], key+"2", false)
		}
	}()
	wg.Wait()
	it := w.held(0)
	if kind == 1 {
		vx.Assert(it == nil || it.Version == 9, "a newer write or the deletion of it stays")
	} else {
		vx.Assert(it == nil, "a delete is not undone by an older write that arrives with it")
	}
	put(5)
	if it == nil {
		vx.Assert(w.held(0) == nil, "the record of a deletion is there whatever arrives with it")
	}
	vx.Reach("end")
}
