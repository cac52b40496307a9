package hdist

import (
	"context"
	"errors"
	"sync"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// Map decides D07: to its clients the cluster is a map, whichever node they talk to.
func Map() {
	n, repl := vx.Param("nodes", 3), vx.Param("replication", 2)
	wl, rl := levels[vx.Choose("writelevel", 3)], levels[vx.Choose("readlevel", 3)]
	w := newNetwork(n, repl, backend.WithDistWriteConsistency(wl), backend.WithDistReadConsistency(rl))
	ks := []string{key, "other"}[:vx.Param("keys", 2)]
	m := map[string]int64{}
	ops := vx.Param("ops", 3)
	for i := 0; i < ops; i++ {
		k := ks[0]
		if i > 0 {
			k = ks[vx.Choose("key", len(ks))]
		}
		at := w.nodes[vx.Choose("node", n)]
		if i == 0 || vx.Choose("op", 2) == 0 {
			v := vx.Int64("value")
			vx.Assert(at.Set(ctx, &cache.Item{Key: k, Value: v}) == nil, "a write is accepted")
			m[k] = v
		} else {
			vx.Assert(at.Remove(ctx, k) == nil, "a delete is accepted")
			delete(m, k)
		}
	}
	for _, at := range w.nodes {
		owned, listed := 0, 0
		for _, k := range ks {
			want, is := m[k]
			got, ok := at.Get(ctx, k)
			vx.Assert(ok == is, "a key is found exactly when it was written and not deleted")
			if ok {
				vx.Assert(got.Key == k && got.Value == want, "a read returns the value last written")
				got.Value, got.Version = "changed by the caller", 1<<62
				again, ok := at.Get(ctx, k)
				vx.Assert(ok && again.Value == want, "what a caller does to an item it read changes nothing")
			}
			if is && at.IsOwner(k) {
				owned++
			}
		}
		items, err := at.List(ctx)
		vx.Assert(err == nil, "a listing succeeds")
		for _, it := range items {
			if _, is := m[it.Key]; is && it.Value == m[it.Key] {
				listed++
			}
		}
		for _, it := range items { // the caller's to change
			it.Value, it.Version = "changed by the caller", 1<<62
		}
		for k, v := range m {
			got, ok := at.Get(ctx, k)
			vx.Assert(ok && got.Value == v, "what a caller does to a listing changes nothing")
		}
		vx.Assert(at.Count(ctx) == owned && listed == owned && len(items) == owned, "a node holds exactly the keys it owns")
	}
	vx.Reach("end")
}

// Clears decides D07: clearing, draining and canceled callers.
func Clears() {
	w := newNetwork(2, 2)
	v := vx.Int64("value")
	vx.Assert(w.nodes[0].Set(ctx, &cache.Item{Key: key, Value: v}) == nil, "a write is accepted")
	has := func(i int) bool {
		it := w.held(i)
		vx.Assert(it == nil || it.Value == v, "a node holds what was written")
		return it != nil
	}
	switch vx.Choose("case", 3) {
	case 0:
		c, cancel := context.WithCancel(ctx)
		early := vx.Choose("canceled", 2) == 1
		if early {
			cancel()
		} else {
			defer cancel()
		}
		err := w.nodes[0].Clear(c)
		if early {
			vx.Assert(errors.Is(err, sentinel.ErrTimeoutOrCanceled), "a canceled clear is an error")
			vx.Quiesce()
			vx.Assert(has(0) && w.nodes[0].Count(ctx) == 1, "a canceled clear clears nothing, then or later")
		} else {
			vx.Assert(err == nil && !has(0) && w.nodes[0].Count(ctx) == 0, "a clear removes everything the node holds")
		}
		vx.Assert(has(1), "a clear leaves the other nodes alone")
	case 1:
		i := vx.Choose("drained", 2)
		vx.Assert(w.nodes[i].Drain(ctx) == nil && w.nodes[i].IsDraining(), "a node drains")
		vx.Assert(errors.Is(w.nodes[i].Set(ctx, &cache.Item{Key: key, Value: v + 1}), sentinel.ErrDraining), "a draining node takes no writes")
		vx.Assert(errors.Is(w.nodes[i].Remove(ctx, key), sentinel.ErrDraining), "a draining node takes no deletes")
		got, ok := w.nodes[i].Get(ctx, key)
		vx.Assert(has(0) && has(1) && ok && got.Value == v, "a refused write or delete changes nothing, and a draining node still answers")
	case 2:
		vx.Assert(w.nodes[0].Set(ctx, &cache.Item{Key: "", Value: v}) != nil, "an item without a key is refused")
		vx.Assert(w.nodes[0].Set(ctx, &cache.Item{Key: key}) != nil, "an item without a value is refused")
		vx.Assert(has(0) && has(1) && w.nodes[0].Count(ctx) == 1, "a refused write changes nothing")
	}
	vx.Reach("end")
}

// Writers decides D01: clients that write and delete one key at the same time, through any nodes.
func Writers() {
	w := newNetwork(3, 2)
	pairs := [][2]int{{0, 0}, {0, 1}, {1, 2}}
	p := pairs[vx.Choose("pair", len(pairs))]
	del := vx.Choose("delete", 2) == 1
	fresh := del && vx.Choose("fresh", 2) == 1
	if del && !fresh {
		vx.Assert(w.nodes[0].Set(ctx, &cache.Item{Key: key, Value: "before"}) == nil, "a write is accepted")
	}
	var wg sync.WaitGroup
	for i := range 2 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if del && i == 1 {
				_ = w.nodes[p[i]].Remove(ctx, key)
			} else {
				_ = w.nodes[p[i]].Set(ctx, &cache.Item{Key: key, Value: []string{"first", "second"}[i]})
			}
		}()
	}
	wg.Wait()
	a, b := w.held(0), w.held(1)
	if del {
		vx.Assert(a == nil || a.Value == "first", "a write and a delete at the same time: either is the last")
		vx.Assert(b == nil || b.Value == "first", "a write and a delete at the same time: either is the last")
		// removals carry no version: at a replica one may pass a write it was ordered after or before
		vx.AssertKF((a == nil) == (b == nil), "a write and a delete at the same time leave the same on every owner",
			"D01-delete-passes-write", a != nil || fresh)
	} else {
		vx.Assert(a != nil && b != nil && a.Value != "before", "the primary holds one of the writes")
		vx.Assert(a.Version == b.Version && a.Value == b.Value, "writes at the same time leave the same one on every owner")
	}
	vx.Reach("end")
}
