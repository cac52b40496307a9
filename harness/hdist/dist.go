// Package hdist: harnesses for the distributed backend.
package hdist

import (
	"context"
	"io"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var ctx = context.Background()

const key = "k"

var names = []string{"A", "B", "C", "D", "E"}

// network is n nodes that see each other as members and own every key when the replication is n.
type network struct {
	tr     *backend.InProcessTransport
	nodes  []*backend.DistMemory // in the order of the ring's owners of key
	owners []string
}

func newNetwork(n, replication int, opts ...backend.DistMemoryOption) *network {
	return newNetworkOf(n, replication, func(int) []backend.DistMemoryOption { return opts })
}

func newNetworkOf(n, replication int, opts func(i int) []backend.DistMemoryOption) *network {
	w := &network{tr: backend.NewInProcessTransport()}
	ring := cluster.NewRing(cluster.WithVirtualNodes(1), cluster.WithReplication(replication))
	members := cluster.NewMembership(ring)
	for _, name := range names[:n] {
		members.Upsert(&cluster.Node{ID: cluster.NodeID(name), Address: name, State: cluster.NodeAlive, LastSeen: time.Now()})
	}
	for _, id := range ring.Lookup(key) {
		w.add(members, string(id), opts(len(w.nodes)))
	}
	for _, name := range names[:n] {
		if w.index(name) < 0 {
			w.add(members, name, opts(len(w.nodes)))
		}
	}
	vx.Settle() // the background loops start
	return w
}

func (w *network) add(members *cluster.Membership, name string, opts []backend.DistMemoryOption) {
	all := append([]backend.DistMemoryOption{
		backend.WithDistShardCount(1),
		backend.WithDistMembership(members, &cluster.Node{ID: cluster.NodeID(name), Address: name, State: cluster.NodeAlive}),
		backend.WithDistTransport(w.tr),
	}, opts...)
	b, err := backend.NewDistMemory(ctx, all...)
	vx.Assert(err == nil, "a node is made")
	dm := b.(*backend.DistMemory)
	w.tr.Register(dm)
	w.nodes = append(w.nodes, dm)
	w.owners = append(w.owners, name)
}

func (w *network) index(name string) int {
	for i, o := range w.owners {
		if o == name {
			return i
		}
	}
	return -1
}

// held is what node i holds for the key.
func (w *network) held(i int) *cache.Item {
	it, ok, err := w.tr.ForwardGet(ctx, w.owners[i], key)
	vx.Assert(err == nil, "a node answers")
	if !ok {
		return nil
	}
	return it
}

// write is a write as replicated: a version, an origin and a value of its own.
func write(i int) *cache.Item { return writeBy(i, names[vx.Choose("origin", 2)]) }

func writeBy(i int, origin string) *cache.Item {
	v := vx.Uint64("version")
	vx.Assume(vx.And(v > 0, v < 1<<62))
	return &cache.Item{Key: key, Value: i, Version: v, Origin: origin, LastUpdated: time.Now()}
}

// newer: a beats b.
func newer(a, b *cache.Item) bool {
	return vx.Or(a.Version > b.Version, vx.And(a.Version == b.Version, a.Origin < b.Origin))
}

// Orders decides D01: replicated writes in any order.
func Orders() {
	w := newNetwork(2, 2)
	n := vx.Param("writes", 3)
	ws := make([]*cache.Item, n)
	for i := range ws {
		ws[i] = write(i)
		for _, o := range ws[:i] {
			vx.Assume(vx.Not(vx.And(o.Version == ws[i].Version, o.Origin == ws[i].Origin)))
		}
	}
	// one node gets them in this order, the other in any
	for _, it := range ws {
		vx.Assert(w.tr.ForwardSet(ctx, w.owners[0], it, false) == nil, "a replicated write is accepted")
	}
	left := append([]*cache.Item(nil), ws...)
	for len(left) > 0 {
		i := vx.Choose("next", len(left))
		vx.Assert(w.tr.ForwardSet(ctx, w.owners[1], left[i], false) == nil, "a replicated write is accepted")
		left = append(left[:i:i], left[i+1:]...)
	}
	a, b := w.held(0), w.held(1)
	vx.Assert(a != nil && b != nil, "a node that got a write holds one")
	vx.Assert(vx.And(a.Version == b.Version, vx.And(a.Origin == b.Origin, a.Value == b.Value)),
		"the order of delivery does not change the winner")
	for _, it := range ws {
		vx.Assert(vx.Not(newer(it, a)), "the newest write wins")
	}
	vx.Reach("end")
}

// lossy is a transport that cannot reach the nodes that are down.
type lossy struct {
	*backend.InProcessTransport
	down map[string]bool
	kind int
}

func (l *lossy) fail(id string) error {
	if !l.down[id] {
		return nil
	}
	if l.kind == 0 {
		return sentinel.ErrBackendNotFound
	}
	return io.EOF
}

func (l *lossy) ForwardSet(ctx context.Context, id string, it *cache.Item, replicate bool) error {
	if err := l.fail(id); err != nil {
		return err
	}
	return l.InProcessTransport.ForwardSet(ctx, id, it, replicate)
}

func (l *lossy) ForwardGet(ctx context.Context, id, key string) (*cache.Item, bool, error) {
	if err := l.fail(id); err != nil {
		return nil, false, err
	}
	return l.InProcessTransport.ForwardGet(ctx, id, key)
}

func (l *lossy) ForwardRemove(ctx context.Context, id, key string, replicate bool) error {
	if err := l.fail(id); err != nil {
		return err
	}
	return l.InProcessTransport.ForwardRemove(ctx, id, key, replicate)
}

func (l *lossy) ListKeys(ctx context.Context, id, pattern string) ([]string, error) {
	if err := l.fail(id); err != nil {
		return nil, err
	}
	return l.InProcessTransport.ListKeys(ctx, id, pattern)
}

// lose makes the network lossy; nothing is down yet.
func (w *network) lose(kind int) *lossy {
	l := &lossy{InProcessTransport: w.tr, down: map[string]bool{}, kind: kind}
	for _, n := range w.nodes {
		n.SetTransport(l)
	}
	return l
}

func (w *network) stop() {
	for _, n := range w.nodes {
		vx.Assert(n.Stop(ctx) == nil, "a node stops")
	}
}

// deliver brings a write to node 0 on one of the paths a write takes.
func (w *network) deliver(it *cache.Item) (read bool) {
	switch vx.Choose("path", 4) {
	case 0: // replication, a hint, a repair sent by a peer
		vx.Assert(w.tr.ForwardSet(ctx, w.owners[0], it, false) == nil, "a replicated write is accepted")
	case 1: // a rebalance hands it over
		vx.Assert(w.tr.ForwardSet(ctx, w.owners[0], it, true) == nil, "a write handed over is accepted")
	case 2: // a read at the node finds it on its peer
		w.nodes[1].DebugInject(it)
		w.nodes[0].Get(ctx, key)
		return true
	case 3: // anti-entropy
		if mine := w.held(0); mine != nil {
			vx.Assume(mine.Version != it.Version) // equal versions are not compared there
		}
		w.nodes[1].DebugInject(it)
		vx.Assert(w.nodes[0].SyncWith(ctx, w.owners[1]) == nil, "a sync succeeds")
	}
	return false
}

// Paths decides D01: whatever way writes come, the newest stays.
func Paths() {
	w := newNetwork(2, 2, backend.WithDistReadConsistency(backend.ConsistencyAll))
	n := vx.Param("writes", 2)
	var best *cache.Item
	for i := 0; i < n; i++ {
		it := write(i)
		if best != nil {
			vx.Assume(vx.Not(vx.And(best.Version == it.Version, best.Origin == it.Origin)))
		}
		path := *it
		read := w.deliver(&path)
		if best == nil || newer(it, best) {
			best = it
		}
		got := w.held(0)
		if read && got == nil && best == it { // a read that needs every owner, before the node has anything
			best = nil
			continue
		}
		vx.Assert(got != nil, "a node that has seen a write holds one")
		vx.Assert(vx.And(got.Version == best.Version, vx.And(got.Origin == best.Origin, got.Value == best.Value)),
			"a node holds the newest write it has seen")
	}
	vx.Reach("end")
}

// Repair decides D01: a read of several owners returns the newest copy and brings it to the owners.
func Repair() { repair(false) }

// RepairParallel is Repair with the owners read at the same time.
func RepairParallel() { repair(true) }

func repair(parallel bool) {
	n := vx.Param("owners", 3)
	level := []backend.ConsistencyLevel{backend.ConsistencyQuorum, backend.ConsistencyAll}[vx.Choose("level", 2)]
	opts := []backend.DistMemoryOption{backend.WithDistReadConsistency(level), backend.WithDistParallelReads(parallel)}
	batched := !parallel && vx.Param("batched", 1) == 1 && vx.Choose("batched", 2) == 1
	at := 0
	if !parallel {
		at = vx.Choose("reader", n)
	}
	w := newNetworkOf(n, n, func(i int) []backend.DistMemoryOption {
		if batched && i == at {
			return append(opts, backend.WithDistReadRepairBatch(time.Second, 2))
		}
		return opts
	})
	copies := make([]*cache.Item, n)
	held := 0
	for i := range copies {
		if vx.Choose("held", 2) == 0 {
			continue
		}
		if parallel {
			copies[i] = writeBy(i, names[i])
		} else {
			copies[i] = write(i)
		}
		held++
		vx.Assert(w.tr.ForwardSet(ctx, w.owners[i], copies[i], false) == nil, "a replicated write is accepted")
		for _, o := range copies[:i] {
			if o != nil {
				vx.Assume(vx.Not(vx.And(o.Version == copies[i].Version, o.Origin == copies[i].Origin)))
			}
		}
	}
	needed := n
	if level == backend.ConsistencyQuorum {
		needed = n/2 + 1
	}
	got, ok := w.nodes[at].Get(ctx, key)
	if held < needed {
		vx.Assert(!ok, "a read that too few owners answer fails")
		return
	}
	vx.Assert(ok && got != nil, "a read that enough owners answer succeeds")
	least := 0 // how many copies the result is at least as new as
	for _, o := range copies {
		if o != nil && !newer(o, got) {
			least++
		}
	}
	vx.Assert(least >= needed, "a read returns the newest of the copies it needs")
	if batched {
		time.Sleep(1500 * time.Millisecond)
	}
	for i := range w.nodes {
		it := w.held(i)
		vx.Assert(it != nil && !newer(got, it), "after a read every owner holds what it returned, or something newer")
		if copies[i] != nil {
			vx.Assert(!newer(copies[i], it), "a repair never replaces a newer copy")
		}
	}
	vx.Reach("end")
}

// Batched decides D01: repairs of several reads within one batch interval.
func Batched() {
	n := 3
	w := newNetworkOf(n, n, func(i int) []backend.DistMemoryOption {
		o := []backend.DistMemoryOption{backend.WithDistReadConsistency(backend.ConsistencyQuorum)}
		if i == 0 {
			o = append(o, backend.WithDistReadRepairBatch(time.Second, 2-vx.Choose("batch", vx.Param("batches", 1))))
		}
		return o
	})
	var seen []*cache.Item
	put := func(it *cache.Item, at int) {
		for _, o := range seen {
			vx.Assume(vx.Not(vx.And(o.Version == it.Version, o.Origin == it.Origin)))
		}
		seen = append(seen, it)
		vx.Assert(w.tr.ForwardSet(ctx, w.owners[at], it, false) == nil, "a replicated write is accepted")
	}
	put(writeBy(0, names[1]), vx.Param("first", 1))
	var results []*cache.Item
	for i := range vx.Param("reads", 2) {
		put(write(1+i), vx.Choose("at", n))
		if got, ok := w.nodes[0].Get(ctx, key); ok {
			results = append(results, got)
		}
	}
	time.Sleep(1500 * time.Millisecond)
	for _, got := range results {
		for i := range w.nodes {
			it := w.held(i)
			vx.Assert(it != nil && !newer(got, it), "after a read every owner holds what it returned, or something newer")
		}
	}
	vx.Reach("end")
}

// Together decides D01: replicated writes that arrive at the same time.
func Together() {
	w := newNetwork(1, 1)
	n := 2
	ws := make([]*cache.Item, n)
	for i := range ws {
		ws[i] = &cache.Item{Key: key, Value: i, Version: uint64(1 + i), Origin: "A"}
	}
	first := vx.Choose("first", 2)
	var wg sync.WaitGroup
	for i := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = w.tr.ForwardSet(ctx, w.owners[0], ws[(i+first)%n], false)
		}()
	}
	wg.Wait()
	it := w.held(0)
	vx.Assert(it != nil && it.Version == uint64(n) && it.Value == n-1, "of writes that arrive together the newest stays")
	vx.Reach("end")
}
