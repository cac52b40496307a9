// Package hwire: harnesses for the HTTP wire between nodes.
package hwire

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"net"
	"slices"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	_ "github.com/hyp3rd/hypercache/internal/zzverif/vfiber"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var ctx = context.Background()

// freeAddr is an address nobody listens at.
func freeAddr() string {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	vx.Assert(err == nil, "there is a free port")
	addr := ln.Addr().String()
	_ = ln.Close()
	return addr
}

// side is a cluster of two nodes with the transport that reaches them.
type side struct {
	tr      backend.DistTransport
	members *cluster.Membership
	nodes   []*backend.DistMemory
	addr    []string
}

func newSide(http bool, shards, replication int, limits backend.DistHTTPLimits, opts ...backend.DistMemoryOption) *side {
	s := &side{members: cluster.NewMembership(cluster.NewRing(cluster.WithVirtualNodes(1), cluster.WithReplication(replication)))}
	ip := backend.NewInProcessTransport()
	s.tr = ip
	for _, id := range []string{"A", "B"} {
		addr := id
		if http {
			addr = freeAddr()
		}
		all := append([]backend.DistMemoryOption{backend.WithDistShardCount(shards),
			backend.WithDistMembership(s.members, &cluster.Node{ID: cluster.NodeID(id), Address: addr, State: cluster.NodeAlive})}, opts...)
		if http {
			all = append(all, backend.WithDistNode(id, addr), backend.WithDistHTTPLimits(limits))
		} else {
			all = append(all, backend.WithDistTransport(ip))
		}
		b, err := backend.NewDistMemory(ctx, all...)
		vx.Assert(err == nil, "a node is made")
		dm := b.(*backend.DistMemory)
		ip.Register(dm)
		s.nodes = append(s.nodes, dm)
		s.addr = append(s.addr, addr)
	}
	vx.Settle()
	if http {
		s.tr = backend.NewDistHTTPTransportWithLimits(limits, s.resolve)
		for s.tr.Health(ctx, "A") != nil || s.tr.Health(ctx, "B") != nil {
			time.Sleep(time.Millisecond)
		}
	}
	return s
}

func (s *side) resolve(id string) (string, bool) {
	for i, name := range []string{"A", "B"} {
		if id == name {
			return "http://" + s.addr[i], true
		}
	}
	return "", false
}

func (s *side) stop() {
	for _, dm := range s.nodes {
		_ = dm.Stop(ctx)
	}
}

func alike(a, b error, what string) {
	vx.Assert((a == nil) == (b == nil), what+": the wire fails exactly where the node does")
	vx.Assert(errors.Is(a, sentinel.ErrBackendNotFound) == errors.Is(b, sentinel.ErrBackendNotFound), what+": a node that is not there is told apart")
	vx.Assert(errors.Is(a, sentinel.ErrQuorumFailed) == errors.Is(b, sentinel.ErrQuorumFailed), what+": a write that is not acknowledged is told apart")
}

func sameValue(a, b any) bool {
	x, err := json.Marshal(a)
	y, err2 := json.Marshal(b)
	return err == nil && err2 == nil && bytes.Equal(x, y)
}

func sameItem(a, b *cache.Item, what string) {
	vx.Assert((a == nil) == (b == nil), what+": the wire has an item where the node has")
	if a == nil {
		return
	}
	vx.Assert(vx.And(a.Version == b.Version, vx.And(a.Origin == b.Origin, a.Key == b.Key)), what+": an item keeps its key, version and origin on the wire")
	vx.Assert(a.Expiration == b.Expiration, what+": an item keeps its expiration on the wire")
	vx.Assert(sameValue(a.Value, b.Value), what+": an item keeps its value on the wire")
}

var keys = []string{"k", "a b&key=c%2F+", "kk"}

// Same decides W01: what goes over HTTP is what goes within the process.
func Same() {
	shards, replication := vx.Param("shards", 2), 1+vx.Choose("replicas", 2)
	limits := backend.DistHTTPLimits{CompressionThreshold: replication - 1}
	if vx.Param("gzip", 0) == 1 {
		limits.CompressionThreshold = vx.Choose("gzip", 2)
	}
	p, h := newSide(false, shards, replication, limits), newSide(true, shards, replication, limits)
	defer h.stop()
	defer p.stop()
	count, drained := vx.Param("ops", 2), ""
	for i := range count {
		op := 0
		if i < count-1 {
			if op = vx.Choose("first", 3); op == 2 { // one that changes something
				op = 8
			}
		} else {
			op = vx.Choose("op", 8)
		}
		to, key := "Z", keys[0]
		if op != 8 {
			to = []string{"A", "B", "Z"}[vx.Choose("to", 3)]
		}
		if op < 3 {
			key = keys[vx.Choose("key", vx.Param("keys", 2))]
		}
		switch op {
		case 0:
			it := cache.Item{Key: key, Version: vx.Uint64("version"), Origin: []string{"A", "B"}[vx.Choose("origin", 2)]}
			vx.Assume(it.Version < 1<<62)
			it.Expiration = []time.Duration{0, time.Hour + 3*time.Millisecond}[vx.Choose("expires", 2)]
			it.Value = []any{"text", nil, []byte{0, 255}, true}[vx.Choose("value", vx.Param("values", 2))]
			replicate := vx.Choose("replicate", 2) == 1
			a, b := it, it
			alike(p.tr.ForwardSet(ctx, to, &a, replicate), h.tr.ForwardSet(ctx, to, &b, replicate), "set")
		case 1:
			replicate := vx.Choose("replicate", 2) == 1
			alike(p.tr.ForwardRemove(ctx, to, key, replicate), h.tr.ForwardRemove(ctx, to, key, replicate), "remove")
		case 2:
			a, okA, errA := p.tr.ForwardGet(ctx, to, key)
			b, okB, errB := h.tr.ForwardGet(ctx, to, key)
			alike(errA, errB, "get")
			vx.Assert(okA == okB, "get: a key is found over the wire where the node holds it")
			sameItem(a, b, "get")
		case 3:
			pattern := []string{"", "k", "k*", "[", "a b&"}[vx.Choose("pattern", 5)]
			a, errA := p.tr.ListKeys(ctx, to, pattern)
			b, errB := h.tr.ListKeys(ctx, to, pattern)
			alike(errA, errB, "keys")
			slices.Sort(a)
			slices.Sort(b)
			vx.Assert(slices.Equal(a, b), "keys: all keys are listed over the wire")
		case 4:
			a, errA := p.tr.FetchMerkle(ctx, to)
			b, errB := h.tr.FetchMerkle(ctx, to)
			alike(errA, errB, "tree")
			if errA == nil {
				vx.Assert(bytes.Equal(a.Root, b.Root) && a.ChunkSize == b.ChunkSize && len(a.LeafHashes) == len(b.LeafHashes), "tree: a tree keeps its shape on the wire")
				for i := range a.LeafHashes {
					vx.Assert(bytes.Equal(a.LeafHashes[i], b.LeafHashes[i]), "tree: a tree keeps its leaves on the wire")
				}
			}
		case 5:
			if to == drained {
				vx.Assert(h.tr.Health(ctx, to) != nil, "health: a draining node does not pass for ready over the wire")
				break
			}
			alike(p.tr.Health(ctx, to), h.tr.Health(ctx, to), "health")
		case 6:
			target := []string{"A", "B", "Z"}[vx.Choose("target", 3)]
			if target == drained && to != "Z" {
				err := h.tr.IndirectHealth(ctx, to, target)
				vx.Assert(err != nil && !errors.Is(err, sentinel.ErrBackendNotFound), "probe: a draining node does not pass for ready over the wire")
				break
			}
			alike(p.tr.IndirectHealth(ctx, to, target), h.tr.IndirectHealth(ctx, to, target), "probe")
		case 8:
			n := vx.Choose("drained", 2)
			drained = []string{"A", "B"}[n]
			vx.Assert(p.nodes[n].Drain(ctx) == nil && h.nodes[n].Drain(ctx) == nil, "a node drains")
			continue
		case 7:
			m := backend.GossipMember{ID: []string{"A", "B", "C"}[vx.Choose("member", 3)], Address: "127.0.0.1:9", State: []string{"alive", "suspect", "dead"}[vx.Choose("state", 3)], Incarnation: vx.Uint64("incarnation")}
			vx.Assume(m.Incarnation < 1<<62)
			alike(p.tr.Gossip(ctx, to, []backend.GossipMember{m}), h.tr.Gossip(ctx, to, []backend.GossipMember{m}), "gossip")
			if m.ID != "C" {
				return // the other node may be gone from the ring
			}
			x, y := p.members.List(), h.members.List()
			vx.Assert(len(x) == len(y), "gossip: the members are those told over the wire")
			for _, a := range x {
				for _, b := range y {
					vx.Assert(a.ID != b.ID || vx.And(a.Incarnation == b.Incarnation, a.State == b.State), "gossip: a member is as told over the wire")
				}
			}
		}
	}
	for i, to := range []string{"A", "B"} {
		for _, key := range keys {
			a, okA, _ := p.tr.ForwardGet(ctx, to, key)
			b, okB, err := h.tr.ForwardGet(ctx, to, key)
			vx.Assert(err == nil && okA == okB, "a node holds what it was given over the wire")
			sameItem(a, b, "held")
			vx.Assert(p.nodes[i].LocalContains(key) == h.nodes[i].LocalContains(key), "a node holds what it was given over the wire")
		}
	}
	vx.Reach("end")
}

// Lists decides W01 for listings over several shards.
func Lists() {
	p, h := newSide(false, vx.Param("shards", 4), 2, backend.DistHTTPLimits{}), newSide(true, vx.Param("shards", 4), 2, backend.DistHTTPLimits{})
	defer h.stop()
	defer p.stop()
	all := []string{"a", "b", "ab", "bb", "c", "d/e", "f g", "[x"}
	for range vx.Param("keys", 2) {
		i := vx.Choose("key", len(all))
		it := cache.Item{Key: all[i], Value: "v", Version: 1, Origin: "A"}
		vx.Assert(p.tr.ForwardSet(ctx, "A", &it, false) == nil && h.tr.ForwardSet(ctx, "A", &it, false) == nil, "a key is set")
	}
	pattern := []string{"", "b", "*b", "[ab]", "[", "d/", "f g"}[vx.Choose("pattern", 7)]
	a, errA := p.tr.ListKeys(ctx, "A", pattern)
	b, errB := h.tr.ListKeys(ctx, "A", pattern)
	vx.Assert((errA == nil) == (errB == nil), "keys: the wire fails exactly where the node does")
	slices.Sort(a)
	slices.Sort(b)
	vx.Assert(slices.Equal(a, b), "keys: all keys are listed over the wire, once")
	vx.Reach("end")
}
