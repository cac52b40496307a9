// Package hcluster: harnesses for internal/cluster.
package hcluster

import (
	"github.com/cespare/xxhash/v2"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
)

var ids = []string{"n1", "n2", "n3", "n4", "n5", "n6", "n7"}

func mkNodes(n int) []*cluster.Node {
	out := make([]*cluster.Node, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, cluster.NewNode(ids[i], "h:"+ids[i]))
	}
	return out
}

func permute(in []*cluster.Node, name string) []*cluster.Node {
	rest := append([]*cluster.Node{}, in...)
	var out []*cluster.Node
	for len(rest) > 0 {
		i := 0
		if len(rest) > 1 {
			i = vx.Choose(name, len(rest))
		}
		out = append(out, rest[i])
		rest = append(append([]*cluster.Node{}, rest[:i]...), rest[i+1:]...)
	}
	return out
}

// vnodes is the number of virtual nodes: free up to a bound, or fixed.
func vnodes() int {
	if f := vx.Param("vfix", 0); f > 0 {
		return f
	}
	return 1 + vx.Choose("vnodes", vx.Param("vnodes", 1))
}

type pos struct {
	p    uint64
	wrap bool
	has  bool
}

// before: a is met no later than b when walking clockwise from the key.
func before(a, b pos) bool {
	return vx.Or(vx.And(vx.Not(a.wrap), b.wrap), vx.And(a.wrap == b.wrap, a.p <= b.p))
}

// dist returns, per node, its position first met from the key.
func dist(r *cluster.Ring, key string, n int) []pos {
	target := xxhash.Sum64String(key)
	out := make([]pos, n)
	for _, s := range r.VNodeHashes() {
		p := vx.ParseHex(s[:16])
		id := s[17:]
		for j := 0; j < n; j++ {
			if ids[j] == id {
				c := pos{p, p < target, true}
				if !out[j].has {
					out[j] = c
				} else {
					first := before(c, out[j])
					out[j].p = vx.IteU(first, c.p, out[j].p)
					out[j].wrap = vx.IteB(first, c.wrap, out[j].wrap)
				}
			}
		}
	}
	return out
}

func idx(id cluster.NodeID) int {
	for j, s := range ids {
		if s == string(id) {
			return j
		}
	}
	return -1
}

// Placement decides C01 on one ring: count, distinctness, membership and ring order.
func Placement() {
	n := vx.Choose("nodes", vx.Param("nodes", 3)+1)
	v := vnodes()
	R := 1 + vx.Choose("repl", vx.Param("repl", 3))
	if vx.Param("lim", 0) > 0 {
		vx.Assume(n*v <= vx.Param("lim", 0))
	}
	ring := cluster.NewRing(cluster.WithVirtualNodes(v), cluster.WithReplication(R))
	ring.Build(mkNodes(n))
	key := "key"
	own := ring.Lookup(key)
	want := n
	if R < n {
		want = R
	}
	vx.Assert(len(own) == want, "owner count is min(replication, nodes)")
	vx.Assert(ring.Replication() == R && ring.VirtualNodesPerNode() == v, "ring reports its configuration")
	if n == 0 {
		vx.Reach("empty")
		return
	}
	vx.Assert(len(ring.VNodeHashes()) == n*v, "every node has its virtual positions")
	seen := make([]bool, n)
	for _, o := range own {
		j := idx(o)
		vx.Assert(j >= 0 && j < n, "owner is a member")
		vx.Assert(!seen[j], "owners are distinct")
		seen[j] = true
	}
	d := dist(ring, key, n)
	for i := 0; i+1 < len(own); i++ {
		vx.Assert(before(d[idx(own[i])], d[idx(own[i+1])]), "owners follow ring order from the key")
	}
	last := d[idx(own[len(own)-1])]
	for j := 0; j < n; j++ {
		if !seen[j] {
			vx.Assert(before(last, d[j]), "no non-owner is closer than an owner")
		}
	}
	again := ring.Lookup(key)
	vx.Assert(same(own, again), "lookup is repeatable")
	vx.Reach("placed")
}

// Walk decides C01 for rings with many virtual nodes at known positions and any key position: the
// owners are exactly the first distinct nodes met clockwise from the key.
func Walk() {
	n := 1 + vx.Choose("nodes", vx.Param("nodes", 3))
	R := 1 + vx.Choose("repl", vx.Param("repl", 3))
	ring := cluster.NewRing(cluster.WithVirtualNodes(vnodes()), cluster.WithReplication(R))
	ring.Build(mkNodes(n))
	hs := ring.VNodeHashes()
	vx.Assert(len(hs) == n*vnodes(), "every node has its virtual positions")
	ps := make([]uint64, len(hs))
	for i, h := range hs {
		ps[i] = vx.ParseHex(h[:16])
	}
	// the ring lists positions in order
	for i := 0; i+1 < len(ps); i++ {
		vx.Assert(ps[i] <= ps[i+1], "positions are listed in ring order")
	}
	target := xxhash.Sum64String("key")
	lo, hi := 0, len(ps)
	for lo < hi {
		mid := (lo + hi) / 2
		if ps[mid] >= target {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	var want []cluster.NodeID
	for k := 0; k < len(ps) && len(want) < R; k++ {
		id := cluster.NodeID(hs[(lo+k)%len(ps)][17:])
		dup := false
		for _, w := range want {
			dup = dup || w == id
		}
		if !dup {
			want = append(want, id)
		}
	}
	vx.Assert(same(ring.Lookup("key"), want), "owners are the first distinct nodes from the key")
	vx.Reach("placed")
}

func same(a, b []cluster.NodeID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// OrderFree decides the order-independence half of C01: list order and earlier contents do not matter.
func OrderFree() {
	n := 2 + vx.Choose("nodes", vx.Param("nodes", 2)-1)
	v := vnodes()
	if vx.Param("lim", 0) > 0 {
		vx.Assume(n*v <= vx.Param("lim", 0))
	}
	R := 1 + vx.Choose("repl", n)
	nodes := mkNodes(n)
	r1 := cluster.NewRing(cluster.WithVirtualNodes(v), cluster.WithReplication(R))
	r1.Build(nodes)
	r2 := cluster.NewRing(cluster.WithVirtualNodes(v), cluster.WithReplication(R))
	if vx.Choose("prior", 2) == 1 {
		r2.Build(nodes[:1])
	}
	r2.Build(permute(nodes, "order"))
	a, b := r1.Lookup("key"), r2.Lookup("key")
	vx.Assert(same(a, b), "ownership does not depend on list order")
	vx.Reach("compared")
}

// Disruption decides C02: adding one node changes owner lists only by inserting it.
func Disruption() {
	n := 1 + vx.Choose("nodes", vx.Param("nodes", 2))
	v := vnodes()
	if vx.Param("lim", 0) > 0 {
		vx.Assume((n+1)*v <= vx.Param("lim", 0))
	}
	R := 1 + vx.Choose("repl", vx.Param("repl", 2))
	nodes := mkNodes(n + 1)
	x := vx.Choose("changed", n+1)
	var without []*cluster.Node
	for i, nd := range nodes {
		if i != x {
			without = append(without, nd)
		}
	}
	r := cluster.NewRing(cluster.WithVirtualNodes(v), cluster.WithReplication(R))
	r.Build(without)
	small := r.Lookup("key")
	r.Build(nodes)
	big := r.Lookup("key")
	r.Build(without)
	back := r.Lookup("key")
	vx.Assert(same(small, back), "leaving restores the earlier placement")
	// drop the changed node from big: what remains is a prefix of small, and vice versa
	var rest []cluster.NodeID
	joined := false
	for _, o := range big {
		if o == nodes[x].ID {
			joined = true
			continue
		}
		rest = append(rest, o)
	}
	vx.Assert(len(rest) <= len(small), "joining adds no other owner")
	for i := range rest {
		vx.Assert(rest[i] == small[i], "other owners keep their order")
	}
	if !joined {
		vx.Assert(len(rest) == len(small), "unaffected keys keep all owners")
		vx.Reach("unaffected")
	} else {
		vx.Assert(len(small)-len(rest) <= 1, "at most one owner displaced")
		vx.Reach("affected")
	}
}
