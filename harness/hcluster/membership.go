package hcluster

import (
	"errors"
	"net"
	"sync"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
)

// symState is any of the three member states, symbolic.
func symState(name string) cluster.NodeState {
	s := vx.IntRange(name, 0, 2)
	return cluster.NodeState(vx.Ite(s == 0, int(cluster.NodeAlive), vx.Ite(s == 1, int(cluster.NodeSuspect), int(cluster.NodeDead))))
}

type evt struct {
	id    cluster.NodeID
	state cluster.NodeState
	ver   uint64
}

type modelNode struct {
	state cluster.NodeState
	inc   uint64
}

func find(ms *cluster.Membership, id string) *cluster.Node {
	var out *cluster.Node
	n := 0
	for _, m := range ms.List() {
		if string(m.ID) == id {
			out = m
			n++
		}
	}
	vx.Assert(n <= 1, "a member is listed once")
	return out
}

// ringMatches compares the membership's ring with one freshly built from the listed members.
func ringMatches(ms *cluster.Membership, mk func() *cluster.Ring) bool {
	var live []*cluster.Node
	for _, n := range ms.List() {
		if n.State != cluster.NodeDead {
			live = append(live, n)
		}
	}
	ref := mk()
	ref.Build(live)
	for _, k := range []string{"k1", "k2", "k3"} {
		if !same(ref.Lookup(k), ms.Ring().Lookup(k)) {
			return false
		}
	}
	return len(ref.VNodeHashes()) == len(ms.Ring().VNodeHashes())
}

func mkRing() *cluster.Ring {
	return cluster.NewRing(cluster.WithVirtualNodes(2), cluster.WithReplication(3))
}

// step performs one symbolic membership operation on one of nids members.
func step(ms *cluster.Membership, nids int) {
	id := ids[vx.Choose("id", nids)]
	switch vx.IntRange("op", 0, 4-1) {
	case 0:
		n := cluster.NewNode(id, "h:"+id)
		n.State = symState("state")
		ms.Upsert(n)
	case 1:
		ms.Remove(cluster.NodeID(id))
	case 2:
		ms.Mark(cluster.NodeID(id), symState("state"))
	case 3:
		ms.Refute(cluster.NodeID(id))
	}
}

// RingSync decides C03 for sequential histories.
func RingSync() {
	ms := cluster.NewMembership(mkRing())
	for i := 0; i < vx.Param("ops", 3); i++ {
		step(ms, vx.Param("ids", 2))
		vx.Assert(ringMatches(ms, mkRing), "ring placement equals a fresh build of the live members")
	}
	vx.Reach("end")
}

// RingSyncConc decides C03 for concurrent callers.
func RingSyncConc() {
	ms := cluster.NewMembership(mkRing())
	if vx.Choose("pre", 2) == 1 {
		ms.Upsert(cluster.NewNode("n1", "h:n1"))
	}
	var wg sync.WaitGroup
	for g := 0; g < vx.Param("gs", 2); g++ {
		wg.Add(1)
		ops := vx.Param("ops", 1)
		go func() {
			defer wg.Done()
			for i := 0; i < ops; i++ {
				step(ms, vx.Param("ids", 2))
			}
		}()
	}
	wg.Wait()
	vx.Assert(ringMatches(ms, mkRing), "ring placement equals a fresh build of the live members")
	vx.Reach("end")
}

// Transitions decides C04 and C05 for sequential histories against a reference model.
func Transitions() {
	ms := cluster.NewMembership(mkRing())
	model := map[string]*modelNode{}
	var seen, seen2 []evt
	nobs := vx.Choose("observers", 3)
	ms.OnStateChange(nil)
	if nobs > 0 {
		ms.OnStateChange(func(id cluster.NodeID, st cluster.NodeState, v uint64) {
			seen = append(seen, evt{id, st, v})
			// re-entrant use must not deadlock
			_ = ms.List()
			vx.Assert(ms.Version() >= v, "announced version is not ahead of the reported one")
			_ = ms.Mark("absent", cluster.NodeDead)
			_ = ms.Ring().Lookup("k")
		})
	}
	if nobs > 1 {
		ms.OnStateChange(func(id cluster.NodeID, st cluster.NodeState, v uint64) { seen2 = append(seen2, evt{id, st, v}) })
	}
	var announced []evt
	for i := 0; i < vx.Param("ops", 3); i++ {
		id := ids[vx.Choose("id", vx.Param("ids", 2))]
		m := model[id]
		before := ms.Version()
		change := false
		var st cluster.NodeState
		switch vx.IntRange("op", 0, 4-1) {
		case 0:
			n := cluster.NewNode(id, "h:"+id)
			n.State = symState("state")
			inc := vx.Uint64("inc")
			n.Incarnation = inc
			ms.Upsert(n)
			model[id] = &modelNode{n.State, inc}
			change, st = true, n.State
		case 1:
			ok := ms.Remove(cluster.NodeID(id))
			vx.Assert(ok == (m != nil), "remove reports whether the member existed")
			delete(model, id)
			change, st = m != nil, cluster.NodeDead
		case 2:
			st = symState("state")
			ok := ms.Mark(cluster.NodeID(id), st)
			vx.Assert(ok == (m != nil), "mark reports whether the member exists")
			if m != nil && m.state != st {
				m.state = st
				m.inc++
				change = true
			}
		case 3:
			ok := ms.Refute(cluster.NodeID(id))
			vx.Assert(ok == (m != nil), "refute reports whether the member exists")
			if m != nil {
				m.state = cluster.NodeAlive
				m.inc++
				change, st = true, cluster.NodeAlive
			}
		}
		after := ms.Version()
		if change {
			vx.Assert(after > before, "an effective change advances the version")
			announced = append(announced, evt{cluster.NodeID(id), st, after})
		} else {
			vx.Assert(after == before, "an ineffective call leaves the version alone")
		}
		vx.Assert(len(ms.List()) == len(model), "list has every member")
		for _, x := range ids {
			n := find(ms, x)
			w := model[x]
			vx.Assert((n != nil) == (w != nil), "exactly the upserted and not removed members are listed")
			if n != nil {
				vx.Assert(n.State == w.state, "member state follows the operations")
				vx.Assert(n.Incarnation == w.inc, "incarnation rises by one per transition or refutation")
			}
		}
		if nobs > 0 {
			vx.Assert(sameEvts(seen, announced), "observer sees each effective change once")
		}
		if nobs > 1 {
			vx.Assert(sameEvts(seen2, announced), "every observer sees each effective change once")
		}
	}
	vx.Reach("end")
}

func sameEvts(a, b []evt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].id != b[i].id || a[i].state != b[i].state || a[i].ver == 0 || a[i].ver > b[i].ver || i > 0 && a[i].ver <= a[i-1].ver {
			return false
		}
	}
	return true
}

// TransitionsConc decides C04/C05 for concurrent marks and refutes.
func TransitionsConc() {
	ms := cluster.NewMembership(mkRing())
	ms.Upsert(cluster.NewNode("n1", "h:n1"))
	ms.Upsert(cluster.NewNode("n2", "h:n2"))
	base := ms.Version()
	var mu sync.Mutex
	var seen []evt
	ms.OnStateChange(func(id cluster.NodeID, st cluster.NodeState, v uint64) {
		mu.Lock()
		seen = append(seen, evt{id, st, v})
		mu.Unlock()
	})
	var wg sync.WaitGroup
	for g := 0; g < vx.Param("gs", 2); g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < vx.Param("ops", 1); i++ {
				id := cluster.NodeID(ids[vx.Choose("id", 2)])
				switch vx.IntRange("op", 0, 3-1) {
				case 0:
					ms.Mark(id, symState("state"))
				case 1:
					ms.Refute(id)
				case 2:
					ms.Remove(id)
				}
			}
		}()
	}
	wg.Wait()
	vx.Assert(ms.Version()-base == uint64(len(seen)), "one announcement per version step")
	for i, a := range seen {
		vx.Assert(a.ver > base && a.ver <= ms.Version(), "announced versions are fresh")
		for j := 0; j < i; j++ {
			vx.Assert(seen[j].ver != a.ver, "announced versions are never repeated")
		}
	}
	for _, id := range []string{"n1", "n2"} {
		var cnt uint64
		var last evt
		removed := false
		for _, a := range seen {
			if string(a.id) == id {
				cnt++
				if a.ver > last.ver {
					last = a
				}
			}
		}
		n := find(ms, id)
		if n == nil {
			removed = true
			vx.Assert(last.state == cluster.NodeDead, "a removal is announced as dead")
		}
		if !removed {
			vx.Assert(n.Incarnation == 1+cnt, "incarnation counts the effective transitions")
			if cnt > 0 {
				vx.Assert(n.State == last.state, "the newest announcement carries the final state")
			}
		}
	}
	vx.Reach("end")
}

// Snapshot decides the isolation half of C06.
func Snapshot() {
	ms := cluster.NewMembership(mkRing())
	for i := 0; i < 2; i++ {
		n := cluster.NewNode(ids[i], "h:"+ids[i])
		n.Incarnation = vx.Uint64("inc")
		n.State = symState("state")
		ms.Upsert(n)
	}
	if vx.Choose("mark", 2) == 1 {
		ms.Mark("n1", symState("state"))
	}
	l1 := ms.List()
	ref := ms.List()
	i := vx.Choose("victim", 2)
	// mutate the returned snapshot
	l1[i].State = symState("newstate")
	l1[i].Incarnation = vx.Uint64("newinc")
	l1[i].Address = "x"
	l1[i].ID = "zz"
	l2 := ms.List()
	vx.Assert(eqNodes(ref, l2), "changing a listed node does not change membership")
	// mutate membership: the earlier snapshot stays
	step(ms, 2)
	step(ms, 2)
	vx.Assert(eqNodes(ref, l2), "a later change does not alter an earlier list")
	vx.Reach("end")
}

func eqNodes(a, b []*cluster.Node) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		ok := false
		for _, y := range b {
			if x.ID == y.ID {
				ok = vx.And(x.Incarnation == y.Incarnation, x.State == y.State && x.Address == y.Address)
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// Identity decides the node half of C06.
func Identity() {
	addr := vx.String("addr", vx.Param("len", 4))
	id := vx.String("id", 2)
	if id == "" && addr != "" {
		// derived ids need a concrete address
		addr = []string{"h:1", "10.0.0.1:80", "[::1]:7", "x"}[vx.Choose("fixed", 4)]
	}
	n := cluster.NewNode(id, addr)
	m := cluster.NewNode(id, addr)
	vx.Assert(n.ID != "", "node has an identifier")
	vx.Assert(n.ID == m.ID, "identifier is a function of the arguments")
	vx.Assert(n.Address == addr, "address is kept")
	if id != "" {
		vx.Assert(string(n.ID) == id, "explicit identifier is kept")
		vx.Reach("explicit")
	} else {
		o := cluster.NewNode("", addr+"0")
		vx.Assert(o.ID != n.ID, "derived identifiers differ for these addresses")
	}
	vx.Assert(n.State == cluster.NodeAlive && n.Incarnation == 1, "starts alive with incarnation one")
	err := n.Validate()
	_, _, serr := net.SplitHostPort(addr)
	vx.Assert((err == nil) == (addr != "" && serr == nil), "validates exactly host:port addresses")
	if err != nil {
		vx.Assert(errors.Is(err, cluster.ErrInvalidAddress), "validation error is the documented one")
		vx.Reach("invalid")
	} else {
		vx.Reach("valid")
	}
}
