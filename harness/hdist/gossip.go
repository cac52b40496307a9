package hdist

import (
	"context"
	"strconv"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

var states = []string{"alive", "suspect", "dead"}

// incarnation is any a claim can name.
func incarnation() uint64 {
	v := vx.Uint64("incarnation")
	vx.Assume(v < 1<<62)
	return v
}

// view is a node with a membership of its own.
type view struct {
	*backend.DistMemory
	name string
}

func newView(tr *backend.InProcessTransport, name string, inc uint64, opts ...backend.DistMemoryOption) *view {
	ring := cluster.NewRing(cluster.WithVirtualNodes(1), cluster.WithReplication(5))
	b, err := backend.NewDistMemory(ctx, append([]backend.DistMemoryOption{
		backend.WithDistShardCount(1),
		backend.WithDistMembership(cluster.NewMembership(ring), &cluster.Node{ID: cluster.NodeID(name), Address: name, State: cluster.NodeAlive, Incarnation: inc}),
		backend.WithDistTransport(tr),
	}, opts...)...)
	vx.Assert(err == nil, "a node is made")
	v := &view{b.(*backend.DistMemory), name}
	tr.Register(v.DistMemory)
	return v
}

// knows makes another node a member in the view.
func (v *view) knows(name string, state cluster.NodeState, inc uint64) {
	v.Membership().Upsert(&cluster.Node{ID: cluster.NodeID(name), Address: name, State: state, Incarnation: inc})
}

func (v *view) of(name string) *cluster.Node {
	for _, n := range v.Membership().List() {
		if string(n.ID) == name {
			return n
		}
	}
	return nil
}

func (v *view) routes(name string) bool {
	for _, id := range v.Ring().Lookup(key) {
		if string(id) == name {
			return true
		}
	}
	return false
}

func claim(of string, state int, inc uint64, address string) backend.GossipMember {
	return backend.GossipMember{ID: of, State: states[state], Incarnation: inc, Address: address}
}

// Claims decides D08: what a node holds after any claims about others.
func Claims() {
	tr := backend.NewInProcessTransport()
	own := incarnation()
	a := newView(tr, "A", own)
	held := map[string]*backend.GossipMember{}
	if vx.Choose("known", 2) == 1 {
		st, inc := vx.Choose("state", 3), incarnation()
		a.knows("B", cluster.NodeState(st), inc)
		m := claim("B", st, inc, "B")
		held["B"] = &m
	}
	for i := range vx.Param("messages", 2) {
		var msg []backend.GossipMember
		for j := range vx.Param("claims", 2) {
			c := claim(names[1+vx.Choose("about", 2)], vx.Choose("state", 3), incarnation(), strconv.Itoa(10*i+j))
			msg = append(msg, c)
			if h := held[c.ID]; h == nil || c.Incarnation > h.Incarnation {
				held[c.ID] = &c
			}
		}
		vx.Assert(tr.Gossip(ctx, "A", msg) == nil, "gossip is accepted")
		members := 1
		for _, name := range []string{"B", "C"} {
			h, got := held[name], a.of(name)
			if h == nil {
				vx.Assert(got == nil && !a.routes(name), "nobody becomes a member unless a peer names it")
				continue
			}
			members++
			vx.Assert(got != nil, "a member a peer names is known")
			vx.Assert(vx.And(got.Incarnation == h.Incarnation, vx.And(got.State.String() == h.State, got.Address == h.Address)),
				"of the claims about a member the one with the highest incarnation is held, the first of equals")
			vx.Assert(a.routes(name) == (h.State != "dead"), "exactly the members not held dead own keys")
		}
		vx.Assert(len(a.Membership().List()) == members, "a member is listed once")
	}
	me := a.of("A")
	vx.Assert(vx.And(me.Incarnation == own, me.State == cluster.NodeAlive), "claims about others change nothing about the node itself")
	vx.Reach("end")
}

// Refutes decides D08: claims about the node that hears them.
func Refutes() {
	tr := backend.NewInProcessTransport()
	own := incarnation()
	a := newView(tr, "A", own, backend.WithDistGossipInterval(time.Second))
	// a peer that made such a claim, and hears from the node afterwards
	b := newView(tr, "B", 1)
	b.knows("A", cluster.NodeAlive, own)
	if vx.Choose("knows", 2) == 1 {
		a.knows("B", cluster.NodeAlive, 1)
	}
	vx.Settle()
	if vx.Choose("wire", 2) == 1 {
		a.SetTransport(&lossy{InProcessTransport: tr})
	}
	highest := own
	for range vx.Param("claims", 2) {
		st, inc := vx.Choose("state", 3), incarnation()
		vx.Assert(tr.Gossip(ctx, "A", []backend.GossipMember{claim("A", st, inc, "x"), claim("B", 0, 1, "B")}) == nil, "gossip is accepted")
		me := a.of("A")
		vx.Assert(vx.And(me.State == cluster.NodeAlive, me.Address == "A"), "a node holds itself alive")
		if st != 0 && inc >= highest {
			vx.Assert(me.Incarnation > inc, "a node moves above the incarnation at which it is called suspect or dead")
			highest = me.Incarnation
		} else {
			vx.Assert(me.Incarnation == highest, "stale claims and claims that it is alive change nothing")
		}
		vx.Assert(a.routes("A"), "a node that is alive owns keys")
	}
	// the peer came to hold any of this: one of the claims, or its own suspicion
	if vx.Choose("marks", 2) == 1 {
		b.Membership().Mark("A", cluster.NodeState(1+vx.Choose("mark", 2)))
		c := b.of("A")
		vx.Assert(tr.Gossip(ctx, "A", []backend.GossipMember{claim("A", int(c.State), c.Incarnation, "A")}) == nil, "gossip is accepted")
	}
	time.Sleep(1500 * time.Millisecond)
	got := b.of("A")
	vx.Assert(got != nil && got.State == cluster.NodeAlive && b.routes("A"), "a node that refuted a claim is held alive by every peer that hears from it")
	vx.Assert(got.Incarnation == a.of("A").Incarnation, "the peer holds what the node last said of itself")
	vx.Reach("end")
}

// Meets decides D08: claims about a member that come at the same time.
func Meets() {
	tr := backend.NewInProcessTransport()
	a := newView(tr, "A", 1)
	if vx.Choose("known", 2) == 1 {
		a.knows("B", cluster.NodeAlive, 1)
	}
	about := names[vx.Choose("about", 2)]
	first := vx.Choose("first", 2)
	var wg sync.WaitGroup
	for i := range 2 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = tr.Gossip(ctx, "A", []backend.GossipMember{claim(about, 1, uint64(2+(i+first)%2), "x")})
		}()
	}
	wg.Wait()
	n := a.of(about)
	if about == "A" {
		vx.Assert(n.State == cluster.NodeAlive && n.Incarnation > 3, "a node refutes claims that come together")
	} else {
		vx.Assert(n != nil && n.Incarnation == 3 && n.State == cluster.NodeSuspect, "of claims that come together the one with the highest incarnation is held")
	}
	vx.Reach("end")
}

type sent struct {
	to      string
	members []backend.GossipMember
}

// mail is a transport that keeps the gossip sent.
type mail struct {
	*backend.InProcessTransport
	box  []sent
	fail bool
}

func (m *mail) Gossip(_ context.Context, to string, members []backend.GossipMember) error {
	m.box = append(m.box, sent{to, members})
	if m.fail {
		return context.DeadlineExceeded
	}
	return nil
}

// Tells decides D08: what a node tells, to whom and when.
func Tells() {
	post := &mail{InProcessTransport: backend.NewInProcessTransport(), fail: vx.Choose("fail", 2) == 1}
	own := incarnation()
	a := newView(post.InProcessTransport, "A", own, backend.WithDistGossipInterval(time.Second))
	a.SetTransport(post)
	vx.Settle()
	want := map[string]backend.GossipMember{"A": claim("A", 0, own, "A")}
	for _, name := range names[1 : 1+vx.Choose("members", 1+vx.Param("members", 2))] {
		st, inc := vx.Choose("state", 3), incarnation()
		a.knows(name, cluster.NodeState(st), inc)
		want[name] = claim(name, st, inc, name)
	}
	ticks := vx.Param("ticks", 2)
	time.Sleep(time.Duration(ticks)*time.Second + 500*time.Millisecond)
	if len(want) == 1 {
		vx.Assert(len(post.box) == 0, "a node alone tells nobody")
		return
	}
	vx.Assert(len(post.box) == ticks, "each round a node tells one member")
	for _, s := range post.box {
		_, member := want[s.to]
		vx.Assert(member && s.to != "A", "a node tells another member")
		seen := map[string]bool{}
		for _, m := range s.members {
			w := want[m.ID]
			vx.Assert(!seen[m.ID], "a member is told of once")
			seen[m.ID] = true
			vx.Assert(vx.And(m.Incarnation == w.Incarnation, m.State == w.State && m.Address == w.Address), "a node tells what it holds")
		}
		vx.Assert(len(seen) == len(want), "a node tells all it holds, itself included")
	}
	vx.Reach("end")
}
