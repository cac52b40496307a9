package hdist

import (
	"context"
	"io"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
)

const (
	peerStart = 1 // the incarnation the peers start at
	beat      = 400 * time.Millisecond
)

// prober is a transport over which each probe succeeds or fails at will.
type prober struct {
	*backend.InProcessTransport
	a       *view
	k       int
	hang    string          // never answers
	mute    bool            // nor do relays
	direct  map[string]bool // probed in this round, and whether it answered
	relayed map[string]bool // whether a relay reached it
	asked   map[string]int
	relays  map[string]int // relays there were to ask
}

func (p *prober) round() {
	p.direct, p.relayed, p.asked, p.relays = map[string]bool{}, map[string]bool{}, map[string]int{}, map[string]int{}
}

func (p *prober) Health(ctx context.Context, id string) error {
	_, twice := p.direct[id]
	vx.Assert(id != "A" && !twice, "a node probes every other member once a round")
	p.direct[id] = false
	if id == p.hang {
		<-ctx.Done()
		return ctx.Err()
	}
	if vx.Choose("direct", 2) == 1 {
		p.direct[id] = true
		return nil
	}
	for _, n := range p.a.Membership().List() {
		if n.ID != "A" && string(n.ID) != id && n.State == cluster.NodeAlive {
			p.relays[id]++
		}
	}
	return io.EOF
}

func (p *prober) IndirectHealth(ctx context.Context, relay, id string) error {
	answered, probed := p.direct[id]
	r := p.a.of(relay)
	vx.Assert(probed && !answered && !p.relayed[id], "a relay is asked only about a member that did not answer")
	vx.Assert(relay != "A" && relay != id && r != nil && r.State == cluster.NodeAlive, "a relay is another member held alive")
	p.asked[id]++
	if p.mute {
		<-ctx.Done()
		return ctx.Err()
	}
	if vx.Choose("relay", 2) == 1 {
		p.relayed[id] = true
		return nil
	}
	return io.EOF
}

// Beats decides D09.
func Beats() { beats(vx.Param("peers", 2), vx.Param("rounds", 3), vx.Param("relays", 1), 0) }

// Relays decides D09 with more relays than are asked.
func Relays() { beats(vx.Param("peers", 3), vx.Param("rounds", 2), vx.Param("relays", 2), 0) }

// Sampled decides D09 where only a sample is probed each round.
func Sampled() { beats(vx.Param("peers", 2), vx.Param("rounds", 2), 0, vx.Param("sample", 3)) }

func beats(members, rounds, relays, samples int) {
	tr := backend.NewInProcessTransport()
	// not within the clock's jitter of the time from one round to another
	dead := time.Duration(400*vx.IntRange("dead", 1, 4)+vx.IntRange("more", 150, 250)) * time.Millisecond
	if vx.Choose("forever", 2) == 1 {
		dead = 0
	}
	suspect := time.Duration(vx.IntRange("suspect", 0, 2000)) * time.Millisecond
	k := vx.Choose("relays", 1+relays)
	sample := vx.Choose("sample", 1+samples)
	p := &prober{InProcessTransport: tr, k: k}
	p.round()
	a := newView(tr, "A", 1, backend.WithDistHeartbeat(beat, suspect, dead),
		backend.WithDistIndirectProbes(k, 100*time.Millisecond), backend.WithDistHeartbeatSample(sample))
	p.a = a
	a.SetTransport(p)
	peers := names[1 : 1+members]
	state, seen := map[string]cluster.NodeState{}, map[string]time.Duration{}
	for _, name := range peers {
		a.knows(name, cluster.NodeAlive, peerStart)
		state[name], seen[name] = cluster.NodeAlive, 0
	}
	vx.Settle()
	time.Sleep(beat / 2)
	removed := 0
	for i := range rounds {
		p.round()
		time.Sleep(beat)
		vx.Assert(sample == 0 || sample > members || len(p.direct) <= sample, "no more members than the sample are probed")
		now := time.Duration(i+1) * beat
		for _, name := range peers {
			at, member := seen[name]
			if !member {
				_, probed := p.direct[name]
				vx.Assert(a.of(name) == nil && !probed && !a.routes(name), "a member removed stays so, is not probed and owns nothing")
				continue
			}
			gone := vx.And(dead > 0, now-at > dead)
			n := a.of(name)
			answered, probed := p.direct[name]
			vx.Assert(vx.Not(vx.And(probed, gone)) && vx.Or(sample > 0, probed || gone), "a node probes every member it has not given up")
			if n == nil {
				vx.Assert(gone, "a member is removed only when it was not seen for longer than dead-after")
				vx.Assert(!a.routes(name), "a member removed owns nothing")
				delete(seen, name)
				removed++
				continue
			}
			vx.Assert(vx.Or(!gone, sample > 0), "a member not seen for longer than dead-after is removed")
			switch {
			case !probed:
			case answered || p.relayed[name]:
				state[name], seen[name] = cluster.NodeAlive, now
			case state[name] == cluster.NodeAlive:
				state[name], seen[name] = cluster.NodeSuspect, now
			}
			vx.Assert(p.relayed[name] || answered || p.asked[name] == min(k, p.relays[name]), "as many relays are asked as are allowed, until one reaches the member")
			vx.Assert(n.State == state[name], "a member reached, if by a relay, is alive, one not reached is suspect")
			vx.Assert(a.routes(name), "a suspect member still owns keys")
		}
		me := a.of("A")
		vx.Assert(me != nil && me.State == cluster.NodeAlive && me.Incarnation == 1, "a node never doubts itself")
		vx.Assert(a.Metrics().NodesRemoved == int64(removed), "every removal is counted")
	}
	vx.Assert(a.Stop(ctx) == nil, "a node stops")
	p.round()
	time.Sleep(2 * beat)
	vx.Assert(len(p.direct) == 0, "a node that has stopped probes nobody")
	vx.Reach("end")
}

// Hangs decides D09: members and relays that never answer.
func Hangs() {
	tr := backend.NewInProcessTransport()
	k := vx.Choose("relays", 2)
	p := &prober{InProcessTransport: tr, hang: "B", mute: true}
	a := newView(tr, "A", 1, backend.WithDistHeartbeat(2*beat, 0, 0), backend.WithDistIndirectProbes(k, 100*time.Millisecond))
	p.a = a
	p.round()
	a.SetTransport(p)
	a.knows("B", cluster.NodeAlive, peerStart)
	a.knows("C", cluster.NodeAlive, peerStart)
	vx.Settle()
	time.Sleep(2*beat - 100*time.Millisecond)
	for range vx.Param("rounds", 3) {
		p.round()
		time.Sleep(2 * beat)
		vx.Assert(len(p.direct) == 2, "a member that never answers does not hold up the round")
		vx.Assert(a.of("B").State == cluster.NodeSuspect, "a member that never answers is suspect")
		held := cluster.NodeAlive
		if !p.direct["C"] {
			held = cluster.NodeSuspect
		}
		vx.Assert(a.of("C").State == held, "nor are the others held up")
	}
	vx.Reach("end")
}
