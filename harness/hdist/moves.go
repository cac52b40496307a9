package hdist

import (
	"context"
	"slices"
	"strconv"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

const round = 400 * time.Millisecond

// moving is a key at node A while members come and go.
type moving struct {
	key     string
	item    *cache.Item
	gone    bool     // A has let it go
	owners  []string // its owners at the last round, less those still to get it
	primary string   // its primary at the last round, while A has not handed it over
	lost    time.Duration
	owed    map[string]bool // nodes to which it is to be replayed
}

// Moves decides D10.
func Moves() {
	moves(vx.Choose("kind", 3), vx.Param("replicas", 1), vx.Param("keys", 1), vx.Param("rounds", 3))
}

// Throttled decides D10 where a round brings a key to only one new replica.
func Throttled() { moves(3, vx.Param("replicas", 2), vx.Param("keys", 2), vx.Param("rounds", 2)) }

// Crowd decides D10 where more keys are to be handed over than may be under way at once.
func Crowd() { moves(0, vx.Param("replicas", 0), vx.Param("keys", 3), vx.Param("rounds", 2)) }

func moves(kind, replicas, count, rounds int) {
	tr := backend.NewInProcessTransport()
	ring := cluster.NewRing(cluster.WithVirtualNodes(1), cluster.WithReplication(1+replicas))
	members := cluster.NewMembership(ring)
	w := &network{tr: tr}
	hints, limit, grace := kind == 1, kind/3, time.Duration(0)
	if kind == 2 {
		grace = time.Duration(400*vx.IntRange("wait", 0, 2)+vx.IntRange("more", 150, 250)) * time.Millisecond
	}
	opts := []backend.DistMemoryOption{
		backend.WithDistRebalanceInterval(round), backend.WithDistRebalanceBatchSize(1), backend.WithDistRebalanceMaxConcurrent(1),
		backend.WithDistReplicaDiffMaxPerTick(limit), backend.WithDistRemovalGrace(grace),
	}
	if hints {
		opts = append(opts, backend.WithDistHintTTL(time.Hour), backend.WithDistHintReplayInterval(2*round+50*time.Millisecond))
	}
	nodes := names[:1+vx.Param("others", 3)]
	for i, name := range nodes {
		if i > 0 {
			opts = nil
		}
		w.add(members, name, opts)
	}
	net := w.lose(kind % 2)
	member := map[string]bool{"A": true}
	leave := func(name string) {
		members.Remove(cluster.NodeID(name))
		member[name] = false
	}
	for _, name := range nodes[1:] {
		if member[name] = vx.Choose("member", 2) == 1; !member[name] {
			leave(name)
		}
	}
	vx.Settle()
	keys := []*moving{}
	who := func(key string) (out []string) {
		for _, id := range ring.Lookup(key) {
			out = append(out, string(id))
		}
		return out
	}
	has := func(name, key string) *cache.Item {
		it, _, err := tr.ForwardGet(ctx, name, key)
		vx.Assert(err == nil, "a node answers")
		return it
	}
	for i := range count {
		m := &moving{key: placed(nodes, vx.Choose("place", len(nodes)), i), owed: map[string]bool{}}
		v := vx.Uint64("version")
		vx.Assume(vx.And(v > 0, v < 1<<62))
		m.item = &cache.Item{Key: m.key, Value: "v" + m.key, Version: v, Origin: "A", LastUpdated: time.Now(), Expiration: time.Hour}
		cp := *m.item
		vx.Assert(tr.ForwardSet(ctx, "A", &cp, true) == nil, "a write is accepted")
		m.owners = who(m.key)
		if !slices.Contains(m.owners, "A") {
			return // refused
		}
		m.primary = m.owners[0]
		keys = append(keys, m)
	}
	time.Sleep(round / 2)
	now := round / 2
	for range rounds {
		if n := vx.Choose("change", len(nodes)); n > 0 {
			name := nodes[n]
			if member[name] {
				leave(name)
			} else {
				members.Upsert(&cluster.Node{ID: cluster.NodeID(name), Address: name, State: cluster.NodeAlive})
				member[name] = true
			}
			if limit > 0 || vx.Choose("shed", 2) == 1 { // the others let go of what they no longer own
				for i, o := range nodes {
					for _, m := range keys {
						if i > 0 && !slices.Contains(who(m.key), o) {
							w.nodes[i].DebugDropLocal(m.key)
						}
					}
				}
			}
		}
		net.down = map[string]bool{}
		if limit == 0 && vx.Choose("down", 2) == 1 {
			for _, o := range who(keys[0].key) {
				net.down[o] = o != "A"
			}
		}
		time.Sleep(round)
		now += round
		got, left := 0, 0 // copies brought to new replicas, and not
		for _, m := range keys {
			for o := range m.owed {
				if !slices.Contains(who(m.key), o) {
					delete(m.owed, o) // it refuses the key meanwhile
				}
			}
			if m.gone {
				continue
			}
			g, l := m.check(who(m.key), net.down, has, hints, limit > 0, grace, now)
			got, left = got+g, left+l
		}
		vx.Assert(limit == 0 || left == 0 || got >= limit, "each round brings as many copies to new replicas as allowed")
	}
	if hints {
		net.down = map[string]bool{}
		time.Sleep(2*round + 50*time.Millisecond)
		for _, m := range keys {
			for o := range m.owed {
				vx.Assert(has(o, m.key) != nil, "a node that could not be reached gets the key later")
			}
		}
	}
	vx.Reach("end")
}

// placed is a key, the i-th of its kind, of which A is the owner in that place when all nodes are members.
func placed(nodes []string, place, i int) string {
	ring := cluster.NewRing(cluster.WithVirtualNodes(1), cluster.WithReplication(len(nodes)))
	var all []*cluster.Node
	for _, name := range nodes {
		all = append(all, &cluster.Node{ID: cluster.NodeID(name), Address: name})
	}
	ring.Build(all)
	for n := 0; ; n++ {
		key := "k" + strconv.Itoa(n)
		if ring.Lookup(key)[place] == "A" {
			if i == 0 {
				return key
			}
			i--
		}
	}
}

// check is what must be so after a round.
func (m *moving) check(owners []string, down map[string]bool, has func(name, key string) *cache.Item, hints, limited bool, grace, now time.Duration) (got, left int) {
	mine := slices.Contains(owners, "A")
	p := owners[0]
	held := func(name string) {
		it := has(name, m.key)
		vx.Assert(it != nil && it.Value == m.item.Value, "a node a key is handed to holds it")
		vx.Assert(vx.And(it.Version == m.item.Version, it.Origin == "A" && it.Expiration == time.Hour), "a key is handed over as it is")
	}
	handed := true
	if !mine || p != "A" && m.primary == "A" {
		switch {
		case !down[p]:
			held(p)
		case !hints:
			handed = false
		default:
			m.owed[p] = true
		}
	}
	it := has("A", m.key)
	if mine {
		vx.Assert(it != nil, "an owner keeps a key")
		m.lost = 0
	} else {
		if m.lost == 0 || !handed {
			m.lost = now
		}
		switch {
		case !handed:
			vx.Assert(it != nil, "a node keeps a key it could not hand over")
		case grace == 0:
			vx.Assert(it == nil, "a node lets go of a key it no longer owns")
		default:
			vx.Assert(vx.Or(it != nil, now-m.lost >= grace), "a node keeps a key for the grace period")
			vx.Assert(vx.Or(it == nil, now-m.lost < grace), "a node lets go of a key after the grace period")
		}
		m.gone = it == nil
	}
	if p != "A" {
		m.owners = owners
		if handed {
			m.primary = p
		}
		return 0, 0
	}
	m.primary = "A"
	next := []string{}
	for _, o := range owners {
		if o == "A" || slices.Contains(m.owners, o) {
			next = append(next, o)
			continue
		}
		switch {
		case limited && has(o, m.key) == nil:
			left++ // for a later round
			continue
		case !down[o]:
			held(o)
		case !hints:
			continue
		default:
			m.owed[o] = true
		}
		got++
		next = append(next, o)
	}
	m.owners = next
	return got, left
}

// slow is a transport over which something happens while a key is handed over.
type slow struct {
	*backend.InProcessTransport
	before, after func()
}

func (l *slow) ForwardSet(ctx context.Context, id string, it *cache.Item, replicate bool) error {
	if l.before != nil {
		l.before()
		l.before = nil
	}
	err := l.InProcessTransport.ForwardSet(ctx, id, it, replicate)
	if l.after != nil {
		l.after()
		l.after = nil
	}
	return err
}

// Overtaken decides D10: a key changes while it is handed over.
func Overtaken() {
	tr := &slow{InProcessTransport: backend.NewInProcessTransport()}
	ring := cluster.NewRing(cluster.WithVirtualNodes(1), cluster.WithReplication(1))
	members := cluster.NewMembership(ring)
	w := &network{tr: tr.InProcessTransport}
	grace := time.Duration(vx.Choose("grace", 3)) * round / 2
	w.add(members, "A", []backend.DistMemoryOption{backend.WithDistRebalanceInterval(round), backend.WithDistRemovalGrace(grace)})
	w.add(members, "B", nil)
	w.nodes[0].SetTransport(tr)
	members.Remove("B")
	vx.Settle()
	key := placed(names[:2], 1, 0)
	first, second := write(1), write(2)
	vx.Assume(vx.Not(vx.And(first.Version == second.Version, first.Origin == second.Origin)))
	var best *cache.Item
	put := func(it *cache.Item) {
		it.Key = key
		cp := *it
		vx.Assert(tr.InProcessTransport.ForwardSet(ctx, "A", &cp, false) == nil, "a write is accepted")
		if best == nil || newer(it, best) {
			best = it
		}
	}
	join := func() { members.Upsert(&cluster.Node{ID: "B", Address: "B", State: cluster.NodeAlive}) }
	put(first)
	time.Sleep(round / 2)
	join()
	time.Sleep(time.Duration(vx.Choose("later", 2)) * round)
	back := vx.Choose("back", 2) == 1
	hook := func() {
		members.Remove("B")
		put(second)
		if back {
			join()
		}
	}
	if vx.Choose("hook", 2) == 0 {
		tr.before = hook
	} else {
		tr.after = hook
	}
	time.Sleep(round)
	it, ok, _ := tr.ForwardGet(ctx, "A", key)
	other, ok2, _ := tr.ForwardGet(ctx, "B", key)
	vx.Assert(vx.Or(ok && it.Version == best.Version && it.Origin == best.Origin, ok2 && other.Version == best.Version && other.Origin == best.Origin),
		"a write that comes while its key is handed over is not let go")
	join()
	time.Sleep(3 * round)
	it, ok, _ = tr.ForwardGet(ctx, "B", key)
	vx.Assert(ok && it.Version == best.Version && it.Origin == best.Origin, "a write that comes while its key is handed over is handed over too")
	_, ok, _ = tr.ForwardGet(ctx, "A", key)
	vx.Assert(!ok, "a node lets go of a key it no longer owns")
	vx.Reach("end")
}
