package hdist

import (
	"context"
	"io"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// recorder is a transport that writes down what each node was sent, and cannot reach the nodes that are down.
type recorder struct {
	*backend.InProcessTransport
	down map[string]bool
	got  map[string][]string
}

func (r *recorder) ForwardSet(ctx context.Context, id string, it *cache.Item, replicate bool) error {
	if r.down[id] {
		return io.EOF
	}
	r.got[id] = append(r.got[id], it.Value.(string))
	return r.InProcessTransport.ForwardSet(ctx, id, it, replicate)
}

type hint struct {
	value string
	at    time.Duration
}

// Hints decides D04.
func Hints() {
	perNode, total := vx.IntRange("perNode", 0, vx.Param("limit", 3)), vx.IntRange("total", 0, vx.Param("limit", 3)+1)
	bytes := vx.IntRange("bytes", 0, 40)
	ttl := time.Duration(vx.IntRange("ttl", 500, 6000)) * time.Millisecond
	replicas := vx.Param("replicas", 2)
	w := newNetworkOf(1+replicas, 1+replicas, func(i int) []backend.DistMemoryOption {
		if i > 0 {
			return nil
		}
		return []backend.DistMemoryOption{
			backend.WithDistWriteConsistency(backend.ConsistencyOne),
			backend.WithDistHintTTL(ttl), backend.WithDistHintReplayInterval(2 * time.Second),
			backend.WithDistHintMaxPerNode(perNode), backend.WithDistHintMaxTotal(total), backend.WithDistHintMaxBytes(int64(bytes)),
		}
	})
	dm := w.nodes[0]
	rec := &recorder{InProcessTransport: w.tr, down: map[string]bool{}, got: map[string][]string{}}
	dm.SetTransport(rec)
	for _, o := range w.owners[1:] {
		rec.down[o] = true
	}

	queues := map[string][]hint{} // what the node should keep for each replica
	want := map[string][]string{} // what each replica should have been sent
	count, size := 0, 0
	var queued, replayed, expired, refused int
	now := time.Duration(0)
	sizeOf := func(v string) int { return len(key) + len(v) }
	check := func() {
		m := dm.Metrics()
		vx.Assert(m.HintedBytes == int64(size), "the bytes accounted are those of the writes queued")
		vx.Assert(m.HintedQueued == int64(queued) && m.HintedReplayed == int64(replayed) && m.HintedExpired == int64(expired) && m.HintedGlobalDropped == int64(refused),
			"every write queued, sent, expired or refused is counted")
		vx.Assert(vx.Or(bytes == 0, size <= bytes), "no more bytes than allowed are queued")
		vx.Assert(vx.Or(total == 0, count <= total), "no more writes than allowed are queued")
		for _, o := range w.owners[1:] {
			vx.Assert(vx.Or(perNode == 0, len(queues[o]) <= perNode), "no more writes than allowed are queued for a node")
			vx.Assert(strings.Join(rec.got[o], " ") == strings.Join(want[o], " "), "each write queued reaches its replica unless it expires or is over a limit")
		}
	}
	tick := func() { // the replay at each even second
		for _, o := range w.owners[1:] {
			var left []hint
			for _, h := range queues[o] {
				switch {
				case now > h.at+ttl:
					expired++
				case rec.down[o]:
					left = append(left, h)
					continue
				default:
					replayed++
					want[o] = append(want[o], h.value)
				}
				count, size = count-1, size-sizeOf(h.value)
			}
			queues[o] = left
		}
	}
	time.Sleep(time.Second)
	now += time.Second
	n := vx.Param("ops", 4)
	for i := 0; i < n; i++ {
		switch op := vx.Choose("op", 2+replicas); {
		case op == 0:
			v := string(rune('a'+i)) + strings.Repeat("x", 8*vx.Choose("long", 2))
			vx.Assert(dm.Set(ctx, &cache.Item{Key: key, Value: v}) == nil, "a write is accepted")
			for _, o := range w.owners[1:] {
				if !rec.down[o] {
					want[o] = append(want[o], v)
					continue
				}
				if perNode > 0 && len(queues[o]) >= perNode { // the oldest makes room
					count, size = count-1, size-sizeOf(queues[o][0].value)
					queues[o] = queues[o][1:]
				}
				if total > 0 && count >= total || bytes > 0 && size+sizeOf(v) > bytes {
					refused++
					continue
				}
				queued++
				count, size = count+1, size+sizeOf(v)
				queues[o] = append(queues[o], hint{v, now})
			}
		case op == 1:
			time.Sleep(2 * time.Second)
			now += time.Second // the replay happens half way
			tick()
			now += time.Second
		default:
			rec.down[w.owners[op-1]] = !rec.down[w.owners[op-1]]
		}
		check()
	}
	for _, o := range w.owners[1:] {
		rec.down[o] = false
	}
	time.Sleep(2 * time.Second)
	now += time.Second
	tick()
	check()
	vx.Assert(count == 0 && size == 0 && dm.Metrics().HintedBytes == 0, "once every replica is back nothing is left queued")
	vx.Reach("end")
}
