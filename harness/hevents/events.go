// Package hevents: harnesses for internal/eventbus.
package hevents

import (
	"context"
	"sync"

	"github.com/hyp3rd/hypercache/internal/eventbus"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
)

const bufSize = 16 // documented per-subscriber buffer

type sub struct {
	ch     <-chan eventbus.Event
	unsub  func()
	cancel context.CancelFunc
	q      []uint64
	pay    []int
	gone   bool
}

func newSub(b *eventbus.Bus) *sub {
	ctx, cancel := context.WithCancel(context.Background())
	s := &sub{cancel: cancel}
	s.ch, s.unsub = b.Subscribe(ctx)
	return s
}

// Account decides E01 and the sequential half of E02/E03 for arbitrary histories against per-subscriber queues.
func Account() {
	b := eventbus.New()
	var subs []*sub
	var dropped uint64
	var last uint64
	live := 0
	publish := func() {
		payload := vx.Int("payload")
		v := b.Publish(eventbus.Event{Type: "t", Payload: payload})
		vx.Assert(v > last, "versions increase")
		last = v
		for _, s := range subs {
			if s.gone {
				continue
			}
			if len(s.q) < bufSize {
				s.q = append(s.q, v)
				s.pay = append(s.pay, payload)
			} else {
				dropped++
			}
		}
	}
	recv := func(s *sub) {
		select {
		case e, ok := <-s.ch:
			if len(s.q) > 0 {
				vx.Assert(ok && e.Version == s.q[0] && e.Type == "t", "buffered events are delivered in order")
				x, isInt := e.Payload.(int)
				vx.Assert(vx.And(isInt && !e.Timestamp.IsZero(), x == s.pay[0]), "event keeps its payload and has a timestamp")
				s.q, s.pay = s.q[1:], s.pay[1:]
			} else {
				vx.Assert(!ok && s.gone, "nothing but published events arrives")
			}
		default:
			vx.Assert(len(s.q) == 0 && !s.gone, "an event that was not dropped is available")
		}
	}
	for i := vx.Choose("subscribers", 2); i >= 0; i-- {
		subs = append(subs, newSub(b))
		live++
	}
	pre := []int{0, 15, 16, 17}[vx.Choose("prefill", 4)]
	for i := 0; i < pre; i++ {
		publish()
	}
	for i := 0; i < vx.Param("ops", 4); i++ {
		switch vx.IntRange("op", 0, 4) {
		case 0:
			publish()
		case 1:
			recv(subs[vx.Choose("which", len(subs))])
		case 2:
			subs = append(subs, newSub(b))
			live++
		case 3:
			s := subs[vx.Choose("which", len(subs))]
			s.unsub()
			if !s.gone {
				live--
			}
			s.gone = true
		case 4:
			s := subs[vx.Choose("which", len(subs))]
			s.cancel()
			vx.Quiesce()
			if !s.gone {
				live--
			}
			s.gone = true
		}
		vx.Assert(b.Dropped() == dropped, "dropped count is exact")
		vx.Assert(b.SubscriberCount() == live, "subscriber count is exact")
	}
	for _, s := range subs {
		for len(s.q) > 0 {
			recv(s)
		}
		recv(s)
		s.cancel()
		s.unsub()
	}
	vx.Quiesce()
	vx.Assert(vx.Live() == 0, "watchers end with their contexts")
	vx.Reach("end")
}

// AccountConc: concurrent publishers against a nearly full, an empty and a draining subscriber.
func AccountConc() {
	b := eventbus.New()
	full := newSub(b)
	free := vx.Choose("free", 3) // slots left in the first subscriber's buffer
	for i := 0; i < bufSize-free; i++ {
		b.Publish(eventbus.Event{Type: "pre"})
	}
	empty := newSub(b)
	base := b.Dropped()
	n := vx.Param("publishers", 2)
	per := vx.Param("per", 1)
	taken := 0
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < per; j++ {
				b.Publish(eventbus.Event{Type: "t"})
			}
		}()
	}
	drain := vx.Choose("drain", 2) == 1
	if drain {
		// receive one event while they publish
		e := <-full.ch
		vx.Assert(free == bufSize || e.Type == "pre", "oldest event first")
		taken = 1
	}
	wg.Wait()
	total := n * per
	cf, ce := 0, 0
	var lastV uint64
	count := func(s *sub) (k int) {
		lastV = 0
		for {
			select {
			case e := <-s.ch:
				k++
				vx.Assert(e.Version > lastV, "events arrive in publication order")
				lastV = e.Version
			default:
				return k
			}
		}
	}
	cf, ce = count(full)+taken-(bufSize-free), count(empty)
	drops := int(b.Dropped() - base)
	vx.Assert(ce == total, "a subscriber with room receives every event")
	vx.Assert(cf+drops == total, "every event is delivered or counted as dropped")
	if !drain {
		want := total
		if free < want {
			want = free
		}
		vx.Assert(cf == want, "an event is dropped only when the buffer is full")
	} else {
		vx.Assert(cf >= free || cf == total, "an event is dropped only when the buffer is full")
		vx.Assert(cf <= free+1, "buffer size")
	}
	vx.Reach("end")
}

// Order decides E02: concurrent publishers, one draining receiver.
func Order() {
	b := eventbus.New()
	s := newSub(b)
	n := vx.Param("publishers", 2)
	per := vx.Param("per", 1)
	var wg sync.WaitGroup
	var maxDone uint64
	seen := map[uint64]bool{}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < per; j++ {
				m := maxDone
				v := b.Publish(eventbus.Event{Type: "t"})
				vx.Assert(v > m, "a version exceeds those of publishes that had returned")
				vx.Assert(!seen[v], "versions are unique")
				seen[v] = true
				if v > maxDone {
					maxDone = v
				}
			}
		}()
	}
	var last uint64
	got := 0
	take := func(e eventbus.Event) {
		vx.Assert(e.Version > last, "events arrive in publication order without duplicates")
		last = e.Version
		got++
	}
	if vx.Choose("receiving", 2) == 1 {
		take(<-s.ch)
	}
	wg.Wait()
	for got < n*per {
		take(<-s.ch)
	}
	for v := range seen {
		vx.Assert(v <= last, "delivered versions are the published ones")
	}
	vx.Reach("end")
}

// Unsub decides E03: unsubscribe, cancel and publish concurrently.
func Unsub() {
	b := eventbus.New()
	ctx, cancel := context.WithCancel(context.Background())
	other := newSub(b)
	early := vx.Choose("cancelled before", 2) == 1
	if early {
		cancel()
	}
	ch, unsub := b.Subscribe(ctx)
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	acts := vx.Param("acts", 3)
	ended := early
	var afterUnsub uint64
	for i := 0; i < acts; i++ {
		switch vx.IntRange("act", 0, 2) {
		case 0:
			ended = true
			run(func() {
				unsub()
				// what is published from here on must not arrive
				afterUnsub = b.Publish(eventbus.Event{Type: "late"})
			})
		case 1:
			ended = true
			run(cancel)
		case 2:
			run(func() { b.Publish(eventbus.Event{Type: "t"}) })
		}
	}
	if vx.Choose("again", 2) == 1 {
		unsub()
		ended = true
	}
	wg.Wait()
	vx.Quiesce()
	if ended {
		vx.Assert(b.SubscriberCount() == 1, "an ended subscription is removed")
		b.Publish(eventbus.Event{Type: "after"})
		closed := false
		for !closed {
			select {
			case e, ok := <-ch:
				if !ok {
					closed = true
					break
				}
				vx.Assert(e.Type != "after" && (afterUnsub == 0 || e.Version != afterUnsub), "nothing published after the end arrives")
			default:
				vx.Assert(false, "the channel of an ended subscription is closed")
			}
		}
		vx.Reach("ended")
	} else {
		vx.Assert(b.SubscriberCount() == 2, "a live subscription stays")
		vx.Reach("live")
	}
	unsub()
	unsub()
	cancel()
	vx.Quiesce()
	vx.Assert(b.SubscriberCount() == 1, "only the other subscriber remains")
	other.cancel()
	vx.Quiesce()
	vx.Assert(b.SubscriberCount() == 0 && vx.Live() == 0, "everything ends with its context")
}
