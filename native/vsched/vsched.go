// Package vsched replays a recorded schedule on the natively compiled code: every
// schedule-visible operation of an instrumented goroutine waits for its turn in the trace.
package vsched

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
)

type state struct {
	mu      sync.Mutex
	on      bool
	seq     []int
	tags    []string
	pos     int
	free    bool // trace exhausted or diverged
	wake    map[int]chan struct{}
	ids     map[uint64]int
	nlid    int
	live    int
	gen     int
	timers  []*VTimer
	clock   int64
	diverge bool
	last    time.Time
}

var st state

func goid() uint64 {
	var b [32]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	id, _ := strconv.ParseUint(f[1], 10, 64)
	return id
}

func init() {
	vx.StartHook = Start
	vx.QuiesceHook = Quiesce
	vx.LiveHook = func() int { st.mu.Lock(); defer st.mu.Unlock(); return st.live }
	vx.AdvanceHook = func(d int64) { st.mu.Lock(); st.clock += d; st.mu.Unlock() }
	vx.DivergedHook = func() bool { st.mu.Lock(); defer st.mu.Unlock(); return st.diverge }
	vx.LidHook = func() int {
		st.mu.Lock()
		defer st.mu.Unlock()
		if l, ok := self(); ok {
			return l
		}
		return -1
	}
	vx.PointHook = func() { Pre(); Post() }
}

// Start begins a replay on the calling goroutine (logical id 0).
func Start(seq []int, tags []string) {
	st.mu.Lock()
	st.seq, st.tags, st.pos = seq, tags, 0
	st.on = true
	st.free = len(seq) == 0
	st.wake = map[int]chan struct{}{}
	st.ids = map[uint64]int{goid(): 0}
	st.nlid = 1
	st.live = 0
	st.gen++
	st.timers = nil
	st.clock = 0
	st.diverge = false
	st.last = time.Now()
	gen := st.gen
	st.mu.Unlock()
	go watchdog(gen)
}

func watchdog(gen int) {
	lastPos := -1
	t := time.Now()
	for {
		time.Sleep(50 * time.Millisecond)
		st.mu.Lock()
		if st.gen != gen || st.free {
			st.mu.Unlock()
			return
		}
		if st.pos != lastPos {
			lastPos, t = st.pos, time.Now()
		} else if time.Since(t) > 3*time.Second {
			st.diverge = true
			if os.Getenv("VSCHED_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "diverged at %d/%d want g%d %s\n", st.pos, len(st.seq), st.seq[st.pos], st.tags[st.pos])
			}
			st.release()
		}
		st.mu.Unlock()
	}
}

// release lets everything run freely (called with st.mu held).
func (s *state) release() {
	s.free = true
	for k, c := range s.wake {
		close(c)
		delete(s.wake, k)
	}
}

func self() (int, bool) {
	id, ok := st.ids[goid()]
	return id, ok
}

// Pre waits for the calling goroutine's turn and returns the recorded tag.
func Pre() string {
	raceOff()
	defer raceOn()
	st.mu.Lock()
	if !st.on || st.free {
		st.mu.Unlock()
		return ""
	}
	id, ok := self()
	if !ok {
		st.mu.Unlock()
		return ""
	}
	for !st.free && st.seq[st.pos] != id {
		c := make(chan struct{})
		st.wake[id] = c
		st.mu.Unlock()
		<-c
		st.mu.Lock()
	}
	if st.free {
		st.mu.Unlock()
		return ""
	}
	tag := st.tags[st.pos]
	st.mu.Unlock()
	return tag
}

// Post ends the operation and hands the turn on.
func Post() {
	raceOff()
	defer raceOn()
	st.mu.Lock()
	defer st.mu.Unlock()
	if !st.on || st.free {
		return
	}
	if _, ok := self(); !ok {
		return
	}
	st.advance()
}

func (s *state) advance() {
	s.pos++
	for s.pos < len(s.seq) && s.seq[s.pos] == -2 {
		f := strings.Split(s.tags[s.pos], ":")
		k, _ := strconv.Atoi(f[1])
		at, _ := strconv.ParseInt(f[2], 10, 64)
		if at > s.clock {
			s.clock = at
		}
		s.pos++
		if k >= 1 && k <= len(s.timers) {
			t := s.timers[k-1]
			go func() {
				// let the running goroutines settle first
				time.Sleep(2 * time.Millisecond)
				t.fire()
			}()
		}
	}
	if s.pos >= len(s.seq) {
		s.release()
		return
	}
	if c := s.wake[s.seq[s.pos]]; c != nil {
		close(c)
		delete(s.wake, s.seq[s.pos])
	}
}

// Go starts an instrumented goroutine.
func Go(f func()) {
	Pre()
	raceOff()
	st.mu.Lock()
	_, ok := self()
	lid := -1
	if ok && st.on {
		lid = st.nlid
		st.nlid++
		st.live++
	}
	gen := st.gen
	st.mu.Unlock()
	ready := make(chan struct{})
	raceOn()
	go func() {
		raceOff()
		if lid >= 0 {
			st.mu.Lock()
			st.ids[goid()] = lid
			st.mu.Unlock()
		}
		close(ready)
		raceOn()
		defer func() {
			if lid >= 0 {
				raceOff()
				st.mu.Lock()
				if st.gen == gen {
					delete(st.ids, goid())
					st.live--
				}
				st.mu.Unlock()
				raceOn()
			}
		}()
		f()
	}()
	raceOff()
	<-ready
	raceOn()
	Post()
}

func parked(tag string) bool { return strings.HasPrefix(tag, "rendezvous") }

// Op brackets a plain operation.
func Op[T any](f func() T) T {
	Pre()
	v := f()
	Post()
	return v
}

func SendTo[T any](ch chan<- T) func(T) { return func(v T) { send(ch, v) } }

func send[T any](ch chan<- T, v T) {
	if parked(Pre()) {
		Post()
		ch <- v
		return
	}
	defer Post()
	ch <- v
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if parked(Pre()) {
		Post()
		v, ok := <-ch
		return v, ok
	}
	v, ok := <-ch
	Post()
	return v, ok
}

func Close[T any](ch chan<- T) {
	Pre()
	defer Post()
	close(ch)
}

func Range[T any](ch <-chan T) func(yield func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Sel is one execution of a select statement.
type Sel struct {
	v  reflect.Value
	ok bool
}

func NewSel() *Sel { return &Sel{} }

func CR[T any](ch <-chan T) reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}
}
func SendCase[T any](ch chan<- T) func(T) reflect.SelectCase {
	return func(v T) reflect.SelectCase {
		return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(ch), Send: reflect.ValueOf(&v).Elem()}
	}
}

// Block blocks forever.
func Block() { select {} }
func Val[T any](ch <-chan T, s *Sel) (T, bool) {
	var z T
	if s.v.IsValid() {
		if x, ok := s.v.Interface().(T); ok {
			z = x
		}
	}
	return z, s.ok
}
func Val1[T any](ch <-chan T, s *Sel) T { v, _ := Val(ch, s); return v }

// Run performs the select and returns the chosen case (-1: default).
func (s *Sel) Run(def bool, cases ...reflect.SelectCase) int {
	tag := Pre()
	forced := -1
	switch {
	case strings.HasPrefix(tag, "select:default"):
		// the default was taken: nothing may be ready now either
		if def && tag != "" {
			i, v, ok := reflect.Select(append(append([]reflect.SelectCase{}, cases...), reflect.SelectCase{Dir: reflect.SelectDefault}))
			if i < len(cases) {
				markDiverged()
				s.v, s.ok = v, ok
				Post()
				return i
			}
			Post()
			return -1
		}
		Post()
	case strings.HasPrefix(tag, "select:"):
		f := strings.Split(tag[7:], "/")
		forced, _ = strconv.Atoi(f[0])
	case parked(tag):
		Post()
		forced, _ = strconv.Atoi(tag[len("rendezvous:"):])
	case tag == "send" || tag == "recv":
		forced = 0
	}
	if forced >= 0 && forced < len(cases) {
		one := cases[forced : forced+1]
		// the recorded case should be possible at once; give it a moment, then take any
		to := reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(time.After(2 * time.Second))}
		i, v, ok := reflect.Select(append(append([]reflect.SelectCase{}, one...), to))
		if i == 0 {
			s.v, s.ok = v, ok
			if !parked(tag) {
				Post()
			}
			return forced
		}
		markDiverged()
	}
	cs := cases
	if def {
		cs = append(append([]reflect.SelectCase{}, cases...), reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(cs)
	s.v, s.ok = v, ok
	if !parked(tag) {
		Post()
	}
	if i == len(cases) {
		return -1
	}
	return i
}

// Quiesce waits for the other goroutines to finish or block.
func Quiesce() {
	Pre()
	time.Sleep(5 * time.Millisecond)
	Post()
	st.mu.Lock()
	f := st.free
	st.mu.Unlock()
	if f {
		time.Sleep(30 * time.Millisecond)
	}
}

// ---- virtual time ----

// VTimer is a timer created by instrumented code.
type VTimer struct {
	mu     sync.Mutex
	active bool
	f      func()
	real   *time.Timer
	stop   chan struct{}
	period time.Duration
}

func (t *VTimer) fire() {
	t.mu.Lock()
	a := t.active
	if t.period == 0 {
		t.active = false
	}
	t.mu.Unlock()
	if a {
		t.f()
	}
}

// NewVTimer registers a timer; outside a replayed trace it never fires by itself.
func NewVTimer(d, period time.Duration, f func()) *VTimer {
	t := &VTimer{active: true, f: f, period: period}
	Pre()
	st.mu.Lock()
	if _, ok := self(); ok && st.on {
		st.timers = append(st.timers, t)
	}
	st.mu.Unlock()
	Post()
	return t
}
func (t *VTimer) Stop() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	a := t.active
	t.active = false
	return a
}
func (t *VTimer) Reset(d time.Duration) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	a := t.active
	t.active = true
	return a
}

// Now is the virtual clock.
func Now() time.Time {
	st.mu.Lock()
	defer st.mu.Unlock()
	return time.Unix(1_800_000_000, st.clock)
}

// markDiverged records that the run left the recorded schedule.
func markDiverged() {
	raceOff()
	defer raceOn()
	st.mu.Lock()
	defer st.mu.Unlock()
	if st.on && !st.free {
		st.diverge = true
	}
}
