// Package sync stands in for the standard package when a schedule is replayed.
package sync

import (
	"sync"

	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond                             { return sync.NewCond(l) }
func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

// Once is sync.Once without its lock-free fast path: entering it is one visible operation.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { vsched.Pre(); m.m.Lock(); vsched.Post() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return vsched.Op(m.m.TryLock) }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()          { vsched.Pre(); m.m.Lock(); vsched.Post() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RLock()         { vsched.Pre(); m.m.RLock(); vsched.Post() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }
func (m *RWMutex) TryLock() bool  { return vsched.Op(m.m.TryLock) }
func (m *RWMutex) TryRLock() bool { return vsched.Op(m.m.TryRLock) }
func (m *RWMutex) RLocker() Locker {
	return (*rl)(m)
}

type rl RWMutex

func (r *rl) Lock()   { (*RWMutex)(r).RLock() }
func (r *rl) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ w sync.WaitGroup }

func (w *WaitGroup) Add(n int) { w.w.Add(n) }
func (w *WaitGroup) Done()     { w.w.Done() }
func (w *WaitGroup) Wait()     { vsched.Pre(); w.w.Wait(); vsched.Post() }
func (w *WaitGroup) Go(f func()) {
	w.w.Add(1)
	vsched.Go(func() { defer w.w.Done(); f() })
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) {
	vsched.Pre()
	defer vsched.Post()
	return m.m.Load(k)
}
func (m *Map) Store(k, v any) { vsched.Pre(); m.m.Store(k, v); vsched.Post() }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsched.Pre()
	defer vsched.Post()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	vsched.Pre()
	defer vsched.Post()
	return m.m.LoadAndDelete(k)
}
func (m *Map) Delete(k any) { vsched.Pre(); m.m.Delete(k); vsched.Post() }
func (m *Map) Swap(k, v any) (any, bool) {
	vsched.Pre()
	defer vsched.Post()
	return m.m.Swap(k, v)
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	vsched.Pre()
	defer vsched.Post()
	return m.m.CompareAndSwap(k, o, n)
}
func (m *Map) CompareAndDelete(k, o any) bool {
	vsched.Pre()
	defer vsched.Post()
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Clear() { vsched.Pre(); m.m.Clear(); vsched.Post() }
func (m *Map) Range(f func(k, v any) bool) {
	vsched.Pre()
	var ks []any
	m.m.Range(func(k, _ any) bool { ks = append(ks, k); return true })
	vsched.Post()
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}
