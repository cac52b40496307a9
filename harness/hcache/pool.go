package hcache

import (
	"errors"
	"sync"
	"sync/atomic"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
)

var errJob = errors.New("job")

// Pool decides H04 against resizes and a shutdown going on meanwhile.
func Pool() {
	workers := vx.Choose("workers", vx.Param("workers", 2)+1)
	p := hypercache.NewWorkerPool(workers)
	vx.Settle()
	jobs := vx.Param("jobs", 2)
	var runs [4]atomic.Int32
	var accepted [4]atomic.Bool // its Enqueue returned before Shutdown began
	var begun atomic.Bool
	fails := vx.Choose("fails", 2) == 1
	var wg sync.WaitGroup
	job := func(i int) hypercache.JobFunc {
		return func() error {
			runs[i].Add(1)
			if fails {
				return errJob
			}
			return nil
		}
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < jobs; i++ {
			p.Enqueue(job(i))
			accepted[i].Store(!begun.Load())
		}
	}()
	if vx.Choose("resized", 2) == 1 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p.Resize(vx.Choose("size", 3))
		}()
	}
	if vx.Choose("wait", 2) == 1 {
		vx.Quiesce()
	}
	begun.Store(true)
	p.Shutdown()
	var after [4]int32
	for i := 0; i < jobs; i++ {
		after[i] = runs[i].Load()
		vx.Assert(after[i] <= 1, "a job runs once")
		if accepted[i].Load() {
			vx.Assert(after[i] == 1, "a job that was accepted has run once the pool is shut down")
		}
	}
	got := 0
	for err := range p.Errors() {
		vx.Assert(err == errJob, "an error is the one that a job returned")
		got++
	}
	ran := 0
	for i := 0; i < jobs; i++ {
		ran += int(after[i])
	}
	switch {
	case !fails:
		vx.Assert(got == 0, "only errors are reported")
	case ran <= workers:
		vx.Assert(got == ran, "every job's error is reported")
	}
	wg.Wait()
	p.Shutdown()
	p.Enqueue(job(3))
	p.Resize(vx.Choose("late", 3))
	vx.Quiesce()
	vx.Assert(runs[3].Load() == 0, "a job enqueued after the shutdown is dropped")
	for i := 0; i < jobs; i++ {
		vx.Assert(runs[i].Load() == after[i], "nothing runs once the pool is shut down")
	}
	vx.Assert(vx.Live() == 0, "no goroutine is left once the pool is shut down")
	vx.Reach("end")
}

// Resizes decides H04 for two resizes at a time.
func Resizes() {
	p := hypercache.NewWorkerPool(1)
	vx.Settle()
	a, b := vx.Choose("first", 3), vx.Choose("second", 3)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); p.Resize(a) }()
	p.Resize(b)
	wg.Wait()
	vx.Quiesce()
	n := vx.Live()
	vx.Assert(n == a || n == b, "a pool has as many workers as the last resize says")
	ran := 0
	p.Resize(1)
	p.Enqueue(func() error { ran++; return nil })
	p.Shutdown()
	vx.Assert(ran == 1, "a resized pool runs its jobs")
	vx.Quiesce()
	vx.Assert(vx.Live() == 0, "no goroutine is left once the pool is shut down")
	vx.Reach("end")
}
