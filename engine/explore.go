package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

type workItem struct {
	decs  []Dec
	model Model
	por   *porPath
}

// HarnessCfg describes one verification harness.
type HarnessCfg struct {
	Prop      string         `json:"prop"`
	Pkg       string         `json:"pkg"`
	Func      string         `json:"func"`
	Desc      string         `json:"desc"`
	Unwind    int            `json:"unwind"`
	MaxSteps  int64          `json:"max_steps"`
	MaxDecs   int            `json:"max_decs"`
	Preempt   int            `json:"preempt"`
	Race      bool           `json:"race"`
	MapNondet bool           `json:"map_nondet"`
	FreeFirst bool           `json:"free_first"`
	Shuffle   bool           `json:"shuffle"`
	HashSym   bool           `json:"hash_sym"`
	HashOnly  string         `json:"hash_only"`      // uninterpreted only for texts with this prefix
	HashClust bool           `json:"hash_clustered"` // other texts hash to their leading bytes: one node\'s positions are adjacent
	QueryMs   int            `json:"query_ms"`
	MaxTimers int            `json:"max_timers"`
	Params    map[string]int `json:"params"`
	Thorough  map[string]int `json:"thorough"`
	TPreempt  int            `json:"tpreempt"`
	Solver    string         `json:"solver"`
	Sched     bool           `json:"sched"`  // replay needs the controlled scheduler
	Retry     int            `json:"retry"`  // native replay attempts (map order, shuffles)
	Reach     []string       `json:"reach"`  // labels that must be reached (vacuity witness)
	Budget    int            `json:"budget"` // seconds, quick
	TBudget   int            `json:"tbudget"`
	NoPOR     bool           `json:"no_por"`
	NoNative  bool           `json:"no_native"` // no native validation of sampled paths
	Only      string         `json:"only"`      // "thorough": run only in the thorough tier

	KnownIDs map[string]bool `json:"-"`
	Debug    bool            `json:"-"`
	Verbose  int             `json:"-"`
}

func (h *HarnessCfg) solver() string {
	if h.Solver != "" {
		return h.Solver
	}
	return "cvc5"
}
func (h *HarnessCfg) known(id string) bool { return h.KnownIDs[id] }

func (h *HarnessCfg) defaults() {
	if h.Unwind == 0 {
		h.Unwind = 600
	}
	if h.MaxSteps == 0 {
		h.MaxSteps = 4_000_000
	}
	if h.MaxDecs == 0 {
		h.MaxDecs = 4000
	}
	if h.QueryMs == 0 {
		h.QueryMs = 20000
	}
	if h.MaxTimers == 0 {
		h.MaxTimers = 20
	}
	if h.Budget == 0 {
		h.Budget = 60
	}
	if h.TBudget == 0 {
		h.TBudget = 300
	}
	if h.Retry == 0 {
		h.Retry = 1
	}
}

// Result aggregates one harness exploration.
type Result struct {
	H        *HarnessCfg
	Paths    int64
	Assumed  int64
	Bound    int64
	Unsup    int64
	Steps    int64
	Decs     int64
	Implied  int64
	Asserts  int64
	Trivial  int64
	Unknown  int64
	Nsched   int64
	MaxSched int
	Why      map[string]int64
	Viols    []*Violation
	Known    map[string]*Violation
	Reached  map[string]bool
	Solver   SolverStats
	Fns      map[string]int64
	Samples  []*PathResult
	Wall     time.Duration
	Timeout  bool
	Pending  int
	Rounds   int   // restarts with a larger set of contended objects
	Round    int64 // executions of the last round
	Objects  int   // contended objects
}

func explore(P *Program, H *HarnessCfg, workers int, budget time.Duration, maxViol int, nsamples int) *Result {
	t0 := time.Now()
	R := &Result{H: H, Why: map[string]int64{}, Known: map[string]*Violation{}, Reached: map[string]bool{}, Fns: map[string]int64{}}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queues := make([][]workItem, workers)
	queues[0] = []workItem{{}}
	idle := 0
	var stop atomic.Bool
	done := false
	seenViol := map[string]bool{}
	var por *porShared
	rng := uint64(1)
	if H.Race && H.Preempt > 0 && !H.NoPOR {
		por = newPor()
	}
	deadline := t0.Add(budget)
	get := func(id int) (workItem, bool) {
		mu.Lock()
		defer mu.Unlock()
		for {
			if done || stop.Load() {
				return workItem{}, false
			}
			if q := queues[id]; len(q) > 0 {
				k := len(q) - 1
				if por != nil && R.Round < 2000 {
					// early executions of a round are spread out to meet the contended objects soon
					if rng = rng*6364136223846793005 + 1442695040888963407; rng>>62 == 0 {
						k = 0
					} else {
						k = int(rng>>33) % len(q)
					}
				}
				w := q[k]
				q[k] = q[len(q)-1]
				queues[id] = q[:len(q)-1]
				if por != nil {
					w.por = por.path()
				}
				return w, true
			}
			// steal the oldest item of the longest queue
			best, bl := -1, 0
			for i, q := range queues {
				if len(q) > bl {
					best, bl = i, len(q)
				}
			}
			if best >= 0 {
				w := queues[best][0]
				queues[best] = queues[best][1:]
				if por != nil {
					w.por = por.path() // with the set the item was forked under: the lock is held
				}
				return w, true
			}
			idle++
			if idle == workers {
				done = true
				cond.Broadcast()
				return workItem{}, false
			}
			cond.Wait()
			idle--
		}
	}
	var wg sync.WaitGroup
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			mu.Lock()
			d := done
			mu.Unlock()
			if d {
				return
			}
			if time.Now().After(deadline) {
				mu.Lock()
				R.Timeout = true
				stop.Store(true)
				cond.Broadcast()
				mu.Unlock()
				return
			}
		}
	}()
	for id := 0; id < workers; id++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			m := newMachine(P, H)
			defer m.sol.close()
			for {
				w, ok := get(id)
				if !ok {
					break
				}
				mu.Lock()
				n := R.Paths
				mu.Unlock()
				m.recording = nsamples > 0 && (n < int64(nsamples/2) || n%97 == 0)
				m.porNext = w.por
				res, forks := m.runPath(w)
				mu.Lock()
				if m.por != nil {
					if len(m.por.fresh) > 0 && por.grow(m.por.fresh) {
						// start again with the larger set of contended objects
						for i := range queues {
							queues[i] = nil
						}
						queues[id] = []workItem{{}}
						forks = nil
						R.Rounds++
						R.Round = 0
						cond.Broadcast()
					} else if m.por.gen != por.gen.Load() {
						forks = nil
					}
				}
				queues[id] = append(queues[id], forks...)
				R.Paths++
				R.Round++
				R.Steps += res.Steps
				R.Nsched += int64(res.nsched)
				if res.nsched > R.MaxSched {
					R.MaxSched = res.nsched
				}
				switch res.Status {
				case "assumed":
					R.Assumed++
				case "bound":
					R.Bound++
					R.Why["bound: "+res.Why]++
				case "unsupported":
					R.Unsup++
					R.Why["unsupported: "+res.Why]++
				}
				for k := range res.Reached {
					R.Reached[k] = true
				}
				for _, v := range res.Known {
					if R.Known[v.KF] == nil {
						R.Known[v.KF] = v
					}
				}
				for _, v := range res.Viols {
					key := v.Kind + "|" + v.Label
					if v.Kind != "assert" {
						key += "|" + v.Detail
					}
					if !seenViol[key] || len(R.Viols) < 3 {
						seenViol[key] = true
						R.Viols = append(R.Viols, v)
					}
				}
				if m.recording && res.Status == "ok" && len(res.Viols) == 0 && len(R.Samples) < nsamples {
					R.Samples = append(R.Samples, res)
				}
				if len(R.Viols) >= maxViol {
					stop.Store(true)
				}
				if len(forks) > 0 || stop.Load() {
					cond.Broadcast()
				}
				mu.Unlock()
			}
			mu.Lock()
			R.Solver.add(m.st)
			for k, v := range m.fnSeen {
				R.Fns[k] += v
			}
			R.Decs += m.ndecs
			R.Implied += m.nImplied
			R.Asserts += m.nAssert
			R.Trivial += m.nAssertTrivial
			R.Unknown += m.uncheckedUnknown
			mu.Unlock()
		}(id)
	}
	wg.Wait()
	mu.Lock()
	done = true
	for _, q := range queues {
		R.Pending += len(q)
	}
	mu.Unlock()
	if por != nil {
		R.Objects = len(*por.set.Load())
	}
	R.Wall = time.Since(t0)
	return R
}

func (R *Result) complete() bool {
	return !R.Timeout && R.Bound == 0 && R.Unsup == 0 && R.Unknown == 0 && R.Pending == 0
}

func (R *Result) print() {
	fmt.Printf("harness %s.%s: paths=%d assumed=%d bound=%d unsupported=%d steps=%d decisions=%d asserts=%d(trivial %d) viol=%d known=%d\n",
		R.H.Pkg, R.H.Func, R.Paths, R.Assumed, R.Bound, R.Unsup, R.Steps, R.Decs, R.Asserts, R.Trivial, len(R.Viols), len(R.Known))
	fmt.Printf("  queries=%d sat=%d unsat=%d unknown=%d err=%d solver=%.1fs max=%.2fs wall=%.1fs timeout=%v pending=%d reached=%v\n",
		R.Solver.Queries, R.Solver.Sat, R.Solver.Unsat, R.Solver.Unknown, R.Solver.Errors, R.Solver.Time.Seconds(), R.Solver.MaxTime.Seconds(), R.Wall.Seconds(), R.Timeout, R.Pending, sortedKeys(R.Reached))
	if R.Objects > 0 {
		fmt.Printf("  contended objects=%d rounds=%d paths of the last=%d\n", R.Objects, R.Rounds+1, R.Round)
	}
	var ks []string
	for k := range R.Why {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return R.Why[ks[i]] > R.Why[ks[j]] })
	for i, k := range ks {
		if i < 6 {
			fmt.Printf("  %dx %s\n", R.Why[k], k)
		}
	}
	for i, v := range R.Viols {
		if i < 4 {
			fmt.Printf("  VIOL %s %q %s\n    at %s\n    values:", v.Kind, v.Label, v.Detail, v.Stack)
			for _, n := range v.Nondet {
				fmt.Printf(" %s=%s", n.Key, n.show())
			}
			fmt.Printf("\n    sched: %v\n", v.Sched)
		}
	}
	_ = os.Stdout
}

func (n NondetVal) show() string {
	switch n.Kind {
	case "str":
		return fmt.Sprintf("%q", n.Str)
	case "int", "choice":
		return fmt.Sprint(int64(n.Val))
	case "f64", "hash":
		return fmt.Sprintf("%#x", n.Val)
	}
	return fmt.Sprint(n.Val)
}
