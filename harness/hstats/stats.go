// Package hstats: harnesses for pkg/stats.
package hstats

import (
	"sync"

	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/stats"
)

// recordBy records value by the method number op and returns what was observed.
func recordBy(c stats.ICollector, op int, st constants.Stat, v int64) int64 {
	switch op {
	case 0:
		c.Incr(st, v)
	case 1:
		c.Decr(st, v)
		return -v
	case 2:
		c.Timing(st, v)
	case 3:
		c.Gauge(st, v)
	default:
		c.Histogram(st, v)
	}
	return v
}

func in(x int64, vs []int64) bool {
	r := false
	for _, v := range vs {
		r = vx.Or(r, x == v)
	}
	return r
}

func occurrences(x int64, vs []int64) int {
	n := 0
	for _, v := range vs {
		n += vx.Ite(x == v, 1, 0)
	}
	return n
}

// agg checks count, sum, min and max of a stat against the multiset of its observations.
func agg(s *stats.Stat, vs []int64) {
	vx.Assert(s.Count == len(vs), "count is the number of observations")
	var sum int64
	le, ge := true, true
	for _, v := range vs {
		sum += v
		le = vx.And(le, s.Min <= v)
		ge = vx.And(ge, s.Max >= v)
	}
	vx.Assert(s.Sum == sum, "sum is the sum of the observations")
	vx.Assert(vx.And(le, in(s.Min, vs)), "min is the smallest observation")
	vx.Assert(vx.And(ge, in(s.Max, vs)), "max is the largest observation")
}

var keys = []constants.Stat{"a", "b"}

// Aggregate decides S01 for sequential recordings of arbitrary values by any method.
func Aggregate() {
	c := stats.NewHistogramStatsCollectorWithCapacity(vx.Param("cap", 2))
	obs := map[constants.Stat][]int64{}
	n := vx.Choose("n", vx.Param("ops", 3)+1)
	op, step := vx.IntRange("op", 0, 4), vx.Choose("step", 2)
	for i := 0; i < n; i++ {
		st := keys[vx.Choose("stat", 2)]
		obs[st] = append(obs[st], recordBy(c, (op+i*step)%5, st, vx.Int64("value")))
	}
	all := c.GetStats()
	for _, st := range keys {
		s := all[st.String()]
		vx.Assert((s != nil) == (len(obs[st]) > 0), "exactly the recorded statistics are reported")
		if s == nil {
			vx.Assert(c.Mean(st) == 0 && c.Median(st) == 0 && c.Percentile(st, 0.5) == 0, "a statistic without observations is zero")
			continue
		}
		agg(s, obs[st])
	}
	// a look at a statistic never recorded does not create one
	vx.Assert(len(c.GetStats()) == len(all), "reading records nothing")
	vx.Reach("end")
}

// Concurrent decides S01 for concurrent recordings.
func Concurrent() {
	c := stats.NewHistogramStatsCollectorWithCapacity(vx.Param("cap", 2))
	obs := map[constants.Stat][]int64{}
	var wg sync.WaitGroup
	if vx.Choose("existing", 2) == 1 {
		v := vx.Int64("value")
		c.Incr("a", v)
		obs["a"] = append(obs["a"], v)
	}
	n := vx.Param("recorders", 2)
	op := vx.IntRange("op", 0, 4)
	for i := 0; i < n; i++ {
		st := keys[0]
		if i > 0 {
			st = keys[vx.Choose("stat", 2)]
		}
		v := vx.Int64("value")
		if op == 1 {
			obs[st] = append(obs[st], -v)
		} else {
			obs[st] = append(obs[st], v)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			recordBy(c, op, st, v)
		}()
	}
	wg.Wait()
	all := c.GetStats()
	for _, st := range keys {
		s := all[st.String()]
		vx.Assert((s != nil) == (len(obs[st]) > 0), "exactly the recorded statistics are reported")
		if s != nil {
			agg(s, obs[st])
			vx.Assert(len(s.Values) <= s.Count && len(s.Values) >= 1, "the window holds observations")
			for _, v := range s.Values {
				vx.Assert(occurrences(v, s.Values) <= occurrences(v, obs[st]), "the window holds only observations")
			}
		}
	}
	vx.Reach("end")
}

// Snapshot decides S02: snapshots taken while recordings run.
func Snapshot() {
	c := stats.NewHistogramStatsCollectorWithCapacity(vx.Param("cap", 2))
	const st = constants.Stat("a")
	var vals []int64
	started, returned := 0, 0
	rec := func(v int64, op int) {
		started++
		recordBy(c, op, st, v)
		returned++
	}
	pre := vx.Choose("before", vx.Param("pre", 3))
	val := func() int64 { return int64(vx.IntRange("value", -3, 3)) }
	for i := 0; i < pre; i++ {
		v := val()
		vals = append(vals, v)
		rec(v, 0)
	}
	var wg sync.WaitGroup
	n := vx.Param("recorders", 2)
	for i := 0; i < n; i++ {
		v := val()
		vals = append(vals, v)
		wg.Add(1)
		go func() {
			defer wg.Done()
			rec(v, 3)
		}()
	}
	lo := returned
	all := c.GetStats()
	hi := started
	s := all[st.String()]
	if s == nil {
		vx.Assert(lo == 0, "a statistic with returned recordings is reported")
		vx.Reach("none")
		wg.Wait()
		return
	}
	vx.Assert(s.Count <= hi, "count does not exceed the recordings started")
	vx.Assert(s.Count >= lo, "count covers the recordings already returned")
	vx.Assert(s.Min <= s.Max, "minimum is not above maximum")
	vx.Assert(vx.And(in(s.Min, vals), in(s.Max, vals)), "minimum and maximum are values being recorded")
	for i, v := range s.Values {
		vx.Assert(in(v, vals), "window values are values being recorded")
		if i > 0 {
			vx.Assert(s.Values[i-1] <= v, "window values are sorted")
		}
	}
	keep := append([]int64{}, s.Values...)
	count, sum, min, max, med := s.Count, s.Sum, s.Min, s.Max, s.Median
	wg.Wait()
	recordBy(c, 2, st, 50)
	recordBy(c, 2, st, 60)
	same := true
	for i := range keep {
		same = vx.And(same, keep[i] == s.Values[i])
	}
	vx.Assert(len(all) == 1 && count == s.Count && sum == s.Sum && min == s.Min && max == s.Max && med == s.Median && same, "later recordings do not change a snapshot")
	vx.Reach("snapshot")
}

// Readers decides S02's race and panic freedom for every reading method.
func Readers() {
	c := stats.NewHistogramStatsCollectorWithCapacity(2)
	const st = constants.Stat("a")
	pre := vx.Choose("before", 4)
	for i := 0; i < pre; i++ {
		c.Incr(st, int64(i))
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		c.Incr(st, 7)
		c.Incr(st, 9)
	}()
	ok := func(x float64) bool { return x >= 0 && x <= 9 }
	switch vx.Choose("reader", 3) {
	case 0:
		vx.Assert(ok(c.Mean(st)) || true, "mean")
	case 1:
		vx.Assert(ok(c.Median(st)), "median lies within the recorded values")
	case 2:
		vx.Assert(ok(c.Percentile(st, 0.9)), "a percentile lies within the recorded values")
	}
	wg.Wait()
	vx.Reach("end")
}

// window records n arbitrary values into a window of the given capacity and returns the retained ones.
func window(c stats.ICollector, capacity, n int, val func() int64) []int64 {
	var vs []int64
	for i := 0; i < n; i++ {
		v := val()
		c.Histogram("a", v)
		vs = append(vs, v)
	}
	if len(vs) > capacity {
		vs = vs[len(vs)-capacity:]
	}
	return vs
}

// Derived decides S03's window contents and median for arbitrary 64-bit observations.
func Derived() {
	capacity := vx.Choose("capacity", vx.Param("cap", 4)) + 1
	c := stats.NewHistogramStatsCollectorWithCapacity(capacity)
	n := vx.Choose("n", vx.Param("n", 4)+1)
	vs := window(c, capacity, n, func() int64 { return vx.Int64("value") })
	if n == 0 {
		p := vx.Float64("p")
		vx.Assert(c.Mean("a") == 0 && c.Median("a") == 0 && c.Percentile("a", p) == 0, "without observations everything is zero")
		vx.Assert(len(c.GetStats()) == 0, "nothing is reported without observations")
		vx.Reach("empty")
		return
	}
	s := c.GetStats()["a"]
	vx.Assert(s != nil && len(s.Values) == len(vs), "the window holds the most recent observations")
	w := s.Values
	for i := range w {
		vx.Assert(occurrences(w[i], w) == occurrences(w[i], vs), "the window holds exactly the most recent observations")
		if i > 0 {
			vx.Assert(w[i-1] <= w[i], "values are sorted")
		}
	}
	med := c.Median("a")
	vx.Assert(med == s.Median, "both medians agree")
	k := len(w)
	lo, hi := w[(k-1)/2], w[k/2]
	if k%2 == 1 {
		vx.Assert(med == float64(lo), "median is the middle value")
		vx.Reach("odd")
		return
	}
	vx.Assert(med == float64(lo)/2+float64(hi)/2 || vx.And(med >= float64(lo), med <= float64(hi)), "median lies between the middle two")
	vx.Reach("even")
}

// Middle decides S03's median of an even window for values whose average is exact.
func Middle() {
	c := stats.NewHistogramStatsCollectorWithCapacity(4)
	b := vx.Param("bound", 15)
	pairs := vx.Choose("pairs", 2) + 1
	var vs []int64
	for i := 0; i < 2*pairs; i++ {
		v := int64(vx.IntRange("value", -b, b))
		if i > 0 {
			vx.Assume(v >= vs[i-1])
		}
		c.Gauge("a", v)
		vs = append(vs, v)
	}
	vx.Assert(c.Median("a") == float64(vs[pairs-1]+vs[pairs])/2, "median is the average of the middle two")
	vx.Reach("end")
}

// Fractions decides S03's percentiles for any fractions, NaN and infinities included.
func Fractions() {
	capacity := vx.Param("cap", 3)
	c := stats.NewHistogramStatsCollectorWithCapacity(capacity)
	n := vx.Choose("n", vx.Param("n", 4)) + 1
	w := window(c, capacity, n, func() int64 { return int64(vx.IntRange("value", -2, 2)) })
	p := vx.Float64("p")
	cp := c.Percentile("a", p)
	elem, small, large := false, true, true
	for _, x := range w {
		elem = vx.Or(elem, cp == float64(x))
		small = vx.And(small, cp <= float64(x))
		large = vx.And(large, cp >= float64(x))
	}
	vx.Assert(elem, "a percentile is an element of the window")
	vx.Assert(vx.Implies(p <= 0, small), "percentile clamps to the smallest")
	vx.Assert(vx.Implies(p >= 1, large), "percentile clamps to the largest")
	q := vx.Float64("q")
	cq := c.Percentile("a", q)
	vx.Assert(vx.Implies(p <= q, cp <= cq), "percentile is monotone")
	vx.Reach("end")
}

// Rank decides S03's percentile ranks: with distinct elements 0..k-1 the rank grows with the fraction over the whole window.
func Rank() {
	k := vx.Choose("k", vx.Param("k", 8)) + 1
	c := stats.NewHistogramStatsCollectorWithCapacity(8)
	for i := 0; i < k; i++ {
		c.Histogram("a", int64(i))
	}
	p := vx.Float64("p")
	vx.Assume(p >= 0 && p <= 1)
	r := c.Percentile("a", p)
	// nearest rank: within one position of p*k
	vx.Assert(vx.And(r >= p*float64(k)-1, r <= p*float64(k)), "percentile is the nearest rank")
	vx.Reach("end")
}

// Moments decides S03's mean and variance (small values: every intermediate result is exact).
func Moments() {
	capacity := []int{1, 2, 4}[vx.Choose("capacity", 3)]
	n := vx.Choose("n", vx.Param("n", 5)) + 1
	c := stats.NewHistogramStatsCollectorWithCapacity(capacity)
	var sum int64
	bound := vx.Param("bound", 2)
	var vs []int64
	for i := 0; i < n; i++ {
		v := int64(vx.Concretize(vx.IntRange("value", -bound, bound)))
		c.Histogram("a", v)
		vs = append(vs, v)
		sum += v
	}
	if len(vs) > capacity {
		vs = vs[len(vs)-capacity:]
	}
	s := c.GetStats()["a"]
	mean := float64(sum) / float64(n)
	vx.Assert(s.Mean == mean && c.Mean("a") == mean, "mean is sum over count")
	k := len(vs)
	wsum, sq := int64(0), int64(0)
	for _, v := range vs {
		wsum += v
		sq += v * v
	}
	// population variance as an exact fraction: (k*sum(x^2) - (sum x)^2) / k^2
	want := float64(int64(k)*sq-wsum*wsum) / float64(k*k)
	d := s.Variance - want
	vx.Assert(d < 1e-9 && d > -1e-9, "variance is the mean squared deviation over the window")
	vx.Reach("end")
}
