// Package vx is the vocabulary of the verification harnesses. Under gosym every
// function is intercepted; compiled natively it replays recorded values.
package vx

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/crypto/bcrypt"
)

type Val struct {
	Key, Kind string
	Val       uint64
	Str       []byte
}

type Run struct {
	Func   string
	Vals   []Val
	Params map[string]int
	Sched  []int
	Tags   []string
}

type Out struct {
	Obs      []string
	Fails    []string
	Panic    string
	Assume   bool
	Diverged bool
}

var (
	cur    map[string]Val
	params map[string]int
	count  map[string]int
	out    *Out
	mu     sync.Mutex
)

func begin(r *Run) {
	cur = map[string]Val{}
	for _, v := range r.Vals {
		cur[v.Key] = v
	}
	params = r.Params
	count = map[string]int{}
	out = &Out{}
}

func next(name string) Val {
	mu.Lock()
	defer mu.Unlock()
	if LidHook != nil {
		if l := LidHook(); l > 0 {
			name = fmt.Sprintf("%s@%d", name, l)
		}
	}
	k := fmt.Sprintf("%s#%d", name, count[name])
	count[name]++
	return cur[k]
}

// HashLookup is the hash value the counterexample gave to s.
func HashLookup(s string) (uint64, bool) {
	v, ok := cur["hash:"+s]
	return v.Val, ok && v.Kind == "hash"
}

type assumeFail struct{}

func Symbolic() bool                { return false }
func Int(name string) int           { return int(next(name).Val) }
func Int64(name string) int64       { return int64(next(name).Val) }
func Uint64(name string) uint64     { return next(name).Val }
func Uint32(name string) uint32     { return uint32(next(name).Val) }
func Byte(name string) byte         { return byte(next(name).Val) }
func Bool(name string) bool         { return next(name).Val != 0 }
func Float64(name string) float64   { return math.Float64frombits(next(name).Val) }
func Choose(name string, n int) int { return int(next(name).Val) }
func StringN(name string, n int) string {
	v := next(name)
	for len(v.Str) < n {
		v.Str = append(v.Str, 0)
	}
	return string(v.Str)
}
func String(name string, max int) string { return string(next(name).Str) }
func IntRange(name string, lo, hi int) int {
	v := int(next(name).Val)
	if v < lo || v > hi {
		return lo
	}
	return v
}
func Assume(c bool) {
	if !c {
		out.Assume = true
		panic(assumeFail{})
	}
}
func Assert(c bool, label string) {
	if !c {
		fail(label)
	}
}

// fail ends the run: deferred code of the harness must not mask the failure.
func fail(label string) {
	mu.Lock()
	out.Fails = append(out.Fails, label)
	if DivergedHook != nil {
		out.Diverged = DivergedHook()
	}
	emit(out)
	os.Exit(0)
}

// Setenv sets an environment variable for the code under test.
func Setenv(k, v string) {
	if err := os.Setenv(k, v); err != nil {
		panic(assumeFail{})
	}
}

var temps []string

// TempFile makes a file with the given contents and returns its path; it is removed when the run ends.
func TempFile(data []byte) string {
	f, err := os.CreateTemp("", "vx")
	if err != nil {
		panic(err)
	}
	_, _ = f.Write(data)
	_ = f.Close()
	temps = append(temps, f.Name())
	return f.Name()
}

// BcryptHash is a bcrypt hash of pw (at most 72 bytes, no NUL).
func BcryptHash(pw string) []byte {
	h, err := bcrypt.GenerateFromPassword([]byte(pw), bcrypt.MinCost)
	if err != nil {
		panic(err)
	}
	return h
}

func emit(o *Out) {
	for _, t := range temps {
		_ = os.Remove(t)
	}
	temps = nil
	j, _ := json.Marshal(o)
	os.Stdout.WriteString("VXRUN " + string(j) + "\n")
}
func AssertKF(c bool, label, kf string, when bool) {
	if !c {
		fail(label)
	}
}
func Reach(label string) {}
func Observe(label string, v any) {
	var s string
	switch x := v.(type) {
	case string:
		s = fmt.Sprintf("%q", []byte(x))
	case float64:
		s = fmt.Sprintf("%x", math.Float64bits(x))
	default:
		s = fmt.Sprint(v)
	}
	mu.Lock()
	out.Obs = append(out.Obs, label+"="+s)
	mu.Unlock()
}
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}
func MapNondet(on bool) {}
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteU(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteB(c, a, b bool) bool {
	if c {
		return a
	}
	return b
}
func Not(a bool) bool          { return !a }
func ParseHex(s string) uint64 { v, _ := strconv.ParseUint(s, 16, 64); return v }
func Point() {
	if PointHook != nil {
		PointHook()
	}
}
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }
func Concretize(x int) int   { return x }
func NoPreempt(on bool)      {}

// Advance moves the virtual clock; without the controlled scheduler it sleeps.
func Advance(d int64) {
	if AdvanceHook != nil {
		AdvanceHook(d)
		return
	}
	time.Sleep(time.Duration(d))
}

// Quiesce lets every other goroutine finish or block.
var QuiesceHook func()

func Quiesce() {
	if QuiesceHook != nil {
		QuiesceHook()
		return
	}
	for i := 0; i < 20; i++ {
		runtime.Gosched()
		time.Sleep(time.Millisecond)
	}
}

// Settle is Quiesce with the others run in one order only: for what no schedule can influence.
func Settle() { Quiesce() }

// Live is the number of unfinished goroutines other than the main one.
var LiveHook func() int

func Live() int {
	if LiveHook != nil {
		return LiveHook()
	}
	return runtime.NumGoroutine() - 1
}

// Main runs recorded runs (file argument) natively and prints their outcomes as JSON.
func Main(fns map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var runs []*Run
	if err := json.Unmarshal(b, &runs); err != nil {
		panic(err)
	}
	for _, r := range runs {
		begin(r)
		o := out
		if StartHook != nil {
			StartHook(r.Sched, r.Tags)
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					switch x := e.(type) {
					case assumeFail:
					default:
						s := fmt.Sprint(x)
						if i := strings.IndexByte(s, '\n'); i > 0 {
							s = s[:i]
						}
						o.Panic = s
					}
				}
			}()
			fns[r.Func]()
		}()
		if DivergedHook != nil {
			o.Diverged = DivergedHook()
		}
		emit(o)
	}
	os.Exit(0)
}

// Hooks of the controlled scheduler (nil in a plain build).
var (
	StartHook    func(sched []int, tags []string)
	AdvanceHook  func(d int64)
	DivergedHook func() bool
	PointHook    func()
	LidHook      func() int
)
