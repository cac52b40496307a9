package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"github.com/cespare/xxhash/v2"
	"golang.org/x/tools/go/ssa"
)

// pooled is a value in a sync.Pool with the clock of the Put, which the Get that returns it acquires.
type pooled struct {
	v  Value
	vc *VC
}

type callCtx struct {
	m        *Machine
	g        *G
	fr       *Frame
	fn       *ssa.Function
	dst      int32
	tail     Value
	tailArgs []Value
	onRet    func(Value)
}

type intrinsic struct {
	f       func(c *callCtx, a []Value) (Value, status)
	visible bool
	read    bool // commutes with other reads of the same object
	logged  bool // part of the replay trace
	always  bool // a preemption point whatever it operates on
}

type prefixIntr struct {
	prefix string
	it     *intrinsic
}

var intrinsics = map[string]*intrinsic{}
var prefixIntrinsics []prefixIntr

type ifn = func(c *callCtx, a []Value) Value

func reg(name string, f ifn) {
	intrinsics[name] = &intrinsic{f: func(c *callCtx, a []Value) (Value, status) { return f(c, a), stNext }}
}
func regS(name string, visible bool, f func(c *callCtx, a []Value) (Value, status)) {
	intrinsics[name] = &intrinsic{f: f, visible: visible, read: syncRead(name), always: strings.HasSuffix(name, ").Wait") || strings.HasSuffix(name, "vx.Quiesce")}
}
func regV(name string, f ifn) {
	intrinsics[name] = &intrinsic{f: func(c *callCtx, a []Value) (Value, status) { return f(c, a), stNext }, visible: true, read: syncRead(name)}
}
func nop(names ...string) {
	for _, n := range names {
		reg(n, func(c *callCtx, a []Value) Value { return zeroResults(c.fn) })
	}
}

func cstr(v Value) string {
	s := v.(*Str)
	if s.sym != nil {
		panic(unsup("concrete string expected"))
	}
	return s.s
}

func bytesOf(v Value) []*Term {
	switch x := v.(type) {
	case *Str:
		return x.bytes()
	case SliceV:
		out := make([]*Term, len(x))
		for i := range x {
			out[i] = x[i].(*Term)
		}
		return out
	}
	panic(unsup("bytesOf %T", v))
}

// ---- sync objects ----

type mutexSt struct {
	locked  bool
	owner   int
	readers int
	wwait   bool
	vc      VC
	rvc     VC
}

func (m *Machine) mutex(p Value) *mutexSt {
	pv, ok := p.(*Value)
	if !ok {
		panic(unsup("mutex at %T", p))
	}
	if pv == nil {
		m.nilDeref()
	}
	s, _ := m.side[pv].(*mutexSt)
	if s == nil {
		s = &mutexSt{}
		m.side[pv] = s
	}
	return s
}

type wgSt struct {
	n  int64
	vc VC
}

func (m *Machine) wg(p Value) *wgSt {
	pv := p.(*Value)
	s, _ := m.side[pv].(*wgSt)
	if s == nil {
		s = &wgSt{}
		m.side[pv] = s
	}
	return s
}

type atomSt struct{ vc VC }

// fatal models runtime fatal errors (unrecoverable).
func (m *Machine) fatal(msg string) {
	v := m.violation("panic", "fatal", msg, m.model)
	m.res.Viols = append(m.res.Viols, v)
	panic(stopPath{})
}

func atomicCell(p Value) *Value {
	pv, ok := p.(*Value)
	if !ok {
		panic(unsup("atomic at %T", p))
	}
	if s, ok := (*pv).(Struct); ok {
		return atomicCell(&s[len(s)-1])
	}
	return pv
}

// atomicRead: an atomic load synchronises with the writes before it.
func (m *Machine) atomicRead(p *Value) {
	if m.race == nil || m.cur.id < 0 {
		return
	}
	if s, _ := m.side[p].(*atomSt); s != nil {
		m.acq(&s.vc)
	}
}

func (m *Machine) atomicSync(p *Value) {
	if m.race == nil || m.cur.id < 0 {
		return
	}
	s, _ := m.side[p].(*atomSt)
	if s == nil {
		s = &atomSt{}
		m.side[p] = s
	}
	m.acq(&s.vc)
	m.rel(&s.vc)
}

func chkNil(m *Machine, p Value) {
	if pv, ok := p.(*Value); ok && pv == nil {
		m.nilDeref()
	}
}

func init() {
	regS("(*sync.Mutex).Lock", true, func(c *callCtx, a []Value) (Value, status) {
		s := c.m.mutex(a[0])
		if s.locked {
			c.g.ready = func() bool { return !s.locked }
			return nil, stBlock
		}
		s.locked, s.owner = true, c.g.id
		c.m.acq(&s.vc)
		return nil, stNext
	})
	regS("(*sync.Mutex).TryLock", true, func(c *callCtx, a []Value) (Value, status) {
		s := c.m.mutex(a[0])
		if s.locked {
			return falseT, stNext
		}
		s.locked, s.owner = true, c.g.id
		c.m.acq(&s.vc)
		return trueT, stNext
	})
	reg("(*sync.Mutex).Unlock", func(c *callCtx, a []Value) Value {
		s := c.m.mutex(a[0])
		if !s.locked {
			c.m.fatal("sync: unlock of unlocked mutex")
		}
		c.m.rel(&s.vc)
		s.locked = false
		return nil
	})
	regS("(*sync.RWMutex).Lock", true, func(c *callCtx, a []Value) (Value, status) {
		s := c.m.mutex(a[0])
		if s.locked || s.readers > 0 {
			c.g.ready = func() bool { return !s.locked && s.readers == 0 }
			return nil, stBlock
		}
		s.locked, s.owner = true, c.g.id
		c.m.acq(&s.vc)
		c.m.acq(&s.rvc)
		return nil, stNext
	})
	regS("(*sync.RWMutex).TryLock", true, func(c *callCtx, a []Value) (Value, status) {
		s := c.m.mutex(a[0])
		if s.locked || s.readers > 0 {
			return falseT, stNext
		}
		s.locked = true
		c.m.acq(&s.vc)
		c.m.acq(&s.rvc)
		return trueT, stNext
	})
	reg("(*sync.RWMutex).Unlock", func(c *callCtx, a []Value) Value {
		s := c.m.mutex(a[0])
		if !s.locked {
			c.m.fatal("sync: Unlock of unlocked RWMutex")
		}
		c.m.rel(&s.vc)
		s.locked = false
		return nil
	})
	regS("(*sync.RWMutex).RLock", true, func(c *callCtx, a []Value) (Value, status) {
		s := c.m.mutex(a[0])
		if s.locked {
			c.g.ready = func() bool { return !s.locked }
			return nil, stBlock
		}
		s.readers++
		c.m.acq(&s.vc)
		return nil, stNext
	})
	regS("(*sync.RWMutex).TryRLock", true, func(c *callCtx, a []Value) (Value, status) {
		s := c.m.mutex(a[0])
		if s.locked {
			return falseT, stNext
		}
		s.readers++
		c.m.acq(&s.vc)
		return trueT, stNext
	})
	reg("(*sync.RWMutex).RUnlock", func(c *callCtx, a []Value) Value {
		s := c.m.mutex(a[0])
		if s.readers <= 0 {
			c.m.fatal("sync: RUnlock of unlocked RWMutex")
		}
		c.m.rel(&s.rvc)
		s.readers--
		return nil
	})
	wgAdd := func(c *callCtx, p Value, d int64) {
		s := c.m.wg(p)
		s.n += d
		c.m.rel(&s.vc)
		if s.n < 0 {
			panic(goPanic{val: Iface{t: types.Typ[types.String], v: mkStr("sync: negative WaitGroup counter")}, msg: "sync: negative WaitGroup counter"})
		}
	}
	reg("(*sync.WaitGroup).Add", func(c *callCtx, a []Value) Value {
		wgAdd(c, a[0], int64(c.m.concretize(a[1].(*Term))))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(c *callCtx, a []Value) Value { wgAdd(c, a[0], -1); return nil })
	regS("(*sync.WaitGroup).Wait", true, func(c *callCtx, a []Value) (Value, status) {
		s := c.m.wg(a[0])
		if s.n > 0 {
			c.g.ready = func() bool { return s.n <= 0 }
			return nil, stBlock
		}
		c.m.acq(&s.vc)
		return nil, stNext
	})
	reg("(*sync.WaitGroup).Go", func(c *callCtx, a []Value) Value {
		p := a[0]
		wgAdd(c, p, 1)
		f := a[1].(*Closure)
		g := c.m.newG(f, nil)
		g.what = "wg.Go"
		g.frames[0].onRet = func(Value) {
			wgAdd(c, p, -1)
		}
		return nil
	})
	reg("(*sync.Pool).Put", func(c *callCtx, a []Value) Value {
		p := a[0].(*Value)
		st, _ := c.m.side[p].([]pooled)
		if f := a[1].(Iface); f.t != nil {
			e := pooled{v: f, vc: new(VC)}
			c.m.rel(e.vc)
			c.m.side[p] = append(st[:len(st):len(st)], e)
		}
		return nil
	})
	intrinsics["(*sync.Pool).Get"] = &intrinsic{f: func(c *callCtx, a []Value) (Value, status) {
		p := a[0].(*Value)
		if p == nil {
			c.m.nilDeref()
		}
		st, _ := c.m.side[p].([]pooled)
		if len(st) > 0 {
			e := st[len(st)-1]
			c.m.side[p] = st[:len(st)-1]
			c.m.acq(e.vc)
			return e.v, stNext
		}
		s := (*p).(Struct)
		nf, _ := s[len(s)-1].(*Closure)
		if nf == nil {
			return nilIface, stNext
		}
		c.tail = nf
		return nil, stNext
	}}
	nop("runtime_registerPoolCleanup", "sync.runtime_registerPoolCleanup", "sync.throw", "sync.fatal")

	// atomics: function forms and typed methods
	type akind struct{ name string }
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		k := k
		ld := func(c *callCtx, a []Value) Value {
			chkNil(c.m, a[0])
			p := atomicCell(a[0])
			c.m.atomicRead(p)
			return *p
		}
		st := func(c *callCtx, a []Value) Value {
			chkNil(c.m, a[0])
			p := atomicCell(a[0])
			c.m.atomicSync(p)
			*p = a[1]
			return nil
		}
		sw := func(c *callCtx, a []Value) Value {
			chkNil(c.m, a[0])
			p := atomicCell(a[0])
			c.m.atomicSync(p)
			o := *p
			*p = a[1]
			return o
		}
		cas := func(c *callCtx, a []Value) Value {
			chkNil(c.m, a[0])
			p := atomicCell(a[0])
			c.m.atomicSync(p)
			if c.m.branch(c.m.equal(*p, a[1])) {
				*p = a[2]
				return trueT
			}
			return falseT
		}
		bin := func(op Op, retNew bool) ifn {
			return func(c *callCtx, a []Value) Value {
				chkNil(c.m, a[0])
				p := atomicCell(a[0])
				c.m.atomicSync(p)
				o := (*p).(*Term)
				n := c.m.tb.Bin(op, o, a[1].(*Term))
				*p = n
				if retNew {
					return n
				}
				return o
			}
		}
		regV("sync/atomic.Load"+k, ld)
		regV("sync/atomic.Store"+k, st)
		regV("sync/atomic.Swap"+k, sw)
		regV("sync/atomic.CompareAndSwap"+k, cas)
		regV("sync/atomic.Add"+k, bin(oAdd, true))
		regV("sync/atomic.And"+k, bin(oBAnd, false))
		regV("sync/atomic.Or"+k, bin(oBOr, false))
		t := "(*sync/atomic." + k + ")"
		if k == "Pointer" {
			t = "(*sync/atomic.Pointer[T])"
		}
		regV(t+".Load", ld)
		regV(t+".Store", st)
		regV(t+".Swap", sw)
		regV(t+".CompareAndSwap", cas)
		regV(t+".Add", bin(oAdd, true))
		regV(t+".And", bin(oBAnd, false))
		regV(t+".Or", bin(oBOr, false))
	}
	boolT := func(c *callCtx, v Value) Value {
		return c.m.tb.Not(c.m.tb.Eq(v.(*Term), mkConst(32, 0)))
	}
	b32 := func(c *callCtx, v Value) *Term { return c.m.tb.Ite(v.(*Term), mkConst(32, 1), mkConst(32, 0)) }
	regV("(*sync/atomic.Bool).Load", func(c *callCtx, a []Value) Value {
		chkNil(c.m, a[0])
		p := atomicCell(a[0])
		c.m.atomicRead(p)
		return boolT(c, *p)
	})
	regV("(*sync/atomic.Bool).Store", func(c *callCtx, a []Value) Value {
		chkNil(c.m, a[0])
		p := atomicCell(a[0])
		c.m.atomicSync(p)
		*p = b32(c, a[1])
		return nil
	})
	regV("(*sync/atomic.Bool).Swap", func(c *callCtx, a []Value) Value {
		p := atomicCell(a[0])
		c.m.atomicSync(p)
		o := boolT(c, *p)
		*p = b32(c, a[1])
		return o
	})
	regV("(*sync/atomic.Bool).CompareAndSwap", func(c *callCtx, a []Value) Value {
		p := atomicCell(a[0])
		c.m.atomicSync(p)
		if c.m.branch(c.m.tb.Eq((*p).(*Term), b32(c, a[1]))) {
			*p = b32(c, a[2])
			return trueT
		}
		return falseT
	})
	// atomic.Value keeps its interface in the first field
	aval := func(a Value) *Value { return &(*(a.(*Value))).(Struct)[0] }
	regV("(*sync/atomic.Value).Load", func(c *callCtx, a []Value) Value {
		chkNil(c.m, a[0])
		p := aval(a[0])
		c.m.atomicRead(p)
		return *p
	})
	regV("(*sync/atomic.Value).Store", func(c *callCtx, a []Value) Value {
		p := aval(a[0])
		c.m.atomicSync(p)
		*p = a[1]
		return nil
	})
	regV("(*sync/atomic.Value).Swap", func(c *callCtx, a []Value) Value {
		p := aval(a[0])
		c.m.atomicSync(p)
		o := *p
		*p = a[1]
		return o
	})
	regV("(*sync/atomic.Value).CompareAndSwap", func(c *callCtx, a []Value) Value {
		p := aval(a[0])
		c.m.atomicSync(p)
		if c.m.branch(c.m.equal(*p, a[1])) {
			*p = a[2]
			return trueT
		}
		return falseT
	})

	// runtime and friends
	nop("runtime.Gosched", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Callers", "runtime.Caller",
		"(*strings.Builder).copyCheck", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable",
		"os.runtime_args", "os.runtime_beforeExit", "syscall.runtime_envs", "os.checkPidfdOnce", "internal/godebug.registerMetric",
		"internal/godebug.setUpdate", "internal/godebug.setNewIncNonDefault", "(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Value",
		"runtime/debug.SetGCPercent", "crypto/internal/boring/sig.StandardCrypto", "crypto/internal/boring/sig.BoringCrypto", "internal/sync.throw",
		"runtime.CallersFrames", "(*runtime.Frames).Next", "runtime.FuncForPC", "(*runtime.Func).Name", "runtime.Stack",
		"runtime_debug_WriteHeapDump", "crypto/internal/fips140.RecordApproved", "crypto/internal/fips140.RecordNonApproved", "crypto/internal/fips140.getIndicator",
		"crypto/internal/fips140.setIndicator", "crypto/internal/fips140.CAST", "crypto/internal/fips140.PCT")
	reg("runtime.NumGoroutine", func(c *callCtx, a []Value) Value {
		n := 0
		for _, g := range c.m.gs {
			if g.st != gDone {
				n++
			}
		}
		return mkInt(n)
	})
	reg("runtime.NumCPU", func(c *callCtx, a []Value) Value {
		if n := c.m.H.Params["numcpu"]; n > 0 {
			return mkInt(n)
		}
		return mkInt(4)
	})
	reg("runtime.GOMAXPROCS", func(c *callCtx, a []Value) Value { return mkInt(4) })
	reg("internal/godebug.New", func(c *callCtx, a []Value) Value {
		p := new(Value)
		*p = zero(c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return p
	})
	reg("internal/abi.NoEscape", func(c *callCtx, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(c *callCtx, a []Value) Value { return a[0] })
	cloneStr := func(c *callCtx, a []Value) Value { x := *a[0].(*Str); return &x }
	reg("strings.Clone", cloneStr)
	reg("internal/stringslite.Clone", cloneStr)
	reg("unique.Make", func(c *callCtx, a []Value) Value { panic(unsup("unique.Make")) })
	reg("slices.overlaps", func(c *callCtx, a []Value) Value {
		x, y := a[0].(SliceV), a[1].(SliceV)
		if len(x) == 0 || len(y) == 0 {
			return falseT
		}
		for i := range x {
			for j := range y {
				if &x[i] == &y[j] {
					return trueT
				}
			}
		}
		return falseT
	})
	reg("slices.startIdx", func(c *callCtx, a []Value) Value {
		x, y := a[0].(SliceV), a[1].(SliceV)
		for i := range x {
			if &x[i] == &y[0] {
				return mkInt(i)
			}
		}
		panic(unsup("startIdx"))
	})

	// bytealg
	idxByte := func(c *callCtx, a []Value) Value {
		b := bytesOf(a[0])
		x := a[1].(*Term)
		for i, t := range b {
			if c.m.branch(c.m.tb.Eq(t, x)) {
				return mkInt(i)
			}
		}
		return mkInt(-1)
	}
	lastIdxByte := func(c *callCtx, a []Value) Value {
		b := bytesOf(a[0])
		x := a[1].(*Term)
		for i := len(b) - 1; i >= 0; i-- {
			if c.m.branch(c.m.tb.Eq(b[i], x)) {
				return mkInt(i)
			}
		}
		return mkInt(-1)
	}
	cnt := func(c *callCtx, a []Value) Value {
		b := bytesOf(a[0])
		x := a[1].(*Term)
		r := mkInt(0)
		for _, t := range b {
			r = c.m.tb.Bin(oAdd, r, c.m.tb.Ite(c.m.tb.Eq(t, x), mkInt(1), mkInt(0)))
		}
		return r
	}
	index := func(c *callCtx, a []Value) Value {
		b, s := bytesOf(a[0]), bytesOf(a[1])
		for i := 0; i+len(s) <= len(b); i++ {
			r := trueT
			for j := range s {
				r = c.m.tb.And(r, c.m.tb.Eq(b[i+j], s[j]))
			}
			if c.m.branch(r) {
				return mkInt(i)
			}
		}
		return mkInt(-1)
	}
	reg("internal/bytealg.IndexByte", idxByte)
	reg("internal/bytealg.IndexByteString", idxByte)
	reg("internal/bytealg.LastIndexByte", lastIdxByte)
	reg("internal/bytealg.LastIndexByteString", lastIdxByte)
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		reg(n, index)
	}
	reg("internal/bytealg.Equal", func(c *callCtx, a []Value) Value {
		return c.m.equal(strFrom(bytesOf(a[0])), strFrom(bytesOf(a[1])))
	})
	reg("bytes.Equal", func(c *callCtx, a []Value) Value {
		return c.m.equal(strFrom(bytesOf(a[0])), strFrom(bytesOf(a[1])))
	})
	cmp := func(c *callCtx, a []Value) Value {
		x, y := strFrom(bytesOf(a[0])), strFrom(bytesOf(a[1]))
		lt := c.m.strLess(x, y, false)
		eq := c.m.equal(x, y)
		return c.m.tb.Ite(eq, mkInt(0), c.m.tb.Ite(lt, mkInt(-1), mkInt(1)))
	}
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("bytes.Compare", cmp)
	reg("strings.Compare", cmp)
	reg("internal/bytealg.MakeNoZero", func(c *callCtx, a []Value) Value {
		n := int(c.m.concretize(a[0].(*Term)))
		s := make(SliceV, n)
		for i := range s {
			s[i] = mkConst(8, 0)
		}
		return s
	})
	reg("internal/bytealg.abigen_runtime_cmpstring", cmp)
	reg("runtime.cmpstring", cmp)

	// constant-time comparisons
	reg("crypto/subtle.ConstantTimeCompare", func(c *callCtx, a []Value) Value {
		eq := c.m.equal(strFrom(bytesOf(a[0])), strFrom(bytesOf(a[1])))
		return c.m.tb.Ite(eq, mkInt(1), mkInt(0))
	})

	// math
	un := func(name string, f func(m *Machine, x *Term) *Term) {
		reg("math."+name, func(c *callCtx, a []Value) Value { return f(c.m, a[0].(*Term)) })
	}
	un("Sqrt", func(m *Machine, x *Term) *Term { return m.tb.Un(oFSqrt, sF64, 0, x) })
	un("sqrt", func(m *Machine, x *Term) *Term { return m.tb.Un(oFSqrt, sF64, 0, x) })
	un("Floor", func(m *Machine, x *Term) *Term { return m.tb.Un(oFRound, sF64, 3, x) })
	un("Ceil", func(m *Machine, x *Term) *Term { return m.tb.Un(oFRound, sF64, 2, x) })
	un("Trunc", func(m *Machine, x *Term) *Term { return m.tb.Un(oFRound, sF64, 1, x) })
	un("Round", func(m *Machine, x *Term) *Term { return m.tb.Un(oFRound, sF64, 4, x) })
	un("RoundToEven", func(m *Machine, x *Term) *Term { return m.tb.Un(oFRound, sF64, 0, x) })
	un("Abs", func(m *Machine, x *Term) *Term { return m.tb.Un(oFAbs, sF64, 0, x) })
	un("Float64frombits", func(m *Machine, x *Term) *Term {
		if x.op == oConst {
			return mkConst(sF64, x.val)
		}
		return m.tb.Un(oFFromBits, sF64, 0, x)
	})
	un("Float32frombits", func(m *Machine, x *Term) *Term {
		if x.op == oConst {
			return mkConst(sF32, x.val)
		}
		return m.tb.Un(oFFromBits, sF32, 0, x)
	})
	bitsOf := func(w Sort) func(m *Machine, x *Term) *Term {
		return func(m *Machine, x *Term) *Term {
			if x.op == oConst {
				return mkConst(w, x.val)
			}
			if x.op == oFFromBits {
				return x.a[0]
			}
			panic(unsup("float bits of a computed symbolic float"))
		}
	}
	un("Float64bits", bitsOf(64))
	un("Float32bits", bitsOf(32))
	nat1 := func(name string, f func(float64) float64) {
		reg("math."+name, func(c *callCtx, a []Value) Value {
			x := a[0].(*Term)
			if x.op != oConst {
				panic(unsup("math.%s on a symbolic float", name))
			}
			return mkF64(f(math.Float64frombits(x.val)))
		})
	}
	nat1("Log", math.Log)
	nat1("Log2", math.Log2)
	nat1("Exp", math.Exp)

	// hashing
	reg("github.com/cespare/xxhash/v2.Sum64String", func(c *callCtx, a []Value) Value { return c.m.xxh(a[0].(*Str)) })
	reg("github.com/cespare/xxhash/v2.Sum64", func(c *callCtx, a []Value) Value { return c.m.xxh(strFrom(bytesOf(a[0]))) })

	// randomness
	reg("crypto/rand.Read", func(c *callCtx, a []Value) Value {
		for i, s := 0, a[0].(SliceV); i < len(s); i++ {
			s[i] = mkConst(8, uint64(i*37+11))
		}
		return Tuple{mkInt(len(a[0].(SliceV))), nilIface}
	})

	// vx: the harness vocabulary
	vx := zz + "/vx."
	reg(vx+"Symbolic", func(c *callCtx, a []Value) Value { return trueT })
	reg(vx+"Int", func(c *callCtx, a []Value) Value { return c.m.nondet(cstr(a[0]), "int", 64) })
	reg(vx+"Int64", func(c *callCtx, a []Value) Value { return c.m.nondet(cstr(a[0]), "int", 64) })
	reg(vx+"Uint64", func(c *callCtx, a []Value) Value { return c.m.nondet(cstr(a[0]), "int", 64) })
	reg(vx+"Uint32", func(c *callCtx, a []Value) Value { return c.m.nondet(cstr(a[0]), "int", 32) })
	reg(vx+"Byte", func(c *callCtx, a []Value) Value { return c.m.nondet(cstr(a[0]), "int", 8) })
	reg(vx+"Bool", func(c *callCtx, a []Value) Value { return c.m.nondet(cstr(a[0]), "bool", sBool) })
	reg(vx+"Float64", func(c *callCtx, a []Value) Value {
		t := c.m.nondet(cstr(a[0]), "f64", 64)
		return c.m.tb.Un(oFFromBits, sF64, 0, t)
	})
	reg(vx+"IntRange", func(c *callCtx, a []Value) Value {
		lo, hi := a[1].(*Term), a[2].(*Term)
		if lo.op == oConst && hi.op == oConst && lo.sval() >= 0 && hi.sval() >= lo.sval() && hi.sval() < 1<<40 {
			k := c.m.key(cstr(a[0]))
			w := Sort(max(bits.Len64(hi.val), 1))
			t := c.m.tb.Zext(c.m.freshVar(fmt.Sprintf("%s!%d", k, w), w), 64)
			c.m.nondets = append(c.m.nondets, nondetRec{key: k, kind: "int", t: t, isT: true})
			c.m.assume(c.m.tb.And(c.m.tb.Bin(oSle, lo, t), c.m.tb.Bin(oSle, t, hi)))
			return t
		}
		t := c.m.nondet(cstr(a[0]), "int", 64)
		c.m.assume(c.m.tb.And(c.m.tb.Bin(oSle, lo, t), c.m.tb.Bin(oSle, t, hi)))
		return t
	})
	reg(vx+"Choose", func(c *callCtx, a []Value) Value {
		n := int(c.m.concretize(a[1].(*Term)))
		if n <= 0 {
			panic(pathEnd{"choose(0)"})
		}
		return mkInt(c.m.nondetChoice(cstr(a[0]), n))
	})
	str := func(c *callCtx, name string, n int) Value {
		k := c.m.key(name)
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = c.m.freshVar(fmt.Sprintf("%s.%d", k, i), 8)
		}
		s := &Str{sym: bs}
		if n == 0 {
			s = emptyStr
		}
		c.m.nondets = append(c.m.nondets, nondetRec{key: k, kind: "str", str: s})
		return s
	}
	reg(vx+"StringN", func(c *callCtx, a []Value) Value {
		return str(c, cstr(a[0]), int(c.m.concretize(a[1].(*Term))))
	})
	reg(vx+"String", func(c *callCtx, a []Value) Value {
		mx := int(c.m.concretize(a[1].(*Term)))
		n := c.m.choose(mx+1, "len")
		return str(c, cstr(a[0]), n)
	})
	reg(vx+"Assume", func(c *callCtx, a []Value) Value { c.m.assume(a[0].(*Term)); return nil })
	reg(vx+"Assert", func(c *callCtx, a []Value) Value {
		c.m.assertT(a[0].(*Term), cstr(a[1]), "", nil)
		return nil
	})
	reg(vx+"AssertKF", func(c *callCtx, a []Value) Value {
		id := cstr(a[2])
		if !c.m.H.known(id) {
			id = ""
		}
		c.m.assertT(a[0].(*Term), cstr(a[1]), id, a[3].(*Term))
		return nil
	})
	reg(vx+"Reach", func(c *callCtx, a []Value) Value { c.m.res.Reached[cstr(a[0])] = true; return nil })
	reg(vx+"Observe", func(c *callCtx, a []Value) Value {
		c.m.observe(cstr(a[0]), a[1].(Iface))
		return nil
	})
	reg(vx+"Param", func(c *callCtx, a []Value) Value {
		if v, ok := c.m.H.Params[cstr(a[0])]; ok {
			return mkInt(v)
		}
		return a[1]
	})
	reg(vx+"MapNondet", func(c *callCtx, a []Value) Value {
		c.m.mapNond = a[0].(*Term).isTrue()
		return nil
	})
	// Quiesce blocks until every other goroutine is finished or blocked.
	quiesce := func(c *callCtx, a []Value) (Value, status) {
		self := c.g
		idle := func() bool {
			for _, g := range c.m.gs {
				if g == self {
					continue
				}
				if g.st == gRun || (g.st == gBlocked && g.ready != nil && g.ready()) {
					return false
				}
			}
			return true
		}
		if !idle() {
			c.g.ready = idle
			return nil, stBlock
		}
		if c.m.por != nil {
			c.m.por.settle()
		}
		return nil, stNext
	}
	regS(vx+"Quiesce", true, quiesce)
	// Settle is Quiesce with the other goroutines run in one order, each until it blocks.
	regS(vx+"Settle", false, func(c *callCtx, a []Value) (Value, status) {
		c.m.settling = true
		v, st := quiesce(c, a)
		if st != stBlock {
			c.m.settling = false
		}
		return v, st
	})
	intrinsics[vx+"Settle"].logged = true
	reg(vx+"Live", func(c *callCtx, a []Value) Value {
		n := 0
		for _, g := range c.m.gs {
			if g.st != gDone && g.lid >= 0 {
				n++
			}
		}
		return mkInt(n - 1)
	})
	reg(vx+"Ite", func(c *callCtx, a []Value) Value {
		return c.m.tb.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	for _, n := range []string{"IteU", "IteB"} {
		reg(vx+n, func(c *callCtx, a []Value) Value {
			return c.m.tb.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		})
	}
	reg(vx+"ParseHex", func(c *callCtx, a []Value) Value {
		x := a[0].(*Str)
		if x.sym == nil {
			v, _ := strconv.ParseUint(x.s, 16, 64)
			return mkConst(64, v)
		}
		if t, ok := c.m.side[x.at(0)].(*Term); ok && x.Len() == 16 {
			return t
		}
		panic(unsup("ParseHex of computed digits"))
	})
	reg(vx+"Not", func(c *callCtx, a []Value) Value { return c.m.tb.Not(a[0].(*Term)) })
	reg(vx+"And", func(c *callCtx, a []Value) Value { return c.m.tb.And(a[0].(*Term), a[1].(*Term)) })
	reg(vx+"Or", func(c *callCtx, a []Value) Value { return c.m.tb.Or(a[0].(*Term), a[1].(*Term)) })
	reg(vx+"Implies", func(c *callCtx, a []Value) Value {
		return c.m.tb.Or(c.m.tb.Not(a[0].(*Term)), a[1].(*Term))
	})
	reg(vx+"Concretize", func(c *callCtx, a []Value) Value {
		return mkConst(64, c.m.concretize(a[0].(*Term)))
	})
	reg(vx+"Advance", func(c *callCtx, a []Value) Value {
		c.m.clock = c.m.tb.Bin(oAdd, c.m.clock, a[0].(*Term))
		return nil
	})
	reg(vx+"NoPreempt", func(c *callCtx, a []Value) Value {
		if a[0].(*Term).isTrue() {
			c.g.atomic++
		} else {
			c.g.atomic--
		}
		return nil
	})

	// vmodel helpers
	vm := zz + "/vmodel."
	reg(vm+"choose", func(c *callCtx, a []Value) Value {
		n := int(c.m.concretize(a[0].(*Term)))
		return mkInt(c.m.choose(n, "model"))
	})
	reg(vm+"isSym", func(c *callCtx, a []Value) Value {
		switch x := a[0].(Iface).v.(type) {
		case *Term:
			return mkBool(x.op != oConst)
		case *Str:
			return mkBool(x.sym != nil)
		}
		return falseT
	})
	reg(vm+"comparable_", func(c *callCtx, a []Value) Value {
		f := a[0].(Iface)
		return mkBool(f.t == nil || types.Comparable(f.t))
	})
	// asTarget(err, target any) bool: *target = err when assignable
	reg(vm+"asTarget", func(c *callCtx, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		pt, ok := t.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsup("errors.As target"))
		}
		et := pt.Elem()
		if e.t == nil {
			return falseT
		}
		if it, ok := et.Underlying().(*types.Interface); ok {
			if !c.m.implements(e.t, it) {
				return falseT
			}
			c.m.store(t.v, e)
			return trueT
		}
		if canon(et) == e.t {
			c.m.store(t.v, e.v)
			return trueT
		}
		return falseT
	})
	reg(vm+"swapAny", func(c *callCtx, a []Value) Value {
		s := a[0].(Iface).v.(SliceV)
		i, j := c.m.concretize(a[1].(*Term)), c.m.concretize(a[2].(*Term))
		x, y := copyVal(s[i]), copyVal(s[j])
		storeInto(&s[i], y)
		storeInto(&s[j], x)
		return nil
	})
	reg(vm+"lenAny", func(c *callCtx, a []Value) Value {
		s := a[0].(Iface).v.(SliceV)
		return mkInt(len(s))
	})
	reg(vm+"sideGet", func(c *callCtx, a []Value) Value {
		p := a[0].(Iface).v
		if v, ok := c.m.side[p]; ok {
			return v
		}
		return nilIface
	})
	reg(vm+"sideSet", func(c *callCtx, a []Value) Value {
		c.m.side[a[0].(Iface).v] = a[1]
		return nil
	})
	reg(vm+"typeName", func(c *callCtx, a []Value) Value {
		f := a[0].(Iface)
		if f.t == nil {
			return mkStr("<nil>")
		}
		return mkStr(f.t.String())
	})
	reg(vm+"nativeSprintf", func(c *callCtx, a []Value) Value { return c.m.nativeSprintf(cstr(a[0]), a[1].(SliceV)) })
	reg(vm+"unsupported", func(c *callCtx, a []Value) Value { panic(unsup("%s", cstr(a[0]))) })
	reg(vm+"nowNanos", func(c *callCtx, a []Value) Value { return c.m.clock })
	reg(vm+"addTimer", func(c *callCtx, a []Value) Value {
		// addTimer(d, period int64, f func()) int
		m := c.m
		d := int64(m.concretize(a[0].(*Term)))
		if d < 0 {
			d = 0
		}
		p := int64(m.concretize(a[1].(*Term)))
		f := a[2].(*Closure)
		t := &timer{at: m.tb.Bin(oAdd, m.clock, mkInt(int(d))), period: p, active: true, seq: len(m.timers)}
		if t.at.op != oConst {
			panic(unsup("timer on a symbolic clock"))
		}
		t.fire = func() {
			g := m.newG(f, nil)
			g.what = "timer"
			g.atomic = 1
		}
		if c.g.lid >= 0 && m.initMode == 0 && m.atomicAll == 0 && m.instrCtx(c.g) {
			m.sched = append(m.sched, c.g.lid)
			m.schedTag = append(m.schedTag, "newtimer")
			m.ntimer++
			t.nk = m.ntimer
		}
		if m.race != nil {
			t.vc = append(VC{}, c.g.vc...)
			c.g.vc.tick(c.g.id)
		}
		m.timers = append(m.timers, t)
		return mkInt(t.seq)
	})
	reg(vm+"stopTimer", func(c *callCtx, a []Value) Value {
		t := c.m.timers[int(a[0].(*Term).val)]
		was := t.active
		t.active = false
		return mkBool(was)
	})
	reg(vm+"resetTimer", func(c *callCtx, a []Value) Value {
		t := c.m.timers[int(a[0].(*Term).val)]
		was := t.active
		d := int64(c.m.concretize(a[1].(*Term)))
		t.at = c.m.tb.Bin(oAdd, c.m.clock, mkInt(int(d)))
		if t.period > 0 {
			t.period = d
		}
		t.active = true
		return mkBool(was)
	})
}

func (m *Machine) xxh(s *Str) *Term {
	if m.H.HashSym && (m.H.HashOnly == "" || s.sym == nil && strings.HasPrefix(s.s, m.H.HashOnly)) {
		// uninterpreted: functional consistency through the per-path table
		if s.sym != nil {
			panic(unsup("hash of symbolic string in uninterpreted mode"))
		}
		if t := m.hashTab[s.s]; t != nil {
			return t
		}
		t := m.freshVar(fmt.Sprintf("xxh.%x", s.s), 64)
		m.hashTab[s.s] = t
		m.nondets = append(m.nondets, nondetRec{key: "hash:" + s.s, kind: "hash", t: t, isT: true})
		return t
	}
	if s.sym != nil {
		panic(unsup("xxhash of symbolic string"))
	}
	if m.H.HashClust {
		if t := m.hashTab[s.s]; t != nil {
			return t
		}
		var v uint64
		for i := 0; i < 8; i++ {
			v <<= 8
			if i < len(s.s) {
				v |= uint64(s.s[i])
			}
		}
		t := mkConst(64, v)
		m.hashTab[s.s] = t
		m.nondets = append(m.nondets, nondetRec{key: "hash:" + s.s, kind: "hash", t: t, isT: true})
		return t
	}
	return mkConst(64, xxhash.Sum64String(s.s))
}

type obsRec struct {
	label string
	v     Iface
}

func (m *Machine) observe(label string, f Iface) {
	m.obs = append(m.obs, "")
	i := len(m.obs) - 1
	l, _ := m.side["obs"].([]obsRec)
	m.side["obs"] = append(l, obsRec{label, f})
	_ = i
}

func (m *Machine) fmtObs(md Model) []string {
	l, _ := m.side["obs"].([]obsRec)
	var out []string
	for _, o := range l {
		out = append(out, o.label+"="+m.natStr(o.v, md))
	}
	return out
}

func (m *Machine) natStr(f Iface, md Model) string {
	if f.t == nil {
		return "<nil>"
	}
	switch x := f.v.(type) {
	case *Term:
		v := m.tb.eval(x, md)
		_, sgn, _ := typeSort(f.t)
		switch {
		case x.sort == sBool:
			return fmt.Sprint(v != 0)
		case x.sort.isFP():
			return fmt.Sprintf("%x", v)
		case sgn:
			return fmt.Sprint(signExt(v, x.sort))
		}
		return fmt.Sprint(v)
	case *Str:
		b := make([]byte, x.Len())
		for i := range b {
			b[i] = byte(m.tb.eval(x.at(i), md))
		}
		return fmt.Sprintf("%q", b)
	}
	return "?"
}

// nativeSprintf formats with the real fmt; symbolic pieces are spliced in afterwards.
func (m *Machine) nativeSprintf(format string, args SliceV) Value {
	var nat []any
	repl := map[string]*Str{}
	for i, a := range args {
		f := a.(Iface)
		if f.t == nil {
			nat = append(nat, nil)
			continue
		}
		switch x := f.v.(type) {
		case *Str:
			if x.sym == nil {
				nat = append(nat, x.s)
			} else {
				ph := fmt.Sprintf("\x00S%d\x00", i)
				repl[ph] = x
				nat = append(nat, ph)
			}
		case *Term:
			if x.op != oConst {
				if x.sort == 64 && strings.Contains(format, "%016x") {
					ph := fmt.Sprintf("\x00S%d\x00", i)
					repl[ph] = m.hex16(x)
					nat = append(nat, symText(ph))
				} else {
					nat = append(nat, symPlaceholder{})
				}
				continue
			}
			s, sgn, _ := typeSort(f.t)
			switch {
			case s == sBool:
				nat = append(nat, x.val != 0)
			case s == sF64:
				nat = append(nat, math.Float64frombits(x.val))
			case s == sF32:
				nat = append(nat, math.Float32frombits(uint32(x.val)))
			case s == 8 && !sgn:
				nat = append(nat, byte(x.val))
			case s == 32 && sgn:
				nat = append(nat, int32(x.val))
			case sgn:
				nat = append(nat, x.sval())
			default:
				nat = append(nat, x.val)
			}
		case SliceV:
			if len(x) > 0 {
				if t, ok := x[0].(*Term); ok && t.sort == 8 {
					s := strFrom(bytesOf(x))
					if s.sym == nil {
						nat = append(nat, []byte(s.s))
						continue
					}
				}
			}
			nat = append(nat, opaque{f.t.String()})
		default:
			nat = append(nat, opaque{f.t.String()})
		}
	}
	out := fmt.Sprintf(strings.ReplaceAll(format, "%w", "%v"), nat...)
	if len(repl) == 0 {
		return mkStr(out)
	}
	res := emptyStr
	for out != "" {
		i := strings.IndexByte(out, 0)
		if i < 0 {
			res = strCat(res, mkStr(out))
			break
		}
		j := strings.IndexByte(out[i+1:], 0)
		if j < 0 {
			res = strCat(res, mkStr(out))
			break
		}
		if r := repl[out[i:i+j+2]]; r != nil {
			res = strCat(strCat(res, mkStr(out[:i])), r)
			out = out[i+j+2:]
		} else {
			res = strCat(res, mkStr(out[:i+1]))
			out = out[i+1:]
		}
	}
	return res
}

type symPlaceholder struct{}

func (symPlaceholder) Format(s fmt.State, v rune) { s.Write([]byte("<sym>")) }

type opaque struct{ t string }

func (o opaque) Format(s fmt.State, v rune) { s.Write([]byte("<" + o.t + ">")) }

type symText string

func (t symText) Format(s fmt.State, v rune) { s.Write([]byte(string(t))) }

// hex16 renders a symbolic 64-bit value as 16 symbolic hexadecimal digits.
func (m *Machine) hex16(x *Term) *Str {
	bs := make([]*Term, 16)
	for i := range bs {
		var n8 *Term
		if i == 0 {
			n8 = m.tb.Bin(oLShr, m.tb.Extract(x, 56, 8), mkConst(8, 4))
		} else {
			n8 = m.tb.Bin(oBAnd, m.tb.Extract(x, uint8(60-4*i), 8), mkConst(8, 15))
		}
		bs[i] = m.tb.Ite(m.tb.Bin(oUlt, n8, mkConst(8, 10)), m.tb.Bin(oAdd, n8, mkConst(8, '0')), m.tb.Bin(oAdd, n8, mkConst(8, 'a'-10)))
	}
	m.side[bs[0]] = x
	return &Str{sym: bs}
}
