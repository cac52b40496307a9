package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path.
type Dec struct {
	t uint8 // 0/1 branch false/true (forked), 2/3 implied false/true, 4 choice, 5 assert implied, 6 assert failed-then-assumed
	v uint64
}

type pathEnd struct{ why string } // infeasible / assumption failed / bound
type boundErr struct{ why string }

type deferCall struct {
	fn   Value
	bi   *ssa.Builtin
	args []Value
	inv  *ssa.CallCommon
}

type panicState struct {
	val       Value // Iface
	recovered bool
	msg       string
	stack     string
}

type Frame struct {
	fn      *ssa.Function
	info    *fnInfo
	regs    []Value
	block   int
	prev    int
	pc      int
	defers  []deferCall
	retDst  int32
	pan     *panicState
	isDefer bool          // called by the caller's defer machinery
	onRet   func(v Value) // engine continuation
	visits  map[int]int
}

type gstatus uint8

const (
	gRun gstatus = iota
	gBlocked
	gDone
)

type G struct {
	id       int
	lid      int // replay identity; -1 when not created by instrumented code
	frames   []*Frame
	st       gstatus
	ready    func() bool // when blocked
	granted  bool
	lineage  uint64 // name of the goroutine, the same in every execution
	children int
	vc       VC
	atomic   int // >0: no schedule points
	waits    []waitCase
	wres     func(caseIdx int, v Value, ok bool)
	daemon   bool
	what     string
}

type waitCase struct {
	ch   *ChanV
	send bool
	val  Value
}

type status uint8

const (
	stNext status = iota
	stJump        // pc already set
	stBlock
	stYield
	stReal // interpret the real body
)

// Violation is a counterexample found on a path.
type Violation struct {
	Kind     string // assert / panic / deadlock / race / leak
	Label    string
	Detail   string
	Model    Model
	Nondet   []NondetVal
	Sched    []int
	SchedTag []string
	KF       string
	Stack    string
}

type NondetVal struct {
	Key  string
	Kind string
	Val  uint64
	Str  []byte
}

type nondetRec struct {
	key  string
	kind string
	t    *Term
	str  *Str
	val  uint64
	isT  bool
}

type PathResult struct {
	Status   string // ok, assumed, bound, unsupported
	Why      string
	Viols    []*Violation
	Known    []*Violation
	Obs      []string
	Nondet   []NondetVal
	Reached  map[string]bool
	Steps    int64
	Sched    []int
	SchedTag []string
	nsched   int
}

// Machine executes one path at a time.
type Machine struct {
	P   *Program
	H   *HarnessCfg
	tb  *TB
	sol *Solver
	st  *SolverStats

	// per path
	prefix    []Dec
	decs      []Dec
	pc        []*Term
	lits      map[*Term]bool
	model     Model
	vars      []*Term
	nondets   []nondetRec
	nkeys     map[string]int
	gs        []*G
	cur       *G
	globals   map[*ssa.Global]*Value
	initSt    map[*ssa.Package]int
	steps     int64
	por       *porPath
	settling  bool
	porNext   *porPath
	side      map[any]any // per-path side tables for sync objects
	preempt   int
	sched     []int
	schedTag  []string
	nsched    int
	res       *PathResult
	obs       []string
	clock     *Term // virtual nanoseconds
	timers    []*timer
	initMode  int
	race      *raceState
	chanSeq   int
	autoSeq   int
	hashTab   map[string]*Term
	nlid      int
	ntimer    int
	forks     []workItem
	covered   map[string]bool // repo functions executed
	atomicAll int
	jsons     []*jnode
	mapNond   bool
	recording bool
	curG0     *G

	// per worker persistent
	stdGlobals              map[*ssa.Global]*Value
	stdInit                 map[*ssa.Package]int
	fnSeen                  map[string]int64
	uncheckedUnknown        int64
	nAssert, nAssertTrivial int64
	ndecs                   int64
	nImplied                int64
	methCache               map[methKey]*ssa.Function
}

type methKey struct {
	t types.Type
	m *types.Func
}

func newMachine(P *Program, H *HarnessCfg) *Machine {
	m := &Machine{P: P, H: H, tb: newTB(), st: &SolverStats{}}
	m.sol = newSolver(H.solver(), H.QueryMs, m.st)
	m.stdGlobals = map[*ssa.Global]*Value{}
	m.stdInit = map[*ssa.Package]int{}
	m.fnSeen = map[string]int64{}
	m.methCache = map[methKey]*ssa.Function{}
	return m
}

func (m *Machine) reset(w workItem) {
	if m.tb.next > 2_000_000 {
		// drop the term table; std globals hold only constants
		m.tb = newTB()
		m.sol.close()
		m.sol.start()
	}
	m.prefix = w.decs
	m.decs = append(m.decs[:0], nil...)
	m.pc = nil
	m.lits = nil
	m.model = w.model
	if m.model == nil {
		m.model = Model{}
	}
	m.tb.gen++
	m.vars = nil
	m.nondets = nil
	m.nkeys = map[string]int{}
	m.gs = nil
	m.cur = nil
	m.globals = map[*ssa.Global]*Value{}
	m.initSt = map[*ssa.Package]int{}
	m.steps = 0
	m.side = map[any]any{}
	m.preempt = m.H.Preempt
	m.sched = nil
	m.schedTag = nil
	m.nsched = 0
	m.obs = nil
	m.clock = mkInt(0)
	m.timers = nil
	m.initMode = 0
	m.chanSeq = 0
	m.autoSeq = 0
	m.nlid, m.ntimer = 0, 0
	m.hashTab = map[string]*Term{}
	m.forks = nil
	m.atomicAll = 0
	m.jsons = nil
	m.mapNond = m.H.MapNondet
	m.race = nil
	m.por = nil
	m.settling = false
	if m.H.Race {
		m.race = newRaceState()
		m.por = m.porNext
	}
	m.res = &PathResult{Reached: map[string]bool{}}
}

// runPath executes the harness once along the prefix.
func (m *Machine) runPath(w workItem) (res *PathResult, forks []workItem) {
	m.reset(w)
	res = m.res
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case pathEnd:
				res.Status, res.Why = "assumed", e.why
			case boundErr:
				res.Status, res.Why = "bound", e.why
			case unsupErr:
				res.Status, res.Why = "unsupported", e.msg+m.where()
			case stopPath:
				res.Status = "ok"
			default:
				if m.H.Debug {
					panic(r)
				}
				res.Status, res.Why = "unsupported", fmt.Sprintf("engine: %v%s", r, m.where())
			}
		}
		res.Steps = m.steps
		res.Sched, res.SchedTag = m.sched, m.schedTag
		res.nsched = m.nsched
		if res.Status == "ok" && m.recording {
			res.Nondet = m.nondetVals(m.model)
			res.Obs = m.fmtObs(m.model)
		}
		forks = m.forks
	}()
	fn := m.P.harness[m.H.Pkg].Func(m.H.Func)
	if fn == nil {
		panic(unsup("harness func %s not found", m.H.Func))
	}
	g := m.newG(&Closure{fn: fn}, nil)
	g.what = "main"
	m.curG0 = g
	m.loop()
	res.Status = "ok"
	return
}

type stopPath struct{}

func (m *Machine) where() string {
	if m.cur == nil {
		return ""
	}
	return m.gstack(m.cur)
}

func (m *Machine) gstack(g *G) string {
	var sb strings.Builder
	for i := len(g.frames) - 1; i >= 0 && i > len(g.frames)-9; i-- {
		f := g.frames[i]
		sb.WriteString(" < " + f.fn.String())
		if f.info != nil && f.block < len(f.info.blocks) && f.pc < len(f.info.blocks[f.block].ins) {
			pos := m.P.prog.Fset.Position(f.info.blocks[f.block].ins[f.pc].in.Pos())
			if pos.IsValid() {
				fmt.Fprintf(&sb, "(%s:%d)", shortFile(pos.Filename), pos.Line)
			}
		}
	}
	return sb.String()
}

func shortFile(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// ---- decisions ----

func (m *Machine) setModel(md Model) {
	for k, v := range m.model {
		if _, ok := md[k]; !ok {
			md[k] = v
		}
	}
	m.model = md
	m.tb.gen++
}

func (m *Machine) inPrefix() bool { return len(m.decs) < len(m.prefix) }

func (m *Machine) nextDec() Dec {
	d := m.prefix[len(m.decs)]
	m.decs = append(m.decs, d)
	return d
}

func (m *Machine) assertPC(t *Term) {
	if t.isTrue() {
		return
	}
	m.pc = append(m.pc, t)
	m.learn(t, true)
}

// learn remembers a literal of the path condition, so that meeting it again needs no query.
func (m *Machine) learn(t *Term, v bool) {
	if m.lits == nil {
		m.lits = map[*Term]bool{}
	}
	for t.op == oNot {
		t, v = t.a[0], !v
	}
	if t.op == oAnd && v || t.op == oOr && !v {
		m.learn(t.a[0], v)
		m.learn(t.a[1], v)
		return
	}
	m.lits[t] = v
}

// known reports the value of a literal already decided on this path.
func (m *Machine) known(t *Term) (v, ok bool) {
	neg := false
	for t.op == oNot {
		t, neg = t.a[0], !neg
	}
	v, ok = m.lits[t]
	return v != neg, ok
}

func (m *Machine) fork(d Dec, md Model) {
	if md != nil {
		for k, v := range m.model {
			if _, ok := md[k]; !ok {
				md[k] = v
			}
		}
	} else {
		md = m.model
	}
	nd := make([]Dec, len(m.decs)+1)
	copy(nd, m.decs)
	nd[len(m.decs)] = d
	m.forks = append(m.forks, workItem{decs: nd, model: md})
}

// branch decides a boolean term, forking when both outcomes are feasible.
func (m *Machine) branch(c *Term) bool {
	if c.op == oConst {
		return c.val != 0
	}
	if m.initMode > 0 {
		panic(unsup("symbolic branch in package initialisation"))
	}
	if v, ok := m.known(c); ok {
		return v
	}
	if m.inPrefix() {
		d := m.nextDec()
		switch d.t {
		case 0:
			m.assertPC(m.tb.Not(c))
			return false
		case 1:
			m.assertPC(c)
			return true
		case 2:
			return false
		case 3:
			return true
		}
		panic(fmt.Sprintf("decision desync: branch got %d at %d/%d", d.t, len(m.decs), len(m.prefix)))
	}
	v := m.tb.eval(c, m.model) != 0
	side := c
	if v {
		side = m.tb.Not(c)
	}
	m.ndecs++
	if len(m.decs) > m.H.MaxDecs {
		panic(boundErr{"decision depth"})
	}
	r, md := m.sol.check(m.pc, side, m.vars)
	switch r {
	case rUnsat:
		m.nImplied++
		m.decs = append(m.decs, Dec{t: 2 + uint8(b2u(v))})
		return v
	case rUnknown:
		m.uncheckedUnknown++
		m.decs = append(m.decs, Dec{t: uint8(b2u(v))})
		m.assertPC(m.tb.Not(side))
		return v
	}
	m.fork(Dec{t: uint8(b2u(!v))}, md)
	m.decs = append(m.decs, Dec{t: uint8(b2u(v))})
	m.assertPC(m.tb.Not(side))
	return v
}

// choose picks 0..n-1 nondeterministically (scheduling and other finite choices).
func (m *Machine) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if m.inPrefix() {
		d := m.nextDec()
		if d.t != 4 {
			panic("decision desync: choose")
		}
		return int(d.v)
	}
	m.ndecs++
	if len(m.decs) > m.H.MaxDecs {
		panic(boundErr{"decision depth"})
	}
	for i := n - 1; i >= 1; i-- {
		m.fork(Dec{t: 4, v: uint64(i)}, nil)
	}
	m.decs = append(m.decs, Dec{t: 4, v: 0})
	return 0
}

func (m *Machine) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"assume"})
	}
	if m.tb.eval(c, m.model) != 0 {
		m.assertPC(c)
		return
	}
	r, md := m.sol.check(m.pc, c, m.vars)
	if r != rSat {
		if r == rUnknown {
			m.uncheckedUnknown++
		}
		panic(pathEnd{"assume"})
	}
	m.setModel(md)
	m.assertPC(c)
}

func (m *Machine) assertT(c *Term, label, kf string, kfc *Term) {
	if m.inPrefix() {
		d := m.nextDec()
		switch d.t {
		case 5:
			return
		case 6:
			m.assertPC(c)
			return
		}
		panic("decision desync: assert")
	}
	m.nAssert++
	if c.isTrue() {
		m.nAssertTrivial++
		m.decs = append(m.decs, Dec{t: 5})
		return
	}
	neg := m.tb.Not(c)
	if kf != "" && kfc != nil && !kfc.isFalse() {
		// a listed finding: record it, then exclude it
		both := m.tb.And(neg, kfc)
		md := m.model
		r := rSat
		if both.isFalse() {
			r = rUnsat
		} else if m.tb.eval(both, md) == 0 {
			r, md = m.sol.check(m.pc, both, m.vars)
		}
		if r == rSat {
			v := m.violation("assert", label, "", md)
			v.KF = kf
			m.res.Known = append(m.res.Known, v)
		}
		neg = m.tb.And(neg, m.tb.Not(kfc))
	}
	failed := false
	if !neg.isFalse() {
		if m.tb.eval(neg, m.model) != 0 {
			failed = true
			m.res.Viols = append(m.res.Viols, m.violation("assert", label, "", m.model))
		} else {
			r, md := m.sol.check(m.pc, neg, m.vars)
			if r == rSat {
				failed = true
				m.res.Viols = append(m.res.Viols, m.violation("assert", label, "", md))
			} else if r == rUnknown {
				m.uncheckedUnknown++
			}
		}
	}
	if failed || kf != "" {
		if c.isFalse() {
			panic(stopPath{})
		}
		// continue under c when feasible
		if m.tb.eval(c, m.model) == 0 {
			r, md := m.sol.check(m.pc, c, m.vars)
			if r != rSat {
				panic(stopPath{})
			}
			m.setModel(md)
		}
		m.decs = append(m.decs, Dec{t: 6})
		m.assertPC(c)
		return
	}
	m.decs = append(m.decs, Dec{t: 5})
}

func (m *Machine) violation(kind, label, detail string, md Model) *Violation {
	v := &Violation{Kind: kind, Label: label, Detail: detail, Model: md}
	m.tb.gen++
	v.Nondet = m.nondetVals(md)
	m.tb.gen++
	v.Sched = append([]int{}, m.sched...)
	v.SchedTag = append([]string{}, m.schedTag...)
	v.Stack = m.where()
	return v
}

func (m *Machine) nondetVals(md Model) []NondetVal {
	var out []NondetVal
	m.tb.gen++
	for _, r := range m.nondets {
		nv := NondetVal{Key: r.key, Kind: r.kind}
		switch {
		case r.str != nil:
			b := make([]byte, r.str.Len())
			for i := range b {
				b[i] = byte(m.tb.eval(r.str.at(i), md))
			}
			nv.Str = []byte(string(b))
		case r.isT:
			nv.Val = m.tb.eval(r.t, md)
		default:
			nv.Val = r.val
		}
		out = append(out, nv)
	}
	m.tb.gen++
	return out
}

// concretize forks until t has a single value on this path.
func (m *Machine) concretize(t *Term) uint64 {
	if t.op == oConst {
		return t.val
	}
	if t.sort == sBool {
		return b2u(m.branch(t))
	}
	for i := 0; ; i++ {
		if i > 4096 {
			panic(boundErr{"concretize"})
		}
		var v uint64
		if m.inPrefix() {
			d := m.nextDec()
			if d.t != 4 {
				panic("decision desync: concretize")
			}
			v = d.v
		} else {
			v = m.tb.eval(t, m.model)
			m.decs = append(m.decs, Dec{t: 4, v: v})
		}
		if m.branch(m.tb.Eq(t, mkConst(t.sort, v))) {
			return v
		}
	}
}

// ---- nondeterministic inputs ----

func (m *Machine) key(name string) string {
	// keyed per goroutine, so that replay does not depend on who asks first
	if m.cur != nil && m.cur.lid > 0 {
		name = fmt.Sprintf("%s@%d", name, m.cur.lid)
	}
	n := m.nkeys[name]
	m.nkeys[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

func (m *Machine) freshVar(name string, s Sort) *Term {
	v := m.tb.Var(name, s)
	m.vars = append(m.vars, v)
	return v
}

func (m *Machine) nondet(name, kind string, s Sort) *Term {
	k := m.key(name)
	t := m.freshVar(k, s)
	m.nondets = append(m.nondets, nondetRec{key: k, kind: kind, t: t, isT: true})
	return t
}

func (m *Machine) nondetChoice(name string, n int) int {
	k := m.key(name)
	t := m.freshVar(k, 32)
	// finite choice: solved by forking on a symbolic variable
	v := m.choose(n, name)
	m.assertPC(m.tb.Eq(t, mkConst(32, uint64(v))))
	m.model = cloneModel(m.model)
	m.model[t.name] = uint64(v)
	m.tb.gen++
	m.nondets = append(m.nondets, nondetRec{key: k, kind: "choice", val: uint64(v)})
	return v
}

func cloneModel(a Model) Model {
	b := make(Model, len(a)+1)
	for k, v := range a {
		b[k] = v
	}
	return b
}

// ---- package initialisation on demand ----

func (m *Machine) perPath(p *ssa.Package) bool {
	pp := p.Pkg.Path()
	return strings.HasPrefix(pp, repoMod)
}

func (m *Machine) globalAddr(gl *ssa.Global) *Value {
	pk := gl.Pkg
	gm, is := m.stdGlobals, m.stdInit
	if m.perPath(pk) {
		gm, is = m.globals, m.initSt
	}
	if is[pk] == 0 {
		is[pk] = 1
		m.P.buildPkg(pk)
		for _, mem := range pk.Members {
			if g2, ok := mem.(*ssa.Global); ok {
				p := new(Value)
				*p = m.zeroGlobal(g2)
				gm[g2] = p
			}
		}
		if fn := pk.Func("init"); fn != nil && !skipInit[pk.Pkg.Path()] {
			m.runInit(fn)
		}
		is[pk] = 2
	}
	if p := gm[gl]; p != nil {
		return p
	}
	p := new(Value)
	*p = zero(gl.Type().Underlying().(*types.Pointer).Elem())
	gm[gl] = p
	return p
}

func (m *Machine) zeroGlobal(g *ssa.Global) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			v = Poison{fmt.Sprint(r)}
		}
	}()
	return zero(g.Type().Underlying().(*types.Pointer).Elem())
}

var skipInit = map[string]bool{"runtime": true, "internal/godebug": true, "internal/cpu": true, "internal/goos": true, "os": false, "internal/testlog": true, "vendor/golang.org/x/sys/cpu": true, "golang.org/x/sys/cpu": true, "crypto/internal/fips140/check": true}

func (m *Machine) runInit(fn *ssa.Function) {
	saved, savedSteps := m.cur, m.steps
	m.initMode++
	m.atomicAll++
	g := &G{id: -1, vc: nil}
	m.cur = g
	m.pushCall(g, &Closure{fn: fn}, nil, -1)
	base := g.frames[0]
	limit := m.steps + 30_000_000
	for len(g.frames) > 0 {
		ok := m.tryStepInit(g, base)
		if !ok {
			// poison the destination of the failing instruction of the init frame
			if len(g.frames) == 0 {
				break
			}
			base.pan = nil
			if len(g.frames) > 1 { // inside a call: the caller already advanced
				if d := g.frames[1].retDst; d >= 0 {
					base.regs[d] = Poison{"init of " + fn.Pkg.Pkg.Path()}
				}
				g.frames = g.frames[:1]
				continue
			}
			ci := &base.info.blocks[base.block].ins[base.pc]
			switch ci.in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
				g.frames = nil
			default:
				if ci.dst >= 0 {
					base.regs[ci.dst] = Poison{"init of " + fn.Pkg.Pkg.Path()}
				}
				base.pc++
			}
		}
		if m.steps > limit {
			break
		}
	}
	m.initMode--
	m.atomicAll--
	m.cur, m.steps = saved, savedSteps
}

func (m *Machine) tryStepInit(g *G, base *Frame) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if m.H.Debug && m.H.Verbose > 1 {
				fmt.Println("init poison:", r, m.gstack(g))
			}
			ok = false
		}
	}()
	for i := 0; i < 100000 && len(g.frames) > 0; i++ {
		// advance pc semantics: a called frame has already advanced the caller; remember
		st := m.step(g)
		if st == stBlock {
			panic(unsup("block in init"))
		}
	}
	return true
}

// ---- goroutines and scheduling ----

func (m *Machine) newG(fn Value, args []Value) *G {
	g := &G{id: len(m.gs), lid: -1}
	if len(m.gs) == 0 {
		g.lid = 0
		m.nlid = 1
	} else if m.cur != nil && m.cur.lid >= 0 && m.instrTop(m.cur) {
		g.lid = m.nlid
		m.nlid++
		m.logOp(m.cur, "go")
	}
	g.lineage = 1
	if m.cur != nil {
		m.cur.children++
		g.lineage = mix(m.cur.lineage, uint64(m.cur.children)<<32)
	}
	m.gs = append(m.gs, g)
	if m.race != nil {
		g.vc = make(VC, g.id+1)
		if m.cur != nil {
			g.vc.join(m.cur.vc)
			m.cur.vc.tick(m.cur.id)
		}
		g.vc.tick(g.id)
	}
	m.pushCall(g, fn, args, -1)
	return g
}

func (m *Machine) enabled() []*G {
	var out []*G
	for _, g := range m.gs {
		if g.st == gRun || (g.st == gBlocked && g.ready != nil && g.ready()) {
			out = append(out, g)
		}
	}
	return out
}

func (m *Machine) resume(g *G) {
	if g.st == gBlocked {
		g.st = gRun
		g.ready = nil
		g.waits = nil
	}
	m.cur = g
}

// pick selects the next goroutine to run; curRunnable tells whether the current one may continue.
func (m *Machine) pick(curRunnable bool) bool {
	for {
		en := m.enabled()
		if len(en) == 0 {
			if m.fireTimer() {
				continue
			}
			return false
		}
		i := 0
		if curRunnable {
			for j, g := range en {
				if g == m.cur {
					copy(en[1:j+1], en[:j])
					en[0] = g
					break
				}
			}
			if m.preempt > 0 && len(en) > 1 && !m.settling {
				i = m.choose(len(en), "sched")
				if i != 0 {
					m.preempt--
				}
			}
		} else if len(en) > 1 && !m.H.FreeFirst && !m.settling {
			i = m.choose(len(en), "sched")
		}
		m.nsched++
		m.resume(en[i])
		m.cur.granted = true
		return true
	}
}

// logOp records that g executed a schedule-visible operation (the replay trace).
// Only operations of instrumented code, by goroutines instrumented code created, are recorded.
func (m *Machine) logOp(g *G, tag string) {
	if m.initMode > 0 || m.atomicAll > 0 || g.lid < 0 || !m.instrTop(g) {
		return
	}
	m.sched = append(m.sched, g.lid)
	m.schedTag = append(m.schedTag, tag)
}

// instrTop: the innermost frame outside the library models belongs to instrumented code.
func (m *Machine) instrTop(g *G) bool {
	for i := len(g.frames) - 1; i >= 0; i-- {
		fi := g.frames[i].info
		if fi.vmodel {
			continue
		}
		return fi.instr
	}
	return false
}

// instrCtx is instrTop seeing through package context, whose deadline timers replay controls.
func (m *Machine) instrCtx(g *G) bool {
	for i := len(g.frames) - 1; i >= 0; i-- {
		fi := g.frames[i].info
		if fi.vmodel || strings.HasPrefix(fi.name, "context.") || strings.HasPrefix(fi.name, "(*context.") {
			continue
		}
		return fi.instr
	}
	return false
}

func (m *Machine) loop() {
	m.cur = m.gs[0]
	main := m.gs[0]
	main.granted = false
	for {
		g := m.cur
		st := m.step(g)
		switch st {
		case stYield:
			m.pick(true)
		case stBlock:
			g.st = gBlocked
			if !m.pick(false) {
				m.deadlock()
				return
			}
		}
		if len(g.frames) == 0 && g.st != gDone {
			g.st = gDone
			if g == main {
				return
			}
			if !m.pick(false) {
				m.deadlock()
				return
			}
		}
	}
}

func (m *Machine) deadlock() {
	var sb strings.Builder
	for _, g := range m.gs {
		if g.st != gDone {
			fmt.Fprintf(&sb, "g%d(%s)%s; ", g.id, g.what, m.gstack(g))
		}
	}
	m.cur = m.gs[0]
	m.res.Viols = append(m.res.Viols, m.violation("deadlock", "deadlock", sb.String(), m.model))
}

func sortedKeys[V any](mp map[string]V) []string {
	var ks []string
	for k := range mp {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
