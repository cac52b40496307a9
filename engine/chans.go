package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// VC is a vector clock used by the happens-before race detector.
type VC []int32

func (v *VC) grow(n int) {
	for len(*v) < n {
		*v = append(*v, 0)
	}
}
func (v *VC) join(o VC) {
	v.grow(len(o))
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}
func (v *VC) tick(i int) {
	v.grow(i + 1)
	(*v)[i]++
}
func (v VC) clone() VC { return append(VC{}, v...) }
func (v VC) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type epoch struct {
	g int
	c int32
	w string
}
type shadow struct {
	w     epoch
	hasW  bool
	reads map[int]epoch
}
type raceState struct {
	mem  map[*Value]*shadow
	seen map[string]bool
}

func newRaceState() *raceState {
	return &raceState{mem: map[*Value]*shadow{}, seen: map[string]bool{}}
}

func (r *raceState) skip(m *Machine) bool {
	if m.initMode > 0 || m.cur == nil || len(m.gs) < 2 {
		// single-threaded prefix: accesses happen-before every later go statement
		return true
	}
	g := m.cur
	return len(g.frames) == 0 || !g.frames[len(g.frames)-1].info.instr && g.frames[len(g.frames)-1].info.intr == nil && !raceLib[pkgPathOf(g.frames[len(g.frames)-1].fn)]
}

// library packages whose memory accesses are attributed to the caller
var raceLib = map[string]bool{"slices": true, "maps": true, "sort": true, "container/list": true, "container/heap": true}

func (m *Machine) site(g *G) string {
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		if f.info.repo && f.block < len(f.info.blocks) && f.pc < len(f.info.blocks[f.block].ins) {
			pos := m.P.prog.Fset.Position(f.info.blocks[f.block].ins[f.pc].in.Pos())
			return fmt.Sprintf("%s(%s:%d)", f.fn.Name(), shortFile(pos.Filename), pos.Line)
		}
	}
	if len(g.frames) > 0 {
		return g.frames[len(g.frames)-1].fn.Name()
	}
	return "?"
}

func (r *raceState) get(p *Value) *shadow {
	s := r.mem[p]
	if s == nil {
		s = &shadow{}
		r.mem[p] = s
	}
	return s
}

func (r *raceState) report(m *Machine, kind string, a epoch) {
	if m.inPrefix() {
		// already reported by the parent path
	}
	v := m.violation("race", "data race", fmt.Sprintf("%s at %s races with g%d at %s", kind, m.site(m.cur), a.g, a.w), m.model)
	m.res.Viols = append(m.res.Viols, v)
	panic(stopPath{})
}

func (r *raceState) read(m *Machine, p *Value) {
	if r.skip(m) {
		return
	}
	g := m.cur
	s := r.get(p)
	if s.hasW && s.w.g != g.id && g.vc.at(s.w.g) < s.w.c {
		r.report(m, "read", s.w)
	}
	if s.reads == nil {
		s.reads = map[int]epoch{}
	}
	s.reads[g.id] = epoch{g.id, g.vc.at(g.id), m.site(g)}
}

func (r *raceState) write(m *Machine, p *Value) {
	if r.skip(m) {
		return
	}
	g := m.cur
	s := r.get(p)
	if s.hasW && s.w.g != g.id && g.vc.at(s.w.g) < s.w.c {
		r.report(m, "write", s.w)
	}
	for _, e := range s.reads {
		if e.g != g.id && g.vc.at(e.g) < e.c {
			r.report(m, "write", e)
		}
	}
	s.w = epoch{g.id, g.vc.at(g.id), m.site(g)}
	s.hasW = true
	s.reads = nil
}

// acquire/release on a sync object's clock
func (m *Machine) acq(vc *VC) {
	if m.race != nil && m.cur.id >= 0 {
		m.cur.vc.join(*vc)
	}
}
func (m *Machine) rel(vc *VC) {
	if m.race != nil && m.cur.id >= 0 {
		vc.join(m.cur.vc)
		m.cur.vc.tick(m.cur.id)
	}
}

// ---- channels ----

// partner finds a parked goroutine waiting on the complementary side of ch.
func (m *Machine) partner(ch *ChanV, wantSend bool, self *G) (*G, int) {
	for _, g := range m.gs {
		if g == self || g.st != gBlocked {
			continue
		}
		for i, w := range g.waits {
			if w.ch == ch && w.send == wantSend {
				return g, i
			}
		}
	}
	return nil, 0
}

func (m *Machine) canSend(ch *ChanV, self *G) bool {
	if ch == nil {
		return false
	}
	if ch.closed || len(ch.buf) < ch.cap {
		return true
	}
	if ch.cap == 0 {
		p, _ := m.partner(ch, false, self)
		return p != nil
	}
	return false
}

func (m *Machine) canRecv(ch *ChanV, self *G) bool {
	if ch == nil {
		return false
	}
	if len(ch.buf) > 0 || ch.closed {
		return true
	}
	if ch.cap == 0 {
		p, _ := m.partner(ch, true, self)
		return p != nil
	}
	return false
}

func (m *Machine) doSend(ch *ChanV, v Value) {
	if ch.closed {
		panic(goPanic{val: Iface{t: m.P.rtErrorString, v: mkStr("send on closed channel")}, msg: "send on closed channel"})
	}
	if ch.cap == 0 {
		p, i := m.partner(ch, false, m.cur)
		if p == nil {
			panic("doSend without partner")
		}
		if m.race != nil {
			var t VC
			t.join(m.cur.vc)
			m.cur.vc.join(p.vc)
			p.vc.join(t)
			m.cur.vc.tick(m.cur.id)
			p.vc.tick(p.id)
		}
		m.completePartner(p, i, copyVal(v), true)
		return
	}
	var c VC
	m.rel(&c)
	ch.buf = append(ch.buf, copyVal(v))
	ch.vcs = append(ch.vcs, c)
	if len(ch.vcRecv) > 0 { // the k-th receive happens before the (k+cap)-th send completes
		m.acq(&ch.vcRecv[0])
		ch.vcRecv = ch.vcRecv[1:]
	}
}

func (m *Machine) completePartner(p *G, i int, v Value, ok bool) {
	f := p.wres
	p.waits = nil
	p.wres = nil
	p.st = gRun
	p.ready = nil
	f(i, v, ok)
	m.logOp(p, fmt.Sprintf("rendezvous:%d", i))
}

func (m *Machine) doRecv(ch *ChanV, et types.Type) (Value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value{}, ch.buf[1:]...)
		m.acq(&ch.vcs[0])
		ch.vcs = append([]VC{}, ch.vcs[1:]...)
		if m.race != nil {
			var c VC
			m.rel(&c)
			ch.vcRecv = append(ch.vcRecv, c)
		}
		return v, true
	}
	if ch.closed {
		m.acq(&ch.vcClose)
		return zero(et), false
	}
	p, i := m.partner(ch, true, m.cur)
	v := p.waits[i].val
	if m.race != nil {
		var t VC
		t.join(m.cur.vc)
		m.cur.vc.join(p.vc)
		p.vc.join(t)
		m.cur.vc.tick(m.cur.id)
		p.vc.tick(p.id)
	}
	m.completePartner(p, i, nil, true)
	return v, true
}

func (m *Machine) closeChan(ch *ChanV) {
	if ch == nil {
		m.rtPanic("close of nil channel")
	}
	if ch.closed {
		panic(goPanic{val: Iface{t: m.P.rtErrorString, v: mkStr("close of closed channel")}, msg: "close of closed channel"})
	}
	ch.closed = true
	if m.cur.id >= 0 {
		m.rel(&ch.vcClose)
	}
}

func (m *Machine) send(g *G, fr *Frame, ci *cinstr) status {
	ch := m.get(fr, &ci.ops[0]).(*ChanV)
	v := m.get(fr, &ci.ops[1])
	y, keep := m.visibleOn(g, fr, false, ch)
	if y {
		return stYield
	}
	if m.canSend(ch, g) {
		g.granted = keep
		if ch.closed {
			m.logOp(g, "send")
		}
		m.doSend(ch, v)
		m.logOp(g, "send")
		return stNext
	}
	g.granted = true
	g.waits = []waitCase{{ch: ch, send: true, val: v}}
	g.ready = func() bool { return m.canSend(ch, g) }
	g.wres = func(int, Value, bool) { fr.pc++; g.granted = false }
	return stBlock
}

func (m *Machine) recv(g *G, fr *Frame, ci *cinstr, in *ssa.UnOp) status {
	ch := m.get(fr, &ci.ops[0]).(*ChanV)
	y, keep := m.visibleOn(g, fr, false, ch)
	if y {
		return stYield
	}
	et := in.X.Type().Underlying().(*types.Chan).Elem()
	set := func(v Value, ok bool) {
		if in.CommaOk {
			fr.regs[ci.dst] = Tuple{v, mkBool(ok)}
		} else {
			fr.regs[ci.dst] = v
		}
	}
	if m.canRecv(ch, g) {
		g.granted = keep
		v, ok := m.doRecv(ch, et)
		set(v, ok)
		m.logOp(g, "recv")
		return stNext
	}
	g.granted = true
	g.waits = []waitCase{{ch: ch}}
	g.ready = func() bool { return m.canRecv(ch, g) }
	g.wres = func(_ int, v Value, ok bool) { set(v, ok); fr.pc++; g.granted = false }
	return stBlock
}

func (m *Machine) selectStmt(g *G, fr *Frame, ci *cinstr, in *ssa.Select) status {
	n := len(in.States)
	chs := make([]*ChanV, n)
	vals := make([]Value, n)
	for i, s := range in.States {
		chs[i] = m.get(fr, &ci.ops[2*i]).(*ChanV)
		if s.Dir == types.SendOnly {
			vals[i] = m.get(fr, &ci.ops[2*i+1])
		}
	}
	nrecv := 0
	rpos := make([]int, n)
	for i, s := range in.States {
		rpos[i] = -1
		if s.Dir == types.RecvOnly {
			rpos[i] = nrecv
			nrecv++
		}
	}
	elem := func(i int) types.Type { return in.States[i].Chan.Type().Underlying().(*types.Chan).Elem() }
	result := func(idx int, v Value, ok bool) Tuple {
		tp := make(Tuple, 2+nrecv)
		tp[0] = mkInt(idx)
		tp[1] = mkBool(ok)
		for i := range in.States {
			if rpos[i] >= 0 {
				if i == idx {
					tp[2+rpos[i]] = v
				} else {
					tp[2+rpos[i]] = zero(elem(i))
				}
			}
		}
		return tp
	}
	var objs []any
	for _, ch := range chs {
		if ch != nil {
			objs = append(objs, ch)
		}
	}
	y, keep := m.visibleOn(g, fr, false, objs...)
	if y {
		return stYield
	}
	var ready []int
	for i, s := range in.States {
		if s.Dir == types.SendOnly && m.canSend(chs[i], g) || s.Dir == types.RecvOnly && m.canRecv(chs[i], g) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		c := ready[0]
		if len(ready) > 1 && fr.info.instr {
			c = ready[m.choose(len(ready), "select")]
		}
		g.granted = keep
		if in.States[c].Dir == types.SendOnly {
			m.doSend(chs[c], vals[c])
			fr.regs[ci.dst] = result(c, nil, false)
		} else {
			v, ok := m.doRecv(chs[c], elem(c))
			fr.regs[ci.dst] = result(c, v, ok)
		}
		m.logOp(g, fmt.Sprintf("select:%d/%d", c, n))
		return stNext
	}
	if !in.Blocking {
		g.granted = keep
		fr.regs[ci.dst] = result(-1, nil, false)
		m.logOp(g, "select:default")
		return stNext
	}
	g.granted = true
	g.waits = nil
	for i, s := range in.States {
		g.waits = append(g.waits, waitCase{ch: chs[i], send: s.Dir == types.SendOnly, val: vals[i]})
	}
	g.ready = func() bool {
		for i, s := range in.States {
			if s.Dir == types.SendOnly && m.canSend(chs[i], g) || s.Dir == types.RecvOnly && m.canRecv(chs[i], g) {
				return true
			}
		}
		return false
	}
	g.wres = func(i int, v Value, ok bool) {
		if in.States[i].Dir == types.SendOnly {
			fr.regs[ci.dst] = result(i, nil, false)
		} else {
			fr.regs[ci.dst] = result(i, v, ok)
		}
		fr.pc++
		g.granted = false
	}
	return stBlock
}

// ---- virtual timers ----

type timer struct {
	at     *Term // virtual time (constant for now)
	period int64
	fire   func()
	active bool
	seq    int
	nk     int // replay index (from 1), 0 when created outside instrumented code
	vc     VC  // creator's clock (race detection)
}

// fireTimer advances the virtual clock to the earliest pending timer once nothing else can run.
func (m *Machine) fireTimer() bool {
	var best *timer
	for _, t := range m.timers {
		if t.active && (best == nil || t.at.sval() < best.at.sval()) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if m.nTimerFires() > m.H.MaxTimers {
		panic(boundErr{"timer fires"})
	}
	m.side["timerfires"] = m.nTimerFires() + 1
	if best.nk > 0 {
		m.sched = append(m.sched, -2)
		m.schedTag = append(m.schedTag, fmt.Sprintf("timer:%d:%d", best.nk, best.at.sval()))
	}
	if m.clock.op == oConst && best.at.sval() > m.clock.sval() {
		m.clock = best.at
	}
	if best.period > 0 {
		best.at = mkInt(int(best.at.sval() + best.period))
	} else {
		best.active = false
	}
	cur := m.cur
	m.cur = nil // the runtime, not the running goroutine, starts the callback
	n := len(m.gs)
	best.fire()
	if m.race != nil && best.vc != nil && len(m.gs) > n {
		m.gs[n].vc.join(best.vc)
	}
	m.cur = cur
	return true
}

func (m *Machine) nTimerFires() int {
	n, _ := m.side["timerfires"].(int)
	return n
}
