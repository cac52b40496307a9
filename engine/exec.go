package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) get(fr *Frame, o *opnd) Value {
	switch o.k {
	case kReg:
		v := fr.regs[o.i]
		if p, ok := v.(Poison); ok {
			panic(unsup("use of poisoned value (%s)", p.why))
		}
		return v
	case kConst:
		return o.v
	case kGlobal:
		return m.globalAddr(o.g)
	}
	return nil
}

func (m *Machine) term(fr *Frame, o *opnd) *Term {
	v := m.get(fr, o)
	t, ok := v.(*Term)
	if !ok {
		panic(unsup("scalar expected, got %T", v))
	}
	return t
}

// goPanic carries a Go-level panic raised by interpreted code.
type goPanic struct {
	val Value
	msg string
}

func (m *Machine) rtPanic(msg string) {
	var v Value = Iface{t: m.P.rtErrorString, v: mkStr(trimRT(msg))}
	if m.P.rtErrorString == nil {
		v = Iface{t: types.Typ[types.String], v: mkStr(msg)}
	}
	panic(goPanic{val: v, msg: msg})
}

func trimRT(s string) string {
	const p = "runtime error: "
	if len(s) > len(p) && s[:len(p)] == p {
		return s[len(p):]
	}
	return s
}

func (m *Machine) nilDeref() {
	m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (m *Machine) load(p Value) Value {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			m.nilDeref()
		}
		if m.race != nil {
			m.race.read(m, x)
		}
		v := *x
		switch v.(type) {
		case Struct, Array:
			return copyVal(v)
		case Poison:
			panic(unsup("load of poisoned global (%s)", v.(Poison).why))
		}
		return v
	case *SymPtr:
		if m.race != nil {
			m.race.read(m, &x.arr[0])
		}
		return m.selectIdx(x.arr, x.idx)
	case *DataPtr:
		if len(x.sl) > 0 {
			return copyVal(x.sl[0])
		}
		if x.str != nil && x.str.Len() > 0 {
			return x.str.at(0)
		}
	}
	panic(unsup("load via %T", p))
}

func (m *Machine) store(p Value, v Value) {
	switch x := p.(type) {
	case *Value:
		if x == nil {
			m.nilDeref()
		}
		if m.race != nil {
			m.race.write(m, x)
		}
		storeInto(x, v)
		return
	case *SymPtr:
		nv, ok := v.(*Term)
		if !ok {
			panic(unsup("symbolic-index store of %T", v))
		}
		for i := range x.arr {
			c := m.tb.Eq(x.idx, mkConst(x.idx.sort, uint64(i)))
			x.arr[i] = m.tb.Ite(c, nv, x.arr[i].(*Term))
		}
		return
	}
	panic(unsup("store via %T", p))
}

// selectIdx builds the if-then-else tree for arr[idx] (idx already in range).
func (m *Machine) selectIdx(arr []Value, idx *Term) Value {
	if len(arr) > 2 && len(arr) <= 4096 {
		v := make([]uint64, len(arr))
		var s Sort
		ok := true
		for i, e := range arr {
			t, isT := e.(*Term)
			if !isT || t.op != oConst || t.sort.isFP() {
				ok = false
				break
			}
			s, v[i] = t.sort, t.val
		}
		if ok {
			return m.tb.Tab(v, s, idx)
		}
	}
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return arr[lo].(*Term)
		}
		f, ok := arr[lo].(*Term)
		if !ok {
			panic(unsup("symbolic index of %T", arr[lo]))
		}
		same := true
		for i := lo + 1; i < hi; i++ {
			if !sameTerm(f, arr[i].(*Term)) {
				same = false
				break
			}
		}
		if same {
			return f
		}
		mid := (lo + hi) / 2
		return m.tb.Ite(m.tb.Bin(oUlt, idx, mkConst(idx.sort, uint64(mid))), rec(lo, mid), rec(mid, hi))
	}
	return rec(0, len(arr))
}

func (m *Machine) pushCall(g *G, fnv Value, args []Value, dst int32) {
	cl, ok := fnv.(*Closure)
	if !ok {
		panic(unsup("call of %T", fnv))
	}
	if cl == nil {
		m.nilDeref()
	}
	fi := m.P.info(cl.fn)
	if fi.model != nil {
		fi = m.P.info(fi.model)
	}
	m.pushInfo(g, fi, cl, args, dst)
}

func (m *Machine) pushInfo(g *G, fi *fnInfo, cl *Closure, args []Value, dst int32) {
	if fi.err != "" {
		panic(unsup("%s", fi.err))
	}
	if fi.intr != nil {
		panic("pushCall on intrinsic " + fi.name)
	}
	fr := &Frame{fn: fi.fn, info: fi, regs: make([]Value, fi.nregs), retDst: dst, prev: -1}
	if len(args) != len(fi.pidx) {
		panic(fmt.Sprintf("arity %s: %d vs %d", fi.name, len(args), len(fi.pidx)))
	}
	copy(fr.regs, args)
	copy(fr.regs[len(args):], cl.free)
	if len(g.frames) > 400 {
		panic(boundErr{"call depth in " + fi.name})
	}
	g.frames = append(g.frames, fr)
	if fi.repo {
		m.fnSeen[fi.name]++
	}
}

// invoke calls fnv from frame fr. The caller's pc is advanced when a frame is pushed.
func (m *Machine) invoke(g *G, fr *Frame, fnv Value, args []Value, dst int32, adv bool) status {
	cl, ok := fnv.(*Closure)
	if !ok {
		panic(unsup("call of %T", fnv))
	}
	if cl == nil {
		m.nilDeref()
	}
	if cl.native != nil {
		v := cl.native(m, g, args)
		if dst >= 0 {
			fr.regs[dst] = v
		}
		return stNext
	}
	fi := m.P.info(cl.fn)
	if it := fi.intr; it != nil {
		keep := false
		if it.visible {
			y := false
			if len(args) > 0 && m.por != nil && !it.always {
				y, keep = m.visibleOn(g, fr, it.read, args[0])
			} else {
				y = m.visible(g, fr)
			}
			if y {
				return stYield
			}
		}
		g.granted = keep
		ctx := callCtx{m: m, g: g, fr: fr, fn: cl.fn, dst: dst}
		v, st := it.f(&ctx, args)
		if ctx.tail != nil {
			if adv {
				fr.pc++
			}
			m.pushCallAny(g, fr, ctx.tail, ctx.tailArgs, dst)
			if ctx.onRet != nil {
				g.frames[len(g.frames)-1].onRet = ctx.onRet
			}
			return stJump
		}
		if st == stReal {
			if adv {
				fr.pc++
			}
			m.pushInfo(g, m.P.infoReal(cl.fn), cl, args, dst)
			return stJump
		}
		if st == stBlock {
			g.granted = true // re-executed when ready
			return st
		}
		if it.visible || it.logged {
			m.logOp(g, fi.name)
		}
		if dst >= 0 {
			fr.regs[dst] = v
		}
		return stNext
	}
	if adv {
		fr.pc++
	}
	m.pushCall(g, fnv, args, dst)
	return stJump
}

func (m *Machine) pushCallAny(g *G, fr *Frame, fnv Value, args []Value, dst int32) {
	cl := fnv.(*Closure)
	if cl == nil {
		m.nilDeref()
	}
	if fi := m.P.info(cl.fn); fi.intr != nil {
		ctx := callCtx{m: m, g: g, fr: fr, fn: cl.fn, dst: dst}
		v, st := fi.intr.f(&ctx, args)
		if st == stBlock || ctx.tail != nil {
			panic(unsup("nested blocking intrinsic %s", fi.name))
		}
		if dst >= 0 {
			fr.regs[dst] = v
		}
		// push a trivial continuation-free frame is unnecessary
		panic(unsup("tail call of intrinsic %s", fi.name))
	}
	m.pushCall(g, fnv, args, dst)
}

// visible reports whether g must yield to the scheduler before this operation.
func (m *Machine) visible(g *G, fr *Frame) bool {
	if g.granted || m.initMode > 0 || m.atomicAll > 0 || g.atomic > 0 || !fr.info.instr {
		return false
	}
	if len(m.gs) < 2 {
		return false
	}
	return !fr.info.vmodel || m.instrTop(g)
}

func (m *Machine) jump(fr *Frame, to int) {
	fr.prev = fr.block
	fr.block = to
	fr.pc = 0
	cb := &fr.info.blocks[to]
	if to <= fr.prev {
		if fr.visits == nil {
			fr.visits = map[int]int{}
		}
		fr.visits[to]++
		if fr.visits[to] > m.H.Unwind && m.initMode == 0 {
			panic(boundErr{fmt.Sprintf("unwind %d in %s", m.H.Unwind, fr.info.name)})
		}
	}
	if cb.nphi > 0 {
		ei := -1
		for i, p := range cb.preds {
			if p == fr.prev {
				ei = i
				break
			}
		}
		var tmp [16]Value
		vals := tmp[:0]
		for i := 0; i < cb.nphi; i++ {
			o := &cb.ins[i].ops[ei]
			if o.k == kReg {
				vals = append(vals, fr.regs[o.i])
			} else {
				vals = append(vals, m.get(fr, o))
			}
		}
		for i := 0; i < cb.nphi; i++ {
			fr.regs[cb.ins[i].dst] = vals[i]
		}
		fr.pc = cb.nphi
	}
}

// step executes instructions of g until something scheduling-relevant or a small quantum passes.
func (m *Machine) step(g *G) (st status) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				if len(g.frames) == 0 {
					panic(r)
				}
				fr := g.frames[len(g.frames)-1]
				fr.pan = &panicState{val: gp.val, msg: gp.msg, stack: m.gstack(g)}
				st = stNext
				return
			}
			panic(r)
		}
	}()
	for n := 0; n < 4096; n++ {
		if len(g.frames) == 0 {
			return stNext
		}
		fr := g.frames[len(g.frames)-1]
		m.steps++
		if m.steps > m.H.MaxSteps && m.initMode == 0 {
			panic(boundErr{"steps"})
		}
		if fr.pan != nil {
			if s := m.unwind(g, fr); s == stBlock || s == stYield {
				return s
			}
			continue
		}
		ci := &fr.info.blocks[fr.block].ins[fr.pc]
		s := m.exec(g, fr, ci)
		switch s {
		case stNext:
			fr.pc++
		case stBlock, stYield:
			return s
		}
	}
	return stNext
}

func (m *Machine) unwind(g *G, fr *Frame) status {
	p := fr.pan
	if p.recovered {
		// run remaining defers then return through the recover block
		if len(fr.defers) > 0 {
			return m.runDefer(g, fr)
		}
		fr.pan = nil
		if fr.fn.Recover != nil {
			fr.prev = fr.block
			fr.block = fr.fn.Recover.Index
			fr.pc = 0
			return stNext
		}
		m.doReturn(g, fr, zeroResults(fr.fn))
		return stNext
	}
	if len(fr.defers) > 0 {
		return m.runDefer(g, fr)
	}
	// propagate
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		msg := p.msg
		if msg == "" {
			msg = m.describe(p.val)
		}
		if m.initMode > 0 {
			panic(unsup("panic in init: %s", msg))
		}
		v := m.violation("panic", "panic", msg, m.model)
		v.Stack = p.stack
		m.res.Viols = append(m.res.Viols, v)
		panic(stopPath{})
	}
	c := g.frames[len(g.frames)-1]
	c.pan = &panicState{val: p.val, msg: p.msg, stack: p.stack}
	return stNext
}

func (m *Machine) describe(v Value) string {
	f, ok := v.(Iface)
	if !ok || f.t == nil {
		return "nil"
	}
	if s, ok := f.v.(*Str); ok {
		return f.t.String() + ":" + string(m.strUnder(s))
	}
	if t, ok := f.v.(*Term); ok {
		return f.t.String() + ":" + t.String()
	}
	return f.t.String()
}

func (m *Machine) strUnder(s *Str) string {
	if s.sym == nil {
		return s.s
	}
	b := make([]byte, len(s.sym))
	for i, t := range s.sym {
		b[i] = byte(m.tb.eval(t, m.model))
	}
	return string(b)
}

func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (m *Machine) doReturn(g *G, fr *Frame, v Value) {
	g.frames = g.frames[:len(g.frames)-1]
	if fr.onRet != nil {
		fr.onRet(v)
	}
	if len(g.frames) > 0 && fr.retDst >= 0 {
		g.frames[len(g.frames)-1].regs[fr.retDst] = v
	}
}

// runDefer runs the newest deferred call of fr.
func (m *Machine) runDefer(g *G, fr *Frame) status {
	d := fr.defers[len(fr.defers)-1]
	if d.bi != nil {
		fr.defers = fr.defers[:len(fr.defers)-1]
		if d.bi.Name() == "close" && fr.info.instr {
			m.logOp(g, "close")
		}
		m.builtin(g, fr, d.bi, d.args, nil)
		return stJump
	}
	cl := d.fn.(*Closure)
	if cl == nil {
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.nilDeref()
	}
	nf := len(g.frames)
	popped := false
	defer func() {
		if !popped {
			// the deferred call panicked in an intrinsic: it has run
			fr.defers = fr.defers[:len(fr.defers)-1]
		}
	}()
	st := m.invoke(g, fr, d.fn, d.args, -1, false)
	popped = true
	if st == stBlock || st == stYield {
		return st
	}
	fr.defers = fr.defers[:len(fr.defers)-1]
	if len(g.frames) > nf {
		g.frames[len(g.frames)-1].isDefer = true
	}
	return stJump
}

func (m *Machine) exec(g *G, fr *Frame, ci *cinstr) status {
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			return m.recv(g, fr, ci, in)
		}
		if in.Op == token.MUL {
			fr.regs[ci.dst] = m.load(m.get(fr, &ci.ops[0]))
			return stNext
		}
		v := m.get(fr, &ci.ops[0])
		x, ok := v.(*Term)
		if !ok {
			panic(unsup("unop on %T", v))
		}
		switch in.Op {
		case token.NOT:
			fr.regs[ci.dst] = m.tb.Not(x)
		case token.SUB:
			if x.sort.isFP() {
				fr.regs[ci.dst] = m.tb.Un(oFNeg, x.sort, 0, x)
			} else {
				fr.regs[ci.dst] = m.tb.Un(oNeg, x.sort, 0, x)
			}
		case token.XOR:
			fr.regs[ci.dst] = m.tb.Un(oBNot, x.sort, 0, x)
		default:
			panic(unsup("unop %s", in.Op))
		}
		return stNext

	case *ssa.BinOp:
		fr.regs[ci.dst] = m.binop(in.Op, ci, m.get(fr, &ci.ops[0]), m.get(fr, &ci.ops[1]))
		return stNext

	case *ssa.FieldAddr:
		p := m.get(fr, &ci.ops[0])
		pv, ok := p.(*Value)
		if !ok {
			panic(unsup("field of %T", p))
		}
		if pv == nil {
			m.nilDeref()
		}
		s, ok := (*pv).(Struct)
		if !ok {
			panic(unsup("fieldaddr into %T at %s", *pv, in.X.Type()))
		}
		fr.regs[ci.dst] = &s[in.Field]
		return stNext

	case *ssa.Field:
		s := m.get(fr, &ci.ops[0]).(Struct)
		fr.regs[ci.dst] = s[in.Field]
		return stNext

	case *ssa.Store:
		m.store(m.get(fr, &ci.ops[0]), m.get(fr, &ci.ops[1]))
		return stNext

	case *ssa.Alloc:
		p := new(Value)
		*p = zero(ci.typ)
		fr.regs[ci.dst] = p
		return stNext

	case *ssa.If:
		c := m.term(fr, &ci.ops[0])
		succ := fr.info.blocks[fr.block].succs
		if m.branch(c) {
			m.jump(fr, succ[0])
		} else {
			m.jump(fr, succ[1])
		}
		return stJump

	case *ssa.Jump:
		m.jump(fr, fr.info.blocks[fr.block].succs[0])
		return stJump

	case *ssa.Return:
		var v Value
		switch len(ci.ops) {
		case 0:
		case 1:
			v = m.get(fr, &ci.ops[0])
		default:
			tp := make(Tuple, len(ci.ops))
			for i := range ci.ops {
				tp[i] = m.get(fr, &ci.ops[i])
			}
			v = tp
		}
		m.doReturn(g, fr, v)
		return stJump

	case *ssa.Call:
		return m.doCall(g, fr, ci, in)

	case *ssa.Extract:
		v := m.get(fr, &ci.ops[0])
		tp, ok := v.(Tuple)
		if !ok {
			panic(unsup("extract from %T", v))
		}
		fr.regs[ci.dst] = tp[in.Index]
		return stNext

	case *ssa.Phi:
		panic("phi reached")

	case *ssa.IndexAddr:
		fr.regs[ci.dst] = m.indexAddr(m.get(fr, &ci.ops[0]), m.term(fr, &ci.ops[1]), in.Index.Type())
		return stNext

	case *ssa.Index:
		x := m.get(fr, &ci.ops[0])
		idx := m.term(fr, &ci.ops[1])
		switch a := x.(type) {
		case *Str:
			fr.regs[ci.dst] = m.strIndex(a, idx, in.Index.Type())
		case Array:
			i, sym := m.boundIdx(idx, len(a), in.Index.Type())
			if sym != nil {
				fr.regs[ci.dst] = m.selectIdx(a, sym)
			} else {
				fr.regs[ci.dst] = a[i]
			}
		default:
			panic(unsup("index %T", x))
		}
		return stNext

	case *ssa.Slice:
		fr.regs[ci.dst] = m.slice(fr, ci, in)
		return stNext

	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{t: ci.typ, v: m.get(fr, &ci.ops[0])}
		return stNext

	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[ci.dst] = m.get(fr, &ci.ops[0])
		return stNext

	case *ssa.TypeAssert:
		fr.regs[ci.dst] = m.typeAssert(in, ci.typ, m.get(fr, &ci.ops[0]))
		return stNext

	case *ssa.Convert:
		fr.regs[ci.dst] = m.convert(in.X.Type(), in.Type(), ci, m.get(fr, &ci.ops[0]))
		return stNext

	case *ssa.MultiConvert:
		panic(unsup("multiconvert"))

	case *ssa.MakeClosure:
		free := make([]Value, len(ci.ops)-1)
		for i := range free {
			free[i] = m.get(fr, &ci.ops[i+1])
		}
		fr.regs[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), free: free}
		return stNext

	case *ssa.MakeSlice:
		n := int(int64(m.concretizeLen(m.term(fr, &ci.ops[0]), in.Len.Type())))
		c := int(int64(m.concretizeLen(m.term(fr, &ci.ops[1]), in.Cap.Type())))
		if n < 0 {
			m.rtPanic("runtime error: makeslice: len out of range")
		}
		if c < n {
			m.rtPanic("runtime error: makeslice: cap out of range")
		}
		if c > 1<<20 {
			panic(boundErr{"makeslice too large"})
		}
		z := zero(in.Type().Underlying().(*types.Slice).Elem())
		s := make(SliceV, c)
		for i := range s {
			s[i] = copyVal(z)
		}
		fr.regs[ci.dst] = s[:n:c]
		return stNext

	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap(in.Type().Underlying().(*types.Map).Key())
		return stNext

	case *ssa.MakeChan:
		n := int(int64(m.concretizeLen(m.term(fr, &ci.ops[0]), in.Size.Type())))
		if n < 0 {
			m.rtPanic("makechan: size out of range")
		}
		m.chanSeq++
		fr.regs[ci.dst] = &ChanV{cap: n, id: m.chanSeq}
		return stNext

	case *ssa.MapUpdate:
		mp := m.get(fr, &ci.ops[0]).(*MapV)
		if mp == nil {
			m.rtPanic("assignment to entry in nil map")
		}
		if m.race != nil {
			m.race.write(m, &mp.cell)
		}
		m.mapSet(mp, m.get(fr, &ci.ops[1]), m.get(fr, &ci.ops[2]))
		return stNext

	case *ssa.Lookup:
		x := m.get(fr, &ci.ops[0])
		if s, ok := x.(*Str); ok {
			fr.regs[ci.dst] = m.strIndex(s, m.term(fr, &ci.ops[1]), in.Index.Type())
			return stNext
		}
		mp := x.(*MapV)
		if m.race != nil && mp != nil {
			m.race.read(m, &mp.cell)
		}
		e := m.mapFind(mp, m.get(fr, &ci.ops[1]))
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			fr.regs[ci.dst] = Tuple{v, mkBool(e != nil)}
		} else {
			fr.regs[ci.dst] = v
		}
		return stNext

	case *ssa.Range:
		switch x := m.get(fr, &ci.ops[0]).(type) {
		case *MapV:
			it := &mapIter{mp: x}
			if x != nil {
				if m.race != nil {
					m.race.read(m, &x.cell)
				}
				for _, e := range x.ents {
					if !e.deleted {
						it.snap = append(it.snap, e)
					}
				}
				it.nond = m.mapNond && fr.info.repo && x.n > 1
			}
			fr.regs[ci.dst] = it
		case *Str:
			fr.regs[ci.dst] = &strIter{s: x}
		default:
			panic(unsup("range over %T", x))
		}
		return stNext

	case *ssa.Next:
		switch it := fr.regs[ci.ops[0].i].(type) {
		case *mapIter:
			if m.race != nil && it.mp != nil {
				m.race.read(m, &it.mp.cell)
			}
			e, ok := it.next(m)
			if !ok {
				tt := in.Type().(*types.Tuple)
				fr.regs[ci.dst] = Tuple{falseT, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())}
			} else {
				fr.regs[ci.dst] = Tuple{trueT, copyVal(e.k), copyVal(e.v)}
			}
		case *strIter:
			if it.i >= it.s.Len() {
				fr.regs[ci.dst] = Tuple{falseT, mkInt(0), mkConst(32, 0)}
			} else {
				r, w := m.decodeRune(it.s, it.i)
				fr.regs[ci.dst] = Tuple{trueT, mkInt(it.i), r}
				it.i += w
			}
		}
		return stNext

	case *ssa.Panic:
		v := m.get(fr, &ci.ops[0]).(Iface)
		if v.t == nil {
			panic(goPanic{val: Iface{t: m.P.rtErrorString, v: mkStr("panic called with nil argument")}, msg: "panic(nil)"})
		}
		panic(goPanic{val: v, msg: m.describe(v)})

	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			return stNext
		}
		return m.runDefer(g, fr)

	case *ssa.Defer:
		d := deferCall{}
		c := in.Common()
		if bi, ok := c.Value.(*ssa.Builtin); ok {
			d.bi = bi
			for i := 1; i < len(ci.ops); i++ {
				d.args = append(d.args, m.get(fr, &ci.ops[i]))
			}
		} else {
			d.fn, d.args = m.callee(fr, ci, c)
		}
		tgt := fr
		if ci.aux != nil {
			o := ci.aux.(opnd)
			tgt = m.get(fr, &o).(*Frame)
		}
		tgt.defers = append(tgt.defers, d)
		return stNext

	case *ssa.Go:
		c := in.Common()
		if bi, ok := c.Value.(*ssa.Builtin); ok {
			_ = bi
			panic(unsup("go builtin"))
		}
		fnv, args := m.callee(fr, ci, c)
		cl := fnv.(*Closure)
		if cl == nil {
			m.nilDeref()
		}
		if m.initMode > 0 {
			return stNext
		}
		if fi := m.P.info(cl.fn); fi.intr != nil {
			panic(unsup("go intrinsic %s", fi.name))
		}
		ng := m.newG(fnv, args)
		ng.what = cl.fn.String()
		ng.granted = false
		if !fr.info.instr {
			ng.daemon = true
		}
		return stNext

	case *ssa.Send:
		return m.send(g, fr, ci)

	case *ssa.Select:
		return m.selectStmt(g, fr, ci, in)

	case *ssa.SliceToArrayPointer:
		s := m.get(fr, &ci.ops[0]).(SliceV)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			m.rtPanic("runtime error: cannot convert slice to array: length mismatch")
		}
		if s == nil {
			fr.regs[ci.dst] = nilPtr
			return stNext
		}
		p := new(Value)
		*p = Array(s[:n:n])
		fr.regs[ci.dst] = p
		return stNext
	}
	panic(unsup("instr %T", ci.in))
}

func zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

// callee resolves a call's function value and full argument list.
func (m *Machine) callee(fr *Frame, ci *cinstr, c *ssa.CallCommon) (Value, []Value) {
	if !c.IsInvoke() {
		fnv := m.get(fr, &ci.ops[0])
		args := make([]Value, len(ci.ops)-1)
		for i := range args {
			args[i] = m.get(fr, &ci.ops[i+1])
		}
		return fnv, args
	}
	rv, ok := m.get(fr, &ci.ops[0]).(Iface)
	if !ok {
		panic(unsup("invoke on non-interface"))
	}
	if rv.t == nil {
		m.nilDeref()
	}
	fn := m.lookupMethod(rv.t, c.Method)
	if fn == nil {
		panic(unsup("no method %s on %s", c.Method.Name(), rv.t))
	}
	args := make([]Value, len(ci.ops))
	args[0] = rv.v
	for i := 1; i < len(ci.ops); i++ {
		args[i] = m.get(fr, &ci.ops[i])
	}
	return &Closure{fn: fn}, args
}

func (m *Machine) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth}
	if f, ok := m.methCache[k]; ok {
		return f
	}
	f := m.P.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	m.methCache[k] = f
	return f
}

func (m *Machine) doCall(g *G, fr *Frame, ci *cinstr, in *ssa.Call) status {
	c := in.Common()
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		var buf [4]Value
		args := buf[:0]
		for i := 1; i < len(ci.ops); i++ {
			args = append(args, m.get(fr, &ci.ops[i]))
		}
		if bi.Name() == "close" {
			y, keep := m.visibleOn(g, fr, false, args[0])
			if y {
				return stYield
			}
			g.granted = keep
			if fr.info.instr {
				m.logOp(g, "close")
			}
		}
		fr.regs[ci.dst] = m.builtin(g, fr, bi, args, in)
		return stNext
	}
	fnv, args := m.callee(fr, ci, c)
	if m.initMode > 0 {
		if cl := fnv.(*Closure); cl != nil && cl.fn != nil && cl.fn.Synthetic == "package initializer" {
			return stNext
		}
	}
	return m.invoke(g, fr, fnv, args, ci.dst, true)
}

// boundIdx checks 0 <= idx < n; returns a concrete index or the symbolic (64-bit) one.
func (m *Machine) boundIdx(idx *Term, n int, it types.Type) (int, *Term) {
	_, sgn, _ := typeSort(it)
	x := m.tb.Resize(idx, sgn, 64)
	if x.op == oConst {
		i := int64(x.val)
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	if !m.branch(m.tb.Bin(oUlt, x, mkInt(n))) {
		m.rtPanic(fmt.Sprintf("runtime error: index out of range [sym] with length %d", n))
	}
	return 0, x
}

func isScalarArr(a []Value) bool {
	for _, v := range a {
		if _, ok := v.(*Term); !ok {
			return false
		}
	}
	return true
}

func (m *Machine) indexAddr(x Value, idx *Term, it types.Type) Value {
	var arr []Value
	switch a := x.(type) {
	case SliceV:
		arr = a
	case *Value:
		if a == nil {
			m.nilDeref()
		}
		arr = (*a).(Array)
	default:
		panic(unsup("indexaddr %T", x))
	}
	i, sym := m.boundIdx(idx, len(arr), it)
	if sym == nil {
		return &arr[i]
	}
	if isScalarArr(arr) && len(arr) <= 1024 {
		return &SymPtr{arr: arr, idx: sym}
	}
	return &arr[int(m.concretize(sym))]
}

func (m *Machine) strIndex(s *Str, idx *Term, it types.Type) Value {
	i, sym := m.boundIdx(idx, s.Len(), it)
	if sym == nil {
		return s.at(i)
	}
	bs := s.bytes()
	vs := make([]Value, len(bs))
	for k := range bs {
		vs[k] = bs[k]
	}
	return m.selectIdx(vs, sym)
}

func (m *Machine) concretizeLen(t *Term, ty types.Type) int64 {
	_, sgn, _ := typeSort(ty)
	x := m.tb.Resize(t, sgn, 64)
	if x.op == oConst {
		return int64(x.val)
	}
	return int64(m.concretize(x))
}

func (m *Machine) slice(fr *Frame, ci *cinstr, in *ssa.Slice) Value {
	x := m.get(fr, &ci.ops[0])
	lo, hi, mx := -1, -1, -1
	gi := func(o *opnd, v ssa.Value) int {
		n := m.concretizeLen(m.term(fr, o), v.Type())
		if n < 0 || n > 1<<40 {
			m.rtPanic("runtime error: slice bounds out of range")
		}
		return int(n)
	}
	if in.Low != nil {
		lo = gi(&ci.ops[1], in.Low)
	}
	if in.High != nil {
		hi = gi(&ci.ops[2], in.High)
	}
	if in.Max != nil {
		mx = gi(&ci.ops[3], in.Max)
	}
	if lo < 0 {
		lo = 0
	}
	bad := func() { m.rtPanic("runtime error: slice bounds out of range") }
	switch a := x.(type) {
	case *Str:
		if hi < 0 {
			hi = a.Len()
		}
		if lo > hi || hi > a.Len() {
			bad()
		}
		return a.sub(lo, hi)
	case SliceV:
		if hi < 0 {
			hi = len(a)
		}
		if mx < 0 {
			mx = cap(a)
		}
		if lo > hi || hi > mx || mx > cap(a) {
			bad()
		}
		if a == nil {
			return nilSlice
		}
		return a[lo:hi:mx]
	case *Value:
		if a == nil {
			m.nilDeref()
		}
		arr := (*a).(Array)
		if hi < 0 {
			hi = len(arr)
		}
		if mx < 0 {
			mx = len(arr)
		}
		if lo > hi || hi > mx || mx > len(arr) {
			bad()
		}
		return SliceV(arr)[lo:hi:mx]
	}
	panic(unsup("slice of %T", x))
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, at types.Type, x Value) Value {
	f, isI := x.(Iface)
	if !isI {
		panic(unsup("typeassert on %T", x))
	}
	ok := false
	var v Value
	if it, isIface := at.Underlying().(*types.Interface); isIface {
		v = nilIface
		if f.t != nil && m.implements(f.t, it) {
			ok = true
			v = f
		}
	} else {
		if f.t != nil && f.t == at {
			ok = true
			v = f.v
		} else if in.CommaOk {
			v = zero(at)
		}
	}
	if in.CommaOk {
		return Tuple{v, mkBool(ok)}
	}
	if !ok {
		m.rtPanic(fmt.Sprintf("interface conversion: interface is %v, not %s", f.t, at))
	}
	return v
}

func (m *Machine) binop(op token.Token, ci *cinstr, x, y Value) Value {
	b := m.tb
	switch op {
	case token.EQL:
		return m.equal(x, y)
	case token.NEQ:
		return b.Not(m.equal(x, y))
	}
	if sx, ok := x.(*Str); ok {
		sy := y.(*Str)
		switch op {
		case token.ADD:
			return strCat(sx, sy)
		case token.LSS:
			return m.strLess(sx, sy, false)
		case token.LEQ:
			return m.strLess(sx, sy, true)
		case token.GTR:
			return m.strLess(sy, sx, false)
		case token.GEQ:
			return m.strLess(sy, sx, true)
		}
	}
	tx, ok1 := x.(*Term)
	ty, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		panic(unsup("binop %s on %T,%T", op, x, y))
	}
	if ci.sort.isFP() {
		switch op {
		case token.ADD:
			return b.Bin(oFAdd, tx, ty)
		case token.SUB:
			return b.Bin(oFSub, tx, ty)
		case token.MUL:
			return b.Bin(oFMul, tx, ty)
		case token.QUO:
			return b.Bin(oFDiv, tx, ty)
		case token.LSS:
			return b.Bin(oFLt, tx, ty)
		case token.LEQ:
			return b.Bin(oFLe, tx, ty)
		case token.GTR:
			return b.Bin(oFLt, ty, tx)
		case token.GEQ:
			return b.Bin(oFLe, ty, tx)
		}
		panic(unsup("fp binop %s", op))
	}
	if ci.sort == sBool {
		switch op {
		case token.AND, token.LAND:
			return b.And(tx, ty)
		case token.OR, token.LOR:
			return b.Or(tx, ty)
		}
	}
	s := ci.sgn
	switch op {
	case token.ADD:
		return b.Bin(oAdd, tx, ty)
	case token.SUB:
		return b.Bin(oSub, tx, ty)
	case token.MUL:
		return b.Bin(oMul, tx, ty)
	case token.QUO, token.REM:
		if m.branch(b.Eq(ty, mkConst(ty.sort, 0))) {
			m.rtPanic("runtime error: integer divide by zero")
		}
		o := oUDiv
		switch {
		case op == token.QUO && s:
			o = oSDiv
		case op == token.REM && s:
			o = oSRem
		case op == token.REM:
			o = oURem
		}
		return b.Bin(o, tx, ty)
	case token.AND:
		return b.Bin(oBAnd, tx, ty)
	case token.OR:
		return b.Bin(oBOr, tx, ty)
	case token.XOR:
		return b.Bin(oBXor, tx, ty)
	case token.AND_NOT:
		return b.Bin(oBAnd, tx, b.Un(oBNot, ty.sort, 0, ty))
	case token.SHL, token.SHR:
		if ci.sgn2 {
			if m.branch(b.Bin(oSlt, ty, mkConst(ty.sort, 0))) {
				m.rtPanic("runtime error: negative shift amount")
			}
		}
		var sh *Term
		if ty.sort <= tx.sort {
			sh = b.Zext(ty, tx.sort)
		} else {
			// saturate
			big := b.Bin(oUlt, mkConst(ty.sort, uint64(tx.sort)), ty)
			sh = b.Ite(big, mkConst(tx.sort, uint64(tx.sort)), b.Extract(ty, 0, tx.sort))
		}
		o := oShl
		if op == token.SHR {
			o = oLShr
			if s {
				o = oAShr
			}
		}
		return b.Bin(o, tx, sh)
	case token.LSS:
		if s {
			return b.Bin(oSlt, tx, ty)
		}
		return b.Bin(oUlt, tx, ty)
	case token.LEQ:
		if s {
			return b.Bin(oSle, tx, ty)
		}
		return b.Bin(oUle, tx, ty)
	case token.GTR:
		if s {
			return b.Bin(oSlt, ty, tx)
		}
		return b.Bin(oUlt, ty, tx)
	case token.GEQ:
		if s {
			return b.Bin(oSle, ty, tx)
		}
		return b.Bin(oUle, ty, tx)
	}
	panic(unsup("binop %s", op))
}

// strLess builds the lexicographic comparison.
func (m *Machine) strLess(x, y *Str, orEq bool) *Term {
	if x.sym == nil && y.sym == nil {
		if orEq {
			return mkBool(x.s <= y.s)
		}
		return mkBool(x.s < y.s)
	}
	n := min(x.Len(), y.Len())
	var tail *Term
	if x.Len() == y.Len() {
		tail = mkBool(orEq)
	} else {
		tail = mkBool(x.Len() < y.Len())
	}
	r := tail
	for i := n - 1; i >= 0; i-- {
		a, c := x.at(i), y.at(i)
		r = m.tb.Ite(m.tb.Eq(a, c), r, m.tb.Bin(oUlt, a, c))
	}
	return r
}

// decodeRune decodes one rune at byte i, forking over the UTF-8 length classes when symbolic.
func (m *Machine) decodeRune(s *Str, i int) (*Term, int) {
	if s.sym == nil {
		r, w := utf8.DecodeRuneInString(s.s[i:])
		return mkConst(32, uint64(uint32(r))), w
	}
	b := m.tb
	c0 := s.at(i)
	if m.branch(b.Bin(oUlt, c0, mkConst(8, 0x80))) {
		return b.Zext(c0, 32), 1
	}
	// non-ASCII: concretise the remaining bytes of this rune
	n := min(4, s.Len()-i)
	buf := make([]byte, 0, 4)
	for k := 0; k < n; k++ {
		buf = append(buf, byte(m.concretize(s.at(i+k))))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, w := utf8.DecodeRune(buf)
	return mkConst(32, uint64(uint32(r))), w
}

func (m *Machine) convert(from, to types.Type, ci *cinstr, x Value) Value {
	b := m.tb
	fu, tu := from.Underlying(), to.Underlying()
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := x.(*Str); ok {
			eb := ts.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				out := make(SliceV, s.Len())
				for i := range out {
					out[i] = s.at(i)
				}
				return out
			}
			var out SliceV = SliceV{}
			for i := 0; i < s.Len(); {
				r, w := m.decodeRune(s, i)
				out = append(out, r)
				i += w
			}
			return out
		}
		return x
	}
	if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
		switch v := x.(type) {
		case *Str:
			return v
		case SliceV:
			eb := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				bs := make([]*Term, len(v))
				for i := range v {
					bs[i] = v[i].(*Term)
				}
				return strFrom(bs)
			}
			out := emptyStr
			for _, r := range v {
				out = strCat(out, m.encodeRune(r.(*Term)))
			}
			return out
		case *Term:
			return m.encodeRune(b.Resize(v, ci.sgn, 32))
		}
	}
	t, ok := x.(*Term)
	if !ok {
		// unsafe.Pointer <-> pointer
		return x
	}
	fs, ts := t.sort, ci.sort2
	if _, isP := tu.(*types.Pointer); isP || isUnsafePtr(to) {
		panic(unsup("integer to pointer"))
	}
	if fs == ts && fs.isFP() {
		return t
	}
	switch {
	case fs.isFP() && ts.isFP():
		return b.Un(oFToF, ts, 0, t)
	case fs.isFP():
		if t.op == oConst {
			f := fval(fs, t.val)
			if ci.sgn2 {
				return mkConst(ts, uint64(int64(f)))
			}
			return mkConst(ts, uint64(f))
		}
		// amd64: out-of-range signed 64-bit conversions give 0x8000000000000000
		if ci.sgn2 {
			lo := mkF64(-9223372036854775808.0)
			hi := mkF64(9223372036854775808.0)
			if fs == sF32 {
				t = b.Un(oFToF, sF64, 0, t)
			}
			in := b.And(b.Bin(oFLe, lo, t), b.Bin(oFLt, t, hi))
			w := b.Ite(in, b.Un(oFToS, 64, 0, t), mkConst(64, 1<<63))
			return b.Resize(w, true, ts)
		}
		panic(unsup("float to unsigned"))
	case ts.isFP():
		if ci.sgn {
			return b.Un(oFFromS, ts, 0, t)
		}
		return b.Un(oFFromU, ts, 0, t)
	}
	return b.Resize(t, ci.sgn, ts)
}

func (m *Machine) encodeRune(r *Term) *Str {
	if r.op == oConst {
		return mkStr(string(rune(int32(uint32(r.val)))))
	}
	if m.branch(m.tb.Bin(oUlt, r, mkConst(32, 0x80))) {
		return strFrom([]*Term{m.tb.Extract(r, 0, 8)})
	}
	v := m.concretize(r)
	return mkStr(string(rune(int32(uint32(v)))))
}
