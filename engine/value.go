package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is an interpreted value:
//
//	*Term (bool, integers, floats) · *Str · Struct · Array · SliceV · *Value (pointers)
//	*SymPtr · Iface · *Closure · *MapV · *ChanV · Tuple · *DataPtr · Poison
type Value = any

type (
	Struct []Value
	Array  []Value
	SliceV []Value
	Tuple  []Value
)

// Str is a string: concrete when sym is nil, else a fixed-length sequence of symbolic bytes.
type Str struct {
	s   string
	sym []*Term
}

func (s *Str) Len() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}
func (s *Str) at(i int) *Term {
	if s.sym != nil {
		return s.sym[i]
	}
	return mkConst(8, uint64(s.s[i]))
}
func (s *Str) bytes() []*Term {
	if s.sym != nil {
		return s.sym
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = mkConst(8, uint64(s.s[i]))
	}
	return out
}

var emptyStr = &Str{}

func mkStr(s string) *Str { return &Str{s: s} }

// strFrom normalises: all-constant byte sequences become concrete strings.
func strFrom(b []*Term) *Str {
	for _, t := range b {
		if t.op != oConst {
			return &Str{sym: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return &Str{s: string(bs)}
}
func (s *Str) sub(lo, hi int) *Str {
	if s.sym != nil {
		return strFrom(s.sym[lo:hi:hi])
	}
	return &Str{s: s.s[lo:hi]}
}
func strCat(a, b *Str) *Str {
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	if a.sym == nil && b.sym == nil {
		return &Str{s: a.s + b.s}
	}
	out := make([]*Term, 0, a.Len()+b.Len())
	out = append(out, a.bytes()...)
	out = append(out, b.bytes()...)
	return &Str{sym: out}
}

// SymPtr addresses arr[idx] for a symbolic in-range idx; elements are scalars.
type SymPtr struct {
	arr []Value
	idx *Term
}

// DataPtr is the result of unsafe.SliceData / unsafe.StringData.
type DataPtr struct {
	sl  SliceV
	str *Str
}

type Iface struct {
	t types.Type // canonical; nil for the nil interface
	v Value
}

type Closure struct {
	fn     *ssa.Function
	free   []Value
	native func(m *Machine, g *G, args []Value) Value
}

type Poison struct{ why string }

type mapEnt struct {
	k, v    Value
	deleted bool
}

// MapV is a Go map: insertion-ordered entries, an index for keys with concrete hash.
type MapV struct {
	ents  []*mapEnt
	idx   map[string]*mapEnt
	nsym  int // live entries whose key is symbolic
	n     int
	kt    types.Type
	cell  Value // race-detection address
	order []*mapEnt
}

type ChanV struct {
	cap     int
	buf     []Value
	closed  bool
	vcs     []VC
	vcClose VC
	vcRecv  []VC
	id      int
}

var (
	canonMu  sync.Mutex
	canonMap typeutil.Map
	canonPtr sync.Map // types.Type -> canonical
)

func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := canonPtr.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	c := canonMap.At(t)
	if c == nil {
		canonMap.Set(t, t)
		c = t
	}
	canonMu.Unlock()
	canonPtr.Store(t, c)
	return c.(types.Type)
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func basicSort(b *types.Basic) (Sort, bool, bool) { // sort, signed, ok
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return sBool, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Float32:
		return sF32, true, true
	case types.Float64, types.UntypedFloat:
		return sF64, true, true
	}
	return 0, false, false
}

func typeSort(t types.Type) (Sort, bool, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return basicSort(b)
	}
	return 0, false, false
}

var nilPtr = (*Value)(nil)
var nilSlice = SliceV(nil)
var nilIface = Iface{}
var nilClosure = (*Closure)(nil)
var nilMap = (*MapV)(nil)
var nilChan = (*ChanV)(nil)

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.String || u.Kind() == types.UntypedString {
			return emptyStr
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return nilPtr
		}
		if s, _, ok := basicSort(u); ok {
			return mkConst(s, 0)
		}
		if u.Kind() == types.Complex128 || u.Kind() == types.Complex64 {
			return complex(0, 0)
		}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return nilSlice
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 1<<22 {
			panic(unsup("huge array"))
		}
		a := make(Array, n)
		if n > 0 {
			z := zero(u.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Interface:
		return nilIface
	case *types.Signature:
		return nilClosure
	case *types.Map:
		return nilMap
	case *types.Chan:
		return nilChan
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	case *types.TypeParam:
		panic(unsup("zero of type param " + t.String()))
	}
	panic(unsup("zero " + t.String()))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		c := make(Struct, len(x))
		for i := range x {
			c[i] = copyVal(x[i])
		}
		return c
	case Array:
		c := make(Array, len(x))
		for i := range x {
			c[i] = copyVal(x[i])
		}
		return c
	}
	return v
}

// storeInto writes v to *p, keeping nested aggregate cells in place.
func storeInto(p *Value, v Value) {
	switch old := (*p).(type) {
	case Struct:
		if nv, ok := v.(Struct); ok && len(nv) == len(old) {
			for i := range old {
				storeInto(&old[i], nv[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if nv, ok := v.(Array); ok && len(nv) == len(old) {
			for i := range old {
				storeInto(&old[i], nv[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = copyVal(v)
	}
}

type unsupErr struct{ msg string }

func (u unsupErr) Error() string { return "unsupported: " + u.msg }
func unsup(format string, a ...any) unsupErr {
	return unsupErr{fmt.Sprintf(format, a...)}
}

// equal builds the Bool term for x == y at static type t (nil when unknown).
func (m *Machine) equal(x, y Value) *Term {
	b := m.tb
	switch a := x.(type) {
	case *Term:
		c, ok := y.(*Term)
		if !ok {
			panic(unsup("equal term/%T", y))
		}
		if a.sort.isFP() {
			return b.Bin(oFEq, a, c)
		}
		return b.Eq(a, c)
	case *Str:
		c := y.(*Str)
		if a.Len() != c.Len() {
			return falseT
		}
		if a.sym == nil && c.sym == nil {
			return mkBool(a.s == c.s)
		}
		r := trueT
		for i, n := 0, a.Len(); i < n; i++ {
			r = b.And(r, b.Eq(a.at(i), c.at(i)))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *Value:
		switch c := y.(type) {
		case *Value:
			return mkBool(a == c)
		default:
			return falseT
		}
	case *SymPtr:
		panic(unsup("compare symbolic pointers"))
	case *DataPtr:
		if c, ok := y.(*DataPtr); ok {
			if a == c {
				return trueT
			}
			if len(a.sl) > 0 && len(c.sl) > 0 {
				return mkBool(&a.sl[0] == &c.sl[0])
			}
			return mkBool(a.str == c.str && len(a.sl) == len(c.sl))
		}
		return falseT
	case Iface:
		c, ok := y.(Iface)
		if !ok {
			panic(unsup("equal iface/%T", y))
		}
		if a.t == nil || c.t == nil {
			return mkBool(a.t == nil && c.t == nil)
		}
		if a.t != c.t {
			return falseT
		}
		if !types.Comparable(a.t) {
			m.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return m.equal(a.v, c.v)
	case Struct:
		c := y.(Struct)
		r := trueT
		for i := range a {
			r = b.And(r, m.equal(a[i], c[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case Array:
		c := y.(Array)
		r := trueT
		for i := range a {
			r = b.And(r, m.equal(a[i], c[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *MapV:
		c, _ := y.(*MapV)
		return mkBool(a == c)
	case *ChanV:
		c, _ := y.(*ChanV)
		return mkBool(a == c)
	case *Closure:
		c, _ := y.(*Closure)
		if a != nil && c != nil {
			panic(unsup("func compare"))
		}
		return mkBool(a == nil && c == nil)
	case SliceV:
		c, _ := y.(SliceV)
		if a != nil && c != nil {
			panic(unsup("slice compare"))
		}
		return mkBool(a == nil && c == nil)
	}
	panic(unsup("equal %T", x))
}

// keyHash returns a canonical hash string for fully concrete keys.
func keyHash(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if x.op != oConst {
			return false
		}
		if x.sort.isFP() {
			f := fval(x.sort, x.val)
			if f == 0 {
				sb.WriteString("F0;")
				return true
			}
			if f != f {
				return false
			}
		}
		fmt.Fprintf(sb, "%d:%x;", x.sort, x.val)
		return true
	case *Str:
		if x.sym != nil {
			return false
		}
		fmt.Fprintf(sb, "s%d:%s;", len(x.s), x.s)
		return true
	case *Value:
		fmt.Fprintf(sb, "p%p;", x)
		return true
	case *ChanV:
		fmt.Fprintf(sb, "c%p;", x)
		return true
	case *DataPtr:
		fmt.Fprintf(sb, "d%p;", x)
		return true
	case Iface:
		if x.t == nil {
			sb.WriteString("nil;")
			return true
		}
		fmt.Fprintf(sb, "i%p:", x.t)
		return keyHash(x.v, sb)
	case Struct:
		sb.WriteByte('{')
		for _, e := range x {
			if !keyHash(e, sb) {
				return false
			}
		}
		sb.WriteByte('}')
		return true
	case Array:
		sb.WriteByte('[')
		for _, e := range x {
			if !keyHash(e, sb) {
				return false
			}
		}
		sb.WriteByte(']')
		return true
	}
	panic(unsup("map key %T", v))
}

func hashOf(v Value) (string, bool) {
	switch x := v.(type) {
	case *Str:
		if x.sym != nil {
			return "", false
		}
		return x.s, true
	}
	var sb strings.Builder
	ok := keyHash(v, &sb)
	return sb.String(), ok
}

func newMap(kt types.Type) *MapV {
	return &MapV{idx: map[string]*mapEnt{}, kt: kt}
}

// find locates the entry equal to k, forking on symbolic equality.
func (m *Machine) mapFind(mp *MapV, k Value) *mapEnt {
	if mp == nil {
		return nil
	}
	if f, ok := k.(Iface); ok && f.t != nil && !types.Comparable(f.t) {
		m.rtPanic("runtime error: hash of unhashable type " + f.t.String())
	}
	h, conc := hashOf(k)
	if conc {
		if e := mp.idx[h]; e != nil {
			if x, ok := e.k.(*Str); ok { // the buffer behind the key may have been overwritten
				if eh, _ := hashOf(x); eh != h {
					return nil
				}
			}
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.deleted {
			continue
		}
		if conc {
			if _, ec := hashOf(e.k); ec {
				continue
			}
		}
		eq := m.equal(e.k, k)
		if m.branch(eq) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *MapV, k, v Value) {
	if e := m.mapFind(mp, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEnt{k: copyVal(k), v: copyVal(v)}
	mp.ents = append(mp.ents, e)
	mp.n++
	if h, ok := hashOf(k); ok {
		mp.idx[h] = e
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDelete(mp *MapV, k Value) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	e.deleted = true
	mp.n--
	if h, ok := hashOf(e.k); ok {
		delete(mp.idx, h)
	} else {
		mp.nsym--
	}
	if len(mp.ents) > 32 && mp.n < len(mp.ents)/2 {
		// compaction is unsafe with live iterators: iterators hold snapshots, so fine
		out := make([]*mapEnt, 0, mp.n)
		for _, x := range mp.ents {
			if !x.deleted {
				out = append(out, x)
			}
		}
		mp.ents = out
	}
}

func (m *Machine) mapClear(mp *MapV) {
	if mp == nil {
		return
	}
	for _, e := range mp.ents {
		e.deleted = true
	}
	mp.ents = nil
	mp.idx = map[string]*mapEnt{}
	mp.n, mp.nsym = 0, 0
}

// mapIter walks a map; entries added during iteration are visited (a legal Go behaviour).
type mapIter struct {
	mp   *MapV
	snap []*mapEnt
	pos  int
	nond bool
}

func (it *mapIter) next(m *Machine) (*mapEnt, bool) {
	if it.nond {
		for {
			live := it.snap[:0:0]
			for _, e := range it.snap {
				if !e.deleted {
					live = append(live, e)
				}
			}
			it.snap = live
			if len(live) == 0 {
				return nil, false
			}
			i := m.choose(len(live), "maporder")
			e := live[i]
			it.snap = append(append([]*mapEnt{}, live[:i]...), live[i+1:]...)
			return e, true
		}
	}
	for it.pos < len(it.snap) {
		e := it.snap[it.pos]
		it.pos++
		if !e.deleted {
			return e, true
		}
	}
	return nil, false
}

type strIter struct {
	s *Str
	i int
}
