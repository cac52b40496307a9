package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func growCap(n int) int { return n }

// appendSlice models append's growth: spare capacity is used in place, otherwise a fresh array is made.
func (m *Machine) appendSlice(s SliceV, add []Value) SliceV {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			if m.race != nil {
				m.race.write(m, &r[len(s)+i])
			}
			r[len(s)+i] = copyVal(v)
		}
		return r
	}
	c := cap(s) * 2
	if cap(s) >= 256 {
		c = cap(s) + cap(s)/4 + 192
	}
	if c < n {
		c = n
	}
	r := make(SliceV, n, c)
	for i, v := range s {
		if m.race != nil {
			m.race.read(m, &s[i])
		}
		r[i] = copyVal(v)
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	// slack elements need zero values of the right shape when resliced
	if c > n && n > 0 {
		z := zeroLike(r[0])
		full := r[:c]
		for i := n; i < c; i++ {
			full[i] = copyVal(z)
		}
	}
	return r
}

// zeroLike builds a zero value with the representation of v.
func zeroLike(v Value) Value {
	switch x := v.(type) {
	case *Term:
		return mkConst(x.sort, 0)
	case *Str:
		return emptyStr
	case Struct:
		s := make(Struct, len(x))
		for i := range x {
			s[i] = zeroLike(x[i])
		}
		return s
	case Array:
		s := make(Array, len(x))
		for i := range x {
			s[i] = zeroLike(x[i])
		}
		return s
	case *Value:
		return nilPtr
	case *DataPtr:
		return nilPtr
	case SliceV:
		return nilSlice
	case Iface:
		return nilIface
	case *Closure:
		return nilClosure
	case *MapV:
		return nilMap
	case *ChanV:
		return nilChan
	}
	return v
}

func (m *Machine) builtin(g *G, fr *Frame, bi *ssa.Builtin, args []Value, in *ssa.Call) Value {
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return mkInt(x.Len())
		case SliceV:
			return mkInt(len(x))
		case Array:
			return mkInt(len(x))
		case *MapV:
			if x == nil {
				return mkInt(0)
			}
			if m.race != nil {
				m.race.read(m, &x.cell)
			}
			return mkInt(x.n)
		case *ChanV:
			if x == nil {
				return mkInt(0)
			}
			return mkInt(len(x.buf))
		case *Value:
			return mkInt(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return mkInt(cap(x))
		case Array:
			return mkInt(len(x))
		case *ChanV:
			if x == nil {
				return mkInt(0)
			}
			return mkInt(x.cap)
		case *Value:
			return mkInt(len((*x).(Array)))
		}
	case "append":
		s, _ := args[0].(SliceV)
		switch a := args[1].(type) {
		case SliceV:
			if len(a) == 0 {
				return s
			}
			if m.race != nil {
				for i := range a {
					m.race.read(m, &a[i])
				}
			}
			return m.appendSlice(s, a)
		case *Str:
			bs := a.bytes()
			if len(bs) == 0 {
				return s
			}
			vs := make([]Value, len(bs))
			for i := range bs {
				vs[i] = bs[i]
			}
			return m.appendSlice(s, vs)
		}
	case "copy":
		d := args[0].(SliceV)
		var src []Value
		switch a := args[1].(type) {
		case SliceV:
			src = a
		case *Str:
			bs := a.bytes()
			src = make([]Value, len(bs))
			for i := range bs {
				src[i] = bs[i]
			}
		}
		n := min(len(d), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			if m.race != nil {
				m.race.read(m, &src[i])
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if m.race != nil {
				m.race.write(m, &d[i])
			}
			storeInto(&d[i], tmp[i])
		}
		return mkInt(n)
	case "delete":
		mp := args[0].(*MapV)
		if mp != nil {
			if m.race != nil {
				m.race.write(m, &mp.cell)
			}
			m.mapDelete(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if m.race != nil && x != nil {
				m.race.write(m, &x.cell)
			}
			m.mapClear(x)
		case SliceV:
			for i := range x {
				storeInto(&x[i], zeroLike(x[i]))
			}
		}
		return nil
	case "close":
		m.closeChan(args[0].(*ChanV))
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(goPanic{val: v, msg: m.describe(v)})
	case "print", "println":
		return nil
	case "recover":
		// valid only when the current frame is a deferred call of a panicking frame
		if len(g.frames) >= 2 && fr.isDefer {
			c := g.frames[len(g.frames)-2]
			if c.pan != nil && !c.pan.recovered {
				c.pan.recovered = true
				return c.pan.val
			}
		}
		return nilIface
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Str:
				c := m.strLess(a.(*Str), x, false)
				if bi.Name() == "max" {
					c = m.strLess(x, a.(*Str), false)
				}
				if m.branch(c) {
					r = a
				}
			case *Term:
				y := a.(*Term)
				t := in.Type()
				s, sgn, _ := typeSort(t)
				var lt *Term
				if s.isFP() {
					nan := m.tb.Or(m.tb.Un(oFIsNaN, sBool, 0, x), m.tb.Un(oFIsNaN, sBool, 0, y))
					if m.branch(nan) {
						if m.branch(m.tb.Un(oFIsNaN, sBool, 0, x)) {
							r = x
						} else {
							r = y
						}
						continue
					}
					lt = m.tb.Bin(oFLt, y, x)
					if bi.Name() == "max" {
						lt = m.tb.Bin(oFLt, x, y)
					}
				} else {
					op := oUlt
					if sgn {
						op = oSlt
					}
					lt = m.tb.Bin(op, y, x)
					if bi.Name() == "max" {
						lt = m.tb.Bin(op, x, y)
					}
				}
				r = m.tb.Ite(lt, y, x)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "SliceData":
		s := args[0].(SliceV)
		if s == nil {
			return nilPtr
		}
		return &DataPtr{sl: s}
	case "StringData":
		return &DataPtr{str: args[0].(*Str)}
	case "String":
		n := int(m.concretizeLen(args[1].(*Term), types.Typ[types.Int]))
		if n == 0 {
			return emptyStr
		}
		switch p := args[0].(type) {
		case *DataPtr:
			if p.str != nil {
				return p.str.sub(0, n)
			}
			bs := make([]*Term, n)
			for i := range bs {
				bs[i] = p.sl[:n][i].(*Term)
			}
			return strFrom(bs)
		}
		panic(unsup("unsafe.String of %T", args[0]))
	case "Slice":
		n := int(m.concretizeLen(args[1].(*Term), types.Typ[types.Int]))
		switch p := args[0].(type) {
		case *DataPtr:
			if p.str != nil {
				out := make(SliceV, n)
				for i := range out {
					out[i] = p.str.at(i)
				}
				return out
			}
			return p.sl[:n:n]
		case *Value:
			if p == nil {
				return nilSlice
			}
			if n == 1 {
				panic(unsup("unsafe.Slice of pointer"))
			}
		}
		panic(unsup("unsafe.Slice of %T", args[0]))
	case "real", "imag", "complex":
		panic(unsup("complex"))
	}
	panic(unsup("builtin %s", bi.Name()))
}
