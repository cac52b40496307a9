package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opk uint8

const (
	kReg opk = iota
	kConst
	kGlobal
	kNone
)

type opnd struct {
	k opk
	i int32
	v Value
	g *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []opnd
	dst int32 // -1 when none
	// precomputed
	typ   types.Type // canonical type where useful
	aux   any
	sort  Sort
	sgn   bool
	sort2 Sort
	sgn2  bool
}

type cblock struct {
	ins   []cinstr
	nphi  int
	succs []int
	preds []int
}

type fnInfo struct {
	fn     *ssa.Function
	name   string // full name of origin
	nregs  int
	blocks []cblock
	intr   *intrinsic
	model  *ssa.Function // replacement
	instr  bool          // schedule points / race detection apply
	repo   bool          // real code of the repository under test
	once   sync.Once
	pidx   []int32
	fidx   []int32
	hasRec bool
	real   bool
	vmodel bool
	err    string
	ncalls int64
}

var fnInfos sync.Map // *ssa.Function -> *fnInfo
var compileMu sync.Mutex

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (P *Program) info(fn *ssa.Function) *fnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		fi := v.(*fnInfo)
		fi.once.Do(func() { P.compile(fi) })
		return fi
	}
	fi := &fnInfo{fn: fn}
	v, _ := fnInfos.LoadOrStore(fn, fi)
	fi = v.(*fnInfo)
	fi.once.Do(func() { P.compile(fi) })
	return fi
}

var fnReal sync.Map

// infoReal compiles the function's own body even when an intrinsic is registered for it.
func (P *Program) infoReal(fn *ssa.Function) *fnInfo {
	v, _ := fnReal.LoadOrStore(fn, &fnInfo{fn: fn, real: true})
	fi := v.(*fnInfo)
	fi.once.Do(func() { P.compile(fi) })
	return fi
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for fn != nil {
		if fn.Pkg != nil {
			return fn.Pkg
		}
		if o := fn.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
		if fn.Parent() != nil {
			fn = fn.Parent()
			continue
		}
		break
	}
	return nil
}

func pkgPathOf(fn *ssa.Function) string {
	if p := fnPkg(fn); p != nil {
		return p.Pkg.Path()
	}
	if fn != nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

const repoMod = "github.com/hyp3rd/hypercache"

func isRepoPath(p string) bool {
	return (p == repoMod || strings.HasPrefix(p, repoMod+"/")) && !strings.Contains(p, "/zzverif")
}
func isHarnessPath(p string) bool { return strings.Contains(p, "/zzverif") }

func (P *Program) compile(fi *fnInfo) {
	fn := fi.fn
	fi.name = fullName(fn)
	pp := pkgPathOf(fn)
	fi.repo = isRepoPath(pp)
	fi.instr = fi.repo || isHarnessPath(pp)
	fi.vmodel = strings.HasSuffix(pp, "/zzverif/vmodel")
	if it, ok := intrinsics[fi.name]; ok && !fi.real {
		fi.intr = it
		return
	}
	if mf, ok := P.models[fi.name]; ok && mf != fn && !fi.real {
		fi.model = mf
		return
	}
	for _, pr := range prefixIntrinsics {
		if !fi.real && strings.HasPrefix(fi.name, pr.prefix) {
			fi.intr = pr.it
			return
		}
	}
	if fn.Blocks == nil {
		if pk := fnPkg(fn); pk != nil {
			P.buildPkg(pk)
		}
	}
	if fn.Blocks == nil {
		fi.err = "no body: " + fi.name
		return
	}
	idx := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		idx[p] = n
		fi.pidx = append(fi.pidx, n)
		n++
	}
	for _, p := range fn.FreeVars {
		idx[p] = n
		fi.fidx = append(fi.fidx, n)
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				idx[v] = n
				n++
			}
		}
	}
	fi.nregs = int(n)
	mk := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{k: kNone}
		case *ssa.Const:
			return opnd{k: kConst, v: constVal(x)}
		case *ssa.Global:
			return opnd{k: kGlobal, g: x}
		case *ssa.Function:
			return opnd{k: kConst, v: &Closure{fn: x}}
		case *ssa.Builtin:
			return opnd{k: kNone}
		}
		i, ok := idx[v]
		if !ok {
			panic("no index for " + v.Name())
		}
		return opnd{k: kReg, i: i}
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = idx[v]
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				cb.nphi++
				for _, e := range x.Edges {
					ci.ops = append(ci.ops, mk(e))
				}
			case ssa.CallInstruction:
				c := x.Common()
				if _, isB := c.Value.(*ssa.Builtin); !isB {
					ci.ops = append(ci.ops, mk(c.Value))
				} else {
					ci.ops = append(ci.ops, opnd{k: kNone})
				}
				for _, a := range c.Args {
					ci.ops = append(ci.ops, mk(a))
				}
				if d, ok := in.(*ssa.Defer); ok && d.DeferStack != nil {
					ci.aux = mk(d.DeferStack)
				}
			default:
				var buf [8]*ssa.Value
				for _, p := range in.Operands(buf[:0]) {
					if p == nil || *p == nil {
						ci.ops = append(ci.ops, opnd{k: kNone})
						continue
					}
					ci.ops = append(ci.ops, mk(*p))
				}
			}
			switch x := in.(type) {
			case *ssa.Alloc:
				ci.typ = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.MakeInterface:
				ci.typ = canon(x.X.Type())
			case *ssa.TypeAssert:
				ci.typ = canon(x.AssertedType)
			case *ssa.BinOp:
				ci.sort, ci.sgn, _ = typeSort(x.X.Type())
				ci.sort2, ci.sgn2, _ = typeSort(x.Y.Type())
			case *ssa.UnOp:
				ci.sort, ci.sgn, _ = typeSort(x.X.Type())
			case *ssa.Convert:
				ci.sort, ci.sgn, _ = typeSort(x.X.Type())
				ci.sort2, ci.sgn2, _ = typeSort(x.Type())
			case *ssa.Return:
			}
			cb.ins = append(cb.ins, ci)
		}
	}
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return mkStr(constant.StringVal(c.Value))
			}
			n, _ := constant.Int64Val(c.Value)
			return mkStr(string(rune(n)))
		case b.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case b.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return complex(re, im)
		}
		s, sgn, ok := basicSort(b)
		if !ok {
			if b.Kind() == types.UnsafePointer {
				return nilPtr
			}
			panic(unsup("const type " + t.String()))
		}
		switch s {
		case sF64:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return mkF64(f)
		case sF32:
			f, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return mkConst(sF32, uint64(math.Float32bits(f)))
		}
		v := constant.ToInt(c.Value)
		if sgn {
			n, _ := constant.Int64Val(v)
			return mkConst(s, uint64(n))
		}
		n, ok := constant.Uint64Val(v)
		if !ok {
			i, _ := constant.Int64Val(v)
			n = uint64(i)
		}
		return mkConst(s, n)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		panic(unsup("const iface"))
	}
	// type parameter-typed constants are instantiated by InstantiateGenerics
	panic(unsup("const " + t.String()))
}

var _ = token.ADD
