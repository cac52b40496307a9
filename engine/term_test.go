package main

import (
	"fmt"
	"math/rand/v2"
	"testing"
)

// TestSimplify compares simplified terms with direct evaluation on random inputs.
func TestSimplify(t *testing.T) {
	for it := 0; it < 60000; it++ {
		b := newTB()
		m := Model{}
		type tv struct {
			t *Term
			v uint64
		}
		var pool []tv
		W := []Sort{16, 32, 64}[rand.IntN(3)]
		for i := 0; i < 4; i++ {
			w := W
			if rand.IntN(2) == 0 {
				w = Sort(1 + rand.IntN(int(W)))
			}
			n := fmt.Sprint("x", i)
			v := rand.Uint64() & mask(w)
			if rand.IntN(3) == 0 {
				v &= 7
			}
			m[n] = v & mask(w)
			pool = append(pool, tv{b.Zext(b.Var(n, w), W), v & mask(w)})
		}
		for i := 0; i < 14; i++ {
			x, y := pool[rand.IntN(len(pool))], pool[rand.IntN(len(pool))]
			if rand.IntN(3) == 0 {
				c := rand.Uint64() & mask(Sort(1+rand.IntN(int(W))))
				if rand.IntN(2) == 0 {
					c &= 15
				}
				y = tv{mkConst(W, c), c}
			}
			if rand.IntN(5) == 0 {
				x, y = y, x
			}
			ops := []Op{oAdd, oSub, oMul, oUDiv, oURem, oSDiv, oSRem, oBAnd, oBOr, oBXor, oLShr, oShl, oAShr}
			op := ops[rand.IntN(len(ops))]
			if (op == oUDiv || op == oURem || op == oSDiv || op == oSRem) && y.v == 0 {
				continue
			}
			r := tv{b.Bin(op, x.t, y.t), evalOp(op, W, 0, W, x.v, y.v, 0)}
			tl := 2 + rand.IntN(70)
			tv0 := make([]uint64, tl)
			for j := range tv0 {
				tv0[j] = rand.Uint64() & mask(W)
				switch it % 4 {
				case 0:
					tv0[j] &= 7
				case 1:
					tv0[j] = uint64(j) & mask(W)
				case 2:
					tv0[j] &= 127
				}
			}
			tk := uint64(1)
			for tk < uint64(tl) {
				tk *= 2
			}
			tabv := tv0[min(x.v&(tk-1), uint64(tl-1))]
			tabt := b.Tab(tv0, W, x.t)
			cops := []Op{oUlt, oUle, oSlt, oSle}
			cop := cops[rand.IntN(4)]
			c := b.Bin(cop, x.t, y.t)
			cv := evalOp(cop, sBool, 0, W, x.v, y.v, 0)
			e := b.Eq(x.t, y.t)
			ite := b.Ite(c, x.t, r.t)
			iv := r.v
			if cv == 1 {
				iv = x.v
			}
			lw := Sort(1 + rand.IntN(int(W)))
			for _, z := range []tv{r, {c, cv}, {e, b2u(x.v == y.v)}, {ite, iv}, {tabt, tabv}, {b.low(r.t, lw), r.v & mask(lw)}} {
				b.gen++
				if g := b.eval(z.t, m); g != z.v {
					t.Fatalf("%v: got %x want %x (op %d cop %d W %d model %v)", z.t, g, z.v, op, cop, W, m)
				}
				if z.t.sort != sBool && ub(z.t) < z.v {
					t.Fatalf("ub %v: %x < %x", z.t, ub(z.t), z.v)
				}
			}
			if rand.IntN(4) == 0 {
				pool = append(pool, tv{tabt, tabv})
			} else if rand.IntN(4) == 0 {
				pool = append(pool, tv{ite, iv})
			} else {
				pool = append(pool, r)
			}
		}
	}
}
