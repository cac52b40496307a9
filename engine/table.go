package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"strconv"
	"strings"
	"sync"
)

// Constant tables: a read of a constant array at a symbolic index is one term, so that
// tables compose (decode of encode is the identity) instead of growing nested
// if-then-else trees. A table has 2^k entries and is indexed by the low k bits.

type table struct {
	id int
	v  []uint64
}

var tables struct {
	sync.RWMutex
	by  map[string]*table
	all []*table
}

func internTable(v []uint64) *table {
	raw := make([]byte, 0, len(v)*8)
	for _, x := range v {
		raw = binary.LittleEndian.AppendUint64(raw, x)
	}
	k := string(raw)
	tables.Lock()
	defer tables.Unlock()
	if t := tables.by[k]; t != nil {
		return t
	}
	if tables.by == nil {
		tables.by = map[string]*table{}
	}
	t := &table{len(tables.all), v}
	tables.by[k] = t
	tables.all = append(tables.all, t)
	return t
}

func tabOf(t *Term) *table {
	tables.RLock()
	defer tables.RUnlock()
	return tables.all[t.val]
}

// Tab reads v (padded to a power of two with its last entry) at idx.
func (b *TB) Tab(v []uint64, s Sort, idx *Term) *Term {
	k := Sort(bits.Len(uint(len(v) - 1)))
	if k == 0 {
		return mkConst(s, v[0])
	}
	if idx.op == oConst {
		i := idx.val & mask(k)
		if i >= uint64(len(v)) {
			i = uint64(len(v) - 1)
		}
		return mkConst(s, v[i])
	}
	for len(v) < 1<<k {
		v = append(v[:len(v):len(v)], v[len(v)-1])
	}
	// index: exactly k bits
	i := idx
	for i.op == oZext {
		i = i.a[0]
	}
	if i.sort < k { // fewer bits than entries
		k = i.sort
		v = v[:1<<k]
	} else if i.sort > k {
		u := ub(i)
		if u < 1<<k && i.op == oTab {
			// keep
		} else {
			i = b.low(i, k)
		}
	}
	for i.op == oZext {
		i = i.a[0]
		if i.sort < k {
			k = i.sort
			v = v[:1<<k]
		}
	}
	m := uint64(len(v) - 1)
	if i.op == oTab {
		t := tabOf(i)
		w := make([]uint64, len(t.v))
		for j, x := range t.v {
			w[j] = v[x&m]
		}
		return b.Tab(w, s, i.a[0])
	}
	if i.op == oConst {
		return mkConst(s, v[i.val&m])
	}
	if i.op == oIte && i.a[1].op == oConst && i.a[2].op == oConst {
		return b.Ite(i.a[0], mkConst(s, v[i.a[1].val&m]), mkConst(s, v[i.a[2].val&m]))
	}
	same, ident := true, s.isBV()
	for j, x := range v {
		same = same && x == v[0]
		ident = ident && x == uint64(j)
	}
	if same {
		return mkConst(s, v[0])
	}
	if ident {
		if s < i.sort {
			return b.Extract(i, 0, s)
		}
		return b.Zext(i, s)
	}
	t := internTable(v)
	ci := b.canon(i)
	key := tkey{op: oTab, sort: s, a: ci.id, val: uint64(t.id)}
	if x := b.tab[key]; x != nil {
		return x
	}
	b.next++
	x := &Term{op: oTab, sort: s, id: b.next, val: uint64(t.id), a: [3]*Term{ci}}
	b.tab[key] = x
	return x
}

// mapTab applies f to every entry.
func (b *TB) mapTab(x *Term, s Sort, f func(uint64) uint64) *Term {
	t := tabOf(x)
	w := make([]uint64, len(t.v))
	for j, e := range t.v {
		w[j] = f(e) & mask(s)
	}
	return b.Tab(w, s, x.a[0])
}

// tabBin folds an operation between a table read and a constant, or two reads at one index.
func (b *TB) tabBin(op Op, rs Sort, x, y *Term) *Term {
	div := op == oUDiv || op == oSDiv || op == oURem || op == oSRem
	switch {
	case x.op == oTab && y.op == oConst:
		if div && y.val == 0 {
			return nil
		}
		return b.mapTab(x, rs, func(e uint64) uint64 { return evalOp(op, rs, 0, x.sort, e, y.val, 0) })
	case x.op == oConst && y.op == oTab:
		if div {
			return nil
		}
		return b.mapTab(y, rs, func(e uint64) uint64 { return evalOp(op, rs, 0, x.sort, x.val, e, 0) })
	case x.op == oTab && y.op == oTab && x.a[0] == y.a[0] && !div:
		t, u := tabOf(x), tabOf(y)
		if len(t.v) != len(u.v) {
			return nil
		}
		w := make([]uint64, len(t.v))
		for j := range w {
			w[j] = evalOp(op, rs, 0, x.sort, t.v[j], u.v[j], 0) & mask(rs)
		}
		return b.Tab(w, rs, x.a[0])
	}
	return nil
}

// smtTab is the body of a table read: a bit-indexed multiplexer.
func smtTab(t *Term) string {
	tb := tabOf(t)
	i := smtRef(t.a[0])
	var sb strings.Builder
	var rec func(lo, hi, bit int)
	rec = func(lo, hi, bit int) {
		same := true
		for j := lo + 1; j < hi; j++ {
			if tb.v[j] != tb.v[lo] {
				same = false
				break
			}
		}
		if same {
			sb.WriteString(smtConst(mkConst(t.sort, tb.v[lo])))
			return
		}
		mid := (lo + hi) / 2
		half := true
		for j := lo; j < mid; j++ {
			if tb.v[j] != tb.v[j+mid-lo] {
				half = false
				break
			}
		}
		if half {
			rec(lo, mid, bit-1)
			return
		}
		fmt.Fprintf(&sb, "(ite (= ((_ extract %d %d) %s) #b1) ", bit, bit, i)
		rec(mid, hi, bit-1)
		sb.WriteByte(' ')
		rec(lo, mid, bit-1)
		sb.WriteByte(')')
	}
	rec(0, len(tb.v), bits.Len(uint(len(tb.v)-1))-1)
	return sb.String()
}

var _ = strconv.Itoa
