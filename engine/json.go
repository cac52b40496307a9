package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A structural model of encoding/json. Values whose parts are all concrete are
// rendered to real JSON text and parsed from it; a value with symbolic parts is
// kept as a tree, and its text is an opaque handle recognised by the decoder.

type jkind uint8

const (
	jNull jkind = iota
	jBool
	jInt   // v: integer term, sg: signed
	jFloat // v: float term
	jNum   // s: literal
	jStr   // s: string
	jBytes // bytes: base64 string of a []byte
	jArr
	jObj
)

type jnode struct {
	k     jkind
	v     *Term
	sg    bool
	s     *Str
	bytes []*Term
	names []string
	keys  []*Str // map keys (may be symbolic) instead of names
	elems []*jnode
}

type jfield struct {
	name            string
	idx             []int
	typ             types.Type
	omit, omitz, qs bool
}

// jfields lists the JSON fields of a struct (embedded structs flattened, no conflict resolution beyond depth).
func jfields(st *types.Struct) []jfield {
	var out []jfield
	seen := map[string]bool{}
	var walk func(st *types.Struct, pre []int)
	walk = func(st *types.Struct, pre []int) {
		var later []func()
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			parts := strings.Split(tag, ",")
			idx := append(append([]int{}, pre...), i)
			if f.Embedded() && parts[0] == "" {
				if s, ok := f.Type().Underlying().(*types.Struct); ok {
					later = append(later, func() { walk(s, idx) })
					continue
				}
				panic(unsup("json: embedded %s", f.Type()))
			}
			if !f.Exported() {
				continue
			}
			jf := jfield{name: f.Name(), idx: idx, typ: f.Type()}
			if parts[0] != "" {
				jf.name = parts[0]
			}
			for _, o := range parts[1:] {
				switch o {
				case "omitempty":
					jf.omit = true
				case "omitzero":
					jf.omitz = true
				case "string":
					jf.qs = true
				}
			}
			if seen[jf.name] {
				continue
			}
			seen[jf.name] = true
			out = append(out, jf)
		}
		for _, f := range later {
			f()
		}
	}
	walk(st, nil)
	return out
}

func hasMethod(t types.Type, name string) bool {
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return true
			}
		}
	}
	return false
}

type jsonErr struct{ s string }

// asciiOrFork: JSON text of a symbolic string is only modelled for ASCII.
func (m *Machine) jsonStr(s *Str) *Str {
	if s.sym == nil {
		return mkStr(strings.ToValidUTF8(s.s, "\uFFFD"))
	}
	ok := trueT
	for _, b := range s.sym {
		ok = m.tb.And(ok, m.tb.Bin(oUlt, b, mkConst(8, 0x80)))
	}
	if !m.branch(ok) {
		panic(unsup("json: symbolic non-ASCII string"))
	}
	x := *s
	return &x
}

func (m *Machine) jsonEmpty(v Value, t types.Type) bool {
	switch x := v.(type) {
	case *Term:
		if x.sort == sBool {
			return !m.branch(x)
		}
		return m.branch(m.tb.Eq(x, mkConst(x.sort, 0)))
	case *Str:
		return x.Len() == 0
	case SliceV:
		return len(x) == 0
	case Array:
		return len(x) == 0
	case *MapV:
		return x == nil || x.n == 0
	case *Value:
		return x == nil
	case Iface:
		return x.t == nil
	}
	return false
}

func (m *Machine) jsonTree(v Value, t types.Type, depth int) *jnode {
	if depth > 40 {
		panic(unsup("json: depth"))
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		f := v.(Iface)
		if f.t == nil {
			return &jnode{k: jNull}
		}
		return m.jsonTree(f.v, f.t, depth+1)
	}
	ts := t.String()
	if ts == "time.Time" {
		s, ok := v.(Struct)
		if ok {
			if n, ok := m.timeText(s); ok {
				return &jnode{k: jStr, s: mkStr(n)}
			}
		}
		panic(unsup("json: time.Time"))
	}
	if isRaw(ts) {
		b := v.(SliceV)
		if b == nil {
			return &jnode{k: jNull}
		}
		n, err := m.jsonParse(b)
		if err != "" {
			panic(jsonErr{"json: error calling MarshalJSON for type json.RawMessage: " + err})
		}
		return n
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		p := v.(*Value)
		if p == nil {
			return &jnode{k: jNull}
		}
		return m.jsonTree(*p, pt.Elem(), depth+1)
	}
	if hasMethod(t, "MarshalJSON") || hasMethod(t, "MarshalText") {
		panic(unsup("json: marshaler %s", ts))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Str:
			return &jnode{k: jStr, s: m.jsonStr(x)}
		case *Term:
			if x.sort == sBool {
				return &jnode{k: jBool, v: x}
			}
			if x.sort.isFP() {
				if x.op != oConst {
					panic(unsup("json: symbolic float"))
				}
				f := fval(x.sort, x.val)
				if math.IsNaN(f) || math.IsInf(f, 0) {
					panic(jsonErr{"json: unsupported value: " + strconv.FormatFloat(f, 'g', -1, 64)})
				}
				b, _ := json.Marshal(f)
				return &jnode{k: jNum, s: mkStr(string(b))}
			}
			_, sg, _ := basicSort(u)
			return &jnode{k: jInt, v: m.tb.Resize(x, sg, 64), sg: sg}
		}
	case *types.Struct:
		n := &jnode{k: jObj}
		for _, f := range jfields(u) {
			fv := v
			for _, i := range f.idx {
				fv = fv.(Struct)[i]
			}
			if f.omit && m.jsonEmpty(fv, f.typ) {
				continue
			}
			if f.omitz {
				z := m.equal(fv, zero(f.typ))
				if m.branch(z) {
					continue
				}
			}
			if f.qs {
				panic(unsup("json: string option"))
			}
			n.names = append(n.names, f.name)
			n.elems = append(n.elems, m.jsonTree(fv, f.typ, depth+1))
		}
		return n
	case *types.Slice:
		s := v.(SliceV)
		if s == nil {
			return &jnode{k: jNull}
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			n := &jnode{k: jBytes, bytes: []*Term{}}
			for _, x := range s {
				n.bytes = append(n.bytes, x.(*Term))
			}
			return n
		}
		n := &jnode{k: jArr}
		for _, x := range s {
			n.elems = append(n.elems, m.jsonTree(x, u.Elem(), depth+1))
		}
		return n
	case *types.Array:
		n := &jnode{k: jArr}
		for _, x := range v.(Array) {
			n.elems = append(n.elems, m.jsonTree(x, u.Elem(), depth+1))
		}
		return n
	case *types.Map:
		mp := v.(*MapV)
		if mp == nil {
			return &jnode{k: jNull}
		}
		kb, ok := u.Key().Underlying().(*types.Basic)
		if !ok || kb.Info()&types.IsString == 0 {
			panic(unsup("json: map key %s", u.Key()))
		}
		type kv struct {
			k *Str
			v *jnode
		}
		var es []kv
		conc := true
		for _, e := range mp.ents {
			if !e.deleted {
				k := m.jsonStr(e.k.(*Str))
				conc = conc && k.sym == nil
				es = append(es, kv{k, m.jsonTree(e.v, u.Elem(), depth+1)})
			}
		}
		if conc {
			sort.SliceStable(es, func(i, j int) bool { return es[i].k.s < es[j].k.s })
		}
		n := &jnode{k: jObj}
		for _, e := range es {
			if conc {
				n.names = append(n.names, e.k.s)
			} else {
				n.keys = append(n.keys, e.k)
			}
			n.elems = append(n.elems, e.v)
		}
		return n
	case *types.Chan, *types.Signature:
		panic(jsonErr{"json: unsupported type: " + ts})
	}
	panic(unsup("json: encode %s (%T)", ts, v))
}

// text renders a fully concrete tree.
func (n *jnode) text(sb *bytes.Buffer) bool {
	switch n.k {
	case jNull:
		sb.WriteString("null")
	case jBool:
		if n.v.op != oConst {
			return false
		}
		sb.WriteString(strconv.FormatBool(n.v.val != 0))
	case jInt:
		if n.v.op != oConst {
			return false
		}
		if n.sg {
			sb.WriteString(strconv.FormatInt(int64(n.v.val), 10))
		} else {
			sb.WriteString(strconv.FormatUint(n.v.val, 10))
		}
	case jNum:
		sb.WriteString(n.s.s)
	case jStr:
		if n.s.sym != nil {
			return false
		}
		b, _ := json.Marshal(n.s.s)
		sb.Write(b)
	case jBytes:
		b := strFrom(n.bytes)
		if b.sym != nil {
			return false
		}
		sb.WriteString(`"` + base64.StdEncoding.EncodeToString([]byte(b.s)) + `"`)
	case jArr:
		sb.WriteByte('[')
		for i, e := range n.elems {
			if i > 0 {
				sb.WriteByte(',')
			}
			if !e.text(sb) {
				return false
			}
		}
		sb.WriteByte(']')
	case jObj:
		if n.keys != nil {
			return false
		}
		sb.WriteByte('{')
		for i, e := range n.elems {
			if i > 0 {
				sb.WriteByte(',')
			}
			b, _ := json.Marshal(n.names[i])
			sb.Write(b)
			sb.WriteByte(':')
			if !e.text(sb) {
				return false
			}
		}
		sb.WriteByte('}')
	default:
		return false
	}
	return true
}

func bytesVal(s string) SliceV {
	out := make(SliceV, len(s))
	for i := range out {
		out[i] = mkConst(8, uint64(s[i]))
	}
	return out
}

const jHandle = "\x01json:"

func (m *Machine) jsonText(n *jnode) SliceV {
	var sb bytes.Buffer
	if n.text(&sb) {
		return bytesVal(sb.String())
	}
	m.jsons = append(m.jsons, n)
	return bytesVal(fmt.Sprintf("%s%d\x02", jHandle, len(m.jsons)-1))
}

// jsonParse turns text (or a handle) into a tree.
func (m *Machine) jsonParse(b SliceV) (*jnode, string) {
	ts := make([]*Term, len(b))
	for i, x := range b {
		ts[i] = x.(*Term)
	}
	s := strFrom(ts)
	if s.sym != nil {
		panic(unsup("json: symbolic text"))
	}
	t := strings.TrimSpace(s.s)
	if strings.HasPrefix(t, jHandle) {
		i, err := strconv.Atoi(strings.TrimSuffix(t[len(jHandle):], "\x02"))
		if err == nil && strings.HasSuffix(t, "\x02") && i < len(m.jsons) {
			return m.jsons[i], ""
		}
	}
	d := json.NewDecoder(strings.NewReader(s.s))
	d.UseNumber()
	if !json.Valid([]byte(s.s)) {
		var x any
		err := json.Unmarshal([]byte(s.s), &x)
		if err == nil {
			err = fmt.Errorf("invalid")
		}
		return nil, err.Error()
	}
	var rd func() *jnode
	rd = func() *jnode {
		tok, _ := d.Token()
		switch x := tok.(type) {
		case nil:
			return &jnode{k: jNull}
		case bool:
			return &jnode{k: jBool, v: mkBool(x)}
		case json.Number:
			return &jnode{k: jNum, s: mkStr(x.String())}
		case string:
			return &jnode{k: jStr, s: mkStr(x)}
		case json.Delim:
			n := &jnode{k: jArr}
			if x == '{' {
				n.k = jObj
			}
			for d.More() {
				if n.k == jObj {
					kt, _ := d.Token()
					n.names = append(n.names, kt.(string))
				}
				n.elems = append(n.elems, rd())
			}
			d.Token()
			return n
		}
		panic(unsup("json token"))
	}
	return rd(), ""
}

func (n *jnode) desc() string {
	switch n.k {
	case jBool:
		return "bool"
	case jInt, jFloat, jNum:
		return "number"
	case jStr, jBytes:
		return "string"
	case jArr:
		return "array"
	}
	return "object"
}

func (n *jnode) str() *Str {
	if n.k == jStr {
		return n.s
	}
	b := strFrom(n.bytes)
	if b.sym != nil {
		panic(unsup("json: base64 text of symbolic bytes"))
	}
	return mkStr(base64.StdEncoding.EncodeToString([]byte(b.s)))
}

// jsonInto decodes n into the cell p of type t; the first type error is reported and decoding goes on.
func (m *Machine) jsonInto(n *jnode, p *Value, t types.Type, errp *string) {
	bad := func(what string) {
		if *errp == "" {
			*errp = "json: cannot unmarshal " + what + " into Go value of type " + t.String()
		}
	}
	if isRaw(t.String()) {
		*p = m.jsonText(n)
		return
	}
	if n.k == jNull {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			storeInto(p, zero(t))
		}
		return
	}
	if t.String() == "time.Time" {
		if n.k != jStr || n.s.sym != nil {
			bad(n.desc())
			return
		}
		v, ok := m.parseTime(n.s.s)
		if !ok {
			if *errp == "" {
				*errp = "parsing time " + n.s.s
			}
			return
		}
		storeInto(p, v)
		return
	}
	if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
		if _, isI := t.Underlying().(*types.Interface); !isI && (hasMethod(t, "UnmarshalJSON") || hasMethod(t, "UnmarshalText")) {
			panic(unsup("json: unmarshaler %s", t))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q, _ := (*p).(*Value)
		if q == nil {
			q = new(Value)
			*q = zero(u.Elem())
			*p = q
		}
		m.jsonInto(n, q, u.Elem(), errp)
		return
	case *types.Interface:
		if f, ok := (*p).(Iface); ok && f.t != nil {
			if pt, ok := f.t.Underlying().(*types.Pointer); ok { // a pointer held: decode into what it points to
				if q, _ := f.v.(*Value); q != nil {
					m.jsonInto(n, q, pt.Elem(), errp)
					return
				}
			}
		}
		if u.NumMethods() > 0 {
			bad(n.desc())
			return
		}
		*p = m.jsonAny(n)
		return
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if n.k != jStr && n.k != jBytes {
				bad(n.desc())
				return
			}
			*p = n.str()
			return
		}
		s, sg, _ := basicSort(u)
		if s == sBool {
			if n.k != jBool {
				bad(n.desc())
				return
			}
			*p = n.v
			return
		}
		if s.isFP() {
			switch n.k {
			case jNum:
				f, err := strconv.ParseFloat(n.s.s, 64)
				if err != nil {
					bad("number " + n.s.s)
					return
				}
				if s == sF32 {
					*p = mkConst(sF32, uint64(math.Float32bits(float32(f))))
				} else {
					*p = mkF64(f)
				}
			default:
				bad(n.desc())
			}
			return
		}
		switch n.k {
		case jNum:
			if sg {
				x, err := strconv.ParseInt(n.s.s, 10, int(s))
				if err != nil {
					bad("number " + n.s.s)
					return
				}
				*p = mkConst(s, uint64(x))
			} else {
				x, err := strconv.ParseUint(n.s.s, 10, int(s))
				if err != nil {
					bad("number " + n.s.s)
					return
				}
				*p = mkConst(s, x)
			}
		case jInt:
			// range check at the target's width and sign
			r := m.tb.Resize(n.v, sg, s)
			fits := m.tb.Eq(m.tb.Resize(r, sg, 64), n.v)
			if sg != n.sg {
				fits = m.tb.And(fits, m.tb.Not(m.tb.Bin(oSlt, n.v, mkConst(64, 0))))
			}
			if !m.branch(fits) {
				bad("number")
				return
			}
			*p = r
		default:
			bad(n.desc())
		}
		return
	case *types.Struct:
		if n.k != jObj {
			bad(n.desc())
			return
		}
		if n.keys != nil {
			panic(unsup("json: symbolic object key into a struct"))
		}
		fs := jfields(u)
		for i, e := range n.elems {
			var f *jfield
			for j := range fs {
				if fs[j].name == n.names[i] {
					f = &fs[j]
					break
				}
			}
			if f == nil {
				for j := range fs {
					if strings.EqualFold(fs[j].name, n.names[i]) {
						f = &fs[j]
						break
					}
				}
			}
			if f == nil {
				continue
			}
			q := p
			for _, ix := range f.idx {
				st := (*q).(Struct)
				q = &st[ix]
			}
			m.jsonInto(e, q, f.typ, errp)
		}
		return
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (n.k == jStr || n.k == jBytes) {
			if n.k == jBytes {
				s := make(SliceV, len(n.bytes))
				for i, x := range n.bytes {
					s[i] = x
				}
				*p = s
				return
			}
			if n.s.sym != nil {
				panic(unsup("json: base64 of symbolic text"))
			}
			d, err := base64.StdEncoding.DecodeString(n.s.s)
			if err != nil {
				if *errp == "" {
					*errp = err.Error()
				}
				return
			}
			*p = bytesVal(string(d))
			return
		}
		if n.k != jArr {
			bad(n.desc())
			return
		}
		s := make(SliceV, len(n.elems))
		for i, e := range n.elems {
			s[i] = zero(u.Elem())
			m.jsonInto(e, &s[i], u.Elem(), errp)
		}
		*p = s
		return
	case *types.Array:
		if n.k != jArr {
			bad(n.desc())
			return
		}
		a := (*p).(Array)
		for i := range a {
			if i < len(n.elems) {
				m.jsonInto(n.elems[i], &a[i], u.Elem(), errp)
			} else {
				storeInto(&a[i], zero(u.Elem()))
			}
		}
		return
	case *types.Map:
		if n.k != jObj {
			bad(n.desc())
			return
		}
		mp, _ := (*p).(*MapV)
		if mp == nil {
			mp = newMap(u.Key())
			*p = mp
		}
		for i, e := range n.elems {
			var cell Value = zero(u.Elem())
			m.jsonInto(e, &cell, u.Elem(), errp)
			k := (*Str)(nil)
			if n.keys != nil {
				k = n.keys[i]
			} else {
				k = mkStr(n.names[i])
			}
			m.mapSet(mp, k, cell)
		}
		return
	}
	panic(unsup("json: decode into %s", t))
}

func (m *Machine) jsonAny(n *jnode) Iface {
	switch n.k {
	case jNull:
		return nilIface
	case jBool:
		return Iface{canon(types.Typ[types.Bool]), n.v}
	case jStr, jBytes:
		return Iface{canon(types.Typ[types.String]), n.str()}
	case jNum:
		f, _ := strconv.ParseFloat(n.s.s, 64)
		return Iface{canon(types.Typ[types.Float64]), mkF64(f)}
	case jInt:
		if n.v.op == oConst {
			if n.sg {
				return Iface{canon(types.Typ[types.Float64]), mkF64(float64(int64(n.v.val)))}
			}
			return Iface{canon(types.Typ[types.Float64]), mkF64(float64(n.v.val))}
		}
		panic(unsup("json: symbolic number into any"))
	case jArr:
		s := make(SliceV, len(n.elems))
		for i, e := range n.elems {
			s[i] = m.jsonAny(e)
		}
		return Iface{canon(types.NewSlice(types.NewInterfaceType(nil, nil))), s}
	}
	mp := newMap(types.Typ[types.String])
	for i, e := range n.elems {
		k := (*Str)(nil)
		if n.keys != nil {
			k = n.keys[i]
		} else {
			k = mkStr(n.names[i])
		}
		m.mapSet(mp, k, m.jsonAny(e))
	}
	return Iface{canon(types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))), mp}
}

// timeText / parseTime: concrete times only.
func (m *Machine) timeText(s Struct) (string, bool) {
	w, ok1 := s[0].(*Term)
	e, ok2 := s[1].(*Term)
	if !ok1 || !ok2 || w.op != oConst || e.op != oConst {
		return "", false
	}
	t, ok := concreteTime(w.val, int64(e.val))
	if !ok {
		return "", false
	}
	return t.UTC().Format("2006-01-02T15:04:05.999999999Z07:00"), true
}

func concreteTime(wall uint64, ext int64) (time.Time, bool) {
	nsec := int64(wall & (1<<30 - 1))
	if wall&hasMonotonic != 0 {
		sec := int64(wall<<1>>31) - 2682374400 // since 1885 -> unix
		return time.Unix(sec, nsec), true
	}
	return time.Unix(ext-62135596800, nsec), true
}

func (m *Machine) parseTime(s string) (Value, bool) {
	t, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		return nil, false
	}
	return Struct{mkConst(64, uint64(t.Nanosecond())), mkConst(64, uint64(t.Unix()+62135596800)), nilPtr}, true
}

func init() {
	const vm = zz + "/vmodel."
	reg(vm+"jsonEnc", func(c *callCtx, a []Value) (r Value) {
		defer func() {
			if e := recover(); e != nil {
				if je, ok := e.(jsonErr); ok {
					r = Tuple{nilSlice, mkStr(je.s)}
					return
				}
				panic(e)
			}
		}()
		n := c.m.jsonTree(a[0], types.NewInterfaceType(nil, nil), 0)
		return Tuple{c.m.jsonText(n), emptyStr}
	})
	// jsonFirst: where the first value ends, 0 when there is none, -1 when it is not one
	reg(vm+"jsonFirst", func(c *callCtx, a []Value) Value {
		s := strFrom(bytesOf(a[0]))
		if s.sym != nil {
			panic(unsup("json: symbolic text"))
		}
		t := strings.TrimLeft(s.s, " \t\r\n")
		if t == "" {
			return mkInt(0)
		}
		if strings.HasPrefix(t, jHandle) {
			return mkInt(len(s.s) - len(t) + strings.IndexByte(t, 2) + 1)
		}
		d := json.NewDecoder(strings.NewReader(s.s))
		var x json.RawMessage
		if d.Decode(&x) != nil {
			return mkInt(-1)
		}
		return mkInt(int(d.InputOffset()))
	})
	reg(vm+"jsonDec", func(c *callCtx, a []Value) Value {
		n, err := c.m.jsonParse(a[0].(SliceV))
		if err != "" {
			return mkStr(err)
		}
		f := a[1].(Iface)
		if f.t == nil {
			return mkStr("json: Unmarshal(nil)")
		}
		pt, ok := f.t.Underlying().(*types.Pointer)
		if !ok || f.v.(*Value) == nil {
			return mkStr("json: Unmarshal(non-pointer)")
		}
		e := ""
		m := c.m
		m.jsonInto(n, f.v.(*Value), pt.Elem(), &e)
		return mkStr(e)
	})
	reg(vm+"yamlDec", func(c *callCtx, a []Value) Value {
		n, err := c.m.jsonParse(a[0].(SliceV))
		if err != "" {
			// a document outside the modelled subset must be one YAML refuses too
			if b := strFrom(bytesOf(a[0])); b.sym == nil && strings.HasPrefix(b.s, "{") {
				return mkStr("yaml: " + err)
			}
			panic(unsup("yaml: not a JSON document"))
		}
		f := a[1].(Iface)
		pt, ok := f.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsup("yaml: decode into %s", f.t))
		}
		e := ""
		c.m.yamlInto(n, f.v.(*Value), pt.Elem(), a[2].(*Term) == trueT, &e)
		return mkStr(e)
	})
}

// yamlInto is jsonInto with yaml.v3's rules, for the subset a configuration document uses.
func (m *Machine) yamlInto(n *jnode, p *Value, t types.Type, known bool, errp *string) {
	bad := func(what string) {
		if *errp == "" {
			*errp = "yaml: unmarshal errors:\n  cannot unmarshal " + what + " into " + t.String()
		}
	}
	if n.k == jNull {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			storeInto(p, zero(t))
		}
		return
	}
	if hasMethod(t, "UnmarshalYAML") || hasMethod(t, "UnmarshalText") {
		panic(unsup("yaml: unmarshaler %s", t))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		q, _ := (*p).(*Value)
		if q == nil {
			q = new(Value)
			*q = zero(u.Elem())
			*p = q
		}
		m.yamlInto(n, q, u.Elem(), known, errp)
		return
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			switch n.k {
			case jStr:
				*p = n.s
			case jNum:
				*p = n.s
			case jBool:
				if m.branch(n.v) {
					*p = mkStr("true")
				} else {
					*p = mkStr("false")
				}
			case jInt, jFloat, jBytes:
				panic(unsup("yaml: %s into a string", n.desc()))
			default:
				bad(n.desc())
			}
			return
		}
		if s, _, _ := basicSort(u); s == sBool {
			switch n.k {
			case jBool:
				*p = n.v
			case jStr:
				panic(unsup("yaml: text into bool"))
			default:
				bad(n.desc())
			}
			return
		}
	case *types.Struct:
		if n.k != jObj {
			bad(n.desc())
			return
		}
		if n.keys != nil {
			panic(unsup("yaml: symbolic key"))
		}
		for i, e := range n.elems {
			for j := 0; j < i; j++ {
				if n.names[j] == n.names[i] && *errp == "" {
					*errp = "yaml: mapping key already defined"
				}
			}
			found := false
			for k := 0; k < u.NumFields(); k++ {
				f := u.Field(k)
				if !f.Exported() {
					continue
				}
				tag := reflect.StructTag(u.Tag(k)).Get("yaml")
				name, opts, _ := strings.Cut(tag, ",")
				if tag == "-" {
					continue
				}
				if strings.Contains(opts, "inline") {
					panic(unsup("yaml: inline"))
				}
				if name == "" {
					name = strings.ToLower(f.Name())
				}
				if name == n.names[i] {
					found = true
					st := (*p).(Struct)
					m.yamlInto(e, &st[k], f.Type(), known, errp)
					break
				}
			}
			if !found && known && *errp == "" {
				*errp = "yaml: unmarshal errors:\n  field " + n.names[i] + " not found in type"
			}
		}
		return
	case *types.Slice:
		if n.k != jArr {
			bad(n.desc())
			return
		}
		s := make(SliceV, 0, len(n.elems))
		for _, e := range n.elems {
			if e.k == jNull {
				panic(unsup("yaml: null in a list"))
			}
			var x Value = zero(u.Elem())
			s = append(s, x)
			m.yamlInto(e, &s[len(s)-1], u.Elem(), known, errp)
		}
		*p = s
		return
	}
	panic(unsup("yaml: decode %s into %s", n.desc(), t))
}

func isRaw(t string) bool {
	return t == "encoding/json.RawMessage" || t == "github.com/goccy/go-json.RawMessage"
}
