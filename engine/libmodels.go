package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"strings"
)

type digestEnt struct {
	in  *Str
	out [32]byte
}

// Library functions replaced by Go models in harness/vfiber, in harnesses that import it.
var fiberTable = map[string]string{
	"(*net.ListenConfig).Listen":                             "listen",
	"net.Listen":                                             "netListen",
	"github.com/gofiber/fiber/v3.New":                        "fiberNew",
	"(*github.com/gofiber/fiber/v3.App).Get":                 "fiberGet",
	"(*github.com/gofiber/fiber/v3.App).Post":                "fiberPost",
	"(*github.com/gofiber/fiber/v3.App).Put":                 "fiberPut",
	"(*github.com/gofiber/fiber/v3.App).Delete":              "fiberDelete",
	"(*github.com/gofiber/fiber/v3.App).Listener":            "fiberListener",
	"(*github.com/gofiber/fiber/v3.App).Listen":              "fiberListen",
	"(*github.com/gofiber/fiber/v3.App).Head":                "fiberHead",
	"(*github.com/gofiber/fiber/v3.App).Shutdown":            "fiberShutdown",
	"(*github.com/gofiber/fiber/v3.App).ShutdownWithContext": "fiberShutdownCtx",
	"(*github.com/gofiber/fiber/v3.App).ShutdownWithTimeout": "fiberShutdownTimeout",
	"(*net/http.Transport).RoundTrip":                        "roundTrip",
	"compress/gzip.NewWriter":                                "gzipNewWriter",
	"(*compress/gzip.Writer).Write":                          "gzipWrite",
	"(*compress/gzip.Writer).Close":                          "gzipClose",
}

// Library functions replaced by Go models in harness/vmodel (target -> model).
var modelTable = map[string]string{
	"errors.Is":                                         "errorsIs",
	"errors.As":                                         "errorsAs",
	"fmt.Sprintf":                                       "sprintf",
	"fmt.Errorf":                                        "errorf",
	"fmt.Sprint":                                        "sprint",
	"fmt.Sprintln":                                      "sprintln",
	"fmt.Fprintf":                                       "fprintf",
	"fmt.Fprint":                                        "fprint",
	"fmt.Fprintln":                                      "fprintln",
	"fmt.Printf":                                        "printf",
	"fmt.Println":                                       "println_",
	"fmt.Print":                                         "print_",
	"fmt.Appendf":                                       "appendf",
	"sort.Slice":                                        "sortSlice",
	"sort.SliceStable":                                  "sortSlice",
	"time.AfterFunc":                                    "timeAfterFunc",
	"time.NewTimer":                                     "timeNewTimer",
	"time.NewTicker":                                    "timeNewTicker",
	"time.After":                                        "timeAfter",
	"time.Tick":                                         "timeTick",
	"time.Sleep":                                        "timeSleep",
	"(*time.Timer).Stop":                                "timerStop",
	"(*time.Timer).Reset":                               "timerReset",
	"(*time.Ticker).Stop":                               "tickerStop",
	"(*time.Ticker).Reset":                              "tickerReset",
	"(*sync.Once).Do":                                   "onceDo",
	"(*sync.Map).Range":                                 "syncMapRange",
	"(*sync.Cond).Wait":                                 "condWait",
	"(*sync.Cond).Signal":                               "condSignal",
	"(*sync.Cond).Broadcast":                            "condBroadcast",
	"math/rand/v2.IntN":                                 "randIntN",
	"math/rand/v2.Int64N":                               "randInt64N",
	"math/rand/v2.N":                                    "randInt64N",
	"math/rand/v2.Shuffle":                              "randShuffle",
	"math/rand/v2.Perm":                                 "randPerm",
	"math/rand.Intn":                                    "randIntN",
	"math/rand.Shuffle":                                 "randShuffle",
	"context.WithValue":                                 "contextWithValue",
	"net/http.setRequestCancel":                         "httpSetRequestCancel",
	"(*math/rand/v2.Rand).Shuffle":                      "randRandShuffle",
	"(*math/rand/v2.Rand).Perm":                         "randRandPerm",
	"(*math/rand/v2.Rand).IntN":                         "randRandIntN",
	"(*math/rand/v2.Rand).N":                            "randRandInt64N",
	"(*math/rand/v2.Rand).Int64N":                       "randRandInt64N",
	"crypto/rand.Read":                                  "cryptoRead",
	"crypto/rand.Int":                                   "cryptoInt",
	"crypto/sha256.New":                                 "sha256New",
	"encoding/json.Marshal":                             "jsonMarshal",
	"encoding/json.Unmarshal":                           "jsonUnmarshal",
	"github.com/goccy/go-json.Marshal":                  "jsonMarshal",
	"github.com/goccy/go-json.Unmarshal":                "jsonUnmarshal",
	"encoding/json.MarshalIndent":                       "jsonMarshalIndent",
	"github.com/goccy/go-json.MarshalIndent":            "jsonMarshalIndent",
	"github.com/goccy/go-json.MarshalNoEscape":          "jsonMarshal",
	"github.com/goccy/go-json.MarshalWithOption":        "jsonMarshalOpt",
	"github.com/goccy/go-json.UnmarshalNoEscape":        "jsonUnmarshalOpt",
	"github.com/goccy/go-json.UnmarshalWithOption":      "jsonUnmarshalOpt",
	"github.com/goccy/go-json.NewDecoder":               "jsonNewDecoder",
	"(*github.com/goccy/go-json.Decoder).Decode":        "jsonDecode",
	"(*github.com/goccy/go-json.Decoder).More":          "jsonMore",
	"github.com/goccy/go-json.NewEncoder":               "jsonNewEncoder",
	"(*github.com/goccy/go-json.Encoder).Encode":        "jsonEncode",
	"(*encoding/json.Decoder).More":                     "jsonMore",
	"encoding/json.NewDecoder":                          "jsonNewDecoder",
	"(*encoding/json.Decoder).Decode":                   "jsonDecode",
	"encoding/json.NewEncoder":                          "jsonNewEncoder",
	"(*encoding/json.Encoder).Encode":                   "jsonEncode",
	"golang.org/x/crypto/bcrypt.CompareHashAndPassword": "bcryptCompare",
	zz + "/vx.BcryptHash":                               "bcryptHash",
	zz + "/vx.Setenv":                                   "vxSetenv",
	zz + "/vx.TempFile":                                 "vxTempFile",
	"os.Getenv":                                         "osGetenv",
	"os.LookupEnv":                                      "osLookupEnv",
	"os.Open":                                           "osOpen",
	"os.ReadFile":                                       "osReadFile",
	"(*os.File).Read":                                   "fileRead",
	"(*os.File).Close":                                  "fileClose",
	"(*os.File).Name":                                   "fileName",
	"gopkg.in/yaml.v3.NewDecoder":                       "yamlNewDecoder",
	"(*gopkg.in/yaml.v3.Decoder).KnownFields":           "yamlKnownFields",
	"(*gopkg.in/yaml.v3.Decoder).Decode":                "yamlDecode",
	"gopkg.in/yaml.v3.Unmarshal":                        "yamlUnmarshal",
	"github.com/ugorji/go/codec.NewEncoder":             "cborNewEncoder",
}

const (
	hasMonotonic = uint64(1) << 63
	baseUnixSec  = int64(1_800_000_000) // virtual epoch
)

// mkTime builds the time.Time the virtual clock denotes: a monotonic reading is always
// present, so Sub/Before/After use the ext field exactly as the real ones do.
func (m *Machine) mkTime(fn *types.Named, mono *Term) Value {
	z := Struct{nil, nil, nil}
	tt := fn.Underlying().(*types.Struct)
	loc := zero(tt.Field(2).Type())
	var sec, nsec uint64
	if mono.op == oConst {
		t := mono.sval()
		sec = uint64(baseUnixSec + t/1e9)
		nsec = uint64(t % 1e9)
	} else {
		sec = uint64(baseUnixSec)
	}
	// wall seconds since 1885: unixToInternal + ... : 2682288000 = (1970-1885) in seconds
	w := hasMonotonic | (sec+2682374400)<<30 | nsec
	z[0], z[1], z[2] = mkConst(64, w), m.tb.Bin(oAdd, mono, mkConst(64, 1)), loc
	return z
}

func timeNamed(m *Machine) *types.Named {
	return m.P.pkgs["time"].Pkg.Scope().Lookup("Time").Type().(*types.Named)
}

func isMono(v Value) (Struct, bool) {
	s, ok := v.(Struct)
	if !ok {
		return nil, false
	}
	w := s[0].(*Term)
	if w.op != oConst {
		return s, false
	}
	return s, w.val&hasMonotonic != 0
}

func derefTime(v Value) Value {
	if p, ok := v.(*Value); ok {
		return *p
	}
	return v
}

func init() {
	reg("time.Now", func(c *callCtx, a []Value) Value { return c.m.mkTime(timeNamed(c.m), c.m.clock) })
	reg("time.runtimeNano", func(c *callCtx, a []Value) Value { return c.m.tb.Bin(oAdd, c.m.clock, mkConst(64, 1)) })
	reg("time.runtimeNow", func(c *callCtx, a []Value) Value { panic(unsup("time.runtimeNow")) })
	reg("time.now", func(c *callCtx, a []Value) Value { panic(unsup("time.now")) })
	regS("time.Since", false, func(c *callCtx, a []Value) (Value, status) {
		if s, ok := isMono(a[0]); ok {
			return c.m.tb.Bin(oSub, c.m.tb.Bin(oAdd, c.m.clock, mkConst(64, 1)), s[1].(*Term)), stNext
		}
		return nil, stReal
	})
	regS("time.Until", false, func(c *callCtx, a []Value) (Value, status) {
		if s, ok := isMono(a[0]); ok {
			return c.m.tb.Bin(oSub, s[1].(*Term), c.m.tb.Bin(oAdd, c.m.clock, mkConst(64, 1))), stNext
		}
		return nil, stReal
	})
	two := func(name string, f func(m *Machine, x, y *Term) *Term) {
		regS("(time.Time)."+name, false, func(c *callCtx, a []Value) (Value, status) {
			x, ok1 := isMono(a[0])
			y, ok2 := isMono(a[1])
			if ok1 && ok2 {
				return f(c.m, x[1].(*Term), y[1].(*Term)), stNext
			}
			return nil, stReal
		})
	}
	two("Sub", func(m *Machine, x, y *Term) *Term { return m.tb.Bin(oSub, x, y) })
	two("After", func(m *Machine, x, y *Term) *Term { return m.tb.Bin(oSlt, y, x) })
	two("Before", func(m *Machine, x, y *Term) *Term { return m.tb.Bin(oSlt, x, y) })
	two("Equal", func(m *Machine, x, y *Term) *Term { return m.tb.Eq(x, y) })
	two("Compare", func(m *Machine, x, y *Term) *Term {
		return m.tb.Ite(m.tb.Bin(oSlt, x, y), mkInt(-1), m.tb.Ite(m.tb.Eq(x, y), mkInt(0), mkInt(1)))
	})
	regS("(time.Time).Add", false, func(c *callCtx, a []Value) (Value, status) {
		s, ok := isMono(a[0])
		d := a[1].(*Term)
		if !ok || d.op == oConst && s[1].(*Term).op == oConst {
			return nil, stReal
		}
		r := copyVal(s).(Struct)
		r[1] = c.m.tb.Bin(oAdd, s[1].(*Term), d)
		return r, stNext
	})
	for name, div := range map[string]int64{"UnixNano": 1, "UnixMicro": 1000, "UnixMilli": 1_000_000, "Unix": 1_000_000_000} {
		div := div
		regS("(time.Time)."+name, false, func(c *callCtx, a []Value) (Value, status) {
			s, ok := isMono(a[0])
			if !ok {
				return nil, stReal
			}
			ns := c.m.tb.Bin(oAdd, s[1].(*Term), mkConst(64, uint64(baseUnixSec*1_000_000_000-1)))
			if div == 1 {
				return ns, stNext
			}
			return c.m.tb.Bin(oSDiv, ns, mkConst(64, uint64(div))), stNext
		})
	}

	// sync.Map: one linearizable map per object
	smap := func(c *callCtx, p Value) *MapV {
		pv := p.(*Value)
		if pv == nil {
			c.m.nilDeref()
		}
		mp, _ := c.m.side[pv].(*MapV)
		if mp == nil {
			mp = newMap(types.NewInterfaceType(nil, nil))
			c.m.side[pv] = mp
		}
		c.m.atomicSync(&mp.cell)
		return mp
	}
	regV("(*sync.Map).Load", func(c *callCtx, a []Value) Value {
		if e := c.m.mapFind(smap(c, a[0]), a[1]); e != nil {
			return Tuple{e.v, trueT}
		}
		return Tuple{nilIface, falseT}
	})
	regV("(*sync.Map).Store", func(c *callCtx, a []Value) Value {
		c.m.mapSet(smap(c, a[0]), a[1], a[2])
		return nil
	})
	regV("(*sync.Map).Swap", func(c *callCtx, a []Value) Value {
		mp := smap(c, a[0])
		r := Tuple{nilIface, falseT}
		if e := c.m.mapFind(mp, a[1]); e != nil {
			r = Tuple{e.v, trueT}
		}
		c.m.mapSet(mp, a[1], a[2])
		return r
	})
	regV("(*sync.Map).LoadOrStore", func(c *callCtx, a []Value) Value {
		mp := smap(c, a[0])
		if e := c.m.mapFind(mp, a[1]); e != nil {
			return Tuple{e.v, trueT}
		}
		c.m.mapSet(mp, a[1], a[2])
		return Tuple{a[2], falseT}
	})
	regV("(*sync.Map).LoadAndDelete", func(c *callCtx, a []Value) Value {
		mp := smap(c, a[0])
		if e := c.m.mapFind(mp, a[1]); e != nil {
			v := e.v
			c.m.mapDelete(mp, a[1])
			return Tuple{v, trueT}
		}
		return Tuple{nilIface, falseT}
	})
	regV("(*sync.Map).Delete", func(c *callCtx, a []Value) Value { c.m.mapDelete(smap(c, a[0]), a[1]); return nil })
	regV("(*sync.Map).Clear", func(c *callCtx, a []Value) Value { c.m.mapClear(smap(c, a[0])); return nil })
	regV("(*sync.Map).CompareAndSwap", func(c *callCtx, a []Value) Value {
		mp := smap(c, a[0])
		e := c.m.mapFind(mp, a[1])
		if e != nil && c.m.branch(c.m.equal(e.v, a[2])) {
			e.v = a[3]
			return trueT
		}
		return falseT
	})
	regV("(*sync.Map).CompareAndDelete", func(c *callCtx, a []Value) Value {
		mp := smap(c, a[0])
		e := c.m.mapFind(mp, a[1])
		if e != nil && c.m.branch(c.m.equal(e.v, a[2])) {
			c.m.mapDelete(mp, a[1])
			return trueT
		}
		return falseT
	})
	regV(zz+"/vmodel.syncMapKeys", func(c *callCtx, a []Value) Value {
		mp := smap(c, a[0])
		var ents []*mapEnt
		it := &mapIter{mp: mp, snap: append([]*mapEnt{}, mp.ents...), nond: c.m.mapNond}
		for {
			e, ok := it.next(c.m)
			if !ok {
				break
			}
			ents = append(ents, e)
		}
		out := make(SliceV, len(ents))
		for i, e := range ents {
			out[i] = e.k
		}
		return out
	})
	reg(zz+"/vmodel.mapEntries", func(c *callCtx, a []Value) Value { panic(unsup("mapEntries")) })
	// point: an explicit scheduling point
	regV(zz+"/vx.Point", func(c *callCtx, a []Value) Value { return nil })
	// ewrap captures stacks through the runtime
}

func init() {
	vf := zz + "/vfiber."
	reg(vf+"pooled", func(c *callCtx, a []Value) Value { x := *a[0].(*Str); return &x })
	reg(vf+"recycle", func(c *callCtx, a []Value) Value {
		x := a[0].(*Str)
		x.s, x.sym = strings.Repeat("\x7f", x.Len()), nil
		return nil
	})
	vm := zz + "/vmodel."
	// digest: the SHA-256 of concrete bytes, and otherwise a digest of its own for every
	// different input (no two inputs collide); the comparisons with earlier inputs branch
	reg(vm+"digest", func(c *callCtx, a []Value) Value {
		m := c.m
		in := strFrom(bytesOf(a[0]))
		ds, _ := m.side["digests"].([]digestEnt)
		for _, d := range ds {
			if m.branch(m.equal(in, d.in)) {
				return bytesVal(string(d.out[:]))
			}
		}
		var out [32]byte
		if in.sym == nil {
			out = sha256.Sum256([]byte(in.s))
		} else {
			out = sha256.Sum256([]byte(fmt.Sprintf("gosym digest %d", len(ds))))
		}
		m.side["digests"] = append(ds[:len(ds):len(ds)], digestEnt{in, out})
		return bytesVal(string(out[:]))
	})
	reg(vm+"shuffleOK", func(c *callCtx, a []Value) Value { return mkBool(c.m.H.Shuffle) })
}
