package hmap

import (
	"errors"
	"time"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// blank says whether s has white space only; s is ASCII.
func blank(s string) bool {
	r := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		r = vx.And(r, vx.Or(c == ' ', vx.And(c >= 9, c <= 13)))
	}
	return r
}

// Valid decides M02 for validity.
func Valid() {
	key := vx.StringN("key", vx.Choose("len", vx.Param("len", 3)+1))
	for i := 0; i < len(key); i++ {
		vx.Assume(key[i] < 128)
	}
	exp := vx.Int64("expiration")
	it := &cache.Item{Key: key, Expiration: time.Duration(exp), Size: vx.Int64("size"), AccessCount: vx.Uint32("count")}
	hasValue := vx.Choose("value", 4)
	switch hasValue {
	case 1:
		it.Value = ""
	case 2:
		it.Value = vx.Int64("v")
	case 3:
		it.Value = []byte(nil)
	}
	was := *it
	err := it.Valid()
	bad := vx.Or(blank(key), vx.Or(hasValue == 0, exp < 0))
	vx.Assert((err != nil) == bad, "exactly an item with a key, a value and an expiration of zero or more is valid")
	if err != nil {
		vx.Assert(vx.Implies(blank(key), errors.Is(err, sentinel.ErrInvalidKey)), "a missing key is reported")
		vx.Assert(vx.Implies(vx.And(vx.Not(blank(key)), hasValue == 0), errors.Is(err, sentinel.ErrNilValue)), "a missing value is reported")
		vx.Assert(vx.Implies(vx.And(vx.Not(blank(key)), hasValue != 0), errors.Is(err, sentinel.ErrInvalidExpiration)), "a negative expiration is reported")
		vx.Reach("invalid")
		return
	}
	vx.Assert(it.Key == was.Key && it.Expiration == was.Expiration && it.Size == was.Size && it.AccessCount == was.AccessCount && (hasValue == 3 || it.Value == was.Value), "validating a valid item changes nothing")
	vx.Reach("valid")
}

const span = 1 << 60

// Expiry decides M02 for expiry and touch.
func Expiry() {
	d, exp := vx.Int64("elapsed"), vx.Int64("expiration")
	vx.Assume(d >= 0)
	vx.Assume(d < span)
	it := &cache.Item{Key: "k", Value: "v", Expiration: time.Duration(exp), AccessCount: vx.Uint32("count")}
	was := it.AccessCount
	it.LastAccess = time.Now().Add(-time.Duration(d))
	got := it.Expired()
	// natively the clock goes on: what is within a minute of the limit may fall either way there
	edge := !vx.Symbolic() && exp > 0 && d > exp-int64(time.Minute) && d <= exp
	vx.Assert(vx.Or(edge, got == vx.And(exp > 0, d > exp)), "an item is expired exactly when a positive expiration has elapsed since its last access")
	vx.Assert(it.AccessCount == was, "asking for expiry changes nothing")
	it.Touch()
	vx.Assert(vx.Implies(exp > 1<<40, !it.Expired()), "a touch renews the access time")
	vx.Assert(it.AccessCount == was+1, "a touch counts one access")
	vx.Reach("end")
}

type sized struct{ n int }

func (s sized) SizeBytes() int { return s.n }

type marshals struct {
	b   []byte
	err error
}

func (m marshals) MarshalBinary() ([]byte, error) { return m.b, m.err }

// Size decides M02 for the size estimate of the values that need no encoder.
func Size() {
	n := vx.Choose("len", 4)
	it := &cache.Item{Key: "k", Size: vx.Int64("before")}
	was := it.Size
	want := int64(n)
	kind := vx.Choose("kind", 7)
	switch kind {
	case 0:
		it.Value = vx.StringN("s", n)
	case 1:
		it.Value = []byte(vx.StringN("s", n))
	case 2:
		it.Value = marshals{b: []byte(vx.StringN("s", n))}
	case 3:
		k := vx.Int("reported")
		it.Value = sized{k}
		want = int64(k)
	case 5:
		x := vx.Int64("number")
		it.Value = x
	case 6:
		it.Value = vx.Bool("truth")
	default:
		it.Value = marshals{err: errors.New("no")}
	}
	err := it.SetSize()
	vx.Assert((err != nil) == (kind == 4), "the size fails only when the value cannot be encoded")
	if err != nil {
		vx.Assert(errors.Is(err, sentinel.ErrInvalidSize) && it.Size == was, "a failed size keeps the old one")
		vx.Reach("failed")
		return
	}
	first := it.Size
	if kind == 5 || kind == 6 {
		vx.Assert(vx.And(first > 0, first <= 9), "a number takes at most nine bytes")
	} else {
		vx.Assert(first == want, "the size is the number of bytes of the value")
		kb, mb := it.SizeKB(), it.SizeMB()
		vx.Assert(kind == 3 || kb == float64(n)/1024 && mb == float64(n)/1024/1024, "kilobytes and megabytes are the size divided")
	}
	other := &cache.Item{Key: "o", Value: vx.Int64("other")}
	vx.Assert(other.SetSize() == nil, "a number has a size")
	again := &cache.Item{Key: "k", Value: it.Value}
	vx.Assert(again.SetSize() == nil && again.Size == first, "the size of a value is the same every time")
	vx.Reach("sized")
}
