// Package hback: harnesses for pkg/backend.
package hback

import (
	"context"
	"time"

	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var ctx = context.Background()

func newInMemory(c int) backend.IBackend[backend.InMemory] {
	b, err := backend.NewInMemory(backend.WithCapacity[backend.InMemory](c))
	vx.Assert(err == nil, "a backend with a capacity of zero or more is made")
	return b
}

var fields = []string{constants.SortByKey.String(), constants.SortByLastAccess.String(), constants.SortByAccessCount.String(), constants.SortByExpiration.String()}

// ordered says whether a comes no later than b in ascending order of field.
func ordered(field int, a, b *cache.Item) bool {
	switch field {
	case 0:
		return a.Key <= b.Key
	case 1:
		return !a.LastAccess.After(b.LastAccess)
	case 2:
		return a.AccessCount <= b.AccessCount
	default:
		return a.Expiration <= b.Expiration
	}
}

// List decides B01.
func List() {
	b := newInMemory(0)
	n := vx.Choose("items", vx.Param("items", 3)+1)
	var stored []*cache.Item
	for i := 0; i < n; i++ {
		it := &cache.Item{Key: "cab"[i : i+1], Value: i, AccessCount: vx.Uint32("count"), Expiration: time.Duration(vx.Int64("expiration"))}
		vx.Assume(it.Expiration >= 0)
		it.LastAccess = time.Unix(int64(vx.IntRange("second", 0, 3)), int64(vx.IntRange("nano", 0, 999999999)))
		vx.Assert(b.Set(ctx, it) == nil, "a valid item is stored")
		stored = append(stored, it)
	}
	limit := vx.Uint32("limit")
	var filters []backend.IFilter
	sorted, field, desc, filtered, bad := false, 0, false, false, false
	k := vx.Choose("filters", vx.Param("filters", 2)+1)
	for i := 0; i < k; i++ {
		switch vx.Choose("filter", 4) {
		case 0:
			field = vx.Choose("field", len(fields))
			sorted, desc = true, false
			filters = append(filters, backend.WithSortBy(fields[field]))
		case 1:
			asc := vx.Choose("asc", 2) == 1
			desc = desc != !asc
			filters = append(filters, backend.WithSortOrderAsc(asc))
		case 2:
			filtered = true
			filters = append(filters, backend.WithFilterFunc(func(it *cache.Item) bool { return it.AccessCount <= limit }))
		default:
			bad = true
			filters = append(filters, backend.WithSortBy([]string{"", "key", "Keys"}[vx.Choose("unknown", 3)]))
		}
	}
	out, err := b.List(ctx, filters...)
	vx.Assert((err != nil) == bad, "exactly an unknown sort field is an error")
	if bad {
		vx.Reach("refused")
		return
	}
	for _, s := range stored {
		found := 0
		for _, o := range out {
			if o.Key == s.Key {
				found++
				vx.Assert(o.Value == s.Value && o.AccessCount == s.AccessCount && o.Expiration == s.Expiration && o.LastAccess.Equal(s.LastAccess), "an item is listed as stored")
				vx.Assert(o != s, "a listed item is a copy")
			}
		}
		if filtered && s.AccessCount > limit {
			vx.Assert(found == 0, "an item that a filter rejects is left out")
		} else {
			vx.Assert(found == 1, "an item that every filter accepts is listed once")
		}
	}
	for _, o := range out {
		vx.Assert(len(o.Key) == 1 && o.Key >= "a" && o.Key <= "c", "only stored items are listed")
	}
	vx.Assert(len(out) <= n, "only stored items are listed")
	for i := 1; sorted && i < len(out); i++ {
		if desc {
			vx.Assert(ordered(field, out[i], out[i-1]), "a descending list is in descending order")
		} else {
			vx.Assert(ordered(field, out[i-1], out[i]), "a sorted list is in ascending order")
		}
	}
	vx.Assert(b.Count(ctx) == n, "listing changes nothing")
	vx.Reach("listed")
}

// Map decides B02.
func Map() {
	c := vx.Int("capacity")
	b, err := backend.NewInMemory(backend.WithCapacity[backend.InMemory](c))
	vx.Assert((err != nil) == (c < 0), "exactly a negative capacity is rejected")
	if err != nil {
		vx.Reach("rejected")
		return
	}
	keys := []string{"a", "b"}
	cur := map[string]*cache.Item{}
	n := vx.Param("ops", 3)
	var held, snap []*cache.Item
	for i := 0; i < n; i++ {
		k := keys[vx.Choose("key", 2)]
		cx := ctx
		switch vx.Choose("op", 8) {
		case 0, 1:
			it := &cache.Item{Key: k, Value: vx.Int64("value"), Expiration: time.Duration(vx.Int64("expiration")), Size: vx.Int64("size")}
			switch vx.Choose("flaw", 3) {
			case 1:
				it.Key = ""
			case 2:
				it.Value = nil
			}
			was := *it
			err := b.Set(cx, it)
			bad := was.Key == "" || was.Value == nil || was.Expiration < 0
			vx.Assert((err != nil) == bad, "exactly an invalid item is refused")
			if err == nil {
				cur[was.Key] = &was
			}
		case 2:
			it, ok := b.Get(cx, k)
			vx.Assert(ok == (cur[k] != nil), "a get finds exactly the stored keys")
			if ok {
				w := cur[k]
				vx.Assert(it.Key == k && it.Value == w.Value && it.Expiration == w.Expiration && it.Size == w.Size && it.AccessCount == w.AccessCount, "a get returns the item last stored")
				s := *it
				held, snap = append(held, it), append(snap, &s)
			} else {
				vx.Assert(it == nil, "a key that is absent has no item")
			}
		case 3:
			ok := b.(interface {
				Touch(context.Context, string) bool
			}).Touch(cx, k)
			vx.Assert(ok == (cur[k] != nil), "a touch finds exactly the stored keys")
			if ok {
				cur[k].AccessCount++
			}
		case 4:
			vx.Assert(b.Remove(cx, k, "none") == nil, "a removal succeeds")
			delete(cur, k)
		case 5:
			vx.Assert(b.Clear(cx) == nil, "a clear succeeds")
			cur = map[string]*cache.Item{}
		case 6:
			// a removal that is given up takes no effect after it returned
			dead, cancel := context.WithCancel(ctx)
			cancel()
			err := b.Remove(dead, k)
			_, ok := b.Get(ctx, k)
			vx.Assert(err != nil || !ok, "a removal that succeeds has removed the key")
			if !ok {
				delete(cur, k)
			}
		default:
			nc := vx.Int("newcapacity")
			b.SetCapacity(nc)
			if nc >= 0 {
				c = nc
			}
		}
		for i := range held {
			vx.Assert(*held[i] == *snap[i], "a retrieved item is not altered by later writes")
		}
		vx.Assert(b.Count(ctx) == len(cur) && b.Capacity() == c, "the number of items and the capacity are reported")
	}
	vx.Quiesce()
	for _, k := range keys {
		it, ok := b.Get(ctx, k)
		vx.Assert(ok == (cur[k] != nil) && (!ok || it.Value == cur[k].Value), "a key keeps the item last stored until it is removed or cleared")
	}
	vx.Reach("end")
}
