package hrest

import (
	"encoding/base64"
	"net/http"
	"net/url"
	"slices"
	"strconv"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/pkg/httpauth"
)

type page struct {
	Keys      []string `json:"keys"`
	Next      string   `json:"next_cursor"`
	Total     int      `json:"total_matched"`
	Truncated bool     `json:"truncated"`
}

// Browse decides R01 for listings: the pages of a listing are the matching keys, in order, each once.
func Browse() {
	s := serve(open)
	defer s.stop()
	all, have := []string{"a1", "a2", "b 1", "b2"}, []string{}
	for _, key := range all {
		if vx.Choose("held", 2) == 1 {
			vx.Assert(s.hc.Set(ctx, key, []byte("v"), 0) == nil, "a key is set")
			have = append(have, key)
		}
	}
	i := vx.Choose("pattern", 4)
	want := []string{}
	for _, key := range have {
		if i == 0 || i == 1 && key[0] == 'a' || i == 2 && key[0] == 'b' || i == 3 && key == "b 1" {
			want = append(want, key)
		}
	}
	limit, limited := vx.Choose("limit", 4), vx.Choose("max", 3)
	q := url.Values{"q": {[]string{"", "a", "b*", "b 1"}[i]}}
	if limit > 0 {
		q.Set("limit", strconv.Itoa(limit))
	}
	if limited > 0 {
		q.Set("max", strconv.Itoa(limited))
	}
	cursor, got := "", []string{}
	for range 6 {
		q.Set("cursor", cursor)
		status, body, _ := s.send("GET", "/v1/cache/keys?"+q.Encode(), "")
		vx.Assert(status == http.StatusOK, "keys are listed")
		var p page
		parse(body, &p)
		vx.Assert(limit == 0 || len(p.Keys) <= limit, "a page holds no more than asked for")
		if limited == 0 || len(want) <= limited {
			vx.Assert(p.Total == len(want) && !p.Truncated, "a listing tells how many keys match")
		} else {
			vx.Assert(p.Total == limited && p.Truncated, "a listing cut short says so")
		}
		got = append(got, p.Keys...)
		if cursor = p.Next; cursor == "" {
			break
		}
	}
	vx.Assert(cursor == "", "a listing ends")
	if limited == 0 || len(want) <= limited {
		vx.Assert(slices.Equal(got, want), "the pages are the matching keys, in order, each once")
	} else {
		vx.Assert(len(got) == limited && slices.IsSorted(got), "a listing cut short lists as many keys as asked for")
		for _, key := range got {
			vx.Assert(slices.Contains(want, key), "a listing cut short lists matching keys")
		}
	}
	vx.Reach("end")
}

type refusal struct {
	Error string `json:"error"`
	Code  string `json:"code"`
}

// Refused decides R01 for requests that make no sense, and for a draining node.
func Refused() {
	s := serve(open)
	defer s.stop()
	status, _, _ := s.send("PUT", "/v1/cache/k", "v")
	vx.Assert(status == http.StatusOK, "a put is accepted")
	drain := vx.Choose("drain", 2) == 1
	if drain {
		vx.Assert(s.hc.DistDrain(ctx) == nil, "a node drains")
		d := vx.Choose("request", 3)
		r := []struct{ method, path, body string }{
			{"PUT", "/v1/cache/n", "v"}, {"DELETE", "/v1/cache/k", ""}, {"POST", "/v1/cache/batch/put", `{"items":[{"key":"n","value":"v"}]}`},
		}[d]
		status, body, _ := s.send(r.method, r.path, r.body)
		if d < 2 {
			var e refusal
			parse(body, &e)
			vx.Assert(status == http.StatusServiceUnavailable && e.Code == "DRAINING", "a draining node refuses writes and says why")
		} else {
			var e entries
			parse(body, &e)
			vx.Assert(status == http.StatusOK && len(e.Results) == 1 && !e.Results[0].Stored && e.Results[0].Code == "DRAINING", "a draining node refuses writes and says why")
		}
		vx.Reach("draining")
	} else {
		r := []struct{ method, path, body string }{
			{"PUT", "/v1/cache/k?ttl=soon", "x"}, {"PUT", "/v1/cache/n?ttl=5", "x"},
			{"POST", "/v1/cache/batch/put", "{"}, {"POST", "/v1/cache/batch/get", "[]"}, {"POST", "/v1/cache/batch/delete", `{"keys":"k"}`},
			{"GET", "/v1/cache/keys?limit=0", ""}, {"GET", "/v1/cache/keys?limit=x", ""}, {"GET", "/v1/cache/keys?cursor=-1", ""},
			{"GET", "/v1/cache/keys?max=-5", ""}, {"GET", "/v1/cache/keys?q=%5B", ""}, {"GET", "/v1/me/can", ""}, {"GET", "/v1/me/can?capability=cache.reads", ""},
		}[vx.Choose("request", 12)]
		status, body, _ := s.send(r.method, r.path, r.body)
		var e refusal
		parse(body, &e)
		vx.Assert(status == http.StatusBadRequest && e.Code == "BAD_REQUEST" && e.Error != "", "a request that makes no sense is refused as such")
		vx.Reach("nonsense")
	}
	status, body, _ := s.send("GET", "/v1/cache/k", "")
	vx.Assert(status == http.StatusOK && body == "v", "a refused request changes nothing")
	status, _, _ = s.send("GET", "/v1/cache/n", "")
	vx.Assert(status == http.StatusNotFound, "a refused request changes nothing")
}

var routes = []struct {
	method, path, body string
	scope              httpauth.Scope
}{
	{"GET", "/healthz", "", ""},
	{"GET", "/v1/openapi.yaml", "", ""},
	{"GET", "/v1/cache/keys", "", httpauth.ScopeRead},
	{"PUT", "/v1/cache/n", "v", httpauth.ScopeWrite},
	{"GET", "/v1/cache/k", "", httpauth.ScopeRead},
	{"HEAD", "/v1/cache/k", "", httpauth.ScopeRead},
	{"DELETE", "/v1/cache/k", "", httpauth.ScopeWrite},
	{"GET", "/v1/owners/k", "", httpauth.ScopeRead},
	{"GET", "/v1/me", "", httpauth.ScopeRead},
	{"GET", "/v1/me/can?capability=cache.write", "", httpauth.ScopeRead},
	{"POST", "/v1/cache/batch/get", `{"keys":["k"]}`, httpauth.ScopeRead},
	{"POST", "/v1/cache/batch/put", `{"items":[{"key":"n","value":"v"}]}`, httpauth.ScopeWrite},
	{"POST", "/v1/cache/batch/delete", `{"keys":["k"]}`, httpauth.ScopeWrite},
}

// Scopes decides R02.
func Scopes() {
	id := httpauth.TokenIdentity{ID: "caller", Token: "ab"}
	for i, scope := range []httpauth.Scope{httpauth.ScopeRead, httpauth.ScopeWrite, httpauth.ScopeAdmin} {
		if vx.Choose("granted", 2) == 1 {
			id.Scopes = append(id.Scopes, scope)
		}
		_ = i
	}
	policy := httpauth.Policy{Tokens: []httpauth.TokenIdentity{id}}
	s := serve(policy)
	defer s.stop()
	vx.Assert(s.hc.Set(ctx, "k", []byte("secret"), 0) == nil, "a key is set")
	token := vx.String("token", 3)
	for i := range len(token) {
		vx.Assume(vx.And(token[i] > ' ', token[i] < 0x7f))
	}
	vx.Assume(len(token) > 0)
	header := []string{}
	if vx.Choose("credential", 2) == 1 {
		header = []string{"Authorization", "Bearer " + token}
	}
	r := routes[vx.Choose("route", len(routes))]
	status, body, _ := s.send(r.method, r.path, r.body, header...)
	known := len(header) > 0 && token == "ab"
	want := http.StatusOK
	if r.scope != "" && !known {
		want = http.StatusUnauthorized
	} else if r.scope != "" && !slices.Contains(id.Scopes, r.scope) {
		want = http.StatusForbidden
	}
	vx.Assert(status == want, "a route answers exactly the callers that hold its scope")
	_, k := s.hc.GetWithInfo(ctx, "k")
	_, n := s.hc.GetWithInfo(ctx, "n")
	if want != http.StatusOK {
		vx.Assert(k && !n, "a refused request changes nothing")
		vx.Assert(!contains(body, "secret") && !contains(body, "c2VjcmV0"), "a refused request is told nothing")
		vx.Reach("refused")
		return
	}
	vx.Assert(k != (r.method == "DELETE" || r.path == "/v1/cache/batch/delete"), "an admitted delete deletes, and nothing else does")
	vx.Assert(n == (r.method == "PUT" || r.path == "/v1/cache/batch/put"), "an admitted put puts, and nothing else does")
	switch r.path {
	case "/v1/me":
		var me struct {
			ID     string   `json:"id"`
			Scopes []string `json:"scopes"`
			Caps   []string `json:"capabilities"`
		}
		parse(body, &me)
		vx.Assert(me.ID == "caller" && len(me.Scopes) == len(id.Scopes) && len(me.Caps) == len(id.Scopes), "a caller is told who it is and what it may do")
		for i, scope := range id.Scopes {
			vx.Assert(me.Scopes[i] == string(scope) && me.Caps[i] == "cache."+string(scope), "a caller is told who it is and what it may do")
		}
	case "/v1/me/can?capability=cache.write":
		var can struct {
			Allowed bool `json:"allowed"`
		}
		parse(body, &can)
		vx.Assert(can.Allowed == slices.Contains(id.Scopes, httpauth.ScopeWrite), "a caller is told whether it may")
	}
	vx.Reach("admitted")
}

func contains(s, part string) bool {
	for i := range len(s) - len(part) + 1 {
		if s[i:i+len(part)] == part {
			return true
		}
	}
	return false
}

// Full decides R01 for a server whose cache has a capacity.
func Full() {
	capacity := 1 + vx.Choose("capacity", 2)
	s := serveUpTo(open, capacity, hypercache.WithEvictionInterval[backend.DistMemory](0), hypercache.WithEvictionAlgorithm[backend.DistMemory]("lru"), hypercache.WithEvictionShardCount[backend.DistMemory](1), hypercache.WithMaxEvictionCount[backend.DistMemory](8))
	defer s.stop()
	names := []string{"k", "l", "m n"}
	var order []string
	held := map[string]string{}
	for range vx.Param("ops", 4) {
		key := names[vx.Choose("key", len(names))]
		var put []string
		value := string([]byte{vx.Byte("value")})
		switch vx.Choose("op", 3) {
		case 0:
			status, _, _ := s.send("PUT", at(key), value)
			vx.Assert(status == 200, "a put is accepted")
			put = []string{key}
		case 1:
			status, _, _ := s.send("POST", "/v1/cache/batch/put", doc(map[string]any{"items": []any{map[string]any{"key": key, "value": base64.StdEncoding.EncodeToString([]byte(value)), "value_encoding": "base64"}, map[string]any{"key": "k", "value": "k"}}}))
			vx.Assert(status == 200, "a batch is accepted")
			put = []string{key, "k"}
			held[key] = value
			value = "k"
			key = "k"
		case 2:
			status, _, _ := s.send("DELETE", at(key), "")
			vx.Assert(status == 200, "a delete is accepted")
			order = slices.DeleteFunc(order, func(k string) bool { return k == key })
		}
		held[key] = value
		for _, key := range put {
			order = append(slices.DeleteFunc(order, func(k string) bool { return k == key }), key)
			order = order[max(0, len(order)-capacity):]
		}
		for _, key := range names {
			status, body, _ := s.send("GET", at(key), "")
			vx.Assert((status == 200) == slices.Contains(order, key), "a full cache keeps the keys put last")
			vx.Assert(status != 200 || body == held[key], "a full cache keeps the values put last")
		}
	}
	vx.Reach("end")
}
