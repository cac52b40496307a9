// Package hrest: harnesses for the REST interface of the server.
package hrest

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"net/url"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	_ "github.com/hyp3rd/hypercache/internal/zzverif/vfiber"
	"github.com/hyp3rd/hypercache/internal/zzverif/vsrv"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/pkg/httpauth"
)

var ctx = context.Background()

var open = httpauth.Policy{AllowAnonymous: true}

func freeAddr() string {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	vx.Assert(err == nil, "there is a free port")
	addr := ln.Addr().String()
	_ = ln.Close()
	return addr
}

type site struct {
	hc   *hypercache.HyperCache[backend.DistMemory]
	addr string
	stop func()
}

func serve(policy httpauth.Policy) *site { return serveUpTo(policy, 0) }

func serveUpTo(policy httpauth.Policy, capacity int, opts ...hypercache.Option[backend.DistMemory]) *site {
	cfg, err := hypercache.NewConfig[backend.DistMemory](constants.DistMemoryBackend)
	vx.Assert(err == nil, "a configuration is made")
	cfg.HyperCacheOptions = append(cfg.HyperCacheOptions, opts...)
	cfg.DistMemoryOptions = []backend.DistMemoryOption{backend.WithDistNode("A", freeAddr()), backend.WithDistReplication(1), backend.WithDistCapacity(capacity), backend.WithDistShardCount(2), backend.WithDistVirtualNodes(1)}
	hc, err := hypercache.New(ctx, hypercache.GetDefaultManager(), cfg)
	vx.Assert(err == nil, "a cache is made")
	s := &site{hc: hc, addr: freeAddr()}
	app, err := vsrv.Serve(ctx, s.addr, "A", policy, hc)
	vx.Assert(err == nil, "a server is made")
	vx.Settle()
	for i := 0; ; i++ {
		resp, err := http.Get("http://" + s.addr + "/healthz")
		if err == nil {
			_ = resp.Body.Close()
			break
		}
		vx.Assert(i < 1000, "the server answers")
		time.Sleep(time.Millisecond)
	}
	s.stop = func() {
		_ = app.Shutdown()
		_ = hc.Stop(ctx)
	}
	return s
}

func (s *site) send(method, path, body string, header ...string) (int, string, http.Header) {
	req, err := http.NewRequestWithContext(ctx, method, "http://"+s.addr+path, strings.NewReader(body))
	vx.Assert(err == nil, "a request is made")
	for i := 0; i+1 < len(header); i += 2 {
		req.Header.Set(header[i], header[i+1])
	}
	resp, err := http.DefaultClient.Do(req)
	vx.Assert(err == nil, "the server answers")
	b, err := io.ReadAll(resp.Body)
	_ = resp.Body.Close()
	vx.Assert(err == nil, "a response is read")
	return resp.StatusCode, string(b), resp.Header
}

func at(key string) string { return "/v1/cache/" + url.PathEscape(key) }

func doc(v any) string {
	b, err := json.Marshal(v)
	vx.Assert(err == nil, "a request is made")
	return string(b)
}

func parse(body string, v any) {
	vx.Assert(json.Unmarshal([]byte(body), v) == nil, "a response is JSON")
}

type entry struct {
	Key           string   `json:"key"`
	Found         bool     `json:"found"`
	Stored        bool     `json:"stored"`
	Deleted       bool     `json:"deleted"`
	Value         string   `json:"value"`
	ValueEncoding string   `json:"value_encoding"`
	TTLMs         int64    `json:"ttl_ms"`
	Bytes         int      `json:"bytes"`
	Version       uint64   `json:"version"`
	Owners        []string `json:"owners"`
	Node          string   `json:"node"`
	Code          string   `json:"code"`
}

type entries struct {
	Results []entry `json:"results"`
}

var (
	keys   = []string{"k", "a b", "d/e", "x%2F", "?"}
	values = []string{"abc", "YWJj"}
)

// Rest decides R01.
func Rest() {
	s := serve(open)
	defer s.stop()
	names := keys[:vx.Param("keys", 3)]
	held, ttl := map[string]string{}, map[string]int64{}
	for range vx.Param("ops", 2) {
		key := names[vx.Choose("key", len(names))]
		switch op := vx.Choose("op", 5); op {
		case 0, 1, 2:
			value := ""
			if n := vx.Choose("value", 1+len(values)); n > 0 {
				value = values[n-1]
			} else {
				value = vx.String("bytes", vx.Param("bytes", 2))
			}
			ms := []int{0, 20001, 5400000}[vx.Choose("ttl", vx.Param("ttls", 2))]
			expires := ms > 0
			var e entry
			if op == 0 {
				path := at(key)
				if expires {
					path += "?ttl=" + (time.Duration(ms) * time.Millisecond).String()
				}
				status, body, _ := s.send("PUT", path, value)
				vx.Assert(status == 200, "a put is accepted")
				parse(body, &e)
			} else {
				it := map[string]any{"key": key, "value": value}
				if op == 2 {
					it["value"], it["value_encoding"] = base64.StdEncoding.EncodeToString([]byte(value)), "base64"
				} else {
					for i := range len(value) {
						vx.Assume(vx.And(value[i] >= ' ', value[i] < 0x7f)) // text as it is in JSON
					}
				}
				if expires {
					it["ttl_ms"] = ms
				}
				status, body, _ := s.send("POST", "/v1/cache/batch/put", doc(map[string]any{"items": []any{it, map[string]any{"key": "", "value": "x"}}}))
				vx.Assert(status == 200, "a batch is accepted")
				var all entries
				parse(body, &all)
				vx.Assert(len(all.Results) == 2 && !all.Results[1].Stored && all.Results[1].Code == "BAD_REQUEST", "an item without a key fails on its own")
				e = all.Results[0]
			}
			vx.Assert(e.Key == key && e.Stored && e.Bytes == len(value), "a put tells what it stored")
			vx.Assert(len(e.Owners) == 1 && e.Owners[0] == "A", "a put tells the owners")
			if held[key], ttl[key] = value, 0; expires {
				ttl[key] = int64(ms)
			}
		case 3:
			status, body, _ := s.send("DELETE", at(key), "")
			vx.Assert(status == 200, "a delete is accepted")
			var e entry
			parse(body, &e)
			vx.Assert(e.Key == key && e.Deleted, "a delete tells what it deleted")
			delete(held, key)
		case 4:
			status, body, _ := s.send("POST", "/v1/cache/batch/delete", doc(map[string]any{"keys": []string{"", key}}))
			vx.Assert(status == 200, "a batch is accepted")
			var all entries
			parse(body, &all)
			vx.Assert(len(all.Results) == 2 && !all.Results[0].Deleted && all.Results[1].Deleted && all.Results[1].Key == key, "each item of a batch fails on its own")
			delete(held, key)
		}
	}
	status, body, _ := s.send("POST", "/v1/cache/batch/get", doc(map[string]any{"keys": names}))
	vx.Assert(status == 200, "a batch is accepted")
	var all entries
	parse(body, &all)
	vx.Assert(len(all.Results) == len(names), "a batch tells about each key")
	for i, key := range names {
		want, there := held[key]
		text := base64.StdEncoding.EncodeToString([]byte(want))
		e := all.Results[i]
		vx.Assert(e.Key == key && e.Found == there, "a batch finds exactly the keys held")
		status, body, _ := s.send("GET", at(key), "")
		vx.Assert((status == 200) == there && (there || status == 404), "a get finds exactly the keys held")
		code, _, header := s.send("HEAD", at(key), "")
		vx.Assert(code == status, "a head tells what a get would")
		js, full, _ := s.send("GET", at(key), "", "Accept", "application/json")
		vx.Assert(js == status, "both kinds of get agree")
		if !there {
			continue
		}
		vx.Assert(body == want, "a get returns the value put")
		vx.Assert(e.ValueEncoding == "base64" && e.Value == text, "a batch returns the value put")
		var one entry
		parse(full, &one)
		vx.Assert(one.Key == key && one.Value == text && one.ValueEncoding == "base64" && one.Node == "A", "a get returns the value put as JSON")
		vx.Assert(one.Version == e.Version && header.Get("X-Cache-Version") == strconv.FormatUint(e.Version, 10), "all readers tell the same version")
		ms, err := strconv.Atoi("0" + header.Get("X-Cache-TTL-Ms"))
		vx.Assert(err == nil, "a head tells the time left as a number")
		for _, left := range []int64{e.TTLMs, one.TTLMs, int64(ms)} {
			vx.Assert(vx.And(left <= ttl[key], vx.Or(left > ttl[key]-15000, ttl[key] == 0)), "all readers tell the time left")
		}
	}
	status, body, _ = s.send("GET", "/v1/cache/keys", "")
	vx.Assert(status == 200, "keys are listed")
	var list struct {
		Keys  []string `json:"keys"`
		Total int      `json:"total_matched"`
		Next  string   `json:"next_cursor"`
	}
	parse(body, &list)
	want := []string{}
	for key := range held {
		want = append(want, key)
	}
	slices.Sort(want)
	vx.Assert(slices.Equal(list.Keys, want) && list.Total == len(want) && list.Next == "", "exactly the keys held are listed, in order")
	vx.Reach("end")
}

// Escapes decides R01 for keys a path cannot carry as they are.
func Escapes() { Rest() }
