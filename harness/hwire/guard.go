package hwire

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/gofiber/fiber/v3"
	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var errNo = errors.New("no")

// word is up to n characters a header carries as they are.
func word(name string, n int) string {
	w := vx.String(name, n)
	for i := range len(w) {
		vx.Assume(vx.And(w[i] > ' ', w[i] < 0x7f))
	}
	return w
}

// doors are the requests a node answers; what they do to the node is left to see.
var doors = []struct{ method, path, body string }{
	{"POST", "/internal/set", `{"key":"n","value":"v","version":1,"origin":"A","replicate":false}`},
	{"POST", "/internal/cache/set", `{"key":"n","value":"v","version":1,"origin":"A","replicate":false}`},
	{"GET", "/internal/get?key=k", ""},
	{"GET", "/internal/cache/get?key=k", ""},
	{"DELETE", "/internal/del?key=k", ""},
	{"DELETE", "/internal/cache/remove?key=k", ""},
	{"GET", "/health", ""},
	{"POST", "/dist/drain", ""},
	{"GET", "/internal/probe?target=A", ""},
	{"POST", "/internal/gossip", `[{"ID":"C","Address":"127.0.0.1:9","State":"alive","Incarnation":1}]`},
	{"GET", "/internal/merkle", ""},
	{"GET", "/internal/keys", ""},
}

type guarded struct {
	dm      *backend.DistMemory
	members *cluster.Membership
	addr    string
}

func guard(auth backend.DistHTTPAuth) (*guarded, error) {
	g := &guarded{members: cluster.NewMembership(cluster.NewRing(cluster.WithVirtualNodes(1), cluster.WithReplication(1))), addr: freeAddr()}
	b, err := backend.NewDistMemory(ctx, backend.WithDistShardCount(1), backend.WithDistNode("A", g.addr), backend.WithDistHTTPAuth(auth),
		backend.WithDistMembership(g.members, &cluster.Node{ID: "A", Address: g.addr, State: cluster.NodeAlive}))
	if err != nil {
		return nil, err
	}
	g.dm = b.(*backend.DistMemory)
	vx.Settle()
	return g, nil
}

func (g *guarded) resolve(string) (string, bool) { return "http://" + g.addr, true }

func (g *guarded) send(method, path, body string, header http.Header) (int, string) {
	req, err := http.NewRequestWithContext(ctx, method, "http://"+g.addr+path, strings.NewReader(body))
	vx.Assert(err == nil, "a request is made")
	req.Header = header
	for range 1000 {
		req.Body = io.NopCloser(strings.NewReader(body))
		resp, err := http.DefaultClient.Do(req)
		if err != nil { // not up yet
			time.Sleep(time.Millisecond)
			continue
		}
		b, err := io.ReadAll(resp.Body)
		_ = resp.Body.Close()
		vx.Assert(err == nil, "a response is read")
		return resp.StatusCode, string(b)
	}
	vx.Assert(false, "a node answers")
	return 0, ""
}

// Guard decides W02 for the node.
func Guard() {
	config := vx.Choose("config", 6)
	sign := func(req *http.Request) error { req.Header.Set("X-Auth", "ab"); return nil }
	verify := func(c fiber.Ctx) error {
		if c.Get("X-Auth") != "ab" {
			return errNo
		}
		return nil
	}
	auth := []backend.DistHTTPAuth{
		{}, {Token: "ab"}, {Token: "cd", ServerVerify: verify}, {ClientSign: sign, AllowAnonymousInbound: true}, {ClientSign: sign}, {Token: "ab", ClientSign: sign},
	}[config]
	g, err := guard(auth)
	if config == 4 {
		vx.Assert(errors.Is(err, sentinel.ErrInsecureAuthConfig), "a node that signs and does not check is not made")
		vx.Reach("refused config")
		return
	}
	vx.Assert(err == nil, "a node is made")
	defer func() { _ = g.dm.Stop(ctx) }()
	vx.Assert(g.dm.Set(ctx, &cache.Item{Key: "k", Value: "secret"}) == nil, "a key is set")

	header := http.Header{}
	bearer, custom := "", ""
	if vx.Choose("authorization", 2) == 1 {
		if bearer = word("bearer", 3); vx.Choose("scheme", 2) == 1 {
			bearer = "Bearer " + bearer
		}
		vx.Assume(bearer != "Bearer ")
		header["Authorization"] = []string{bearer}
	}
	if vx.Choose("custom", 2) == 1 {
		custom = word("header", 3)
		header["X-Auth"] = []string{custom}
	}
	let := true
	switch config {
	case 1, 5:
		let = bearer == "Bearer ab"
	case 2:
		let = custom == "ab"
	}
	i := vx.Choose("door", len(doors))
	d := doors[i]
	status, body := g.send(d.method, d.path, d.body, header)
	vx.Assert((status == http.StatusUnauthorized) == !let, "a request is refused exactly when its credential is not the one asked for")

	_, hasK := held(g.dm, "k")
	n, hasN := held(g.dm, "n")
	_, knowsC := g.member("C")
	if !let {
		vx.Assert(hasK && !hasN && !knowsC && !g.dm.IsDraining(), "a refused request changes nothing")
		vx.Assert(!strings.Contains(body, "secret") && !strings.Contains(body, `"k"`) && !strings.Contains(body, "root"), "a refused request is told nothing")
		vx.Reach("refused")
		return
	}
	own := i == 8 && (config == 2 || config == 5) // the node's own credential is not the one it asks for
	vx.Assert(status == http.StatusOK || own && status == http.StatusBadGateway, "an admitted request is answered")
	vx.Assert(hasK == (i != 4 && i != 5), "an admitted removal removes, and nothing else does")
	vx.Assert(hasN == (i < 2), "an admitted set sets, and nothing else does")
	vx.Assert(n == nil || n.Version == 1, "an admitted set sets what it says")
	vx.Assert(g.dm.IsDraining() == (i == 7), "an admitted drain drains, and nothing else does")
	vx.Assert(knowsC == (i == 9), "admitted gossip is heard, and nothing else is")
	switch i {
	case 2, 3:
		var got struct {
			Found bool `json:"found"`
		}
		vx.Assert(json.Unmarshal([]byte(body), &got) == nil && got.Found, "an admitted get finds the key")
	case 11:
		var got struct {
			Keys []string `json:"keys"`
		}
		vx.Assert(json.Unmarshal([]byte(body), &got) == nil && len(got.Keys) == 1 && got.Keys[0] == "k", "an admitted listing lists the key")
	}
	vx.Reach("admitted")
}

func held(dm *backend.DistMemory, key string) (*cache.Item, bool) {
	if !dm.LocalContains(key) {
		return nil, false
	}
	tr := backend.NewInProcessTransport()
	tr.Register(dm)
	it, ok, err := tr.ForwardGet(ctx, "A", key)
	vx.Assert(err == nil && ok, "a key held is found")
	return it, ok
}

func (g *guarded) member(id cluster.NodeID) (*cluster.Node, bool) {
	for _, n := range g.members.List() {
		if n.ID == id {
			return n, true
		}
	}
	return nil, false
}

// Signed decides W02 for the transport: it signs every request as it was told, and a node lets in exactly the requests signed for it.
func Signed() {
	g, err := guard(backend.DistHTTPAuth{Token: "ab"})
	vx.Assert(err == nil, "a node is made")
	defer func() { _ = g.dm.Stop(ctx) }()
	g.send("GET", "/health", "", http.Header{"Authorization": {"Bearer ab"}})
	mine, let := backend.DistHTTPAuth{}, false
	switch vx.Choose("client", 4) {
	case 1:
		mine.Token = word("token", 3)
		let = mine.Token == "ab"
	case 2:
		sig := word("signature", 3)
		vx.Assume(len(sig) > 0)
		mine = backend.DistHTTPAuth{Token: "ab", ClientSign: func(req *http.Request) error {
			req.Header.Set("Authorization", "Bearer "+sig)
			return nil
		}}
		let = sig == "ab"
	case 3:
		mine = backend.DistHTTPAuth{Token: "ab", ClientSign: func(*http.Request) error { return errNo }}
	}
	tr := backend.NewDistHTTPTransportWithAuth(backend.DistHTTPLimits{}, mine, g.resolve)
	switch vx.Choose("op", 8) {
	case 0:
		err = tr.ForwardSet(ctx, "A", &cache.Item{Key: "n", Value: "v", Version: 1, Origin: "A"}, false)
	case 1:
		_, _, err = tr.ForwardGet(ctx, "A", "k")
	case 2:
		err = tr.ForwardRemove(ctx, "A", "k", false)
	case 3:
		err = tr.Health(ctx, "A")
	case 4:
		err = tr.IndirectHealth(ctx, "A", "A")
	case 5:
		err = tr.Gossip(ctx, "A", []backend.GossipMember{{ID: "C", Address: "127.0.0.1:9", State: "alive", Incarnation: 1}})
	case 6:
		_, err = tr.FetchMerkle(ctx, "A")
	case 7:
		_, err = tr.ListKeys(ctx, "A", "")
	}
	vx.Assert((err == nil) == let, "a request gets through exactly when it is signed as the node asks")
	vx.Reach("end")
}

// Large decides W01 where a response or a request is larger than what is taken.
func Large() {
	limits := backend.DistHTTPLimits{ResponseLimit: int64(vx.IntRange("response", 300, 400))}
	s := newSide(true, 1, 2, backend.DistHTTPLimits{})
	defer s.stop()
	size := 50 * vx.Choose("size", 8)
	v := strings.Repeat("x", size)
	err := s.tr.ForwardSet(ctx, "A", &cache.Item{Key: "k", Value: v, Version: 1, Origin: "A"}, false)
	vx.Assert(err == nil, "a key is set")
	whole, ok, err := s.tr.ForwardGet(ctx, "A", "k")
	vx.Assert(err == nil && ok, "a key set is got")
	tr := backend.NewDistHTTPTransportWithLimits(limits, s.resolve)
	part, ok, err := tr.ForwardGet(ctx, "A", "k")
	if err != nil {
		vx.Assert(size > 0, "a small response is taken")
		vx.Reach("refused")
		return
	}
	vx.Assert(ok && bytes.Equal(whole.Value.(json.RawMessage), part.Value.(json.RawMessage)), "a response over the limit is never taken for the whole")
	vx.Reach("taken")
}
