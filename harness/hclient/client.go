// Package hclient: harnesses for pkg/client.
package hclient

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/client"
	"golang.org/x/oauth2/clientcredentials"
)

// sent is one request as the transport saw it.
type sent struct {
	host, scheme, method, path, raw, query string
	hdr                                    http.Header
	body                                   []byte
	whole                                  bool
	deadline                               bool
}

// wire stands in for the network: the n-th request that leaves the client gets reply(n).
type wire struct {
	entered int
	seen    []sent
	reply   func(n int, req *http.Request) (*http.Response, error)
	take    func(n int) int // how much of the body the n-th attempt consumes (-1: all)
}

func (w *wire) RoundTrip(req *http.Request) (*http.Response, error) {
	if req.Body != nil {
		defer req.Body.Close()
	}
	w.entered++
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	n := len(w.seen)
	s := sent{host: req.URL.Host, scheme: req.URL.Scheme, method: req.Method, path: req.URL.Path, raw: req.URL.EscapedPath(), query: req.URL.RawQuery, hdr: req.Header.Clone(), whole: true}
	_, s.deadline = req.Context().Deadline()
	if req.Body != nil {
		k := -1
		if w.take != nil {
			k = w.take(n)
		}
		if k < 0 {
			b, err := io.ReadAll(req.Body)
			if err != nil {
				w.seen = append(w.seen, s)
				return nil, err
			}
			s.body = b
		} else {
			s.whole = false
			buf := make([]byte, k)
			m, _ := io.ReadFull(req.Body, buf)
			s.body = buf[:m]
		}
	}
	w.seen = append(w.seen, s)
	return w.reply(n, req)
}

type readFails struct{}

func (readFails) Read([]byte) (int, error) { return 0, errors.New("connection reset") }
func (readFails) Close() error             { return nil }

func respond(status int, body io.Reader) *http.Response {
	rc, ok := body.(io.ReadCloser)
	if !ok {
		rc = io.NopCloser(body)
	}
	return &http.Response{StatusCode: status, Status: "status", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: rc, ContentLength: -1}
}

func jsonBody(v any) io.Reader {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return strings.NewReader(string(b))
}

var seedHosts = []string{"n0:1", "n1:1", "n2:1", "n3:1"}

func seedURLs(n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = "http://" + seedHosts[i]
	}
	return out
}

func newClient(w *wire, n int) *client.Client {
	c, err := client.New(seedURLs(n), client.WithHTTPClient(&http.Client{Transport: w}))
	vx.Assert(err == nil && c != nil, "construction succeeds")
	return c
}

// ascii is a symbolic ASCII string (what JSON carries unchanged byte for byte).
func ascii(name string, n int) string {
	s := vx.StringN(name, n)
	for i := 0; i < len(s); i++ {
		vx.Assume(s[i] < 0x80)
	}
	return s
}

// commands: every request the client can make, and the body of a successful answer to it.
const nCommands = 10

func command(c *client.Client, ctx context.Context, k int) error {
	var err error
	switch k {
	case 0:
		err = c.Set(ctx, "k", []byte("value"), time.Second)
	case 1:
		_, err = c.Get(ctx, "k")
	case 2:
		_, err = c.GetItem(ctx, "k")
	case 3:
		err = c.Delete(ctx, "k")
	case 4:
		_, err = c.Identity(ctx)
	case 5:
		_, err = c.Can(ctx, "cache.read")
	case 6:
		_, err = c.BatchSet(ctx, []client.BatchSetItem{{Key: "k", Value: []byte("v")}})
	case 7:
		_, err = c.BatchGet(ctx, []string{"k"})
	case 8:
		_, err = c.BatchDelete(ctx, []string{"k"})
	case 9:
		err = c.RefreshTopology(ctx)
	}
	return err
}

func success(k int) io.Reader {
	switch k {
	case 2:
		return strings.NewReader(`{"key":"k","value":"dg==","value_encoding":"base64","version":1,"node":"n","owners":["n"]}`)
	case 4:
		return strings.NewReader(`{"id":"me","scopes":["read"],"capabilities":["cache.read"]}`)
	case 5:
		return strings.NewReader(`{"capability":"cache.read","allowed":true}`)
	case 6:
		return strings.NewReader(`{"results":[{"key":"k","stored":true}],"node":"n"}`)
	case 7:
		return strings.NewReader(`{"results":[{"key":"k","found":false}],"node":"n"}`)
	case 8:
		return strings.NewReader(`{"results":[{"key":"k","deleted":true}],"node":"n"}`)
	case 9:
		return strings.NewReader(`{"members":[{"id":"a","address":"n0:1","state":"alive"}]}`)
	}
	return strings.NewReader("v")
}

var errWire = errors.New("connection refused")

// failBody is an error answer's body: a canonical envelope, free text, or one that cannot be read.
func failBody(kind int) io.Reader {
	switch kind {
	case 0:
		return strings.NewReader(`{"code":"SOME","error":"msg","details":"d"}`)
	case 1:
		return strings.NewReader("<html>oops")
	}
	return readFails{}
}

// Failover decides K01: attempt after attempt against a symbolic outcome each.
func Failover() {
	n := vx.Choose("endpoints", vx.Param("endpoints", 3)) + 1
	cmd := vx.Choose("command", nCommands)
	down := make([]bool, n)
	status := make([]int, n)
	kind := make([]int, n)
	w := &wire{}
	draw := 0
	w.reply = func(i int, req *http.Request) (*http.Response, error) {
		if i >= n {
			vx.Assert(false, "at most one attempt per endpoint")
			return nil, errWire
		}
		draw++
		down[i] = vx.Bool("down" + strconv.Itoa(i))
		if down[i] {
			return nil, errWire
		}
		status[i] = vx.IntRange("status"+strconv.Itoa(i), 200, 599)
		vx.Assume(vx.Or(status[i] == 200, status[i] >= 400))
		if status[i] == 200 {
			return respond(200, success(cmd)), nil
		}
		kind[i] = vx.IntRange("body"+strconv.Itoa(i), 0, 2)
		return respond(status[i], failBody(kind[i])), nil
	}
	c := newClient(w, n)
	err := command(c, context.Background(), cmd)
	m := len(w.seen)
	vx.Assert(m >= 1 && m <= n, "at least one attempt and at most one per endpoint")
	for i := 0; i < m; i++ {
		known := false
		for _, h := range seedHosts[:n] {
			known = known || h == w.seen[i].host
		}
		vx.Assert(known && w.seen[i].scheme == "http", "requests go to known endpoints")
		for j := 0; j < i; j++ {
			vx.Assert(w.seen[i].host != w.seen[j].host, "each endpoint is tried at most once")
		}
	}
	for i := 0; i < m-1; i++ {
		vx.Assert(vx.Or(down[i], status[i] >= 500), "moves on only after a transport failure or a server-side answer")
	}
	l := m - 1
	conclusive := vx.And(vx.Not(down[l]), status[l] < 500)
	if conclusive {
		if status[l] == 200 {
			vx.Assert(err == nil, "a success is returned as one")
			vx.Reach("success")
			return
		}
		var se *client.StatusError
		vx.Assert(err != nil && errors.As(err, &se) && se.HTTPStatus == status[l], "a client-side answer is returned as its error")
		vx.Assert(!errors.Is(err, client.ErrAllEndpointsFailed), "a client-side answer is not reported as exhaustion")
		vx.Reach("conclusive")
		return
	}
	vx.Assert(m == n, "every endpoint is tried before giving up")
	vx.Assert(errors.Is(err, client.ErrAllEndpointsFailed), "exhaustion says so")
	if down[l] {
		vx.Assert(errors.Is(err, errWire), "exhaustion wraps the last failure")
	} else {
		var se *client.StatusError
		vx.Assert(errors.As(err, &se) && se.HTTPStatus == status[l], "exhaustion wraps the last failure")
	}
	vx.Reach("exhausted")
}

// Cancelled decides K01: no attempt is made once the caller's context is done, whatever it was that ended it.
func Cancelled() {
	n := vx.Choose("endpoints", vx.Param("endpoints", 3)) + 1
	cmd := vx.Choose("command", nCommands)
	at := vx.IntRange("at", 0, n) // cancelled while attempt at is under way; n: before the call
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if at == n {
		cancel()
	}
	late := false
	w := &wire{}
	w.reply = func(i int, req *http.Request) (*http.Response, error) {
		if i > at {
			late = true
		}
		if i == at {
			cancel()
			if vx.Bool("notices") {
				return nil, req.Context().Err()
			}
		}
		st := vx.IntRange("status"+strconv.Itoa(i), 500, 599)
		if vx.Bool("down" + strconv.Itoa(i)) {
			return nil, errWire
		}
		return respond(st, failBody(0)), nil
	}
	c := newClient(w, n)
	err := command(c, ctx, cmd)
	vx.Assert(err != nil, "a cancelled request without an answer fails")
	vx.Assert(!late, "no attempt after cancellation")
	if at == n {
		vx.Assert(len(w.seen) == 0 && errors.Is(err, context.Canceled), "nothing is sent for an already cancelled context")
	} else {
		vx.Assert(len(w.seen) == at+1 && w.entered == at+1, "attempts stop where the context was cancelled")
		vx.Assert(at == n-1 || !errors.Is(err, client.ErrAllEndpointsFailed), "an interrupted failover is not reported as exhaustion")
	}
	vx.Reach("end")
}

var _ = url.PathEscape

// Replay decides K02: each attempt carries the caller's request, whole and unchanged.
func Replay() {
	n := vx.Choose("endpoints", vx.Param("endpoints", 3)) + 1
	cmd := vx.Choose("command", nCommands)
	w := &wire{}
	took := make([]int, n)
	w.take = func(i int) int {
		took[i] = vx.IntRange("took"+strconv.Itoa(i), -1, 3)
		return vx.Concretize(took[i])
	}
	w.reply = func(i int, req *http.Request) (*http.Response, error) {
		if i < n-1 {
			if vx.Bool("down" + strconv.Itoa(i)) {
				return nil, errWire
			}
			return respond(503, failBody(0)), nil
		}
		return respond(200, success(cmd)), nil
	}
	c, err := client.New(seedURLs(n), client.WithHTTPClient(&http.Client{Transport: w}), client.WithBearerAuth("token"))
	vx.Assert(err == nil, "construction succeeds")
	err = command(c, context.Background(), cmd)
	vx.Assert(err == nil && len(w.seen) == n, "the last endpoint answers")
	for i := 1; i < n; i++ {
		a, b := &w.seen[i-1], &w.seen[i]
		vx.Assert(a.method == b.method && a.path == b.path && a.raw == b.raw && a.query == b.query, "attempts share method, path and query")
		same := len(a.hdr) == len(b.hdr)
		for k := range a.hdr {
			same = same && a.hdr.Get(k) == b.hdr.Get(k)
		}
		vx.Assert(same && b.hdr.Get("Authorization") == "Bearer token", "attempts share headers and credentials")
		ab, bb := string(a.body), string(b.body)
		if a.whole && b.whole {
			vx.Assert(ab == bb, "attempts share the body")
		} else {
			vx.Assert(strings.HasPrefix(ab, bb) || strings.HasPrefix(bb, ab), "attempts share the body from its start")
		}
	}
	vx.Reach("end")
}

// Fidelity decides K02: key, value and time-to-live of a single-key command arrive unchanged.
func Fidelity() {
	key := vx.StringN("key", vx.Param("keylen", 2))
	val := []byte(vx.StringN("value", vx.Param("vallen", 2)))
	op := vx.Choose("op", 4)
	var ttl time.Duration
	w := &wire{reply: func(i int, req *http.Request) (*http.Response, error) {
		k := 1
		if op == 2 {
			k = 2
		}
		return respond(200, success(k)), nil
	}}
	c := newClient(w, 1)
	var err error
	method := http.MethodGet
	switch op {
	case 0:
		if vx.Param("fixed", 1) == 1 {
			ttl = 1500 * time.Millisecond
			break
		}
		unit := []time.Duration{-1, 1, time.Microsecond, time.Millisecond, time.Second, time.Minute}[vx.Choose("unit", 6)]
		ttl = time.Duration(vx.IntRange("ttl", 0, vx.Param("ttl", 61))) * unit
	case 1:
		_, err = c.Get(context.Background(), key)
	case 2:
		_, err = c.GetItem(context.Background(), key)
	case 3:
		err = c.Delete(context.Background(), key)
		method = http.MethodDelete
	}
	if op == 0 {
		err = c.Set(context.Background(), key, val, ttl)
		method = http.MethodPut
	}
	vx.Assert(err == nil && len(w.seen) == 1, "one request")
	s := &w.seen[0]
	vx.Assert(s.method == method, "method")
	rest, ok := strings.CutPrefix(s.raw, "/v1/cache/")
	vx.Assert(ok && !strings.Contains(rest, "/"), "the key is one path segment")
	got, uerr := url.PathUnescape(rest)
	vx.Assert(uerr == nil && got == key, "the key arrives unchanged")
	if op != 0 {
		vx.Assert(len(s.body) == 0 && s.query == "", "no body or query")
		vx.Reach("read")
		return
	}
	vx.Assert(string(s.body) == string(val), "the value arrives unchanged")
	q, qerr := url.ParseQuery(s.query)
	vx.Assert(qerr == nil, "the query parses")
	if ttl <= 0 {
		vx.Assert(s.query == "", "no time-to-live")
		return
	}
	d, derr := time.ParseDuration(q.Get("ttl"))
	vx.Assert(derr == nil && d == ttl, "the time-to-live arrives unchanged")
	vx.Reach("set")
}

// sentinels in a fixed order; sentinelFor says which one (if any) an answer documents.
var sentinels = []error{client.ErrNotFound, client.ErrUnauthorized, client.ErrForbidden, client.ErrDraining, client.ErrBadRequest, client.ErrInternal}

func byStatus(st int) int {
	r := -1
	r = vx.Ite(st == 404, 0, r)
	r = vx.Ite(st == 401, 1, r)
	r = vx.Ite(st == 403, 2, r)
	r = vx.Ite(st == 503, 3, r)
	r = vx.Ite(st == 400, 4, r)
	r = vx.Ite(vx.And(st >= 500, st != 503), 5, r)
	return r
}

var codes = []string{"NOT_FOUND", "UNAUTHORIZED", "FORBIDDEN", "DRAINING", "BAD_REQUEST", "INTERNAL"}
var codeStatus = []int{404, 401, 403, 503, 400, 500}

type envelope struct {
	Code    string `json:"code"`
	Error   string `json:"error"`
	Details string `json:"details,omitempty"`
}

// matches checks that err matches exactly the sentinel number want (-1: none).
func matches(err error, want int) {
	for i, s := range sentinels {
		vx.Assert(vx.Or(vx.And(errors.Is(err, s), want == i), vx.And(!errors.Is(err, s), want != i)), "matches exactly the documented sentinel")
	}
}

// Classify decides K03 for one endpoint's answer.
func Classify() {
	cmd := vx.Choose("command", nCommands)
	form := vx.Choose("form", 4)
	st := vx.IntRange("status", 300, 599)
	env := envelope{Error: ascii("message", vx.Choose("msglen", 2)*2), Details: ascii("details", vx.Choose("detlen", 2))}
	want := byStatus(st)
	var body io.Reader
	raw := ""
	switch form {
	case 0: // a documented (code, status) pair
		k := vx.Choose("code", len(codes))
		env.Code = codes[k]
		vx.Assume(st == codeStatus[k])
		body = jsonBody(env)
	case 1: // a code this client does not know, with any status
		env.Code = "X" + ascii("code", 2)
		body = jsonBody(env)
	case 2: // not an error envelope
		raw = []string{"", "<html>oops</html>", "null", "[]", "{", `{"code":""}`, `{"code":7}`, strings.Repeat("x", 300)}[vx.Choose("raw", 8)]
		body = strings.NewReader(raw)
	case 3:
		body = readFails{}
	}
	w := &wire{reply: func(int, *http.Request) (*http.Response, error) { return respond(st, body), nil }}
	c := newClient(w, 1)
	err := command(c, context.Background(), cmd)
	vx.Assert(err != nil, "a non-success answer is an error")
	var se *client.StatusError
	ok := errors.As(err, &se)
	vx.Assert(ok && se != nil && se.HTTPStatus == st, "the error carries the status")
	matches(err, want)
	switch form {
	case 0, 1:
		vx.Assert(se.Code == env.Code, "the error carries the code")
		vx.Assert(se.Message == env.Error, "the error carries the message")
		vx.Assert(se.Details == env.Details, "the error carries the details")
		vx.Reach("envelope")
	default:
		vx.Assert(se.Code == "", "no code is made up")
		vx.Reach("bare")
	}
}

// StatusIs decides K03 on the error type itself, also when wrapped.
func StatusIs() {
	st := vx.IntRange("status", 0, 599)
	k := vx.Choose("code", len(codes)+1)
	e := &client.StatusError{HTTPStatus: st}
	want := byStatus(st)
	if k < len(codes) {
		e.Code = codes[k]
		vx.Assume(vx.Or(st == codeStatus[k], vx.And(st == 0, k != 2)))
		want = k
	}
	if vx.Bool("wrapped") {
		matches(errors.Join(errors.New("other"), e), want)
	} else {
		matches(e, want)
	}
	for _, x := range []error{client.ErrAllEndpointsFailed, client.ErrNoEndpoints, errWire} {
		vx.Assert(!errors.Is(e, x), "matches no other error")
	}
	vx.Reach("end")
}

// ---- batches ----

type wirePut struct {
	Key           string `json:"key"`
	Value         string `json:"value"`
	ValueEncoding string `json:"value_encoding"`
	TTLMs         int64  `json:"ttl_ms"`
}

type wireResult struct {
	Key     string   `json:"key"`
	Stored  bool     `json:"stored"`
	Deleted bool     `json:"deleted"`
	Found   bool     `json:"found"`
	Bytes   int      `json:"bytes,omitempty"`
	Owners  []string `json:"owners,omitempty"`
	Error   string   `json:"error,omitempty"`
	Code    string   `json:"code,omitempty"`

	Value         string `json:"value,omitempty"`
	ValueEncoding string `json:"value_encoding,omitempty"`
	TTLMs         int64  `json:"ttl_ms,omitempty"`
	Version       uint64 `json:"version,omitempty"`
	Origin        string `json:"origin,omitempty"`
}

type wireAnswer struct {
	Results []wireResult `json:"results"`
	Node    string       `json:"node"`
}

var batchCodes = []string{"BAD_REQUEST", "DRAINING", "INTERNAL", "", "OTHER"}
var batchWant = []int{4, 3, 5, -1, -1}

// checkItem compares an item's error with the outcome the server reported for it.
func checkItem(ok bool, se *client.StatusError, code int, msg string) {
	if ok {
		vx.Assert(se == nil, "a successful item has no error")
		return
	}
	vx.Assert(se != nil, "a failed item has an error")
	var err error = se
	vx.Assert(se.Code == batchCodes[code] && se.Message == msg, "an item error carries code and message")
	matches(err, batchWant[code])
}

// Batch decides K04: results against the server's answer, item by item.
func Batch() {
	op := vx.Choose("op", 3)
	n := vx.Choose("items", vx.Param("items", 2)) + 1
	ans := wireAnswer{Node: ascii("node", 1)}
	codesAt := make([]int, n)
	okAt := make([]bool, n)
	vals := make([][]byte, n)
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		okAt[i] = vx.Bool("ok" + s)
		r := wireResult{Key: ascii("key"+s, 1)}
		if op == 1 {
			r.Found = okAt[i]
			if okAt[i] {
				vals[i] = []byte(vx.StringN("val"+s, vx.Param("vallen", 2)))
				r.Value = b64(vals[i])
				if vx.Bool("enc" + s) {
					r.ValueEncoding = "base64"
				}
				r.TTLMs = vx.Int64("ttl" + s)
				r.Version = vx.Uint64("version" + s)
				r.Origin = ascii("origin"+s, 1)
				r.Owners = []string{"a", ascii("owner"+s, 1)}
			}
		} else {
			if op == 0 {
				r.Stored = okAt[i]
			} else {
				r.Deleted = okAt[i]
			}
			if okAt[i] {
				r.Bytes = vx.IntRange("bytes"+s, 0, 1<<20)
				r.Owners = []string{ascii("owner"+s, 1)}
			} else {
				codesAt[i] = vx.Choose("code"+s, len(batchCodes))
				r.Code = batchCodes[codesAt[i]]
				r.Error = ascii("msg"+s, vx.Choose("msglen"+s, 2))
			}
		}
		ans.Results = append(ans.Results, r)
	}
	w := &wire{reply: func(int, *http.Request) (*http.Response, error) { return respond(200, jsonBody(ans)), nil }}
	c := newClient(w, 1)
	keys := make([]string, n)
	items := make([]client.BatchSetItem, n)
	for i := range keys {
		keys[i] = ans.Results[i].Key
		items[i] = client.BatchSetItem{Key: keys[i]}
	}
	ctx := context.Background()
	switch op {
	case 0:
		res, err := c.BatchSet(ctx, items)
		vx.Assert(err == nil && len(res) == n, "one result per item")
		for i := range res {
			a := &ans.Results[i]
			vx.Assert(res[i].Key == a.Key && res[i].Stored == a.Stored, "results in order")
			checkItem(okAt[i], res[i].Err, codesAt[i], a.Error)
			vx.Assert(res[i].Bytes == a.Bytes && sameStrings(res[i].Owners, a.Owners), "result fields")
		}
	case 1:
		res, err := c.BatchGet(ctx, keys)
		vx.Assert(err == nil && len(res) == n, "one result per item")
		for i := range res {
			a := &ans.Results[i]
			vx.Assert(res[i].Key == a.Key && res[i].Found == okAt[i] && (res[i].Item != nil) == okAt[i], "results in order")
			if it := res[i].Item; it != nil {
				vx.Assert(it.Key == a.Key && string(it.Value) == string(vals[i]), "item key and value")
				vx.Assert(it.TTLMs == a.TTLMs && it.Version == a.Version && it.Origin == a.Origin && it.Node == ans.Node && sameStrings(it.Owners, a.Owners), "item metadata")
			}
		}
	case 2:
		res, err := c.BatchDelete(ctx, keys)
		vx.Assert(err == nil && len(res) == n, "one result per item")
		for i := range res {
			a := &ans.Results[i]
			vx.Assert(res[i].Key == a.Key && res[i].Deleted == a.Deleted, "results in order")
			checkItem(okAt[i], res[i].Err, codesAt[i], a.Error)
			vx.Assert(sameStrings(res[i].Owners, a.Owners), "result fields")
		}
	}
	vx.Reach("end")
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vx.And(r, a[i] == b[i])
	}
	return r
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// BatchRequest decides K04: what a batch call asks the server for.
func BatchRequest() {
	op := vx.Choose("op", 3)
	n := vx.Choose("items", vx.Param("items", 2)+1)
	keys := make([]string, n)
	items := make([]client.BatchSetItem, n)
	ans := wireAnswer{}
	for i := range keys {
		s := strconv.Itoa(i)
		keys[i] = ascii("key"+s, 1)
		items[i] = client.BatchSetItem{Key: keys[i], Value: []byte(vx.StringN("val"+s, vx.Choose("len"+s, vx.Param("vallen", 2)+1))), TTL: time.Duration(vx.Int64("ttl" + s))}
		ans.Results = append(ans.Results, wireResult{Key: keys[i], Stored: true, Deleted: true})
	}
	w := &wire{reply: func(int, *http.Request) (*http.Response, error) { return respond(200, jsonBody(ans)), nil }}
	c := newClient(w, 1)
	ctx := context.Background()
	var err error
	m := 0
	switch op {
	case 0:
		r, e := c.BatchSet(ctx, items)
		err, m = e, len(r)
	case 1:
		r, e := c.BatchGet(ctx, keys)
		err, m = e, len(r)
	case 2:
		r, e := c.BatchDelete(ctx, keys)
		err, m = e, len(r)
	}
	vx.Assert(err == nil && m == n, "one result per item")
	if n == 0 {
		vx.Assert(len(w.seen) == 0, "an empty batch asks for nothing")
		return
	}
	vx.Assert(len(w.seen) == 1 && w.seen[0].method == http.MethodPost, "one request")
	if op != 0 {
		var req struct {
			Keys []string `json:"keys"`
		}
		vx.Assert(json.Unmarshal(w.seen[0].body, &req) == nil && sameStrings(req.Keys, keys), "the keys arrive unchanged, in order")
		vx.Reach("keys")
		return
	}
	var req struct {
		Items []wirePut `json:"items"`
	}
	vx.Assert(json.Unmarshal(w.seen[0].body, &req) == nil && len(req.Items) == n, "the items arrive")
	for i, it := range req.Items {
		vx.Assert(it.Key == keys[i], "item key")
		var got []byte
		if it.ValueEncoding == "base64" {
			b, derr := base64.StdEncoding.DecodeString(it.Value)
			vx.Assert(derr == nil, "item value decodes")
			got = b
		} else {
			got = []byte(it.Value)
		}
		vx.Assert(string(got) == string(items[i].Value), "item value")
		t := items[i].TTL
		vx.Assert((it.TTLMs > 0) == (t > 0), "a positive time-to-live stays limited, others stay unlimited")
		if t > 0 {
			ms := it.TTLMs
			lo := int64(t) / int64(time.Millisecond)
			vx.Assert(vx.And(ms >= lo, ms <= lo+1), "the time-to-live arrives to the millisecond")
		}
	}
	vx.Reach("set")
}

// ---- topology ----

type wireMember struct {
	ID      string `json:"id"`
	Address string `json:"address"`
	State   string `json:"state"`
}

func sameSet(got, want []string) bool {
	r := true
	for i, g := range got {
		in := false
		for _, x := range want {
			in = vx.Or(in, g == x)
		}
		r = vx.And(r, in)
		for _, h := range got[:i] {
			r = vx.And(r, g != h)
		}
	}
	for _, x := range want {
		in := false
		for _, g := range got {
			in = vx.Or(in, g == x)
		}
		r = vx.And(r, in)
	}
	return r
}

// Refresh decides K05: the endpoint view after each of a sequence of membership answers.
func Refresh() {
	scheme := []string{"http", "https"}[vx.Choose("scheme", 2)]
	seeds := []string{scheme + "://n0:1", scheme + "://n1:1/"}
	view := []string{scheme + "://n0:1", scheme + "://n1:1"}
	var answer func() (*http.Response, error)
	var last *http.Request
	w := &wire{reply: func(i int, req *http.Request) (*http.Response, error) {
		last = req
		return answer()
	}}
	c, err := client.New(seeds, client.WithHTTPClient(&http.Client{Transport: w}))
	vx.Assert(err == nil, "construction succeeds")
	rounds := vx.Param("rounds", 1)
	for r := 0; r < rounds; r++ {
		rs := strconv.Itoa(r)
		live := []string{}
		good := false
		switch vx.Choose("answer"+rs, 4) {
		case 0:
			good = true
			n := vx.Choose("members"+rs, vx.Param("members", 3)+1)
			var ms []wireMember
			for i := 0; i < n; i++ {
				s := rs + "." + strconv.Itoa(i)
				m := wireMember{ID: "m" + s, State: []string{"alive", "suspect", "dead"}[vx.Choose("state"+s, 3)]}
				full := ""
				switch vx.Choose("form"+s, 4) {
				case 0: // no usable address
					m.Address = []string{"", " "}[vx.Choose("blank"+s, 2)]
				case 1: // host:port
					b := letter("host" + s)
					m.Address = "h" + b + ":1"
					full = scheme + "://h" + b + ":1"
				case 2: // a whole URL
					b := letter("host" + s)
					m.Address = "http://h" + b + ":1/"
					full = "http://h" + b + ":1"
				case 3: // padded
					b := letter("host" + s)
					m.Address = " h" + b + ":1 "
					full = scheme + "://h" + b + ":1"
				}
				ms = append(ms, m)
				if full != "" && m.State != "dead" {
					live = append(live, full)
				}
			}
			answer = func() (*http.Response, error) {
				return respond(200, jsonBody(map[string]any{"members": ms})), nil
			}
		case 1:
			answer = func() (*http.Response, error) { return nil, errWire }
		case 2:
			st := vx.IntRange("status"+rs, 300, 599)
			answer = func() (*http.Response, error) {
				return respond(st, strings.NewReader(`{"members":[{"id":"x","address":"evil:1","state":"alive"}]}`)), nil
			}
		case 3:
			b := []string{"", "<html>", "null", "{}", `{"members":null}`, `{"members":[{}]}`, `{"members":7}`}[vx.Choose("body"+rs, 7)]
			answer = func() (*http.Response, error) { return respond(200, strings.NewReader(b)), nil }
		}
		err := c.RefreshTopology(context.Background())
		got := c.Endpoints()
		if good {
			vx.Assert(err == nil, "a refresh with a proper answer succeeds")
		}
		if len(live) > 0 {
			view = live
			vx.Reach("replaced")
		} else {
			vx.Reach("kept")
		}
		vx.Assert(len(got) > 0, "the view is never empty")
		vx.Assert(sameSet(got, view), "the view is exactly the live members' addresses, or unchanged")
		// a returned list is the caller's own
		for i := range got {
			got[i] = "mailto:broken"
		}
		vx.Assert(sameSet(c.Endpoints(), view), "a returned list is a copy")
	}
	answer = func() (*http.Response, error) { return respond(200, success(1)), nil }
	_, err = c.Get(context.Background(), "k")
	vx.Assert(err == nil, "requests still work")
	in := false
	for _, v := range view {
		in = vx.Or(in, last.URL.Scheme+"://"+last.URL.Host == v)
	}
	vx.Assert(in, "requests go to the view")
	vx.Reach("end")
}

func letter(name string) string {
	s := vx.StringN(name, 1)
	vx.Assume(s[0] >= 'a' && s[0] <= 'z')
	return s
}

// stateless answers every request the same way, for concurrent harnesses.
type stateless struct{ hosts string }

func (s stateless) RoundTrip(req *http.Request) (*http.Response, error) {
	vx.Assert(req.URL.Host != "", "requests go to an endpoint")
	if strings.HasSuffix(req.URL.Path, "/cluster/members") {
		return respond(200, strings.NewReader(`{"members":[{"id":"a","address":"`+s.hosts+`","state":"alive"}]}`)), nil
	}
	return respond(200, strings.NewReader("v")), nil
}

// RefreshConc decides K05 under concurrency: refreshes, requests and readers interleave freely.
func RefreshConc() {
	c, err := client.New(seedURLs(2), client.WithHTTPClient(&http.Client{Transport: stateless{"n7:1"}}))
	vx.Assert(err == nil, "construction succeeds")
	done := make(chan struct{}, 3)
	ctx := context.Background()
	go func() {
		vx.Assert(c.RefreshTopology(ctx) == nil, "refresh succeeds")
		done <- struct{}{}
	}()
	go func() {
		_, err := c.Get(ctx, "k")
		vx.Assert(err == nil, "request succeeds")
		done <- struct{}{}
	}()
	go func() {
		got := c.Endpoints()
		old := len(got) == 2 && got[0] == "http://n0:1" && got[1] == "http://n1:1"
		vx.Assert(old || len(got) == 1 && got[0] == "http://n7:1", "a reader sees the view before or after a refresh")
		got[0] = "broken"
		done <- struct{}{}
	}()
	for i := 0; i < 3; i++ {
		<-done
	}
	got := c.Endpoints()
	vx.Assert(len(got) == 1 && got[0] == "http://n7:1", "the refreshed view stays")
	vx.Reach("end")
}

// Options decides K07: which settings are accepted, and what every request then carries.
func Options() {
	custom := &wire{}
	def := &wire{}
	old := http.DefaultTransport
	http.DefaultTransport = def
	defer func() { http.DefaultTransport = old }()
	redirects := 0
	timeout := time.Duration(vx.Choose("timeout", 2)) * time.Second
	cust := &http.Client{Transport: custom, Timeout: timeout, CheckRedirect: func(*http.Request, []*http.Request) error {
		redirects++
		return http.ErrUseLastResponse
	}}
	valid := true
	useCustom := false
	late := false // an HTTP client was supplied after the credentials
	want := ""
	oidc := false
	n := vx.Choose("options", vx.Param("options", 3)+1)
	var opts []client.Option
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		switch vx.Choose("option"+s, 6) {
		case 0:
			tok := vx.StringN("token"+s, vx.Choose("toklen"+s, 2))
			visible(tok)
			opts = append(opts, client.WithBearerAuth(tok))
			if tok == "" {
				valid = false
			}
			want, oidc, late = "Bearer "+tok, false, false
		case 1:
			u, p := vx.StringN("user"+s, vx.Choose("userlen"+s, 2)), vx.StringN("pass"+s, vx.Choose("passlen"+s, 2))
			opts = append(opts, client.WithBasicAuth(u, p))
			if u == "" || p == "" {
				valid = false
			}
			want, oidc, late = "Basic "+b64([]byte(u+":"+p)), false, false
		case 2:
			miss := vx.Choose("missing"+s, 4)
			cfg := clientcredentials.Config{ClientID: "id", ClientSecret: "secret", TokenURL: "http://idp:1/token"}
			switch miss {
			case 1:
				cfg.ClientID = ""
			case 2:
				cfg.ClientSecret = ""
			case 3:
				cfg.TokenURL = ""
			}
			valid = valid && miss == 0
			opts = append(opts, client.WithOIDCClientCredentials(cfg))
			want, oidc, late = "Bearer issued", true, false
		case 3:
			if vx.Bool("nil" + s) {
				opts = append(opts, client.WithHTTPClient(nil))
				valid = false
			} else {
				opts = append(opts, client.WithHTTPClient(cust))
				useCustom = true
				late = want != ""
			}
		case 4:
			d := vx.Int64("interval" + s)
			vx.Assume(d < int64(time.Second)) // longer ones start the refresh loop: see Close
			opts = append(opts, client.WithTopologyRefresh(time.Duration(d)))
			if d > 0 {
				valid = false
			}
		case 5:
			opts = append(opts, client.WithLogger(nil))
		}
	}
	answer := func(n int, req *http.Request) (*http.Response, error) {
		if req.URL.Host == "idp:1" {
			r := respond(200, strings.NewReader(`{"access_token":"issued","token_type":"bearer"}`))
			r.Header.Set("Content-Type", "application/json")
			return r, nil
		}
		if strings.HasSuffix(req.URL.Path, "/moved") {
			r := respond(302, strings.NewReader(""))
			r.Header.Set("Location", "/v1/cache/elsewhere")
			return r, nil
		}
		return respond(200, strings.NewReader("v")), nil
	}
	custom.reply, def.reply = answer, answer
	seeds := [][]string{{"http://n0:1"}, {" http://n0:1// "}, {}, {"", " ", "/"}, {"", "http://n0:1"}}[vx.Choose("seeds", 5)]
	ok := len(seeds) > 0 && strings.Contains(strings.Join(seeds, ""), "n0")
	c, err := client.New(seeds, opts...)
	if !valid || !ok {
		vx.Assert(err != nil && c == nil, "invalid settings are rejected")
		vx.Assert(ok || errors.Is(err, client.ErrNoEndpoints), "a missing endpoint says so")
		vx.Reach("rejected")
		return
	}
	vx.Assert(err == nil && c != nil, "valid settings are accepted")
	eps := c.Endpoints()
	vx.Assert(len(eps) == 1 && eps[0] == "http://n0:1", "the seeds are the first endpoints, blanks dropped")
	for round := 0; round < 2; round++ {
		_, err = c.Get(context.Background(), "k")
		vx.Assert(err == nil, "a request succeeds")
		used, idle := def, custom
		if useCustom {
			used, idle = custom, def
		}
		vx.Assert(len(idle.seen) == 0 && len(used.seen) > 0, "requests, and token requests, use the caller's transport")
		if len(used.seen) == 0 {
			return
		}
		s := &used.seen[len(used.seen)-1]
		vx.Assert(s.host == "n0:1", "the request went out")
		if !late {
			vx.Assert(s.hdr.Get("Authorization") == want && len(s.hdr.Values("Authorization")) <= 1, "the last credentials are sent, and no others")
		}
		if useCustom {
			vx.Assert(s.deadline == (timeout > 0), "the caller's timeout is kept")
		} else {
			vx.Assert(s.deadline, "requests are limited in time by default")
		}
		if oidc && !late {
			vx.Assert(used.seen[0].host == "idp:1" && len(used.seen) == 2+round, "the token is fetched once")
		}
	}
	if useCustom {
		k := len(custom.seen)
		_, err = c.Get(context.Background(), "moved")
		vx.Assert(err != nil && redirects == 1 && len(custom.seen) == k+1, "the caller's redirect policy is kept")
		vx.Reach("custom")
	}
	vx.Reach("accepted")
}

// visible restricts a symbolic token to characters a header can carry.
func visible(s string) {
	for i := 0; i < len(s); i++ {
		vx.Assume(s[i] > ' ' && s[i] < 0x7f)
	}
}

// ---- closing ----

type closing struct {
	inFlight chan struct{}
	closed   atomic.Bool
	hang     atomic.Int32 // requests that get no answer before their context ends
}

func (w *closing) RoundTrip(req *http.Request) (*http.Response, error) {
	vx.Assert(!w.closed.Load(), "no refresh starts after Close returned")
	select {
	case w.inFlight <- struct{}{}:
	default:
	}
	if w.hang.Add(-1) >= 0 {
		<-req.Context().Done()
		vx.Assert(!w.closed.Load(), "no refresh is running after Close returned")
		return nil, req.Context().Err()
	}
	vx.Point()
	vx.Assert(!w.closed.Load(), "no refresh is running after Close returned")
	return respond(200, success(9)), nil
}

// Close decides K06: any number of closers against an idle, running or hanging refresh.
func Close() {
	w := &closing{inFlight: make(chan struct{}, 1)}
	when := vx.Choose("when", 4)
	if when == 2 {
		w.hang.Store(1)
	}
	opts := []client.Option{client.WithHTTPClient(&http.Client{Transport: w})}
	if when != 3 {
		opts = append(opts, client.WithTopologyRefresh(2*time.Second))
	}
	c, err := client.New(seedURLs(1), opts...)
	vx.Assert(err == nil, "construction succeeds")
	if when == 1 || when == 2 {
		<-w.inFlight
	}
	n := vx.Choose("closers", vx.Param("closers", 2)) + 1
	done := make(chan struct{}, n)
	for i := 0; i < n; i++ {
		go func() {
			vx.Assert(c.Close() == nil, "Close succeeds")
			w.closed.Store(true)
			done <- struct{}{}
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	vx.Assert(c.Close() == nil, "Close again succeeds")
	vx.Quiesce()
	vx.Assert(vx.Live() == 0, "no background work is left")
	vx.Reach("end")
}
