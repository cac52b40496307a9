// Package vfiber: the models of the fiber server and of the HTTP transport between nodes.
// A request runs the registered handlers in the goroutine that sends it.
package vfiber

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/gofiber/fiber/v3"
)

type route struct {
	method, path string
	handlers     []fiber.Handler
}

type server struct {
	cfg    fiber.Config
	routes []route
	ln     *listener
	done   chan struct{}
}

type listener struct {
	addr   *net.TCPAddr
	closed chan struct{}
	srv    *server
}

var (
	servers   = map[*fiber.App]*server{}
	listening = map[string]*listener{}
	nextPort  = 40000
)

// ---- net ----

func hostPort(addr string) (string, error) {
	i := strings.LastIndexByte(addr, ':')
	if i < 0 {
		return "", errors.New("listen: address " + addr + ": missing port in address")
	}
	return addr[i+1:], nil
}

func listen(_ *net.ListenConfig, _ context.Context, _, addr string) (net.Listener, error) {
	port, err := hostPort(addr)
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(port)
	if err != nil {
		return nil, errors.New("listen: unknown port")
	}
	if n == 0 {
		nextPort++
		n = nextPort
		port = strconv.Itoa(n)
	}
	if listening[port] != nil {
		return nil, errors.New("listen tcp " + addr + ": bind: address already in use")
	}
	l := &listener{addr: &net.TCPAddr{IP: net.IP{127, 0, 0, 1}, Port: n}, closed: make(chan struct{})}
	listening[port] = l
	return l, nil
}

func netListen(network, addr string) (net.Listener, error) {
	return listen(nil, context.Background(), network, addr)
}

func (l *listener) Accept() (net.Conn, error) {
	<-l.closed
	return nil, net.ErrClosed
}

func (l *listener) Close() error {
	port := strconv.Itoa(l.addr.Port)
	if listening[port] == l {
		delete(listening, port)
		close(l.closed)
	}
	return nil
}

func (l *listener) Addr() net.Addr { return l.addr }

// ---- fiber ----

func fiberNew(config ...fiber.Config) *fiber.App {
	app := new(fiber.App)
	s := &server{done: make(chan struct{})}
	if len(config) > 0 {
		s.cfg = config[0]
	}
	servers[app] = s
	return app
}

func add(app *fiber.App, method, path string, handler any, more []any) fiber.Router {
	r := route{method: method, path: path}
	for _, h := range append([]any{handler}, more...) {
		switch f := h.(type) {
		case fiber.Handler:
			r.handlers = append(r.handlers, f)
		default:
			panic("fiber: a handler of another kind")
		}
	}
	s := servers[app]
	s.routes = append(s.routes, r)
	return app
}

func fiberGet(app *fiber.App, path string, h any, more ...any) fiber.Router {
	return add(app, http.MethodGet, path, h, more)
}
func fiberPost(app *fiber.App, path string, h any, more ...any) fiber.Router {
	return add(app, http.MethodPost, path, h, more)
}
func fiberPut(app *fiber.App, path string, h any, more ...any) fiber.Router {
	return add(app, http.MethodPut, path, h, more)
}
func fiberDelete(app *fiber.App, path string, h any, more ...any) fiber.Router {
	return add(app, http.MethodDelete, path, h, more)
}

func fiberHead(app *fiber.App, path string, h any, more ...any) fiber.Router {
	return add(app, http.MethodHead, path, h, more)
}

func fiberListen(app *fiber.App, addr string, _ ...fiber.ListenConfig) error {
	ln, err := netListen("tcp", addr)
	if err != nil {
		return err
	}
	return fiberListener(app, ln)
}

func fiberListener(app *fiber.App, ln net.Listener, _ ...fiber.ListenConfig) error {
	l, ok := ln.(*listener)
	if !ok {
		return errors.New("a listener of another kind")
	}
	s := servers[app]
	s.ln, l.srv = l, s
	<-l.closed
	return nil
}

func fiberShutdown(app *fiber.App) error {
	if s := servers[app]; s.ln != nil {
		return s.ln.Close()
	}
	return nil
}

func fiberShutdownCtx(app *fiber.App, _ context.Context) error { return fiberShutdown(app) }

func fiberShutdownTimeout(app *fiber.App, _ time.Duration) error { return fiberShutdown(app) }

// request is the fiber.Ctx of one request.
type request struct {
	fiber.Ctx
	app     *fiber.App
	req     *http.Request
	body    []byte
	query   url.Values
	names   []string
	values  []string
	pooled  []string
	locals  map[any]any
	todo    []fiber.Handler
	status  int
	header  http.Header
	out     []byte
	userCtx context.Context
}

// hold is a string as fiber gives it out: backed by a buffer of the request.
func (r *request) hold(s string) string {
	if servers[r.app].cfg.Immutable || s == "" {
		return s
	}
	s = pooled(s)
	r.pooled = append(r.pooled, s)
	return s
}

func (r *request) App() *fiber.App { return r.app }
func (r *request) Next() error {
	if len(r.todo) == 0 {
		return fiber.ErrNotFound
	}
	h := r.todo[0]
	r.todo = r.todo[1:]
	return h(r)
}
func (r *request) Status(code int) fiber.Ctx { r.status = code; return r }
func (r *request) JSON(v any, ctype ...string) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	r.out = b
	t := fiber.MIMEApplicationJSON
	if len(ctype) > 0 {
		t = ctype[0]
	}
	r.header.Set("Content-Type", t)
	return nil
}
func (r *request) Send(b []byte) error        { r.out = append([]byte(nil), b...); return nil }
func (r *request) SendString(s string) error  { r.out = []byte(s); return nil }
func (r *request) Set(key, val string)        { r.header.Set(key, val) }
func (r *request) Method(...string) string    { return r.req.Method }
func (r *request) Path(...string) string      { return r.hold(r.req.URL.Path) }
func (r *request) OriginalURL() string        { return r.hold(r.req.URL.RequestURI()) }
func (r *request) Context() context.Context   { return context.Background() }
func (r *request) SetContext(context.Context) {}
func (r *request) BodyRaw() []byte            { return r.body }
func (r *request) SendStatus(code int) error {
	r.status = code
	if len(r.out) == 0 {
		r.out = []byte(http.StatusText(code))
	}
	return nil
}
func (r *request) Get(key string, def ...string) string {
	if v := r.req.Header.Get(key); v != "" {
		return r.hold(v)
	}
	return first(def)
}
func (r *request) Query(key string, def ...string) string {
	if v := r.query.Get(key); v != "" {
		return r.hold(v)
	}
	return first(def)
}
func (r *request) Queries() map[string]string {
	out := map[string]string{}
	for k, v := range r.query {
		out[r.hold(k)] = r.hold(v[len(v)-1])
	}
	return out
}
func (r *request) Body() []byte {
	if r.req.Header.Get("Content-Encoding") != "gzip" {
		return r.body
	}
	b, ok := bytes.CutPrefix(r.body, []byte(gzipHead))
	if !ok || !bytes.HasSuffix(b, []byte(gzipTail)) {
		return []byte(gzip.ErrHeader.Error())
	}
	return b[:len(b)-len(gzipTail)]
}
func (r *request) Params(key string, def ...string) string {
	for i, n := range r.names {
		if n == key {
			return r.hold(r.values[i])
		}
	}
	return first(def)
}
func (r *request) Locals(key any, value ...any) any {
	if len(value) > 0 {
		r.locals[key] = value[0]
	}
	return r.locals[key]
}

func first(def []string) string {
	if len(def) > 0 {
		return def[0]
	}
	return ""
}

// pooled makes a string the request owns, recycle overwrites it; both are the engine's.
func pooled(s string) string { return s }
func recycle(s string)       {}

// ---- compress/gzip: what is written, framed ----

const gzipHead, gzipTail = "\x1f\x8b", "\x00gz"

var zipped = map[*gzip.Writer]*zip{}

type zip struct {
	to  io.Writer
	buf []byte
}

func gzipNewWriter(w io.Writer) *gzip.Writer {
	z := new(gzip.Writer)
	zipped[z] = &zip{to: w}
	return z
}

func gzipWrite(z *gzip.Writer, b []byte) (int, error) {
	zipped[z].buf = append(zipped[z].buf, b...)
	return len(b), nil
}

func gzipClose(z *gzip.Writer) error {
	_, err := zipped[z].to.Write([]byte(gzipHead + string(zipped[z].buf) + gzipTail))
	return err
}

// ---- net/http: a request reaches the server that listens at its host ----

func roundTrip(_ *http.Transport, req *http.Request) (*http.Response, error) {
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	var body []byte
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		_ = req.Body.Close()
		if err != nil {
			return nil, err
		}
		body = b
	}
	port, err := hostPort(req.URL.Host)
	if err != nil {
		return nil, err
	}
	l := listening[port]
	if l == nil {
		return nil, errors.New("dial tcp " + req.URL.Host + ": connect: connection refused")
	}
	for l.srv == nil { // accepted once it serves
		time.Sleep(time.Millisecond)
	}
	var app *fiber.App
	for a, s := range servers {
		if s == l.srv {
			app = a
		}
	}
	r := &request{app: app, req: req, body: body, query: req.URL.Query(), locals: map[any]any{}, status: http.StatusOK, header: http.Header{}}
	if limit := l.srv.cfg.BodyLimit; limit > 0 && len(body) > limit {
		return respond(req, http.StatusRequestEntityTooLarge, r.header, []byte("Request Entity Too Large")), nil
	}
	known := false
	path := req.URL.EscapedPath()
	if l.srv.cfg.UnescapePath {
		path = req.URL.Path
	}
	for _, rt := range l.srv.routes {
		names, values, ok := match(rt.path, path)
		if !ok {
			continue
		}
		known = true
		r.names, r.values = names, values
		if rt.method == req.Method {
			r.todo = rt.handlers
			break
		}
	}
	switch {
	case r.todo != nil:
		err = r.Next()
	case known:
		err = fiber.ErrMethodNotAllowed
	default:
		err = fiber.ErrNotFound
	}
	if err != nil {
		r.status = http.StatusInternalServerError
		var fe *fiber.Error
		if errors.As(err, &fe) {
			r.status = fe.Code
		}
		r.out = []byte(err.Error())
	}
	for _, s := range r.pooled {
		recycle(s)
	}
	if err := req.Context().Err(); err != nil { // too late
		return nil, err
	}
	return respond(req, r.status, r.header, r.out), nil
}

// match compares a path with a pattern of literal and ":name" segments.
func match(pattern, path string) (names, values []string, ok bool) {
	a, b := strings.Split(pattern, "/"), strings.Split(strings.TrimSuffix(path, "/"), "/")
	if len(a) != len(b) {
		return nil, nil, false
	}
	for i, p := range a {
		if len(p) > 1 && p[0] == ':' {
			if b[i] == "" {
				return nil, nil, false
			}
			names, values = append(names, p[1:]), append(values, b[i])
		} else if !strings.EqualFold(p, b[i]) {
			return nil, nil, false
		}
	}
	return names, values, true
}

func respond(req *http.Request, status int, header http.Header, out []byte) *http.Response {
	return &http.Response{
		Status: strconv.Itoa(status) + " " + http.StatusText(status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: header, Body: io.NopCloser(bytes.NewReader(out)), ContentLength: int64(len(out)), Request: req,
	}
}
