// Package vmodel holds Go models that gosym substitutes for library functions whose
// real bodies depend on reflection, the runtime or the operating system.
package vmodel

import (
	"context"
	"encoding/json"
	"fmt"
	"hash"
	"io"
	"io/fs"
	"math/big"
	"math/rand/v2"
	"net/http"
	"os"
	"sync"
	"syscall"
	"time"

	"gopkg.in/yaml.v3"
)

func choose(n int) int
func isSym(x any) bool
func comparable_(x any) bool
func asTarget(err error, target any) bool
func swapAny(s any, i, j int)
func lenAny(s any) int
func sideGet(p any) any
func sideSet(p any, v any)
func typeName(x any) string
func nativeSprintf(format string, a []any) string
func unsupported(s string)
func nowNanos() int64
func addTimer(d, period int64, f func()) int
func stopTimer(id int) bool
func resetTimer(id int, d int64) bool
func syncMapKeys(m *sync.Map) []any
func shuffleOK() bool
func jsonEnc(v any) ([]byte, string)
func jsonDec(b []byte, v any) string
func jsonFirst(b []byte) int
func digest(b []byte) []byte

// ---- errors ----

func errorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return is(err, target, comparable_(target))
}

func is(err, target error, cmp bool) bool {
	for {
		if cmp && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if is(err, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func errorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	for {
		if asTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if err == nil {
					continue
				}
				if errorsAs(err, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// ---- fmt ----

// prep replaces errors and Stringers by their text where the verb asks for text.
func prep(format string, a []any) []any {
	out := make([]any, len(a))
	copy(out, a)
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '-' || format[i] == '#' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if i >= len(format) {
			break
		}
		v := format[i]
		if v == '%' {
			continue
		}
		if k < len(out) {
			if v == 'v' || v == 's' || v == 'q' || v == 'w' {
				switch x := out[k].(type) {
				case nil:
				case error:
					out[k] = x.Error()
				case fmt.Stringer:
					out[k] = x.String()
				}
			}
			k++
		}
	}
	return out
}

func sprintf(format string, a ...any) string { return nativeSprintf(format, prep(format, a)) }

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	msg  string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.msg }
func (e *wrapErrors) Unwrap() []error { return e.errs }

type plainError struct{ s string }

func (e *plainError) Error() string { return e.s }

func errorf(format string, a ...any) error {
	msg := nativeSprintf(format, prep(format, a))
	var errs []error
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '-' || format[i] == '#' || format[i] == ' ' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && k < len(a) {
			if e, ok := a[k].(error); ok {
				errs = append(errs, e)
			}
		}
		k++
	}
	switch len(errs) {
	case 0:
		return &plainError{msg}
	case 1:
		return &wrapError{msg, errs[0]}
	}
	return &wrapErrors{msg, errs}
}

func sprint(a ...any) string {
	s := ""
	prevStr := true
	for i, x := range a {
		_, isStr := x.(string)
		if i > 0 && !isStr && !prevStr {
			s += " "
		}
		s += sprintf("%v", x)
		prevStr = isStr
	}
	return s
}

func sprintln(a ...any) string {
	s := ""
	for i, x := range a {
		if i > 0 {
			s += " "
		}
		s += sprintf("%v", x)
	}
	return s + "\n"
}

func fprintf(w io.Writer, format string, a ...any) (int, error) {
	return w.Write([]byte(sprintf(format, a...)))
}
func fprint(w io.Writer, a ...any) (int, error)   { return w.Write([]byte(sprint(a...))) }
func fprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(sprintln(a...))) }
func printf(format string, a ...any) (int, error) { return 0, nil }
func println_(a ...any) (int, error)              { return 0, nil }
func print_(a ...any) (int, error)                { return 0, nil }
func appendf(b []byte, format string, a ...any) []byte {
	return append(b, sprintf(format, a...)...)
}

// ---- sort ----

func sortSlice(x any, less func(i, j int) bool) {
	n := lenAny(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapAny(x, j, j-1)
		}
	}
}

// ---- time (virtual clock) ----

func timeAfterFunc(d time.Duration, f func()) *time.Timer {
	t := &time.Timer{}
	sideSet(t, addTimer(int64(d), 0, f))
	return t
}

func timeNewTimer(d time.Duration) *time.Timer {
	c := make(chan time.Time, 1)
	t := &time.Timer{C: c}
	sideSet(t, addTimer(int64(d), 0, func() {
		select {
		case c <- time.Now():
		default:
		}
	}))
	return t
}

func timeNewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &time.Ticker{C: c}
	sideSet(t, addTimer(int64(d), int64(d), func() {
		select {
		case c <- time.Now():
		default:
		}
	}))
	return t
}

func timeAfter(d time.Duration) <-chan time.Time { return timeNewTimer(d).C }
func timeTick(d time.Duration) <-chan time.Time  { return timeNewTicker(d).C }
func timeSleep(d time.Duration) {
	if d > 0 {
		<-timeNewTimer(d).C
	}
}

// drain empties the channel of a stopped or reset timer (Go 1.23 semantics).
func drain(c <-chan time.Time) {
	if c != nil {
		select {
		case <-c:
		default:
		}
	}
}

func timerStop(t *time.Timer) bool {
	r := stopTimer(sideGet(t).(int))
	drain(t.C)
	return r
}
func timerReset(t *time.Timer, d time.Duration) bool {
	r := resetTimer(sideGet(t).(int), int64(d))
	drain(t.C)
	return r
}
func tickerStop(t *time.Ticker) {
	stopTimer(sideGet(t).(int))
	drain(t.C)
}
func tickerReset(t *time.Ticker, d time.Duration) {
	resetTimer(sideGet(t).(int), int64(d))
	drain(t.C)
}

// ---- sync ----

func syncMapRange(m *sync.Map, f func(k, v any) bool) {
	for _, k := range syncMapKeys(m) {
		v, ok := m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

type onceState struct {
	m    sync.Mutex
	done bool
}

// onceDo is sync.Once without its lock-free fast path.
func onceDo(o *sync.Once, f func()) {
	s, ok := sideGet(o).(*onceState)
	if !ok {
		s = &onceState{}
		sideSet(o, s)
	}
	s.m.Lock()
	defer s.m.Unlock()
	if !s.done {
		defer func() { s.done = true }()
		f()
	}
}

type condState struct{ waiters []chan struct{} }

func cond(c *sync.Cond) *condState {
	if s, ok := sideGet(c).(*condState); ok {
		return s
	}
	s := &condState{}
	sideSet(c, s)
	return s
}
func condWait(c *sync.Cond) {
	s := cond(c)
	ch := make(chan struct{})
	s.waiters = append(s.waiters, ch)
	c.L.Unlock()
	<-ch
	c.L.Lock()
}
func condSignal(c *sync.Cond) {
	s := cond(c)
	if len(s.waiters) > 0 {
		ch := s.waiters[0]
		s.waiters = s.waiters[1:]
		close(ch)
	}
}
func condBroadcast(c *sync.Cond) {
	s := cond(c)
	for _, ch := range s.waiters {
		close(ch)
	}
	s.waiters = nil
}

// ---- randomness: any outcome ----

func randIntN(n int) int {
	if n <= 0 {
		panic("invalid argument to IntN")
	}
	return choose(n)
}
func randInt64N(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int64N")
	}
	return int64(choose(int(n)))
}
func randShuffle(n int, swap func(i, j int)) {
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	if !shuffleOK() {
		return
	}
	for i := n - 1; i > 0; i-- {
		j := choose(i + 1)
		if i != j {
			swap(i, j)
		}
	}
}
func randPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	randShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

func randRandShuffle(r *rand.Rand, n int, swap func(i, j int)) { randShuffle(n, swap) }
func randRandPerm(r *rand.Rand, n int) []int                   { return randPerm(n) }
func randRandIntN(r *rand.Rand, n int) int                     { return randIntN(n) }
func randRandInt64N(r *rand.Rand, n int64) int64               { return randInt64N(n) }
func cryptoInt(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	return big.NewInt(int64(choose(int(max.Int64())))), nil
}
func cryptoRead(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(17*i + 3)
	}
	return len(b), nil
}

// ---- context.WithValue without its reflection ----

type valueCtx struct {
	context.Context
	key, val any
}

func (c *valueCtx) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

func contextWithValue(parent context.Context, key, val any) context.Context {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	if key == nil {
		panic("nil key")
	}
	if !comparable_(key) {
		panic("key is not comparable")
	}
	return &valueCtx{parent, key, val}
}

// ---- net/http: the client's own timeout is a deadline on the request's context that never fires ----

type deadlineCtx struct {
	context.Context
	d time.Time
}

func (c *deadlineCtx) Deadline() (time.Time, bool) { return c.d, true }

func httpSetRequestCancel(req *http.Request, rt http.RoundTripper, deadline time.Time) (func(), func() bool) {
	if !deadline.IsZero() {
		old := req.Context()
		if d, ok := old.Deadline(); !ok || deadline.Before(d) {
			*req = *req.WithContext(&deadlineCtx{old, deadline})
		}
	}
	return func() {}, func() bool { return false }
}

// ---- encoding/json: structural codec ----

func jsonMarshal(v any) ([]byte, error) {
	b, e := jsonEnc(v)
	if e != "" {
		return nil, &plainError{e}
	}
	return b, nil
}
func jsonUnmarshal(b []byte, v any) error {
	if e := jsonDec(b, v); e != "" {
		return &plainError{e}
	}
	return nil
}

func jsonMarshalOpt(v any, _ ...func()) ([]byte, error)    { return jsonMarshal(v) }
func jsonMarshalIndent(v any, _, _ string) ([]byte, error) { return jsonMarshal(v) }
func jsonUnmarshalOpt(b []byte, v any, _ ...func()) error  { return jsonUnmarshal(b, v) }

type jsonStream struct {
	r    io.Reader
	rest []byte
	err  error
}

func (s *jsonStream) fill() error {
	if s.r != nil {
		s.rest, s.err = io.ReadAll(s.r)
		s.r = nil
	}
	return s.err
}

func jsonNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	sideSet(d, &jsonStream{r: r})
	return d
}

func jsonDecode(d *json.Decoder, v any) error {
	s := sideGet(d).(*jsonStream)
	if err := s.fill(); err != nil {
		return err
	}
	n := jsonFirst(s.rest)
	if n == 0 {
		return io.EOF
	}
	if n < 0 {
		return jsonUnmarshal(s.rest, v)
	}
	b := s.rest[:n]
	s.rest = s.rest[n:]
	return jsonUnmarshal(b, v)
}

func jsonMore(d *json.Decoder) bool {
	s := sideGet(d).(*jsonStream)
	return s.fill() == nil && jsonFirst(s.rest) != 0
}

func jsonNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	sideSet(e, w)
	return e
}

func jsonEncode(e *json.Encoder, v any) error {
	b, err := jsonMarshal(v)
	if err != nil {
		return err
	}
	_, err = sideGet(e).(io.Writer).Write(append(b, '\n'))
	return err
}

// ---- bcrypt: a table of (hash, password) pairs made by the harness ----

var bcTab []struct{ hash, pw string }

func bcryptHash(pw string) []byte {
	const fill = "abcdefghijklmnopqrstuvABCDEFGHIJKLMNOPQRSTUVWXYZ01234"
	h := "$2a$04$" + fill[:52] + string(rune('a'+len(bcTab)))
	bcTab = append(bcTab, struct{ hash, pw string }{h, pw})
	return []byte(h)
}

func bcryptCompare(hash, pw []byte) error {
	for _, e := range bcTab {
		if string(hash) == e.hash {
			if string(pw) == e.pw {
				return nil
			}
			return bcryptMismatch()
		}
	}
	return &plainError{"crypto/bcrypt: unknown or malformed hash"}
}

func bcryptMismatch() error { return errMismatch }

var errMismatch = &plainError{"crypto/bcrypt: hashedPassword is not the hash of the given password"}

// ---- process environment and files ----

type kv struct{ k, v string }

var envTab []kv

func vxSetenv(k, v string) {
	for i := range envTab {
		if envTab[i].k == k {
			envTab[i].v = v
			return
		}
	}
	envTab = append(envTab, kv{k, v})
}

func osGetenv(k string) string {
	v, _ := osLookupEnv(k)
	return v
}

func osLookupEnv(k string) (string, bool) {
	for i := range envTab {
		if envTab[i].k == k {
			return envTab[i].v, true
		}
	}
	return "", false
}

type file struct {
	name string
	data []byte
}

var fileTab []file

func vxTempFile(data []byte) string {
	n := "/vx/file" + string(rune('a'+len(fileTab)))
	fileTab = append(fileTab, file{n, data})
	return n
}

type openFile struct {
	f      *file
	pos    int
	closed bool
}

func noFile(op, name string) error { return &fs.PathError{Op: op, Path: name, Err: syscall.ENOENT} }

func osOpen(name string) (*os.File, error) {
	for i := range fileTab {
		if fileTab[i].name == name {
			f := new(os.File)
			sideSet(f, &openFile{f: &fileTab[i]})
			return f, nil
		}
	}
	return nil, noFile("open", name)
}

func osReadFile(name string) ([]byte, error) {
	for i := range fileTab {
		if fileTab[i].name == name {
			return append([]byte{}, fileTab[i].data...), nil
		}
	}
	return nil, noFile("open", name)
}

func fileRead(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	o := sideGet(f).(*openFile)
	if o.closed {
		return 0, fs.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if o.pos >= len(o.f.data) {
		return 0, io.EOF
	}
	n := copy(b, o.f.data[o.pos:])
	o.pos += n
	return n, nil
}

func fileClose(f *os.File) error {
	if f == nil {
		return os.ErrInvalid
	}
	o := sideGet(f).(*openFile)
	if o.closed {
		return fs.ErrClosed
	}
	o.closed = true
	return nil
}

func fileName(f *os.File) string { return sideGet(f).(*openFile).f.name }

// ---- gopkg.in/yaml.v3 on JSON documents (JSON is a subset of YAML) ----

type yamlState struct {
	r     io.Reader
	known bool
	done  bool
}

func yamlDec(b []byte, v any, known bool) string

func yamlNewDecoder(r io.Reader) *yaml.Decoder {
	d := new(yaml.Decoder)
	sideSet(d, &yamlState{r: r})
	return d
}

func yamlKnownFields(d *yaml.Decoder, on bool) { sideGet(d).(*yamlState).known = on }

func yamlDecode(d *yaml.Decoder, v any) error {
	st := sideGet(d).(*yamlState)
	if st.done {
		return io.EOF
	}
	st.done = true
	b, err := io.ReadAll(st.r)
	if err != nil {
		return err
	}
	if len(b) == 0 {
		return io.EOF
	}
	if e := yamlDec(b, v, st.known); e != "" {
		return &plainError{e}
	}
	return nil
}

func yamlUnmarshal(b []byte, v any) error {
	if len(b) == 0 {
		return nil
	}
	if e := yamlDec(b, v, false); e != "" {
		return &plainError{e}
	}
	return nil
}

// cborEncoder stands for codec.Encoder over a CborHandle, for plain numbers and truth values.
type cborEncoder struct {
	impl interface{ Encode(v any) error }
}

type cborWriter struct{ w io.Writer }

func (e *cborWriter) Encode(v any) error { return cborEncode(e, v) }

func cborNewEncoder(w io.Writer, h any) *cborEncoder { return &cborEncoder{&cborWriter{w}} }

func cborUint(major byte, v uint64) []byte {
	switch {
	case v <= 0x17:
		return []byte{major | byte(v)}
	case v <= 0xff:
		return []byte{major | 0x18, byte(v)}
	case v <= 0xffff:
		return []byte{major | 0x19, byte(v >> 8), byte(v)}
	case v <= 0xffffffff:
		return []byte{major | 0x1a, byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	}
	return []byte{major | 0x1b, byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

func cborInt(v int64) []byte {
	if v < 0 {
		return cborUint(0x20, uint64(-1-v))
	}
	return cborUint(0, uint64(v))
}

func cborEncode(e *cborWriter, v any) error {
	var b []byte
	switch x := v.(type) {
	case nil:
		b = []byte{0xf6}
	case bool:
		b = []byte{0xf4}
		if x {
			b[0] = 0xf5
		}
	case int:
		b = cborInt(int64(x))
	case int8:
		b = cborInt(int64(x))
	case int16:
		b = cborInt(int64(x))
	case int32:
		b = cborInt(int64(x))
	case int64:
		b = cborInt(x)
	case uint:
		b = cborUint(0, uint64(x))
	case uint8:
		b = cborUint(0, uint64(x))
	case uint16:
		b = cborUint(0, uint64(x))
	case uint32:
		b = cborUint(0, uint64(x))
	case uint64:
		b = cborUint(0, x)
	default:
		unsupported("CBOR encoding of " + typeName(v))
	}
	_, err := e.w.Write(b)
	return err
}

// ---- crypto/sha256: a function without collisions ----

type sha256Hash struct{ buf []byte }

func (h *sha256Hash) Write(p []byte) (int, error) {
	h.buf = append(h.buf, p...)
	return len(p), nil
}
func (h *sha256Hash) Sum(b []byte) []byte { return append(b, digest(h.buf)...) }
func (h *sha256Hash) Reset()              { h.buf = nil }
func (*sha256Hash) Size() int             { return 32 }
func (*sha256Hash) BlockSize() int        { return 64 }

func sha256New() hash.Hash { return &sha256Hash{} }
