// Package hauth: harnesses for pkg/httpauth.
package hauth

import (
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"errors"
	"net"
	"strconv"
	"strings"

	"github.com/gofiber/fiber/v3"
	"github.com/hyp3rd/hypercache/internal/zzverif/vx"
	"github.com/hyp3rd/hypercache/pkg/httpauth"
	"github.com/valyala/fasthttp"
)

// reqCtx is one request as the policy sees it.
type reqCtx struct {
	fiber.Ctx
	header string
	rc     *fasthttp.RequestCtx
	locals map[string]any
	next   int
	ended  error
}

func (c *reqCtx) Get(key string, def ...string) string {
	if strings.EqualFold(key, "Authorization") && c.header != "" {
		return c.header
	}
	if len(def) > 0 {
		return def[0]
	}
	return ""
}

func (c *reqCtx) Locals(key any, value ...any) any {
	k, _ := key.(string)
	if len(value) > 0 {
		c.locals[k] = value[0]
		return value[0]
	}
	return c.locals[k]
}

func (c *reqCtx) RequestCtx() *fasthttp.RequestCtx { return c.rc }

func (c *reqCtx) Next() error {
	c.next++
	return c.ended
}

type tlsConn struct {
	net.Conn
	state tls.ConnectionState
}

func (c *tlsConn) Handshake() error                     { return nil }
func (c *tlsConn) ConnectionState() tls.ConnectionState { return c.state }

type plainConn struct{ net.Conn }

func cert(cn string) *x509.Certificate {
	return &x509.Certificate{Subject: pkix.Name{CommonName: cn}}
}

// Connection kinds.
const (
	plain = iota
	noRequest
	tlsBare
	tlsUnverified
	tlsEmptyChain
	tlsVerified
	connKinds
)

func newRequest(kind int, cn, header string) *reqCtx {
	c := &reqCtx{header: header, locals: map[string]any{}}
	if kind == noRequest {
		return c
	}
	c.rc = &fasthttp.RequestCtx{}
	if kind == plain {
		c.rc.Init2(&plainConn{}, nil, true)
		return c
	}
	t := &tlsConn{}
	switch kind {
	case tlsUnverified:
		t.state.PeerCertificates = []*x509.Certificate{cert(cn)}
	case tlsEmptyChain:
		t.state.PeerCertificates = []*x509.Certificate{cert(cn)}
		t.state.VerifiedChains = [][]*x509.Certificate{{}}
	case tlsVerified:
		t.state.PeerCertificates = []*x509.Certificate{cert(cn)}
		t.state.VerifiedChains = [][]*x509.Certificate{{cert(cn), cert("issuer")}}
	}
	c.rc.Init2(t, nil, true)
	return c
}

var allScopes = []httpauth.Scope{httpauth.ScopeRead, httpauth.ScopeWrite, httpauth.ScopeAdmin}

var hookScopes = []httpauth.Scope{httpauth.ScopeAdmin}

// word is a symbolic string of n ASCII characters without NUL (any bytes without NUL when the parameter says so).
func word(name string, n int) string {
	s := vx.StringN(name, n)
	ok := true
	top := byte(vx.Param("top", 0x7f))
	for i := 0; i < n; i++ {
		ok = vx.And(ok, vx.And(s[i] != 0, s[i] <= top))
	}
	vx.Assume(ok)
	return s
}

// text is a symbolic string of 1..n bytes without NUL.
func text(name string, n int) string { return word(name, vx.Choose(name+"len", n)+1) }

// policy is a symbolic configuration together with what it was built from.
type policy struct {
	p     httpauth.Policy
	pws   []string
	hook  int // 0 none, 1 accepts, 2 refuses
	hooks int
}

func scopesOf(i int) []httpauth.Scope { return allScopes[i : i+1] }

func newPolicy(nt, nu, nc, tl int) *policy {
	y := &policy{}
	for i := 0; i < nt; i++ {
		k := strconv.Itoa(i)
		y.p.Tokens = append(y.p.Tokens, httpauth.TokenIdentity{ID: "t" + k, Token: word("token"+k, tl), Scopes: scopesOf(i)})
	}
	for i := 0; i < nu; i++ {
		k := strconv.Itoa(i)
		pw := word("password"+k, tl)
		y.pws = append(y.pws, pw)
		y.p.BasicIdentities = append(y.p.BasicIdentities, httpauth.BasicIdentity{Username: word("user"+k, tl), PasswordBcrypt: vx.BcryptHash(pw), ID: "b" + k, Scopes: scopesOf(1 - i)})
	}
	for i := 0; i < nu; i++ {
		for j := 0; j < i; j++ {
			vx.Assume(y.p.BasicIdentities[i].Username != y.p.BasicIdentities[j].Username)
		}
	}
	for i := 0; i < nc; i++ {
		k := strconv.Itoa(i)
		y.p.CertIdentities = append(y.p.CertIdentities, httpauth.CertIdentity{SubjectCN: word("cn"+k, tl), Scopes: scopesOf(2 - i)})
	}
	return y
}

func (y *policy) setHook(kind int) {
	y.hook = kind
	if kind == 0 {
		return
	}
	y.p.ServerVerify = func(fiber.Ctx) (httpauth.Identity, error) {
		y.hooks++
		if kind == 2 {
			return httpauth.Identity{ID: "nobody", Scopes: allScopes}, errors.New("refused")
		}
		return httpauth.Identity{ID: "hook", Scopes: hookScopes}, nil
	}
}

// basicOf is the definition of what a header's basic credentials are.
func basicOf(header string) (user, pw string, ok bool) {
	rest, ok := strings.CutPrefix(header, "Basic ")
	if !ok {
		return "", "", false
	}
	raw, err := base64.StdEncoding.DecodeString(strings.TrimSpace(rest))
	if err != nil {
		return "", "", false
	}
	for i, b := range raw {
		if b == ':' {
			return string(raw[:i]), string(raw[i+1:]), true
		}
	}
	return "", "", false
}

func sameScopes(a, b []httpauth.Scope) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func resolved(c *reqCtx) (httpauth.Identity, bool) {
	v, ok := c.locals[httpauth.IdentityKey]
	if !ok {
		return httpauth.Identity{}, false
	}
	id, ok := v.(httpauth.Identity)
	vx.Assert(ok, "the stored identity is an Identity")
	return id, true
}

func code(err error) int {
	var fe *fiber.Error
	if errors.As(err, &fe) {
		return fe.Code
	}
	return 0
}

// judge states A01 for one request under one policy.
func judge(y *policy, c *reqCtx, kind int, cn string, err error) {
	id, stored := resolved(c)
	user, pw, isBasic := basicOf(c.header)
	class := 0 // which credential class decides: 1 token, 2 basic, 3 certificate, 4 hook, 5 anonymous
	good := false
	for _, t := range y.p.Tokens {
		if c.header == "Bearer "+t.Token {
			class = 1
			if id.ID == t.ID && sameScopes(id.Scopes, t.Scopes) {
				good = true
			}
		}
	}
	if class == 0 && isBasic && (kind >= tlsBare || y.p.AllowBasicWithoutTLS) {
		for i, b := range y.p.BasicIdentities {
			if b.Username == user && y.pws[i] == pw {
				class = 2
				good = id.ID == b.ID && sameScopes(id.Scopes, b.Scopes)
			}
		}
	}
	if class == 0 && kind == tlsVerified {
		for _, ci := range y.p.CertIdentities {
			if ci.SubjectCN == cn {
				class = 3
				if id.ID == cn && sameScopes(id.Scopes, ci.Scopes) {
					good = true
				}
			}
		}
	}
	if class == 0 && y.hook == 1 {
		class = 4
		good = id.ID == "hook" && sameScopes(id.Scopes, hookScopes)
	}
	if class == 0 && y.p.AllowAnonymous {
		class = 5
		good = id.ID == "anonymous" && sameScopes(id.Scopes, allScopes)
	}
	if class == 0 {
		vx.Assert(err != nil && code(err) == fiber.StatusUnauthorized, "a request without a valid credential is refused with 401")
		vx.Assert(!stored, "no identity is stored for a refused request")
		vx.Reach("refused")
		return
	}
	vx.Assert(err == nil, "a valid credential is accepted")
	vx.Assert(stored && good, "the identity and its scopes are those configured for the credential")
	vx.Reach("accepted" + strconv.Itoa(class))
}

// header draws the Authorization header: absent, a bearer or basic credential, or another scheme.
func header(basic bool, tl int) string {
	switch vx.Choose("header", 4) {
	case 1:
		return "Bearer " + text("sent", tl+1)
	case 2:
		if !basic {
			return "Basic " + base64.StdEncoding.EncodeToString([]byte("u:p"))
		}
		return "Basic " + base64.StdEncoding.EncodeToString([]byte(text("sentuser", tl)+":"+text("sentpw", tl+1)))
	case 3:
		s := word("scheme", 6+vx.Choose("gap", 2))
		vx.Assume(s[:6] != "Basic ")
		return s + word("sent", tl)
	}
	return ""
}

// Resolve decides A01. focus 0 varies the tokens, 1 the users, 2 the certificates; the other classes hold one
// credential each or none.
func Resolve() {
	tl := vx.Param("len", 2)
	focus := vx.Param("focus", 0)
	var n [3]int
	for i := range n {
		n[i] = vx.Choose("configured"+strconv.Itoa(i), 2)
	}
	n[focus] += vx.Choose("more", 2)
	y := newPolicy(n[0], n[1], n[2], tl)
	y.setHook(vx.Choose("hook", 3))
	y.p.AllowAnonymous = vx.Bool("anonymous")
	y.p.AllowBasicWithoutTLS = vx.Bool("plaintext")
	vx.Assert(y.p.Validate() == nil, "a complete configuration validates")
	kind := plain
	if focus == 2 {
		kind = vx.Choose("conn", connKinds)
	} else if vx.Choose("conn", 2) == 1 {
		kind = tlsVerified
	}
	cn := ""
	if kind > tlsBare {
		if focus != 2 {
			cn = word("peer", tl)
		} else if l := vx.Choose("peerlen", tl+2); l > 0 {
			cn = word("peer", l)
		}
	}
	h := ""
	if focus == 2 {
		if vx.Choose("header", 2) == 1 {
			h = "Bearer " + word("sent", tl)
		}
	} else {
		h = header(focus == 1, tl)
	}
	c := newRequest(kind, cn, h)
	err := y.p.Verify(c, "")
	judge(y, c, kind, cn, err)
}

// Header decides A03: arbitrary header text after the scheme, over any connection.
func Header() {
	tl := vx.Param("len", 1)
	y := newPolicy(vx.Choose("tokens", 2), 1, 0, tl)
	y.p.AllowBasicWithoutTLS = vx.Bool("plaintext")
	kind := vx.Choose("conn", 3) // plain, none, TLS
	n := vx.Choose("bytes", vx.Param("bytes", 5)+1)
	raw := vx.StringN("raw", n)
	if n > vx.Param("high", 2) {
		ok := true
		for i := 0; i < n; i++ {
			ok = vx.And(ok, raw[i] < 0x80)
		}
		vx.Assume(ok)
	}
	h := "Basic " + raw
	if vx.Param("free", 0) > 0 {
		h = raw
	}
	c := newRequest(kind, "", h)
	err := y.p.Verify(c, "")
	judge(y, c, kind, "", err)
	if err == nil && len(y.p.Tokens) == 0 {
		vx.Assert(kind == tlsBare || y.p.AllowBasicWithoutTLS, "basic credentials over plaintext are refused unless opted in")
		vx.Reach("basic")
	}
}

// Password decides A03: well-formed basic credentials of any content; the password is everything after the first
// colon.
func Password() {
	tl := vx.Param("len", 2)
	y := newPolicy(0, vx.Choose("users", vx.Param("users", 2))+1, 0, tl)
	y.p.AllowBasicWithoutTLS = vx.Bool("plaintext")
	kind := vx.Choose("conn", connKinds)
	n := vx.Choose("bytes", 2*tl+3)
	cred := vx.StringN("credentials", n)
	h := "Basic " + base64.StdEncoding.EncodeToString([]byte(cred))
	if vx.Bool("spaced") {
		h = "Basic  " + h[6:] + " "
	}
	c := newRequest(kind, "", h)
	err := y.p.Verify(c, "")
	judge(y, c, kind, "", err)
	if err == nil {
		i := strings.IndexByte(cred, ':')
		vx.Assert(i >= 0, "credentials without a colon never authenticate")
		id, _ := resolved(c)
		for j, b := range y.p.BasicIdentities {
			if b.ID == id.ID {
				vx.Assert(cred[:i] == b.Username && cred[i+1:] == y.pws[j], "the user is what precedes the first colon and the password all that follows it")
			}
		}
		vx.Assert(kind >= tlsBare || y.p.AllowBasicWithoutTLS, "basic credentials over plaintext are refused unless opted in")
		vx.Reach("accepted")
	} else {
		vx.Reach("rejected")
	}
}

// someScope is a known scope or arbitrary text.
func someScope(name string, n int) httpauth.Scope {
	k := vx.Choose(name, 4)
	if k < 3 {
		return allScopes[k]
	}
	return httpauth.Scope(text(name+"text", n))
}

// Scopes decides A02: one identity, from any credential class, against any required scope.
func Scopes() {
	tl := vx.Param("len", 2)
	n := vx.Choose("scopes", vx.Param("scopes", 2)+1)
	held := make([]httpauth.Scope, n)
	for i := range held {
		held[i] = someScope("scope"+strconv.Itoa(i), tl)
	}
	var req httpauth.Scope
	if vx.Choose("requires", 2) == 1 {
		req = someScope("required", tl)
	}
	y := &policy{}
	h, kind := "", plain
	class := vx.Choose("class", 5)
	switch class {
	case 0:
		y.p.Tokens = []httpauth.TokenIdentity{{ID: "other", Token: "o", Scopes: allScopes}, {ID: "me", Token: "t", Scopes: held}}
		h = "Bearer t"
	case 1:
		y.p.BasicIdentities = []httpauth.BasicIdentity{{Username: "u", PasswordBcrypt: vx.BcryptHash("p"), ID: "me", Scopes: held}}
		h, kind = "Basic dTpw", tlsBare
	case 2:
		y.p.CertIdentities = []httpauth.CertIdentity{{SubjectCN: "me", Scopes: held}}
		kind = tlsVerified
	case 3:
		y.p.ServerVerify = func(fiber.Ctx) (httpauth.Identity, error) {
			return httpauth.Identity{ID: "me", Scopes: held}, nil
		}
	case 4:
		y.p.AllowAnonymous = true
		held = allScopes
	}
	if class < 4 {
		y.p.AllowAnonymous = vx.Bool("anonymous") // a resolved identity never falls back to anonymous access
	}
	c := newRequest(kind, "me", h)
	c.ended = errors.New("handler")
	has := req == ""
	for _, s := range held {
		has = vx.Or(has, s == req)
	}
	gate := vx.Choose("entry", 2) == 1
	var err error
	if gate {
		err = y.p.Verify(c, req)
	} else {
		err = y.p.Middleware(req)(c)
	}
	if !has {
		vx.Assert(code(err) == fiber.StatusForbidden, "an identity without the scope gets 403")
		vx.Assert(c.next == 0, "the handler does not run")
		vx.Reach("forbidden")
		return
	}
	if gate {
		vx.Assert(err == nil && c.next == 0, "an identity with the scope passes")
	} else {
		vx.Assert(c.next == 1 && err == c.ended, "the handler runs once and its result is returned")
	}
	id, ok := resolved(c)
	vx.Assert(ok && sameScopes(id.Scopes, held), "the handler sees the identity")
	vx.Reach("admitted")
}

// Capabilities decides A02: capabilities mirror scopes one to one.
func Capabilities() {
	tl := vx.Param("len", 2)
	n := vx.Choose("scopes", vx.Param("scopes", 3)+1)
	id := httpauth.Identity{ID: "me"}
	for i := 0; i < n; i++ {
		id.Scopes = append(id.Scopes, someScope("scope"+strconv.Itoa(i), tl))
	}
	caps := id.Capabilities()
	vx.Assert(caps != nil && len(caps) == n, "one capability per scope")
	for i, s := range id.Scopes {
		vx.Assert(caps[i] == "cache."+string(s), "a scope's capability carries its name")
	}
	asked := ""
	scope := httpauth.Scope("")
	switch vx.Choose("asked", 3) {
	case 0:
		scope = someScope("askedscope", tl)
		asked = "cache." + string(scope)
	case 1:
		asked = string(someScope("askedscope", tl))
	case 2:
		asked = text("askedtext", 7)
	}
	want := false
	holds := false
	for _, s := range id.Scopes {
		want = vx.Or(want, "cache."+string(s) == asked)
		holds = vx.Or(holds, s == scope)
	}
	vx.Assert(id.HasCapability(asked) == want, "a capability is held exactly when its scope is")
	vx.Assert(id.HasScope(scope) == holds, "a scope is held exactly when granted")
	vx.Reach("end")
}

func maybe(name string, n int) string {
	if vx.Choose(name+"set", 2) == 0 {
		return ""
	}
	return printable(name, n)
}

// printable is a symbolic string of n printable ASCII bytes (what a YAML or JSON document carries unchanged).
func printable(name string, n int) string {
	s := vx.StringN(name, n)
	ok := true
	for i := 0; i < n; i++ {
		ok = vx.And(ok, vx.And(s[i] >= 0x20, s[i] < 0x7f))
	}
	vx.Assume(ok)
	return s
}

var badHashes = []string{"", "plain", "$2a$04$tooshort", "$3a$04$" + fill53, "$2a$99$" + fill53, "$2a$03$" + fill53, "$2a$xx$" + fill53, "2a$04$$" + fill53}

const fill53 = "abcdefghijklmnopqrstuvABCDEFGHIJKLMNOPQRSTUVWXYZ01234"

func someHash(name string) (h []byte, ok bool) {
	k := vx.Choose(name, len(badHashes)+1)
	if k == len(badHashes) {
		return vx.BcryptHash("p"), true
	}
	if k == 0 && vx.Bool(name+"nil") {
		return nil, false
	}
	return []byte(badHashes[k]), false
}

// Validate decides A04: validation succeeds exactly on complete configurations.
func Validate() {
	tl := vx.Param("len", 1)
	var p httpauth.Policy
	ok, any := true, false
	focus := vx.Choose("class", 3)
	n := vx.Choose("rows", vx.Param("rows", 2)+1)
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		any = true
		switch focus {
		case 0:
			t := httpauth.TokenIdentity{ID: maybe("id"+k, tl), Token: maybe("token"+k, tl), Scopes: scopesOf(i)}
			ok = ok && t.ID != "" && t.Token != ""
			p.Tokens = append(p.Tokens, t)
		case 1:
			h, good := someHash("hash" + k)
			b := httpauth.BasicIdentity{ID: maybe("id"+k, tl), Username: maybe("user"+k, tl), PasswordBcrypt: h, Scopes: scopesOf(i)}
			ok = ok && good && b.ID != "" && b.Username != ""
			p.BasicIdentities = append(p.BasicIdentities, b)
		case 2:
			c := httpauth.CertIdentity{SubjectCN: maybe("cn"+k, tl), Scopes: scopesOf(i)}
			ok = ok && c.SubjectCN != ""
			p.CertIdentities = append(p.CertIdentities, c)
		}
	}
	if vx.Choose("others", 2) == 1 { // the other classes are complete
		any = true
		if focus != 0 {
			p.Tokens = []httpauth.TokenIdentity{{ID: "t", Token: "t"}}
		}
		if focus != 1 {
			p.BasicIdentities = []httpauth.BasicIdentity{{ID: "b", Username: "u", PasswordBcrypt: vx.BcryptHash("p")}}
		}
		if focus != 2 {
			p.CertIdentities = []httpauth.CertIdentity{{SubjectCN: "c"}}
		}
	}
	p.AllowAnonymous = vx.Bool("anonymous")
	p.AllowBasicWithoutTLS = vx.Bool("plaintext")
	if vx.Choose("hook", 2) == 1 {
		any = true
		p.ServerVerify = func(fiber.Ctx) (httpauth.Identity, error) { return httpauth.Identity{}, nil }
	}
	err := p.Validate()
	vx.Assert((err == nil) == ok, "validation succeeds exactly on complete configurations")
	vx.Assert(p.IsConfigured() == any, "a policy counts as configured exactly when it has a credential class")
	if ok {
		vx.Reach("valid")
	} else {
		vx.Reach("invalid")
	}
}

type obj = map[string]any

// scopeList draws a list of scope names and the scopes it denotes.
func scopeList(name string, tl int) (raw any, want []httpauth.Scope, ok bool) {
	n := vx.Choose(name, 4)
	names := []any{}
	ok = n > 0
	switch n {
	case 1:
		s := someScope(name+"0", tl)
		for _, c := range []byte(s) {
			vx.Assume(vx.And(c >= 0x20, c < 0x7f))
		}
		names = append(names, string(s))
		want = append(want, s)
		ok = s == "read" || s == "write" || s == "admin"
	case 2:
		names = append(names, "admin", "read")
		want = append(want, "admin", "read")
	case 3:
		bad := []string{"Read", "cache.read", "*", "read ", ""}[vx.Choose(name+"bad", 5)]
		names = append(names, "write", bad)
		ok = false
	}
	return names, want, ok
}

// Load decides A04: what the environment and the configuration file say is what is enforced, or loading fails.
func Load() {
	tl := vx.Param("len", 1)
	token := ""
	if vx.Choose("legacy", 2) == 1 {
		token = word("legacytoken", tl+1)
	}
	vx.Setenv(httpauth.EnvAuthToken, token)
	mode := vx.Choose("config", 4) // unset, missing file, broken document, document
	ok := true
	doc := obj{}
	var want httpauth.Policy
	switch mode {
	case 0:
		vx.Setenv(httpauth.EnvAuthConfig, "")
	case 1:
		vx.Setenv(httpauth.EnvAuthConfig, "/nonexistent/vx/policy.yaml")
		ok = false
	case 2:
		text := []string{"", "{", `{"tokens":`, `{"token":[]}`, `{"tokens":[{"id":"a","token":"t","scopes":["read"],"scope":["admin"]}]}`,
			`{"tokens":{"id":"a"}}`, `{"tokens":[{"id":"a","token":"t","scopes":"read"}]}`, `{"allow_anonymous":[]}`,
			`{"users":[{"id":"a","username":"u","password":"p","scopes":["read"]}]}`, `{"tokens":[],"tokens":[]}`,
			`{"cert_identities":[{"cn":"a","scopes":["read"]}]}`, `[]`, `{"Tokens":[]}`, `{"allow_basic_without_tsl":true}`}
		vx.Setenv(httpauth.EnvAuthConfig, vx.TempFile([]byte(text[vx.Choose("broken", len(text))])))
		ok = false
	case 3:
		focus := vx.Choose("focus", 3)
		others := vx.Choose("others", 2) == 1
		rows := vx.Choose("rows", vx.Param("rows", 2)) + 1
		lists := []string{"tokens", "users", "cert_identities"}
		for class, list := range lists {
			n := rows
			if class != focus {
				if !others {
					continue
				}
				n = 1
			}
			out := []any{}
			for i := 0; i < n; i++ {
				k := strconv.Itoa(i)
				var raw any = []string{"admin"}
				sc, good := []httpauth.Scope{"admin"}, true
				id, name, secret := "id"+k, "name"+k, "secret"+k
				if class == focus && i == n-1 {
					raw, sc, good = scopeList("scopes", tl)
					id, name, secret = maybe("id", tl), maybe("name", tl), maybe("secret", tl)
				}
				switch class {
				case 0:
					ok = ok && good && id != "" && secret != ""
					want.Tokens = append(want.Tokens, httpauth.TokenIdentity{ID: id, Token: secret, Scopes: sc})
					out = append(out, obj{"id": id, "token": secret, "scopes": raw})
				case 1:
					h, hok := vx.BcryptHash("p"), true
					if class == focus && i == n-1 {
						h, hok = someHash("hash")
					}
					ok = ok && good && hok && id != "" && name != ""
					want.BasicIdentities = append(want.BasicIdentities, httpauth.BasicIdentity{Username: name, PasswordBcrypt: h, ID: id, Scopes: sc})
					out = append(out, obj{"id": id, "username": name, "password_bcrypt": string(h), "scopes": raw})
				case 2:
					ok = ok && good && name != ""
					want.CertIdentities = append(want.CertIdentities, httpauth.CertIdentity{SubjectCN: name, Scopes: sc})
					out = append(out, obj{"subject_cn": name, "scopes": raw})
				}
			}
			doc[list] = out
		}
		if vx.Choose("flags", 2) == 1 {
			want.AllowAnonymous = vx.Bool("anonymous")
			want.AllowBasicWithoutTLS = vx.Bool("plaintext")
			doc["allow_anonymous"] = want.AllowAnonymous
			doc["allow_basic_without_tls"] = want.AllowBasicWithoutTLS
		}
		b, err := json.Marshal(doc)
		vx.Assert(err == nil, "document")
		vx.Setenv(httpauth.EnvAuthConfig, vx.TempFile(b))
	}
	if mode == 0 && token != "" {
		want.Tokens = []httpauth.TokenIdentity{{ID: "default", Token: token, Scopes: allScopes}}
	}
	got, err := httpauth.LoadFromEnv()
	if !ok {
		vx.Assert(err != nil, "a broken or incomplete configuration fails to load")
		vx.Assert(errors.Is(err, httpauth.ErrInvalidPolicy), "a load failure is reported as an invalid policy")
		vx.Assert(!got.AllowAnonymous && !got.IsConfigured(), "a failed load yields no policy")
		vx.Reach("refused" + strconv.Itoa(mode))
		return
	}
	vx.Assert(err == nil, "a complete configuration loads")
	vx.Assert(len(got.Tokens) == len(want.Tokens) && len(got.BasicIdentities) == len(want.BasicIdentities) && len(got.CertIdentities) == len(want.CertIdentities), "no identity is added or lost")
	for i, t := range want.Tokens {
		g := got.Tokens[i]
		vx.Assert(vx.And(g.ID == t.ID, g.Token == t.Token) && sameScopes(g.Scopes, t.Scopes), "tokens are loaded as configured")
	}
	for i, b := range want.BasicIdentities {
		g := got.BasicIdentities[i]
		vx.Assert(vx.And(g.ID == b.ID, vx.And(g.Username == b.Username, string(g.PasswordBcrypt) == string(b.PasswordBcrypt))) && sameScopes(g.Scopes, b.Scopes), "users are loaded as configured")
	}
	for i, c := range want.CertIdentities {
		g := got.CertIdentities[i]
		vx.Assert(g.SubjectCN == c.SubjectCN && sameScopes(g.Scopes, c.Scopes), "certificate identities are loaded as configured")
	}
	vx.Assert(got.AllowAnonymous == want.AllowAnonymous && got.AllowBasicWithoutTLS == want.AllowBasicWithoutTLS, "flags are loaded as configured")
	vx.Assert(got.ServerVerify == nil, "no hook appears")
	vx.Reach("loaded" + strconv.Itoa(mode))
}

// Concurrent decides A01: requests verified at the same time do not influence one another.
func Concurrent() {
	y := &policy{pws: []string{"p"}}
	y.p.Tokens = []httpauth.TokenIdentity{{ID: "t0", Token: "a", Scopes: scopesOf(0)}, {ID: "t1", Token: "b", Scopes: scopesOf(1)}}
	y.p.BasicIdentities = []httpauth.BasicIdentity{{Username: "u", PasswordBcrypt: vx.BcryptHash("p"), ID: "b0", Scopes: scopesOf(2)}}
	y.p.CertIdentities = []httpauth.CertIdentity{{SubjectCN: "c", Scopes: scopesOf(1)}}
	heads := []string{"Bearer a", "Bearer b", "Basic dTpw", "Basic dTpx", ""}
	n := 2
	cs := make([]*reqCtx, n)
	errs := make([]error, n)
	kinds := make([]int, n)
	cns := make([]string, n)
	for i := range cs {
		k := strconv.Itoa(i)
		kinds[i] = tlsBare
		h := heads[vx.Choose("header"+k, len(heads))]
		if h == "" {
			kinds[i], cns[i] = tlsVerified, []string{"c", "d"}[vx.Choose("peer"+k, 2)]
		}
		cs[i] = newRequest(kinds[i], cns[i], h)
	}
	mw := y.p.Middleware("")
	done := make(chan int, n)
	for i := range cs {
		go func() {
			errs[i] = mw(cs[i])
			done <- i
		}()
	}
	for range cs {
		<-done
	}
	for i := range cs {
		judge(y, cs[i], kinds[i], cns[i], errs[i])
	}
	vx.Reach("end")
}
