package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/crypto/bcrypt"

	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
)

var (
	secrets = map[string]string{
		"tok": "Shared-Tok3n", "rd": "readTokenA", "wr": "writeTokenB", "rw": "rwTokenC", "ad": "adminTokenD", "full": "fullTokenE",
		"wrong": "readTokenAx",
	}
	userHash string
	files    atomic.Int64
)

type authSys struct {
	su   vlib.Step
	p    *proc
	base string
	put  int
}

func buildAuth(init vlib.Step) vlib.System { return &authSys{su: init.Rec("su")} }

func (s *authSys) Close() {
	if s.p != nil {
		s.p.kill()
	}
}

func policyFile(su vlib.Step) string {
	t := fmt.Sprintf("allow_anonymous: %v\nallow_basic_without_tls: %v\n", su.Bool("anon"), su.Bool("plainbasic"))
	src := su.Str("src")

	if src == "broken" {
		t += "tokenz: []\n"
	}

	if src == "empty" {
		t += "tokens: []\n"
	} else {
		t += "tokens:\n"

		for _, x := range [][2]string{{"rd", "[read]"}, {"wr", "[write]"}, {"rw", "[read, write]"}, {"ad", "[admin]"}, {"full", "[read, write, admin]"}} {
			t += fmt.Sprintf("  - id: %s\n    token: %q\n    scopes: %s\n", x[0], secrets[x[0]], x[1])
		}

		t += fmt.Sprintf("users:\n  - id: user\n    username: user\n    password_bcrypt: %q\n    scopes: [read, write]\n", userHash)
		t += "cert_identities:\n  - subject_cn: svc-r\n    scopes: [read]\n  - subject_cn: svc-w\n    scopes: [write]\n"
	}

	return file(fmt.Sprintf("policy%d.yaml", files.Add(1)), t)
}

func (s *authSys) start() vlib.Obs {
	env := map[string]string{"HYPERCACHE_LOG_LEVEL": "error", "HYPERCACHE_REPLICATION": "1"}

	switch s.su.Str("src") {
	case "token":
		env["HYPERCACHE_AUTH_TOKEN"] = secrets["tok"]
	case "both":
		env["HYPERCACHE_AUTH_TOKEN"] = secrets["tok"]
		env["HYPERCACHE_AUTH_CONFIG"] = policyFile(s.su)
	case "file", "empty", "broken":
		env["HYPERCACHE_AUTH_CONFIG"] = policyFile(s.su)
	case "missing":
		env["HYPERCACHE_AUTH_CONFIG"] = scratch + "/absent.yaml"
	}

	switch s.su.Str("oidc") {
	case "std":
		env["HYPERCACHE_OIDC_ISSUER"], env["HYPERCACHE_OIDC_AUDIENCE"] = issuer, "hc"
	case "custom":
		env["HYPERCACHE_OIDC_ISSUER"], env["HYPERCACHE_OIDC_AUDIENCE"] = issuer, "hc"
		env["HYPERCACHE_OIDC_IDENTITY_CLAIM"], env["HYPERCACHE_OIDC_SCOPE_CLAIM"] = "email", "roles"
	case "noaud":
		env["HYPERCACHE_OIDC_ISSUER"] = issuer
	case "noiss":
		env["HYPERCACHE_OIDC_AUDIENCE"] = "hc"
	case "dead":
		env["HYPERCACHE_OIDC_ISSUER"], env["HYPERCACHE_OIDC_AUDIENCE"] = "http://"+address(), "hc"
	}

	scheme := "https://"

	switch s.su.Str("tls") {
	case "plain":
		scheme = "http://"
	case "tls":
		env["HYPERCACHE_API_TLS_CERT"], env["HYPERCACHE_API_TLS_KEY"] = certFile, keyFile
	case "mtls":
		env["HYPERCACHE_API_TLS_CERT"], env["HYPERCACHE_API_TLS_KEY"], env["HYPERCACHE_API_TLS_CLIENT_CA"] = certFile, keyFile, caFile
	case "nokey":
		env["HYPERCACHE_API_TLS_CERT"] = certFile
	case "nocert":
		env["HYPERCACHE_API_TLS_KEY"] = keyFile
	case "badca":
		env["HYPERCACHE_API_TLS_CERT"], env["HYPERCACHE_API_TLS_KEY"], env["HYPERCACHE_API_TLS_CLIENT_CA"] = certFile, keyFile, notCA
	}

	addr := [3]string{address(), address(), address()}
	s.base = scheme + addr[0]

	p, up := start("n1", env, addr, func(p *proc) bool {
		// either spelling: a listener that should not be there is noticed too
		return (answers("https://"+p.api+"/healthz") || answers("http://"+p.api+"/healthz")) && answers("http://"+p.mgmt+"/health")
	})
	s.p = p

	if up {
		if code, _ := s.dist(http.MethodPost, "/internal/set", `{"key":"a","value":"x","version":1,"origin":"n1"}`); code != http.StatusOK {
			vlib.Fatal(fmt.Errorf("seeding: %d", code))
		}
	}

	return vlib.Obs{"started": up}
}

func answers(url string) bool {
	c := clients["unknown"]
	if c == nil {
		c = client
	}

	resp, err := c.Get(url)
	if err != nil {
		return false
	}

	_ = resp.Body.Close()

	return resp.StatusCode == http.StatusOK
}

// dist calls the peer port as a peer would.
func (s *authSys) dist(method, path, body string) (int, []byte) {
	r := must(http.NewRequestWithContext(context.Background(), method, "http://"+s.p.dist+path, strings.NewReader(body)))
	r.Header.Set("Content-Type", "application/json")

	if x := s.su.Str("src"); x == "token" || x == "both" {
		r.Header.Set("Authorization", "Bearer "+secrets["tok"])
	}

	resp, err := clients["none"].Do(r)
	if err != nil {
		return 0, nil
	}

	b, _ := io.ReadAll(resp.Body)
	_ = resp.Body.Close()

	return resp.StatusCode, b
}

func (s *authSys) held() []any {
	out := []any{}

	for _, k := range []string{"a", "b"} {
		code, b := s.dist(http.MethodGet, "/internal/get?key="+k, "")

		var m struct {
			Found bool `json:"found"`
		}

		if (code != http.StatusOK && code != http.StatusNotFound) || json.Unmarshal(b, &m) != nil {
			return []any{fmt.Sprintf("no answer from the peer port: %d alive %v", code, s.p.alive())}
		}

		if m.Found {
			out = append(out, k)
		}
	}

	return out
}

func credential(r *http.Request, c string) {
	switch c {
	case "none":
	case "lower":
		r.Header.Set("Authorization", "bearer "+secrets["rd"])
	case "user":
		r.SetBasicAuth("user", "pa ss:1")
	case "userbad":
		r.SetBasicAuth("user", "pa ss:2")
	case "jlower":
		r.Header.Set("Authorization", "bearer "+jwts["jwt"])
	default:
		t, ok := secrets[c]
		if !ok {
			t, ok = jwts[c]
		}

		if !ok {
			vlib.Fatal(errors.New("unknown credential " + c))
		}

		r.Header.Set("Authorization", "Bearer "+t)
	}
}

type route struct{ method, path, body, accept string }

func (s *authSys) route(r, k string) (route, bool) {
	s.put++
	m := map[string]route{
		"healthz": {http.MethodGet, "/healthz", "", ""}, "openapi": {http.MethodGet, "/v1/openapi.yaml", "", ""},
		"keys": {http.MethodGet, "/v1/cache/keys", "", ""}, "get": {http.MethodGet, "/v1/cache/" + k, "", ""},
		"item": {http.MethodGet, "/v1/cache/" + k, "", "application/json"}, "head": {http.MethodHead, "/v1/cache/" + k, "", ""},
		"owners": {http.MethodGet, "/v1/owners/" + k, "", ""}, "me": {http.MethodGet, "/v1/me", "", ""},
		"can":   {http.MethodGet, "/v1/me/can?capability=cache.", "", ""},
		"bget":  {http.MethodPost, "/v1/cache/batch/get", `{"keys":["` + k + `"]}`, ""},
		"hkeys": {http.MethodHead, "/v1/cache/keys", "", ""}, "hme": {http.MethodHead, "/v1/me", "", ""},
		"put": {http.MethodPut, "/v1/cache/" + k, "v", ""}, "del": {http.MethodDelete, "/v1/cache/" + k, "", ""},
		"bput": {http.MethodPost, "/v1/cache/batch/put", `{"items":[{"key":"` + k + `","value":"v"}]}`, ""},
		"bdel": {http.MethodPost, "/v1/cache/batch/delete", `{"keys":["` + k + `"]}`, ""},
	}

	if x, ok := m[r]; ok {
		return x, false
	}

	g := map[string]route{
		"mhealth": {http.MethodGet, "/health", "", ""}, "mstats": {http.MethodGet, "/stats", "", ""}, "mconfig": {http.MethodGet, "/config", "", ""},
		"mdist": {http.MethodGet, "/dist/metrics", "", ""}, "mowners": {http.MethodGet, "/dist/owners?key=" + k, "", ""},
		"mmembers": {http.MethodGet, "/cluster/members", "", ""}, "mring": {http.MethodGet, "/cluster/ring", "", ""},
		"mbeat": {http.MethodGet, "/cluster/heartbeat", "", ""}, "mevents": {http.MethodGet, "/cluster/events", "", ""},
		"mhead":  {http.MethodHead, "/stats", "", ""},
		"mevict": {http.MethodPost, "/evict", "", ""}, "mexpire": {http.MethodPost, "/trigger-expiration", "", ""}, "mclear": {http.MethodPost, "/clear", "", ""},
	}

	x, ok := g[r]
	if !ok {
		vlib.Fatal(errors.New("unknown route " + r))
	}

	return x, true
}

func spell(path, form string) string {
	p, q, _ := strings.Cut(path, "?")

	switch form {
	case "slash":
		p += "/"
	case "upper":
		p = strings.ToUpper(p)
	case "dslash":
		p = "/" + p
	}

	if q != "" {
		p += "?" + q
	}

	return p
}

func (s *authSys) send(x route, mgmt bool, cred, cert string) (int, []byte, error) {
	base := s.base
	if mgmt {
		base, cert = "http://"+s.p.mgmt, "none"
	}

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	r := must(http.NewRequestWithContext(ctx, x.method, base+x.path, bytes.NewReader([]byte(x.body))))
	r.Header.Set("Content-Type", "application/json")

	if x.accept != "" {
		r.Header.Set("Accept", x.accept)
	}

	credential(r, cred)

	resp, err := clients[cert].Do(r)
	if err != nil {
		return 0, nil, err
	}

	defer func() { _ = resp.Body.Close() }()

	if strings.HasPrefix(x.path, "/cluster/events") && resp.StatusCode == http.StatusOK {
		return resp.StatusCode, nil, nil // an endless stream
	}

	b, _ := io.ReadAll(resp.Body)

	return resp.StatusCode, b, nil
}

func status(code int, err error) string {
	switch {
	case err != nil:
		return "unreachable"
	case code == http.StatusUnauthorized:
		return "401"
	case code == http.StatusForbidden:
		return "403"
	case code < 400 || code == http.StatusNotFound || code == http.StatusMethodNotAllowed:
		return "in"
	}

	return fmt.Sprint(code)
}

func (s *authSys) request(st vlib.Step) vlib.Obs {
	x, mgmt := s.route(st.Str("r"), st.Str("k"))
	cred, cert := st.Str("c"), st.Str("ct")

	if f := st.Str("form"); f != "" {
		x.path = spell(x.path, f)
		code, _, _ := s.send(x, mgmt, cred, cert)

		return vlib.Obs{"leak": code >= 200 && code < 300, "held_s": s.held()}
	}

	o := vlib.Obs{}

	if st.Str("r") == "can" {
		allowed, path := []any{}, x.path

		for _, c := range []string{"read", "write", "admin"} {
			x.path = path + c
			code, b, err := s.send(x, mgmt, cred, cert)
			o["status"] = status(code, err)

			var m struct {
				Allowed bool `json:"allowed"`
			}

			if json.Unmarshal(b, &m) == nil && m.Allowed {
				allowed = append(allowed, "cache."+c)
			}
		}

		o["allowed_s"] = allowed
	} else {
		code, b, err := s.send(x, mgmt, cred, cert)
		o["status"] = status(code, err)

		if st.Str("r") == "me" && err == nil {
			var m struct {
				ID     string   `json:"id"`
				Scopes []string `json:"scopes"`
				Caps   []string `json:"capabilities"`
			}

			_ = json.Unmarshal(b, &m)
			o["id"], o["scopes_s"], o["caps_s"] = m.ID, m.Scopes, m.Caps
		}
	}

	o["held_s"] = s.held()

	return o
}

// Do runs one step.
func (s *authSys) Do(st vlib.Step) vlib.Obs {
	if st.Op() == "start" {
		return s.start()
	}

	return s.request(st)
}

func authSetup() {
	userHash = string(must(bcrypt.GenerateFromPassword([]byte("pa ss:1"), bcrypt.MinCost)))

	identityProvider()
	certificates()
}

var _ = time.Second
