// Command client drives pkg/client against a simulated network (an
// http.RoundTripper): the specification's answers come back, and every
// request the client sends is decoded and recorded.
package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"log/slog"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/oauth2/clientcredentials"

	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
	"github.com/hyp3rd/hypercache/pkg/client"
)

var keyForms = map[string]string{
	"plain": "user-1", "slash": "a/b//c", "space": "a b", "percent": "50%25%zz", "query": "a?b=c&d#e", "plus": "a+b", "uni": "clé-ключ-🔑",
	"batch": "batch/put", "ctl": "x\ty\n", "dots": "..a/../b", "quote": `"'\<>`, "long": strings.Repeat("k", 3000), "semi": "a;b,c@d:e=f", "trail": "t/",
}

var valForms = map[string]string{
	"empty": "", "text": "hello world", "bin": "\x00\xff\xfe\r\n\x80", "b64ish": "aGVsbG8=", "json": `{"a":"b"}`,
	"big": strings.Repeat("0123456789abcdef", 8192), "uni": "日本語 ✓",
}

var ttlForms = map[string]time.Duration{
	"none": 0, "neg": -time.Second, "sub": 300 * time.Microsecond, "ms1": time.Millisecond, "frac": 7500 * time.Microsecond,
	"odd": 90*time.Minute + 250*time.Millisecond, "year": 400 * 24 * time.Hour,
}

func form(m map[string]string, s string) string {
	for k, v := range m {
		if v == s {
			return k
		}
	}

	return "?" + s[:min(len(s), 40)]
}

func ttlForm(d time.Duration, ms bool) string {
	for k, v := range ttlForms {
		if v <= 0 {
			continue
		}

		if !ms && v == d {
			return k
		}

		if ms && k != "sub" && (d == v.Truncate(time.Millisecond) || d == v.Truncate(time.Millisecond)+time.Millisecond && v%time.Millisecond != 0) && d > 0 {
			return k
		}
	}

	return "?" + d.String()
}

type netErr struct{ ep string }

func (e *netErr) Error() string { return "simulated network failure at " + e.ep }

// world is the network one client talks to.
type world struct {
	mu   sync.Mutex
	cmd  string
	keys []any
	ans  vlib.Step
	att  []any
	idp  []string
	tok  int
}

type rt struct {
	name    string
	timeout time.Duration
	w       *world // nil: the default transport, routed by host suffix
}

var worlds sync.Map // id -> *world

func (t *rt) RoundTrip(req *http.Request) (*http.Response, error) {
	host := req.URL.Host // <ep>.<world id>:80
	name, id, _ := strings.Cut(strings.Split(host, ":")[0], ".")
	wv, ok := worlds.Load(id)
	if !ok {
		return nil, fmt.Errorf("verif-driver: no world for %q", host)
	}

	w := wv.(*world)
	via := t.name

	if dl, ok := req.Context().Deadline(); ok {
		left := time.Until(dl)
		if t.name == "default" && left > 2*time.Hour+50*time.Minute && left < 3*time.Hour {
			via = "http3"
		} else if t.timeout > 0 && (left > t.timeout || left < t.timeout-5*time.Minute) {
			via += "?timeout"
		}
	} else if t.timeout > 0 {
		via += "?notimeout"
	}

	if name == "idp" {
		return w.token(req, via)
	}

	return w.serve(req, name, via)
}

func reply(req *http.Request, st int, ct, body string) *http.Response {
	return &http.Response{
		Status: fmt.Sprintf("%d %s", st, http.StatusText(st)), StatusCode: st, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": []string{ct}}, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: req,
	}
}

func (w *world) token(req *http.Request, via string) (*http.Response, error) {
	body, _ := io.ReadAll(req.Body)
	q, _ := url.ParseQuery(string(body))
	u, p, _ := req.BasicAuth()

	w.mu.Lock()
	defer w.mu.Unlock()

	w.idp = append(w.idp, via)
	if q.Get("grant_type") != "client_credentials" || !(u == "cid" && p == "csecret" || q.Get("client_id") == "cid" && q.Get("client_secret") == "csecret") {
		w.idp = append(w.idp, "bad token request")
	}

	w.tok++

	return reply(req, 200, "application/json", fmt.Sprintf(`{"access_token":"oidc-token-%d","token_type":"Bearer","expires_in":3600}`, w.tok)), nil
}

func (w *world) authOf(h []string) string {
	if len(h) == 0 {
		return "none"
	}

	if len(h) > 1 {
		return "many"
	}

	switch h[0] {
	case "Bearer token-one":
		return "bearer1"
	case "Bearer token-two":
		return "bearer2"
	case "Basic " + base64.StdEncoding.EncodeToString([]byte("us er:p:w é")):
		return "basic1"
	case fmt.Sprintf("Bearer oidc-token-%d", w.tok):
		return "oidc1"
	}

	return "?" + h[0]
}

func (w *world) serve(req *http.Request, ep, via string) (*http.Response, error) {
	w.mu.Lock()
	defer w.mu.Unlock()

	var a vlib.Step
	if w.ans != nil {
		a = w.ans.Rec(ep)
	}

	kind := a.Str("k")
	rec := map[string]any{"ep": ep, "via": via, "auth": w.authOf(req.Header["Authorization"]), "keys": []string{}, "vals": []string{}, "ttls": []string{}, "route": "?"}

	for _, v := range w.idp {
		if v != via {
			rec["auth"] = "token fetched via " + v
		}
	}

	var body []byte

	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		_ = req.Body.Close()
	}

	decode(req, body, rec, w.keys)

	w.att = append(w.att, rec)

	switch kind {
	case "refused", "midbody", "":
		return nil, &netErr{ep}
	case "garbage":
		return reply(req, 200, "text/html", "<html>{not json"), nil
	case "err":
		st := a.Int("st")
		ct, b := errBody(a.Str("body"), st)

		return reply(req, st, ct, b), nil
	}

	if a.Int("st") == 204 {
		return reply(req, 204, "", ""), nil
	}

	ct, b := w.okBody(a.List("items"))

	return reply(req, 200, ct, b), nil
}

var codes = map[int]string{404: "NOT_FOUND", 401: "UNAUTHORIZED", 403: "FORBIDDEN", 503: "DRAINING", 400: "BAD_REQUEST", 500: "INTERNAL"}

func codeOf(st int) string {
	if c := codes[st]; c != "" {
		return c
	}

	return "WEIRD_CODE"
}

func errBody(f string, st int) (string, string) {
	switch f {
	case "canon":
		return "application/json", `{"code":"` + codeOf(st) + `","error":"what went wrong"}`
	case "details":
		return "application/json", `{"details":"more <words>","error":"what went wrong","code":"` + codeOf(st) + `"}`
	case "empty":
		return "text/plain", ""
	case "text":
		return "text/html", "<h1>Bad gateway</h1>"
	case "long":
		return "text/html", strings.Repeat("0123456789", 200)
	case "exact256":
		return "text/html", strings.Repeat("01234567", 32)
	case "nocode":
		return "application/json", `{"error":"no code here"}`
	}

	panic("verif-driver: body " + f)
}

func decode(req *http.Request, body []byte, rec map[string]any, want []any) {
	parts := strings.Split(req.URL.EscapedPath(), "/")
	set := func(route string, keys, vals, ttls []string) {
		rec["route"], rec["keys"], rec["vals"], rec["ttls"] = route, keys, vals, ttls
	}
	key := func() []string {
		k, err := url.PathUnescape(parts[3])
		if err != nil {
			return []string{"?undecodable"}
		}

		return []string{form(keyForms, k)}
	}

	switch {
	case req.URL.Path == "/cluster/members" && req.Method == http.MethodGet:
		rec["route"] = "members"
	case req.URL.Path == "/v1/me" && req.Method == http.MethodGet:
		ks := []string{}
		for _, k := range want {
			ks = append(ks, fmt.Sprint(k))
		}
		set("identity", ks, nil, nil)
	case req.URL.Path == "/v1/me/can" && req.Method == http.MethodGet:
		set("can", []string{form(keyForms, req.URL.Query().Get("capability"))}, nil, nil)
	case len(parts) == 5 && parts[3] == "batch" && req.Method == http.MethodPost:
		batch(parts[4], body, rec, set)
	case len(parts) == 4 && parts[2] == "cache":
		q := req.URL.Query()

		switch req.Method {
		case http.MethodPut:
			t := "none"
			if len(q) > 0 {
				d, err := time.ParseDuration(q.Get("ttl"))
				if err != nil || len(q) != 1 {
					t = "?" + req.URL.RawQuery
				} else {
					t = ttlForm(d, false)
				}
			}

			set("set", key(), []string{form(valForms, string(body))}, []string{t})
		case http.MethodGet:
			r := "get"
			if strings.Contains(req.Header.Get("Accept"), "json") {
				r = "getitem"
			}

			set(r, key(), nil, nil)
		case http.MethodDelete:
			set("delete", key(), nil, nil)
		}

		if req.Method != http.MethodPut && (len(q) > 0 || len(body) > 0) {
			rec["route"] = "?extra " + req.URL.RawQuery
		}
	default:
		rec["route"] = "?" + req.Method + " " + req.URL.EscapedPath()
	}
}

func batch(which string, body []byte, rec map[string]any, set func(string, []string, []string, []string)) {
	var in struct {
		Keys  []string
		Items []struct {
			Key, Value    string
			ValueEncoding string `json:"value_encoding"`
			TTL           int64  `json:"ttl_ms"`
		}
	}

	if err := json.Unmarshal(body, &in); err != nil {
		rec["route"] = "?incomplete body: " + err.Error()

		return
	}

	var ks, vs, ts []string

	for _, k := range in.Keys {
		ks = append(ks, form(keyForms, k))
	}

	for _, it := range in.Items {
		ks = append(ks, form(keyForms, it.Key))
		v := it.Value

		if it.ValueEncoding == "base64" {
			b, err := base64.StdEncoding.DecodeString(it.Value)
			if err != nil {
				b = []byte("?undecodable")
			}

			v = string(b)
		}

		vs = append(vs, form(valForms, v))

		if it.TTL == 0 {
			ts = append(ts, "none")
		} else {
			ts = append(ts, ttlForm(time.Duration(it.TTL)*time.Millisecond, true))
		}
	}

	set(map[string]string{"put": "batchset", "get": "batchget", "delete": "batchdelete"}[which], ks, vs, ts)
}

// meta is the metadata numbered n.
type meta struct {
	ver         uint64
	ttl         int64
	exp, upd    string
	origin      string
	owners      []string
	bytes       int
	id          string
	scopes, cap []string
}

func metaOf(n int) meta {
	m := meta{ver: uint64(n), origin: fmt.Sprintf("node-%d", n), upd: fmt.Sprintf("2024-01-0%dT00:00:00Z", n+1), id: fmt.Sprintf("svc-%d", n), bytes: n * 1000}
	if n == 5 {
		m.ver = 18446744073709551615
	}

	if n%2 == 1 {
		m.ttl, m.exp = int64(n)*86400000000, fmt.Sprintf("2099-01-0%dT00:00:00.5Z", n)
	}

	all := []string{"write", "read", "admin"}
	for k := range []int{0, 1, 2, 3, 2, 1}[n] {
		m.owners = append(m.owners, fmt.Sprintf("owner-%d-%d", n, k))
		m.scopes = append(m.scopes, all[k])
		m.cap = append(m.cap, "cache."+all[k])
	}

	return m
}

func envelope(it vlib.Step, node bool) map[string]any {
	m := metaOf(it.Int("n"))
	o := map[string]any{
		"key": keyForms[it.Str("key")], "value": base64.StdEncoding.EncodeToString([]byte(valForms[it.Str("v")])), "value_encoding": "base64",
		"version": m.ver, "origin": m.origin, "last_updated": m.upd, "owners": m.owners,
	}
	if m.ttl > 0 {
		o["ttl_ms"], o["expires_at"] = m.ttl, m.exp
	}

	if node {
		o["node"] = "served-by"
	}

	return o
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic("verif-driver: " + err.Error())
	}

	return string(b)
}

func (w *world) okBody(items []any) (string, string) {
	first := vlib.Step{}
	if len(items) > 0 {
		first = vlib.Step(items[0].(map[string]any))
	}

	const j = "application/json"

	switch w.cmd {
	case "set":
		return j, `{"key":"k","stored":true}`
	case "delete":
		return j, `{"deleted":true}`
	case "get":
		return "application/octet-stream", valForms[first.Str("v")]
	case "getitem":
		return j, js(envelope(first, true))
	case "identity":
		m := metaOf(first.Int("n"))

		return j, js(map[string]any{"id": m.id, "scopes": m.scopes, "capabilities": m.cap})
	case "can":
		return j, js(map[string]any{"capability": keyForms[first.Str("key")], "allowed": first.Bool("f")})
	case "refresh", "wait":
		ms := []any{}
		for _, x := range items {
			m := vlib.Step(x.(map[string]any))
			ms = append(ms, map[string]any{"id": "id-" + m.Str("ep"), "state": m.Str("state"), "incarnation": 3, "address": w.addr(m)})
		}

		return j, js(map[string]any{"members": ms, "replication": 2})
	}

	res := []any{}

	for _, x := range items {
		it := vlib.Step(x.(map[string]any))
		m := metaOf(it.Int("n"))
		o := map[string]any{"key": keyForms[it.Str("key")]}

		if w.cmd == "batchget" {
			o["found"] = it.Bool("f")
			if it.Bool("f") {
				o = envelope(it, false)
				o["found"] = true
			}
		} else {
			o[map[string]string{"batchset": "stored", "batchdelete": "deleted"}[w.cmd]] = it.Bool("f")
			o["owners"], o["bytes"] = m.owners, m.bytes

			if c := it.Str("code"); c != "" {
				o["code"], o["error"] = c, "item went wrong: "+c
			}
		}

		res = append(res, o)
	}

	return j, js(map[string]any{"results": res, "node": "served-by"})
}

func (w *world) addr(m vlib.Step) string {
	h := m.Str("ep") + "." + w.id() + ":80"

	switch m.Str("form") {
	case "padded":
		return "  " + h + " "
	case "full":
		return "https://" + h
	case "fullslash":
		return "https://" + h + "/"
	case "blank":
		return "   "[:len(m.Str("ep"))%3]
	}

	return h
}

func (w *world) id() string { return fmt.Sprintf("w%p", w) }

type sys struct {
	w      *world
	c      *client.Client
	scheme string
	seeds  []string
	n      int
}

var sentinels = map[string]error{
	"notfound": client.ErrNotFound, "unauthorized": client.ErrUnauthorized, "forbidden": client.ErrForbidden, "draining": client.ErrDraining,
	"badrequest": client.ErrBadRequest, "internal": client.ErrInternal,
}

func matched(err error) []string {
	out := []string{}
	for k, s := range sentinels {
		if errors.Is(err, s) {
			out = append(out, k)
		}
	}

	sort.Strings(out)

	return out
}

func newSys(init vlib.Step) vlib.System {
	s := &sys{w: &world{}, scheme: init.Str("scheme")}
	worlds.Store(s.w.id(), s.w)

	for _, e := range init.Strs("seeds") {
		s.seeds = append(s.seeds, s.scheme+"://"+e+"."+s.w.id()+":80")
	}

	s.open(nil)

	return s
}

func (s *sys) open(opts []string) error {
	seeds := append([]string{}, s.seeds...)
	for k := range seeds { // harmless spellings of the same seeds
		seeds[k] = []string{seeds[k], seeds[k] + "/", " " + seeds[k] + "  ", seeds[k] + "//"}[(s.n+k)%4]
	}
	s.n++

	var os []client.Option

	for _, o := range opts {
		switch o {
		case "noseeds":
			seeds = nil
		case "blankseeds":
			seeds = []string{"", "  ", "/"}
		case "bearer1":
			os = append(os, client.WithBearerAuth("token-one"))
		case "bearer2":
			os = append(os, client.WithBearerAuth("token-two"))
		case "basic1":
			os = append(os, client.WithBasicAuth("us er", "p:w é"))
		case "emptybearer":
			os = append(os, client.WithBearerAuth(""))
		case "emptyuser":
			os = append(os, client.WithBasicAuth("", "x"))
		case "emptypw":
			os = append(os, client.WithBasicAuth("x", ""))
		case "oidc1", "nooidcid", "nooidcsecret", "nooidcurl":
			cfg := clientcredentials.Config{ClientID: "cid", ClientSecret: "csecret", TokenURL: "http://idp." + s.w.id() + ":80/token"}
			if o == "nooidcid" {
				cfg.ClientID = ""
			}
			if o == "nooidcsecret" {
				cfg.ClientSecret = ""
			}
			if o == "nooidcurl" {
				cfg.TokenURL = ""
			}
			os = append(os, client.WithOIDCClientCredentials(cfg))
		case "http1":
			os = append(os, client.WithHTTPClient(&http.Client{Transport: &rt{name: o, timeout: time.Hour}, Timeout: time.Hour}))
		case "http2":
			os = append(os, client.WithHTTPClient(&http.Client{Transport: &rt{name: o, timeout: 2 * time.Hour}, Timeout: 2 * time.Hour}))
		case "http3":
			os = append(os, client.WithHTTPClient(&http.Client{Timeout: 3 * time.Hour}))
		case "nilhttp":
			os = append(os, client.WithHTTPClient(nil))
		case "fast":
			os = append(os, client.WithTopologyRefresh(999*time.Millisecond))
		case "tick":
			os = append(os, client.WithTopologyRefresh(time.Second))
		case "slow":
			os = append(os, client.WithTopologyRefresh(time.Hour))
		case "norefresh":
			os = append(os, client.WithTopologyRefresh(0))
		case "negrefresh":
			os = append(os, client.WithTopologyRefresh(-time.Second))
		case "logger":
			os = append(os, client.WithLogger(slog.New(slog.DiscardHandler)))
		case "nillogger":
			os = append(os, client.WithLogger(nil))
		default:
			panic("verif-driver: option " + o)
		}
	}

	c, err := client.New(seeds, os...)
	if err != nil {
		return err
	}

	if s.c != nil {
		_ = s.c.Close()
	}

	s.w.mu.Lock()
	s.w.idp = nil
	s.w.mu.Unlock()
	s.c = c

	return nil
}

func (s *sys) begin(cmd string, keys []any, ans vlib.Step) {
	s.w.mu.Lock()
	s.w.cmd, s.w.keys, s.w.ans, s.w.att = cmd, keys, ans, nil
	s.w.mu.Unlock()
}

func (s *sys) attempts() []any {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()

	return append([]any{}, s.w.att...)
}

func (s *sys) view() []string {
	out := []string{}
	for _, e := range s.c.Endpoints() {
		out = append(out, strings.ReplaceAll(e, "."+s.w.id()+":80", ""))
	}

	return out
}

func (s *sys) Do(st vlib.Step) vlib.Obs {
	switch st.Op() {
	case "new":
		err := s.open(st.Strs("opts"))

		return vlib.Obs{"err": err != nil}
	case "call":
		s.begin(st.Str("cmd"), st.List("keys"), st.Rec("ans"))
		res := s.call(st)

		return vlib.Obs{"att": s.attempts(), "res": res}
	case "emptybatch":
		s.begin(st.Str("cmd"), nil, nil)

		var (
			n   int
			err error
		)

		switch st.Str("cmd") {
		case "batchset":
			var r []client.BatchPutResult
			r, err = s.c.BatchSet(context.Background(), nil)
			n = len(r)
		case "batchget":
			var r []client.BatchGetResult
			r, err = s.c.BatchGet(context.Background(), []string{})
			n = len(r)
		case "batchdelete":
			var r []client.BatchDeleteResult
			r, err = s.c.BatchDelete(context.Background(), nil)
			n = len(r)
		}

		return vlib.Obs{"err": err != nil, "n": n, "att": s.attempts()}
	case "refresh":
		s.begin("refresh", nil, st.Rec("ans"))
		err := s.c.RefreshTopology(context.Background())

		return vlib.Obs{"err": err != nil, "att": s.attempts(), "view": s.view()}
	case "close":
		var (
			wg  sync.WaitGroup
			bad atomic.Bool
		)

		for range 4 {
			wg.Go(func() {
				defer func() {
					if recover() != nil {
						bad.Store(true)
					}
				}()

				if s.c.Close() != nil {
					bad.Store(true)
				}
			})
		}

		wg.Wait()

		return vlib.Obs{"err": bad.Load()}
	case "wait":
		ans := vlib.Step{}
		for _, e := range []string{"s1", "s2", "n1", "n2", "n3"} {
			ans[e] = map[string]any{"k": "ok", "st": 200, "items": st.List("items")}
		}

		s.begin("wait", nil, ans)
		time.Sleep(1700 * time.Millisecond)

		return vlib.Obs{"refreshed": len(s.attempts()) > 0, "view": s.view()}
	}

	panic("verif-driver: op " + st.Op())
}

func item(key string, f bool, v string, n int, code string, is []string) map[string]any {
	return map[string]any{"key": key, "f": f, "v": v, "n": n, "code": code, "is": is}
}

func eq(a, b []string) bool { return strings.Join(a, "|") == strings.Join(b, "|") }

// numOf finds which metadata an item carries.
func numOf(it *client.Item) int {
	for n := range 6 {
		m := metaOf(n)
		if it.Version == m.ver && it.Origin == m.origin && it.LastUpdated == m.upd && it.TTLMs == m.ttl && it.ExpiresAt == m.exp &&
			eq(it.Owners, m.owners) && it.Node == "served-by" {
			return n
		}
	}

	return 99
}

func ownersNum(o []string, bytes int) int {
	for n := range 6 {
		if m := metaOf(n); eq(o, m.owners) && m.bytes == bytes {
			return n
		}
	}

	return 99
}

func itemErr(e *client.StatusError) (string, []string) {
	if e == nil {
		return "", []string{}
	}

	if e.Message != "item went wrong: "+e.Code {
		return "?" + e.Message, matched(e)
	}

	return e.Code, matched(e)
}

func (s *sys) call(st vlib.Step) map[string]any {
	ctx := context.Background()
	keys, ttls := []string{}, []time.Duration{}

	for _, k := range st.Strs("keys") {
		keys = append(keys, keyForms[k])
	}

	var vals []string

	for _, v := range st.Strs("vals") {
		vals = append(vals, valForms[v])
	}

	for _, t := range st.Strs("ttls") {
		ttls = append(ttls, ttlForms[t])
	}

	var (
		err   error
		items = []any{}
		kf    = st.Strs("keys")[0]
	)

	switch st.Str("cmd") {
	case "set":
		err = s.c.Set(ctx, keys[0], []byte(vals[0]), ttls[0])
	case "get":
		var b []byte

		b, err = s.c.Get(ctx, keys[0])
		items = append(items, item(kf, true, form(valForms, string(b)), 0, "", []string{}))
	case "getitem":
		var it *client.Item

		it, err = s.c.GetItem(ctx, keys[0])
		if err == nil {
			items = append(items, item(form(keyForms, it.Key), true, form(valForms, string(it.Value)), numOf(it), "", []string{}))
		}
	case "delete":
		err = s.c.Delete(ctx, keys[0])
	case "identity":
		var id *client.Identity

		id, err = s.c.Identity(ctx)
		if err == nil {
			n := 99
			for k := range 6 {
				m := metaOf(k)
				has := true
				for _, c := range []string{"cache.read", "cache.write", "cache.admin", "read", ""} {
					in := false
					for _, x := range m.cap {
						in = in || x == c
					}
					has = has && id.HasCapability(c) == in
				}
				if id.ID == m.id && eq(id.Scopes, m.scopes) && eq(id.Capabilities, m.cap) && has {
					n = k
				}
			}

			items = append(items, item(kf, true, "", n, "", []string{}))
		}
	case "can":
		var ok bool

		ok, err = s.c.Can(ctx, keys[0])
		items = append(items, item(kf, ok, "", 0, "", []string{}))
	case "batchset":
		in := []client.BatchSetItem{}
		for k := range keys {
			in = append(in, client.BatchSetItem{Key: keys[k], Value: []byte(vals[k]), TTL: ttls[k]})
		}

		var r []client.BatchPutResult

		r, err = s.c.BatchSet(ctx, in)
		for _, x := range r {
			c, is := itemErr(x.Err)
			items = append(items, item(form(keyForms, x.Key), x.Stored, "", ownersNum(x.Owners, x.Bytes), c, is))
		}
	case "batchget":
		var r []client.BatchGetResult

		r, err = s.c.BatchGet(ctx, keys)
		for _, x := range r {
			if x.Item == nil {
				items = append(items, item(form(keyForms, x.Key), x.Found, "", 0, "", []string{}))
			} else {
				k := form(keyForms, x.Key)
				if x.Item.Key != x.Key {
					k = "?" + x.Item.Key
				}
				items = append(items, item(k, x.Found, form(valForms, string(x.Item.Value)), numOf(x.Item), "", []string{}))
			}
		}
	case "batchdelete":
		var r []client.BatchDeleteResult

		r, err = s.c.BatchDelete(ctx, keys)
		for _, x := range r {
			c, is := itemErr(x.Err)
			items = append(items, item(form(keyForms, x.Key), x.Deleted, "", ownersDel(x.Owners), c, is))
		}
	}

	if err == nil {
		if st.Str("cmd") == "set" || st.Str("cmd") == "delete" {
			items = []any{}
		}

		return map[string]any{"k": "ok", "all": false, "st": 0, "code": "", "body": "", "is": []string{}, "items": items}
	}

	out := map[string]any{"k": "err", "all": errors.Is(err, client.ErrAllEndpointsFailed), "st": 0, "code": "", "body": "?" + err.Error(), "is": matched(err), "items": []any{}}

	var (
		se *client.StatusError
		ne *netErr
	)

	if errors.As(err, &se) {
		out["st"], out["code"] = se.HTTPStatus, se.Code
		if se.Code == "WEIRD_CODE" {
			out["code"] = "OTHER"
		} else if se.Code == "FORBIDDEN" {
			out["code"] = "FORBIDDEN"
		}

		out["body"] = bodyForm(se)
	} else if errors.As(err, &ne) {
		att := s.attempts()
		if last, ok := att[len(att)-1].(map[string]any); ok && last["ep"] == ne.ep {
			out["body"] = "transport"
		}
	}

	return out
}

func ownersDel(o []string) int {
	for n := range 6 {
		if eq(o, metaOf(n).owners) {
			return n
		}
	}

	return 99
}

func bodyForm(se *client.StatusError) string {
	for _, f := range []string{"canon", "details", "empty", "text", "long", "exact256", "nocode"} {
		_, b := errBody(f, se.HTTPStatus)

		switch f {
		case "canon", "details":
			d := ""
			if f == "details" {
				d = "more <words>"
			}

			if se.Code == codeOf(se.HTTPStatus) && se.Message == "what went wrong" && se.Details == d {
				return f
			}
		case "long":
			if len(se.Message) >= 256 && se.Message[:256] == b[:256] && len(se.Message) <= 262 && se.Details == "" {
				return f
			}
		default:
			if se.Message == b && se.Details == "" {
				return f
			}
		}
	}

	return "?" + se.Message
}

func (s *sys) Close() {
	_ = s.c.Close()
	worlds.Delete(s.w.id())
}

func main() {
	http.DefaultTransport = &rt{name: "default"}
	flag.Parse()
	vlib.Parallel = 32
	vlib.Replay(newSys)
}
