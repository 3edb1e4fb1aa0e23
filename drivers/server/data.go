package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
)

// names are the keys behaviours speak of.
var names = map[string]string{
	"plain": "plain", "space": "a b", "slash": "a/b/c", "query": "q?x=1&y=2", "pct": "100%20%zz%41", "uni": "ключ-é", "plus": "a+b",
	"hash": "#h", "dots": "a..b", "punct": "a:b@c,d;e=$!*'()~[]{}|^`", "quote": "\"<&>\\", "nl": "line\nbreak\ttab", "batch": "batch",
	"long": strings.Repeat("long-key.", 60), "empty": "", "blank": " ", "keys": "keys", "dot": ".", "dotdot": "..", "up": "../x",
}

func named(key string) string {
	for n, k := range names {
		if k == key {
			return n
		}
	}

	return "other: " + key
}

type cluster struct {
	procs   []*proc
	drained bool
}

var (
	clustersMu sync.Mutex
	idle       = map[int][]*cluster{}
	client     = &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 8}}
)

func closeClusters() {
	for _, cs := range idle {
		for _, c := range cs {
			c.kill()
		}
	}
}

func (c *cluster) kill() {
	for _, p := range c.procs {
		p.kill()
	}
}

func newCluster(n int) *cluster {
	clustersMu.Lock()
	if l := len(idle[n]); l > 0 {
		c := idle[n][l-1]
		idle[n] = idle[n][:l-1]
		clustersMu.Unlock()

		return c
	}
	clustersMu.Unlock()

	addrs := make([][3]string, n)
	for i := range addrs {
		addrs[i] = [3]string{address(), address(), address()}
	}

	c := &cluster{}

	for i := range n {
		seeds := []string{}

		for j := range n {
			if j != i {
				seeds = append(seeds, fmt.Sprintf("n%d@%s", j+1, addrs[j][2]))
			}
		}

		p, up := start(fmt.Sprintf("n%d", i+1), map[string]string{
			"HYPERCACHE_LOG_LEVEL": "error", "HYPERCACHE_REPLICATION": strconv.Itoa(min(n, 2)), "HYPERCACHE_SEEDS": strings.Join(seeds, ","),
			"HYPERCACHE_HEARTBEAT": "1h", "HYPERCACHE_GOSSIP_INTERVAL": "1h", "HYPERCACHE_REBALANCE_INTERVAL": "1h", "HYPERCACHE_HINT_REPLAY": "1h",
		}, addrs[i], func(p *proc) bool {
			return answers("http://"+p.api+"/healthz") && answers("http://"+p.mgmt+"/health") && answers("http://"+p.dist+"/health")
		})
		if !up {
			vlib.Fatal(errors.New("server did not start: " + p.out.String()))
		}

		c.procs = append(c.procs, p)
	}

	return c
}

type dataSys struct {
	c      *cluster
	n      int
	owners map[string]string
	seen   map[string]uint64
	wrote  map[string]bool
	values map[string]val
}

type val struct {
	v    int
	kind string
}

func buildData(init vlib.Step) vlib.System {
	s := &dataSys{n: init.Int("n"), owners: map[string]string{}, seen: map[string]uint64{}, wrote: map[string]bool{}, values: map[string]val{"": {0, "void"}}}
	s.c = newCluster(s.n)

	keys := []string{}
	for _, k := range names {
		keys = append(keys, k)
	}

	code, body := s.json(1, http.MethodPost, "/v1/cache/batch/delete", map[string]any{"keys": keys})
	if code != http.StatusOK {
		vlib.Fatal(fmt.Errorf("clearing: %d %s", code, body))
	}

	return s
}

func (s *dataSys) Close() {
	for _, p := range s.c.procs {
		if !p.alive() {
			s.c.drained = true
		}
	}

	if s.c.drained {
		s.c.kill()

		return
	}

	clustersMu.Lock()
	idle[s.n] = append(idle[s.n], s.c)
	clustersMu.Unlock()
}

func (s *dataSys) bytes(kind string, n int) []byte {
	var b []byte

	switch kind {
	case "text":
		b = fmt.Appendf(nil, "v%d é", n)
	case "bin":
		b = []byte{0xff, 0, byte(n), byte(n >> 8), 0x80, '\n'}
	case "b64":
		b = []byte(base64.StdEncoding.EncodeToString(fmt.Appendf(nil, "v%05d", n)))
	case "json":
		b = fmt.Appendf(nil, `{"v":%d,"x":"<&>"}`, n)
	case "quoted":
		b = fmt.Appendf(nil, `"v%d"`, n)
	case "num":
		b = fmt.Appendf(nil, "%d", n)
	case "null":
		b = fmt.Appendf(nil, "%snull", strings.Repeat(" ", n))
	case "big":
		b = bytes.Repeat(fmt.Appendf(nil, "v%d<&>", n), 20000)
	case "void":
		b = []byte{}
	default:
		vlib.Fatal(errors.New("unknown kind " + kind))
	}

	if kind != "void" {
		s.values[string(b)] = val{n, kind}
	}

	return b
}

func (s *dataSys) label(b []byte) val {
	if v, ok := s.values[string(b)]; ok {
		return v
	}

	if len(b) > 60 {
		b = b[:60]
	}

	return val{0, fmt.Sprintf("corrupt: %q", b)}
}

func (s *dataSys) call(i int, method, path string, body io.Reader, header map[string]string) (*http.Response, []byte) {
	r := must(http.NewRequest(method, "http://"+s.c.procs[i-1].api+path, body))
	for k, v := range header {
		r.Header.Set(k, v)
	}

	resp, err := client.Do(r)
	if err != nil {
		if !s.c.procs[i-1].alive() {
			return &http.Response{StatusCode: -1}, []byte("the server ended: " + s.c.procs[i-1].out.String())
		}

		return &http.Response{StatusCode: -2}, []byte(err.Error())
	}

	defer func() { _ = resp.Body.Close() }()

	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return &http.Response{StatusCode: -3}, []byte(err.Error())
	}

	return resp, b
}

func (s *dataSys) json(i int, method, path string, v any) (int, []byte) {
	var buf bytes.Buffer

	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(i%2 == 0)

	if err := e.Encode(v); err != nil {
		vlib.Fatal(err)
	}

	resp, b := s.call(i, method, path, &buf, map[string]string{"Content-Type": "application/json"})

	return resp.StatusCode, b
}

func path(k string) string { return "/v1/cache/" + url.PathEscape(names[k]) }

// reply is what answers have in common.
func reply(code int, body []byte) vlib.Obs {
	o := vlib.Obs{"status": code, "code": "", "meta": "ok"}

	if code != http.StatusOK {
		var e struct{ Error, Code string }
		if err := json.Unmarshal(body, &e); err != nil || e.Error == "" {
			o["meta"] = fmt.Sprintf("not an error document: %.200s", body)
		}

		o["code"] = e.Code
	}

	return o
}

type meta struct {
	Key    string   `json:"key"`
	Node   string   `json:"node"`
	Owners []string `json:"owners"`
}

// check compares what answers say about a key with one another.
func (s *dataSys) check(i int, k string, m meta) string {
	if m.Key != names[k] {
		return fmt.Sprintf("key %q instead of %q", m.Key, names[k])
	}

	if m.Node != fmt.Sprintf("n%d", i) {
		return "node " + m.Node
	}

	return s.own(k, m.Owners)
}

func (s *dataSys) own(k string, owners []string) string {
	o := strings.Join(owners, ",")
	if was, ok := s.owners[k]; ok && was != o || len(owners) != min(s.n, 2) {
		return "owners " + o + ", before " + was
	}

	s.owners[k] = o

	return "ok"
}

func (s *dataSys) version(k string, v uint64) string {
	was := s.seen[k]
	s.seen[k] = v

	if wrote := s.wrote[k]; was != 0 && (wrote && v <= was || !wrote && v != was) || v == 0 {
		return fmt.Sprintf("version %d after %d", v, was)
	}

	s.wrote[k] = false

	return "ok"
}

var forms = map[string]time.Duration{"none": 0, "long": time.Hour, "longer": 10 * time.Hour, "neg": -time.Second}

// lifetime classifies what an answer says about the remaining time.
func lifetime(ms int64, at string) string {
	if ms == 0 && at == "" {
		return ""
	}

	end, err := time.Parse(time.RFC3339, at)
	if err != nil {
		return "expires_at " + at
	}

	left := time.Duration(ms) * time.Millisecond
	if d := time.Until(end) - left; d > 3*time.Second || d < -3*time.Second {
		return fmt.Sprintf("ttl_ms %d but expires_at %s", ms, at)
	}

	for _, f := range []string{"long", "longer"} {
		if left <= forms[f] && left > forms[f]-time.Minute {
			return f
		}
	}

	return left.String()
}

type envelope struct {
	meta

	Value         string `json:"value"`
	ValueEncoding string `json:"value_encoding"`
	TTLMs         int64  `json:"ttl_ms"`
	ExpiresAt     string `json:"expires_at"`
	Version       uint64 `json:"version"`
	Origin        string `json:"origin"`
	LastUpdated   string `json:"last_updated"`
	Found         *bool  `json:"found"`
	Error         string `json:"error"`
	Code          string `json:"code"`
	Stored        *bool  `json:"stored"`
	Deleted       *bool  `json:"deleted"`
	Bytes         int    `json:"bytes"`
}

// item reads the description of a stored item.
func (s *dataSys) item(k string, e envelope) (val, string, string) {
	raw, err := base64.StdEncoding.DecodeString(e.Value)
	if err != nil || e.ValueEncoding != "base64" {
		return val{}, "", "value encoding " + e.ValueEncoding + " of " + e.Value
	}

	m := s.version(k, e.Version)

	at, err := time.Parse(time.RFC3339, e.LastUpdated)
	if err != nil || time.Since(at) > 15*time.Minute || time.Until(at) > 3*time.Second {
		m = "last_updated " + e.LastUpdated
	}

	if !strings.HasPrefix(e.Origin, "n") {
		m = "origin " + e.Origin
	}

	return s.label(raw), lifetime(e.TTLMs, e.ExpiresAt), m
}

func first(ms ...string) string {
	for _, m := range ms {
		if m != "ok" {
			return m
		}
	}

	return "ok"
}

// SigOp tells requests for a key called "keys" from others.
func (s *dataSys) SigOp(st vlib.Step) string {
	if st.Str("k") == "keys" {
		return st.Op() + "-keys"
	}

	return st.Op()
}

// Do sends the request of one step.
func (s *dataSys) Do(st vlib.Step) vlib.Obs {
	i, k := st.Int("i"), st.Str("k")

	switch st.Op() {
	case "put":
		q := ""

		switch t := st.Str("ttl"); t {
		case "none":
		case "bad":
			q = "?ttl=soon"
		default:
			q = "?ttl=" + forms[t].String()
		}

		b := s.bytes(st.Str("kind"), st.Int("v"))
		resp, out := s.call(i, http.MethodPut, path(k)+q, bytes.NewReader(b), nil)
		o := reply(resp.StatusCode, out)

		if resp.StatusCode == http.StatusOK {
			var e envelope
			if err := json.Unmarshal(out, &e); err != nil || e.Stored == nil || !*e.Stored || e.Bytes != len(b) || e.TTLMs != forms[st.Str("ttl")].Milliseconds() {
				o["meta"] = string(out)
			} else {
				o["meta"] = s.check(i, k, e.meta)
			}

			s.wrote[k] = true
		}

		return o
	case "get":
		h := map[string]string{}

		switch st.Str("acc") {
		case "any":
			h["Accept"] = "*/*"
		case "json":
			h["Accept"] = "application/json"
		case "bytes":
			h["Accept"] = "application/octet-stream"
		}

		resp, out := s.call(i, http.MethodGet, path(k), nil, h)
		o := reply(resp.StatusCode, out)
		o["v"], o["kind"], o["ttl"] = 0, "", ""

		if resp.StatusCode != http.StatusOK {
			return o
		}

		if st.Str("acc") != "json" {
			v := s.label(out)
			o["v"], o["kind"] = v.v, v.kind

			if ct := resp.Header.Get("Content-Type"); ct != "application/octet-stream" {
				o["meta"] = "content type " + ct
			}

			return o
		}

		var e envelope
		if err := json.Unmarshal(out, &e); err != nil {
			o["meta"] = string(out)

			return o
		}

		v, t, m := s.item(k, e)
		o["v"], o["kind"], o["ttl"], o["meta"] = v.v, v.kind, t, first(m, s.check(i, k, e.meta))

		return o
	case "head":
		resp, out := s.call(i, http.MethodHead, path(k), nil, nil)
		o := vlib.Obs{"status": resp.StatusCode, "ttl": "", "meta": "ok"}

		if len(out) != 0 {
			o["meta"] = "a body"
		}

		if resp.StatusCode == http.StatusOK {
			g := resp.Header.Get
			ms, _ := strconv.ParseInt(g("X-Cache-Ttl-Ms"), 10, 64)
			v, _ := strconv.ParseUint(g("X-Cache-Version"), 10, 64)
			o["ttl"] = lifetime(ms, g("X-Cache-Expires-At"))
			o["meta"] = first(s.check(i, k, meta{names[k], g("X-Cache-Node"), strings.Split(g("X-Cache-Owners"), ",")}), s.version(k, v))

			if !strings.HasPrefix(g("X-Cache-Origin"), "n") || g("X-Cache-Last-Updated") == "" {
				o["meta"] = fmt.Sprint("headers ", resp.Header)
			}
		}

		return o
	case "del", "owners":
		method, p := http.MethodDelete, path(k)
		if st.Op() == "owners" {
			method, p = http.MethodGet, strings.Replace(p, "/v1/cache/", "/v1/owners/", 1)
		}

		resp, out := s.call(i, method, p, nil, nil)
		o := reply(resp.StatusCode, out)

		if resp.StatusCode == http.StatusOK {
			var e envelope
			if err := json.Unmarshal(out, &e); err != nil || st.Op() == "del" && (e.Deleted == nil || !*e.Deleted) {
				o["meta"] = string(out)
			} else {
				o["meta"] = s.check(i, k, e.meta)
			}

			if st.Op() == "del" {
				s.wrote[k] = true
			}
		}

		return o
	case "bput", "bget", "bdel":
		return s.batch(st, i)
	case "junk":
		return s.junk(i, st.Str("w"))
	case "list":
		return s.list(i, st.Int("limit"))
	case "drain":
		s.c.drained = true
		r := must(client.Post("http://"+s.c.procs[i-1].dist+"/dist/drain", "", nil))
		_ = r.Body.Close()

		return vlib.Obs{"status": r.StatusCode}
	}

	vlib.Fatal(errors.New("unknown op " + st.Op()))

	return nil
}

func (s *dataSys) batch(st vlib.Step, i int) vlib.Obs {
	var (
		keys []string
		req  any
		size = []int{}
	)

	switch st.Op() {
	case "bput":
		items := []map[string]any{}

		for _, x := range st.List("es") {
			e := vlib.Step(x.(map[string]any))
			k := e.Str("k")
			keys = append(keys, k)
			b := s.bytes(e.Str("kind"), e.Int("v"))
			size = append(size, len(b))
			it := map[string]any{"key": names[k], "value": string(b)}

			switch e.Str("enc") {
			case "base64":
				it["value"], it["value_encoding"] = base64.StdEncoding.EncodeToString(b), "base64"
			case "broken":
				it["value"], it["value_encoding"] = base64.StdEncoding.EncodeToString(b)+"*", "base64"
			case "text":
				it["value_encoding"] = "text"
			}

			switch t := e.Str("ttl"); t {
			case "none":
			case "over":
				it["ttl_ms"] = int64(1) << (54 + e.Int("v")%8)
			default:
				it["ttl_ms"] = forms[t].Milliseconds()
			}

			items = append(items, it)
		}

		req = map[string]any{"items": items}
	default:
		raw := []string{}

		for _, x := range st.List("ks") {
			keys = append(keys, x.(string))
			raw = append(raw, names[x.(string)])
		}

		req = map[string]any{"keys": raw}
	}

	code, out := s.json(i, http.MethodPost, "/v1/cache/batch/"+st.Op()[1:]+map[string]string{"bdel": "ete"}[st.Op()], req)
	o := vlib.Obs{"status": code, "meta": "ok"}

	var r struct {
		Results []envelope
		Node    string
	}

	if err := json.Unmarshal(out, &r); err != nil || r.Node != fmt.Sprintf("n%d", i) || len(r.Results) != len(keys) {
		o["meta"] = fmt.Sprintf("%d results expected: %.300s", len(keys), out)

		return o
	}

	codes, found := []any{}, []any{}

	for j, e := range r.Results {
		if e.Key != names[keys[j]] {
			o["meta"] = "key " + e.Key
		}

		if st.Op() == "bget" {
			v, t, m := val{}, "", "ok"

			if e.Found == nil {
				m = "no found field"
			} else if *e.Found {
				v, t, m = s.item(keys[j], e)
				m = first(m, s.own(keys[j], e.Owners))
			}

			o["meta"] = first(o["meta"].(string), m)
			found = append(found, map[string]any{"v": v.v, "kind": v.kind, "ttl": t})

			continue
		}

		done, word := e.Stored, "stored"
		if st.Op() == "bdel" {
			done, word = e.Deleted, "deleted"
		}

		switch {
		case done == nil:
			codes = append(codes, "no "+word+" field")
		case *done:
			codes = append(codes, word)
			s.wrote[keys[j]] = true
			o["meta"] = first(o["meta"].(string), s.own(keys[j], e.Owners))

			if word == "stored" && e.Bytes != size[j] || e.Error != "" || e.Code != "" {
				o["meta"] = fmt.Sprintf("%+v", e)
			}
		default:
			codes = append(codes, e.Code)

			if e.Error == "" {
				o["meta"] = "no reason given"
			}
		}
	}

	if st.Op() == "bget" {
		o["found"] = found
	} else {
		o["codes"] = codes
	}

	return o
}

func (s *dataSys) junk(i int, w string) vlib.Obs {
	if rest, ok := strings.CutPrefix(w, "batch/"); ok {
		resp, out := s.call(i, http.MethodPost, "/v1/cache/batch/"+rest, strings.NewReader(`{"keys":["plain"],"items":[{"key":"plain","value":"x"}`), nil)

		return reply(resp.StatusCode, out)
	}

	resp, out := s.call(i, http.MethodGet, "/v1/cache/keys?"+w, nil, nil)

	return reply(resp.StatusCode, out)
}

// list reads the listing page by page.
func (s *dataSys) list(i, limit int) vlib.Obs {
	o := vlib.Obs{"status": 200, "meta": "ok", "cut": false}
	all, cursor := []string{}, ""

	for page := 0; ; page++ {
		resp, out := s.call(i, http.MethodGet, fmt.Sprintf("/v1/cache/keys?limit=%d&cursor=%s", limit, cursor), nil, nil)
		if resp.StatusCode != http.StatusOK || page > 100 {
			o["status"], o["meta"] = resp.StatusCode, string(out)

			return o
		}

		var r struct {
			Keys         []string
			NextCursor   string   `json:"next_cursor"`
			TotalMatched int      `json:"total_matched"`
			Truncated    bool     `json:"truncated"`
			Node         string   `json:"node"`
			PartialNodes []string `json:"partial_nodes"`
		}

		if err := json.Unmarshal(out, &r); err != nil || r.Node != fmt.Sprintf("n%d", i) || len(r.Keys) > limit || len(r.PartialNodes) > 0 {
			o["meta"] = string(out)
		}

		all = append(all, r.Keys...)
		o["total"], o["cut"] = r.TotalMatched, r.Truncated

		if cursor = r.NextCursor; cursor == "" {
			break
		}

		if len(r.Keys) != limit {
			o["meta"] = "a short page in the middle"
		}
	}

	if !slices.IsSorted(all) || len(slices.Compact(slices.Clone(all))) != len(all) {
		o["meta"] = fmt.Sprintf("not in order, or twice: %q", all)
	}

	ks := []any{}
	for _, k := range all {
		ks = append(ks, named(k))
	}

	o["keys_s"] = ks

	return o
}
