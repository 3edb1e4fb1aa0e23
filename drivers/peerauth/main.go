// Command peerauth drives the authentication of the peer HTTP routes.
package main

import (
	"bytes"
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"slices"
	"sync/atomic"
	"time"

	fiber "github.com/gofiber/fiber/v3"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"

	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
)

var (
	errBad = errors.New("bad credentials")
	used   atomic.Int64
)

// address is a loopback address no other node of any test process uses.
func address() string {
	for {
		i, pid := int(used.Add(1)), os.Getpid()
		a := fmt.Sprintf("127.%d.%d.%d:%d", 1+pid%250, 1+pid/250%250, 1+i/8000%250, 12000+i%8000)

		l, err := (&net.ListenConfig{}).Listen(context.Background(), "tcp", a)
		if err == nil {
			_ = l.Close()

			return a
		}

		if i > 1_000_000 {
			vlib.Fatal(err)
		}
	}
}

func policy(p vlib.Step) backend.DistHTTPAuth {
	a := backend.DistHTTPAuth{Token: p.Str("token"), AllowAnonymousInbound: p.Bool("open")}

	if v := p.Str("verify"); v != "" {
		a.ServerVerify = func(c fiber.Ctx) error {
			if c.Get("X-Peer") != v {
				return errBad
			}

			return nil
		}
	}

	switch s := p.Str("sign"); s {
	case "":
	case "bearer":
		a.ClientSign = func(r *http.Request) error {
			r.Header.Set("Authorization", "Bearer tok")

			return nil
		}
	default:
		a.ClientSign = func(r *http.Request) error {
			r.Header.Set("X-Peer", s)

			return nil
		}
	}

	return a
}

type sys struct {
	auth backend.DistHTTPAuth
	addr string
	dm   *backend.DistMemory
}

func build(init vlib.Step) vlib.System {
	return &sys{auth: policy(init.Rec("p")), addr: address()}
}

func (s *sys) Close() {
	if s.dm != nil {
		ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
		defer cancel()

		_ = s.dm.Stop(ctx)
	}
}

func (s *sys) peer(p vlib.Step) backend.DistTransport {
	return backend.NewDistHTTPTransportWithAuth(backend.DistHTTPLimits{ClientTimeout: 5 * time.Second}, policy(p),
		func(string) (string, bool) { return "http://" + s.addr, true })
}

func (s *sys) make() vlib.Obs {
	bi, err := backend.NewDistMemory(context.Background(), backend.WithDistNode("n1", s.addr),
		backend.WithDistReplication(1), backend.WithDistHTTPAuth(s.auth))
	if err != nil {
		if !errors.Is(err, sentinel.ErrInsecureAuthConfig) {
			vlib.Fatal(err)
		}

		return vlib.Obs{"err": true}
	}

	dm, ok := bi.(*backend.DistMemory)
	if !ok {
		vlib.Fatal(errors.New("not a DistMemory"))
	}

	s.dm = dm

	if err := dm.Set(context.Background(), &cache.Item{Key: "a", Value: "x"}); err != nil {
		vlib.Fatal(err)
	}

	return vlib.Obs{"err": false}
}

func (s *sys) state(o vlib.Obs) vlib.Obs {
	held, known := []any{}, []any{}

	for _, k := range []string{"a", "b"} {
		if s.dm.LocalContains(k) {
			held = append(held, k)
		}
	}

	for _, m := range s.dm.Membership().List() {
		if m.ID != "n1" {
			known = append(known, string(m.ID))
		}
	}

	o["held_s"], o["known_s"], o["draining"] = held, known, s.dm.IsDraining()

	return o
}

func member(k string) string {
	return `[{"id":"` + k + `","address":"127.0.0.1:1","state":"dead","incarnation":1}]`
}

// request sends one raw request.
func (s *sys) request(route, k, cred string) vlib.Obs {
	set := `{"key":"` + k + `","value":"x","version":` + fmt.Sprint(100+used.Add(1)) + `,"origin":"n1"}`
	m, path, body := http.MethodGet, "", ""

	switch route {
	case "set":
		m, path, body = http.MethodPost, "/internal/set", set
	case "set2":
		m, path, body = http.MethodPost, "/internal/cache/set", set
	case "del":
		m, path = http.MethodDelete, "/internal/del?key="+k
	case "del2":
		m, path = http.MethodDelete, "/internal/cache/remove?key="+k
	case "get":
		path = "/internal/get?key=" + k
	case "get2":
		path = "/internal/cache/get?key=" + k
	case "health":
		path = "/health"
	case "probe":
		path = "/internal/probe?target=n1"
	case "merkle":
		path = "/internal/merkle"
	case "keys":
		path = "/internal/keys"
	case "gossip":
		m, path, body = http.MethodPost, "/internal/gossip", member(k)
	case "drain":
		m, path = http.MethodPost, "/dist/drain"
	case "head":
		m, path = http.MethodHead, "/internal/keys"
	case "slash":
		path = "/internal/get/?key=" + k
	case "upper":
		path = "/Internal/Keys"
	default:
		vlib.Fatal(errors.New("unknown route " + route))
	}

	r, err := http.NewRequestWithContext(context.Background(), m, "http://"+s.addr+path, bytes.NewReader([]byte(body)))
	if err != nil {
		vlib.Fatal(err)
	}

	r.Header.Set("Content-Type", "application/json")

	switch cred {
	case "none":
	case "tok", "other":
		r.Header.Set("Authorization", "Bearer "+cred)
	case "lower":
		r.Header.Set("Authorization", "bearer tok")
	case "noscheme":
		r.Header.Set("Authorization", "tok")
	case "basic":
		r.SetBasicAuth("tok", "tok")
	case "longer":
		r.Header.Set("Authorization", "Bearer tok2")
	case "shorter":
		r.Header.Set("Authorization", "Bearer to")
	case "empty":
		r.Header.Set("Authorization", "Bearer ")
	case "twice":
		r.Header.Set("Authorization", "Bearer Bearer tok")
	default:
		r.Header.Set("X-Peer", cred)
	}

	resp, err := http.DefaultClient.Do(r)
	if err != nil {
		vlib.Fatal(err)
	}

	b, _ := io.ReadAll(resp.Body)
	_ = resp.Body.Close()

	refused := resp.StatusCode == http.StatusUnauthorized
	if refused && slices.Contains([]string{"get", "get2", "keys", "merkle"}, route) && bytes.Contains(b, []byte(`"x"`)) {
		refused = false // the answer gives the value away
	}

	return s.state(vlib.Obs{"refused": refused})
}

func (s *sys) send(st vlib.Step) vlib.Obs {
	var (
		ctx = context.Background()
		t   = s.peer(st.Rec("q"))
		k   = st.Str("k")
		err error
	)

	switch st.Str("r") {
	case "set":
		err = t.ForwardSet(ctx, "n1", &cache.Item{Key: k, Value: "x", Version: uint64(100 + used.Add(1)), Origin: "n1"}, false)
	case "del":
		err = t.ForwardRemove(ctx, "n1", k, false)
	case "gossip":
		err = t.Gossip(ctx, "n1", []backend.GossipMember{{ID: k, Address: "127.0.0.1:1", State: "dead", Incarnation: 1}})
	case "get":
		_, _, err = t.ForwardGet(ctx, "n1", k)
	case "health":
		err = t.Health(ctx, "n1")
		if s.dm.IsDraining() && err != nil && s.ready(st) {
			err = nil // unavailable, but it was heard
		}
	case "relay":
		err = t.IndirectHealth(ctx, "n1", "nobody")
		if errors.Is(err, sentinel.ErrBackendNotFound) {
			err = nil // heard: the target is unknown
		}
	case "merkle":
		_, err = t.FetchMerkle(ctx, "n1")
	case "keys":
		_, err = t.ListKeys(ctx, "n1", "")
	default:
		vlib.Fatal(errors.New("unknown call " + st.Str("r")))
	}

	return s.state(vlib.Obs{"ok": err == nil})
}

// ready reports whether the peer's calls are let in at all.
func (s *sys) ready(st vlib.Step) bool {
	_, err := s.peer(st.Rec("q")).ListKeys(context.Background(), "n1", "")

	return err == nil
}

// Do runs one step.
func (s *sys) Do(st vlib.Step) vlib.Obs {
	switch st.Op() {
	case "make":
		return s.make()
	case "req":
		return s.request(st.Str("r"), st.Str("k"), st.Str("c"))
	case "peer":
		return s.send(st)
	default:
		vlib.Fatal(errors.New("unknown op " + st.Op()))
	}

	return nil
}

func main() {
	flag.Parse()

	vlib.StepTimeout = 20 * time.Second

	warm()
	vlib.Replay(build)
}
