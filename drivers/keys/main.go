// Command keys drives the cluster-wide key listing of the distributed backend.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"

	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
)

var wire = flag.String("wire", "mem", "mem: in-process; http: HTTP listeners")

var (
	errLink = errors.New("link fault")
	used    atomic.Int64
)

// address is a loopback address no other node of any test process uses.
func address() string {
	for {
		i, pid := int(used.Add(1)), os.Getpid()
		a := fmt.Sprintf("127.%d.%d.%d:%d", 1+pid%250, 1+pid/250%250, 1+i/8000%250, 12000+i%8000)

		l, err := (&net.ListenConfig{}).Listen(context.Background(), "tcp", a)
		if err == nil {
			_ = l.Close()

			return a
		}

		if i > 1_000_000 {
			vlib.Fatal(err)
		}
	}
}

// The keys by number, as Keys.tla lists them.
var universe = []string{"a", "a/b", "ab", "abc", "b", "b/a", "ba", "c*", "[a]", "é", "aé", "a-b", "^", "\\", "c?d", "aa"}

func id(n int) string { return "n" + strconv.Itoa(n) }

func num(s string) int {
	n, err := strconv.Atoi(strings.TrimPrefix(s, "n"))
	if err != nil {
		return -1
	}

	return n
}

func text(p []any) string {
	var b strings.Builder
	for _, c := range p {
		b.WriteRune(rune(c.(float64)))
	}

	return b.String()
}

func codes(s string) []any {
	out := []any{}
	for _, r := range s {
		out = append(out, int(r))
	}

	return out
}

func codeList(ks []string) []any {
	out := []any{}
	for _, k := range ks {
		out = append(out, codes(k))
	}

	return out
}

type sys struct {
	n, shards int
	mem       *backend.InProcessTransport
	addr      []string
	dms       []*backend.DistMemory
	mu        sync.Mutex
	cut       map[int]bool
}

type faulty struct {
	backend.DistTransport

	s *sys
}

func (f *faulty) ListKeys(ctx context.Context, to, pattern string) ([]string, error) {
	f.s.mu.Lock()
	bad := f.s.cut[num(to)]
	f.s.mu.Unlock()

	if bad {
		return nil, errLink
	}

	return f.DistTransport.ListKeys(ctx, to, pattern)
}

func build(init vlib.Step) vlib.System {
	s := &sys{n: init.Int("n"), shards: init.Int("shards"), mem: backend.NewInProcessTransport(), cut: map[int]bool{}}

	for range s.n {
		s.addr = append(s.addr, address())
	}

	for i := range s.n {
		ms := cluster.NewMembership(cluster.NewRing(cluster.WithReplication(s.n)))
		self := cluster.NewNode(id(i+1), s.addr[i])
		ms.Upsert(self)

		for j := range s.n {
			if j != i {
				ms.Upsert(cluster.NewNode(id(j+1), s.addr[j]))
			}
		}

		opts := []backend.DistMemoryOption{backend.WithDistReplication(s.n), backend.WithDistShardCount(s.shards)}

		var inner backend.DistTransport = s.mem

		if *wire == "http" {
			seeds := []string{}

			for j := range s.n {
				if j != i {
					seeds = append(seeds, id(j+1)+"@"+s.addr[j])
				}
			}

			opts = append(opts, backend.WithDistNode(id(i+1), s.addr[i]), backend.WithDistSeeds(seeds))
			inner = backend.NewDistHTTPTransport(5*time.Second, func(to string) (string, bool) {
				t := num(to)
				if t < 1 || t > s.n {
					return "", false
				}

				return "http://" + s.addr[t-1], true
			})
		} else {
			opts = append(opts, backend.WithDistMembership(ms, self), backend.WithDistTransport(s.mem))
		}

		bi, err := backend.NewDistMemory(context.Background(), opts...)
		if err != nil {
			vlib.Fatal(err)
		}

		dm, ok := bi.(*backend.DistMemory)
		if !ok {
			vlib.Fatal(errors.New("not a DistMemory"))
		}

		dm.SetTransport(&faulty{DistTransport: inner, s: s})
		s.mem.Register(dm)
		s.dms = append(s.dms, dm)
	}

	return s
}

func (s *sys) Close() {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()

	for _, dm := range s.dms {
		_ = dm.Stop(ctx)
	}
}

// Do runs one step.
func (s *sys) Do(st vlib.Step) vlib.Obs {
	ctx := context.Background()

	switch st.Op() {
	case "put", "drop":
		for _, k := range st.List("ks_s") {
			s.hold(ctx, st.Int("n"), universe[int(k.(float64))-1], st.Op() == "put")
		}
	case "all":
		for n := range s.n {
			for _, k := range universe {
				s.hold(ctx, n+1, k, true)
			}
		}
	case "state":
		s.state(st.Int("n"), st.Str("st"))
	case "cut":
		s.mu.Lock()
		s.cut[st.Int("n")] = st.Bool("b")
		s.mu.Unlock()
	case "list":
		res, err := s.dms[0].ListKeys(ctx, text(st.List("p")), st.Int("max"))
		if err != nil {
			return vlib.Obs{"err": true}
		}

		partial := []any{}
		for _, p := range res.PartialNodes {
			partial = append(partial, num(p))
		}

		return vlib.Obs{"err": false, "keys": codeList(res.Keys), "trunc": res.Truncated, "partial": partial}
	case "pages":
		return s.pages(st.Int("n"), text(st.List("p")), st.Int("limit"))
	default:
		vlib.Fatal(errors.New("unknown op " + st.Op()))
	}

	return vlib.Obs{}
}

func (s *sys) hold(ctx context.Context, n int, key string, in bool) {
	var err error

	if in {
		err = s.mem.ForwardSet(ctx, id(n), &cache.Item{Key: key, Value: "v", Version: uint64(used.Add(1)), Origin: "x"}, false)
	} else {
		err = s.mem.ForwardRemove(ctx, id(n), key, false)
	}

	if err != nil {
		vlib.Fatal(err)
	}
}

func (s *sys) state(n int, st string) {
	ms, nid := s.dms[0].Membership(), cluster.NodeID(id(n))
	if st == "none" {
		ms.Remove(nid)

		return
	}

	ms.Upsert(&cluster.Node{ID: nid, Address: s.addr[n-1], Incarnation: 1, State: map[string]cluster.NodeState{
		"alive": cluster.NodeAlive, "suspect": cluster.NodeSuspect, "dead": cluster.NodeDead,
	}[st]})
}

// pages walks the pages of node n's key route, passing on to the next shard
// after a page that was cut short.
func (s *sys) pages(n int, pattern string, limit int) vlib.Obs {
	pages := []any{}

	for cursor := 0; ; {
		q := url.Values{"q": {pattern}}
		if cursor > 0 {
			q.Set("cursor", strconv.Itoa(cursor))
		}

		if limit > 0 {
			q.Set("limit", strconv.Itoa(limit))
		}

		resp, err := http.Get("http://" + s.addr[n-1] + "/internal/keys?" + q.Encode()) //nolint:noctx
		if err != nil {
			vlib.Fatal(err)
		}

		b, err := io.ReadAll(resp.Body)
		_ = resp.Body.Close()

		if err != nil {
			vlib.Fatal(err)
		}

		if resp.StatusCode != http.StatusOK {
			return vlib.Obs{"err": true, "status": resp.StatusCode}
		}

		var page struct {
			Keys []string `json:"keys"`
			Next string   `json:"next_cursor"`
			Cut  bool     `json:"truncated"`
		}

		if err := json.Unmarshal(b, &page); err != nil {
			return vlib.Obs{"err": true, "body": string(b)}
		}

		pages = append(pages, map[string]any{"keys": codeList(page.Keys), "trunc": page.Cut})

		if page.Cut {
			page.Next = strconv.Itoa(cursor + 1)
			if cursor+1 == s.shards {
				page.Next = ""
			}
		}

		if page.Next == "" || len(pages) > s.shards {
			return vlib.Obs{"err": false, "pages": pages}
		}

		if cursor, err = strconv.Atoi(page.Next); err != nil {
			return vlib.Obs{"err": true, "cursor": page.Next}
		}
	}
}

func main() {
	flag.Parse()

	vlib.StepTimeout = 20 * time.Second

	if *wire == "http" {
		warm()
	}

	vlib.Replay(build)
}
