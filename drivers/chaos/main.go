// Command chaos drives the fault-injecting transport of the distributed
// backend.
package main

import (
	"context"
	"errors"
	"flag"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"

	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
)

var errPeer = errors.New("peer failed")

// peer stands for the wrapped transport: it counts calls, remembers what it
// was given and answers as told.
type peer struct {
	calls  atomic.Int64
	mu     sync.Mutex
	answer string
	args   []any
}

func (p *peer) got(args ...any) string {
	p.calls.Add(1)
	p.mu.Lock()
	defer p.mu.Unlock()

	p.args = args

	return p.answer
}

func verdict(a string) error {
	switch a {
	case "miss":
		return sentinel.ErrBackendNotFound
	case "fail":
		return errPeer
	default:
		return nil
	}
}

var (
	theItem = &cache.Item{Key: "k", Value: "v", Version: 3, Origin: "o"}
	theTree = &backend.MerkleTree{ChunkSize: 7}
	theKeys = []string{"a", "b"}
	members = []backend.GossipMember{{ID: "m", Address: "a", State: "alive", Incarnation: 4}}
)

func (p *peer) ForwardSet(_ context.Context, to string, it *cache.Item, repl bool) error {
	return verdict(p.got(to, it, repl))
}

func (p *peer) ForwardGet(_ context.Context, to, key string) (*cache.Item, bool, error) {
	a := p.got(to, key)
	if a == "ok" {
		return theItem, true, nil
	}

	return nil, false, verdict(a)
}

func (p *peer) ForwardRemove(_ context.Context, to, key string, repl bool) error {
	return verdict(p.got(to, key, repl))
}

func (p *peer) Health(_ context.Context, to string) error { return verdict(p.got(to)) }

func (p *peer) IndirectHealth(_ context.Context, relay, to string) error {
	return verdict(p.got(relay, to))
}

func (p *peer) Gossip(_ context.Context, to string, ms []backend.GossipMember) error {
	return verdict(p.got(to, ms))
}

func (p *peer) FetchMerkle(_ context.Context, to string) (*backend.MerkleTree, error) {
	a := p.got(to)
	if a == "ok" {
		return theTree, nil
	}

	return nil, verdict(a)
}

func (p *peer) ListKeys(_ context.Context, to, pattern string) ([]string, error) {
	a := p.got(to, pattern)
	if a == "ok" {
		return theKeys, nil
	}

	return nil, verdict(a)
}

type sys struct {
	p     *peer
	c     *backend.Chaos
	dm    *backend.DistMemory
	t     backend.DistTransport
	extra backend.DistTransport
}

func build(init vlib.Step) vlib.System {
	s := &sys{p: &peer{answer: "ok"}, c: backend.NewChaos()}
	ms := cluster.NewMembership(cluster.NewRing())
	self := cluster.NewNode("n1", "x")
	ms.Upsert(self)

	opts := []backend.DistMemoryOption{backend.WithDistMembership(ms, self), backend.WithDistReplication(1)}

	switch way := init.Str("way"); way {
	case "before":
		opts = append(opts, backend.WithDistChaos(s.c), backend.WithDistTransport(s.p))
	case "after":
		opts = append(opts, backend.WithDistTransport(s.p), backend.WithDistChaos(s.c))
	case "twice":
		opts = append(opts, backend.WithDistChaos(s.c), backend.WithDistTransport(s.p), backend.WithDistChaos(s.c))
	case "set", "reset":
		opts = append(opts, backend.WithDistTransport(&peer{answer: "fail"}), backend.WithDistChaos(s.c))
	case "none":
		opts = append(opts, backend.WithDistTransport(s.p), backend.WithDistChaos(nil))
	default:
		vlib.Fatal(errors.New("unknown way " + way))
	}

	bi, err := backend.NewDistMemory(context.Background(), opts...)
	if err != nil {
		vlib.Fatal(err)
	}

	dm, ok := bi.(*backend.DistMemory)
	if !ok {
		vlib.Fatal(errors.New("not a DistMemory"))
	}

	s.dm = dm

	switch init.Str("way") {
	case "set":
		dm.SetTransport(s.p)
	case "reset":
		dm.SetTransport(s.p)
		dm.SetTransport(dm.VerifTransport())
	}

	s.t = dm.VerifTransport()

	return s
}

func (s *sys) Close() { _ = s.dm.Stop(context.Background()) }

// call makes one call and reports its answer and whether the arguments and
// the results came through unchanged.
func (s *sys) call(kind string) (string, bool) {
	var (
		ctx  = context.Background()
		err  error
		want []any
		same = true
	)

	switch kind {
	case "set":
		want = []any{"n2", theItem, true}
		err = s.t.ForwardSet(ctx, "n2", theItem, true)
	case "get":
		var (
			it *cache.Item
			ok bool
		)

		want = []any{"n2", "k"}
		it, ok, err = s.t.ForwardGet(ctx, "n2", "k")
		same = (err == nil) == (it == theItem && ok) && (err == nil || (it == nil && !ok))
	case "del":
		want = []any{"n2", "k", false}
		err = s.t.ForwardRemove(ctx, "n2", "k", false)
	case "health":
		want = []any{"n2"}
		err = s.t.Health(ctx, "n2")
	case "relay":
		want = []any{"n2", "n3"}
		err = s.t.IndirectHealth(ctx, "n2", "n3")
	case "gossip":
		want = []any{"n2", members}
		err = s.t.Gossip(ctx, "n2", members)
	case "merkle":
		var tr *backend.MerkleTree

		want = []any{"n2"}
		tr, err = s.t.FetchMerkle(ctx, "n2")
		same = (err == nil) == (tr == theTree)
	case "keys":
		var ks []string

		want = []any{"n2", "p*"}
		ks, err = s.t.ListKeys(ctx, "n2", "p*")
		same = (err == nil) == (len(ks) == 2)
	default:
		vlib.Fatal(errors.New("unknown kind " + kind))
	}

	answer := "other"

	switch {
	case err == nil:
		answer = "ok"
	case errors.Is(err, backend.ErrChaosDrop):
		answer = "dropped"
	case errors.Is(err, sentinel.ErrBackendNotFound):
		answer = "miss"
	case errors.Is(err, errPeer):
		answer = "fail"
	}

	s.p.mu.Lock()
	defer s.p.mu.Unlock()

	return answer, same && reflect.DeepEqual(s.p.args, want)
}

// Do runs one step.
func (s *sys) Do(st vlib.Step) vlib.Obs {
	o := vlib.Obs{}

	switch st.Op() {
	case "drop":
		s.c.SetDropRate(float64(st.Int("r")) / 10)
	case "latency":
		s.c.SetLatency(time.Duration(st.Int("d"))*time.Millisecond, float64(st.Int("r"))/10)
	case "call":
		s.p.answer, s.p.args = st.Str("a"), nil
		before, begin := s.p.calls.Load(), time.Now()
		o["answer"], o["args"] = s.call(st.Str("kind"))
		o["took"] = int(time.Since(begin).Milliseconds())
		o["reached"] = int(s.p.calls.Load() - before)
	case "burst":
		var (
			wg      sync.WaitGroup
			refused atomic.Int64
		)

		s.p.answer = "ok"
		before := s.p.calls.Load()

		for range st.Int("g") {
			wg.Go(func() {
				for range st.Int("count") / st.Int("g") {
					if a, _ := s.call(st.Str("kind")); a == "dropped" {
						refused.Add(1)
					}
				}
			})
		}

		wg.Wait()

		o["reached"], o["refused"] = int(s.p.calls.Load()-before), int(refused.Load())
	default:
		vlib.Fatal(errors.New("unknown op " + st.Op()))
	}

	o["drops"], o["lates"] = int(s.c.Drops()), int(s.c.Latencies())

	return o
}

func main() {
	flag.Parse()
	vlib.Replay(build)
}
