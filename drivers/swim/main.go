// Command swim drives the distributed backend's failure detection: heartbeats,
// indirect probes, timeouts, gossip and refutation.
package main

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/pkg/backend"

	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
)

const (
	tick = 60 * time.Millisecond
	slot = 25 * time.Millisecond
)

var wire = flag.String("wire", "mem", "mem: in-process behind a faulty link; direct: in-process; http: HTTP listeners")

var (
	errLink = errors.New("link fault")
	used    atomic.Int64
)

// address is a loopback address no other node of any test process uses.
func address() string {
	for {
		i, pid := int(used.Add(1)), os.Getpid()
		a := fmt.Sprintf("127.%d.%d.%d:%d", 1+pid%250, 1+pid/250%250, 1+i/8000%250, 12000+i%8000)

		l, err := (&net.ListenConfig{}).Listen(context.Background(), "tcp", a)
		if err == nil {
			_ = l.Close()

			return a
		}

		if i > 1_000_000 {
			vlib.Fatal(err)
		}
	}
}

func id(n int) string { return "n" + strconv.Itoa(n) }

func num(s string) int {
	n, err := strconv.Atoi(strings.TrimPrefix(s, "n"))
	if err != nil {
		return -1
	}

	return n
}

type sys struct {
	n     int
	mem   *backend.InProcessTransport
	addr  []string
	dms   []*backend.DistMemory
	ms    []*cluster.Membership
	out   backend.DistTransport
	mu    sync.Mutex
	link  [][]int
	timed bool
	ticks int
	base  time.Time
	late  bool
}

// faulty applies the link states to what node me sends; everything else of
// the transport passes through.
type faulty struct {
	backend.DistTransport

	s  *sys
	me int
}

func (f *faulty) err(to string) error {
	f.s.mu.Lock()
	defer f.s.mu.Unlock()

	t := num(to)
	if t < 1 || t > f.s.n {
		return sentinel.ErrBackendNotFound
	}

	if f.s.link[f.me-1][t-1] != 0 {
		return errLink
	}

	return nil
}

func (f *faulty) Health(ctx context.Context, to string) error {
	if err := f.err(to); err != nil {
		return err
	}

	return f.DistTransport.Health(ctx, to)
}

func (f *faulty) IndirectHealth(ctx context.Context, relay, target string) error {
	if err := f.err(relay); err != nil {
		return err
	}

	if *wire != "http" { // the in-process relay would look the target up itself
		f.s.mu.Lock()
		bad := f.s.link[num(relay)-1][num(target)-1] != 0
		f.s.mu.Unlock()

		if bad {
			return errLink
		}
	}

	return f.DistTransport.IndirectHealth(ctx, relay, target)
}

func (f *faulty) Gossip(ctx context.Context, to string, ms []backend.GossipMember) error {
	if err := f.err(to); err != nil {
		return err
	}

	return f.DistTransport.Gossip(ctx, to, ms)
}

func build(init vlib.Step) vlib.System {
	s := &sys{n: init.Int("n"), mem: backend.NewInProcessTransport()}
	life := func(t int) time.Duration {
		if t == 0 {
			return 0
		}

		s.timed = true

		return time.Duration(2*t-1) * tick / 2
	}
	suspect, dead := life(init.Int("suspect")), life(init.Int("dead"))

	for range s.n {
		s.link = append(s.link, make([]int, s.n))
		s.addr = append(s.addr, address())
	}

	for i := range s.n {
		opts := []backend.DistMemoryOption{
			backend.WithDistNode(id(i+1), s.addr[i]),
			backend.WithDistReplication(2),
			backend.WithDistShardCount(2),
			backend.WithDistHeartbeat(time.Hour, suspect, dead),
			backend.WithDistHeartbeatSample(init.Int("sample")),
		}

		seeds := []string{}
		for j := range s.n {
			if j != i {
				seeds = append(seeds, id(j+1)+"@"+s.addr[j])
			}
		}

		opts = append(opts, backend.WithDistSeeds(seeds))

		if k := init.Int("k"); k > 0 {
			opts = append(opts, backend.WithDistIndirectProbes(k, 2*time.Second))
		}

		var ms *cluster.Membership

		var inner backend.DistTransport = s.mem

		if *wire != "http" {
			// the same membership the seeds would give, without a listener
			ms = cluster.NewMembership(cluster.NewRing(cluster.WithReplication(2)))
			self := cluster.NewNode(id(i+1), s.addr[i])
			ms.Upsert(self)

			for j := range s.n {
				if j != i {
					ms.Upsert(cluster.NewNode(id(j+1), s.addr[j]))
				}
			}

			opts = append(opts[1:], backend.WithDistMembership(ms, self), backend.WithDistTransport(s.mem))
		} else {
			inner = backend.NewDistHTTPTransportWithLimits(backend.DistHTTPLimits{ClientTimeout: 3 * time.Second},
				func(to string) (string, bool) {
					t := num(to)
					if t < 1 || t > s.n {
						return "", false
					}

					return "http://" + s.addr[t-1], true
				})
		}

		bi, err := backend.NewDistMemory(context.Background(), opts...)
		if err != nil {
			vlib.Fatal(err)
		}

		dm, ok := bi.(*backend.DistMemory)
		if !ok {
			vlib.Fatal(errors.New("not a DistMemory"))
		}

		if *wire != "direct" {
			dm.SetTransport(&faulty{DistTransport: inner, s: s, me: i + 1})
		}

		s.mem.Register(dm)
		s.dms = append(s.dms, dm)
		s.ms = append(s.ms, dm.Membership())
	}

	s.base = time.Now()

	// Ages run from here.
	for i, m := range s.ms {
		for j := range s.n {
			if j != i {
				m.Mark(cluster.NodeID(id(j+1)), cluster.NodeAlive)
			}
		}
	}

	return s
}

// Close stops the nodes.
func (s *sys) Close() {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()

	for _, dm := range s.dms {
		_ = dm.Stop(ctx)
	}
}

// Unreliable reports a step that ran too late to be judged.
func (s *sys) Unreliable() bool { return s.late }

func (s *sys) check() {
	if s.timed {
		if d := time.Since(s.base.Add(time.Duration(s.ticks) * tick)); d < 0 || d > slot {
			s.late = true
		}
	}
}

func (s *sys) view() []any {
	out := []any{}

	for _, m := range s.ms {
		row := make([]any, s.n)
		for i := range row {
			row[i] = map[string]any{"st": "none", "inc": 0}
		}

		for _, nd := range m.List() {
			i := num(string(nd.ID)) - 1
			if i < 0 || i >= s.n {
				row = append(row, "stranger "+string(nd.ID))

				continue
			}

			e := map[string]any{"st": nd.State.String(), "inc": nd.Incarnation}
			if nd.Address != s.addr[i] {
				e["st"] = "address " + nd.Address
			}

			row[i] = e
		}

		out = append(out, row)
	}

	return out
}

func (s *sys) claims(list []any) []backend.GossipMember {
	out := []backend.GossipMember{}

	for _, c := range list {
		r := vlib.Step(c.(map[string]any))
		m := r.Int("m")
		out = append(out, backend.GossipMember{ID: id(m), Address: s.addr[m-1], State: r.Str("st"), Incarnation: uint64(r.Int("inc"))})
	}

	return out
}

// to is a transport on which anyone can reach node n.
func (s *sys) to(n int) backend.DistTransport {
	if *wire != "http" {
		return s.mem
	}

	if s.out == nil {
		s.out = backend.NewDistHTTPTransportWithLimits(backend.DistHTTPLimits{ClientTimeout: 3 * time.Second},
			func(to string) (string, bool) { return "http://" + s.addr[num(to)-1], true })
	}

	return s.out
}

// Do runs one step.
func (s *sys) Do(st vlib.Step) vlib.Obs {
	ctx := context.Background()

	if st.Op() == "tick" {
		s.ticks++
		time.Sleep(time.Until(s.base.Add(time.Duration(s.ticks) * tick)))
	}

	s.check()

	n := max(st.Int("n"), 1)

	switch st.Op() {
	case "hb":
		s.dms[n-1].VerifHeartbeat(ctx)
	case "gossip":
		s.dms[n-1].VerifGossip()
	case "hear":
		if err := s.to(n).Gossip(ctx, id(n), s.claims(st.List("cs"))); err != nil {
			vlib.Fatal(err)
		}
	case "storm":
		var wg sync.WaitGroup

		start := make(chan struct{})

		wire := s.to(n)

		for _, c := range s.claims(st.List("cs")) {
			wg.Go(func() {
				<-start

				if err := wire.Gossip(ctx, id(n), []backend.GossipMember{c}); err != nil {
					vlib.Fatal(err)
				}
			})
		}

		close(start)
		wg.Wait()
	case "link":
		s.mu.Lock()
		s.link[n-1][st.Int("m")-1] = st.Int("l")
		s.mu.Unlock()
	case "cut":
		s.mu.Lock()
		for a := range s.n {
			for b := range s.n {
				if a != b && (a == n-1 || b == n-1) {
					s.link[a][b] = st.Int("l")
				}
			}
		}
		s.mu.Unlock()
	case "tick":
	default:
		vlib.Fatal(errors.New("unknown op " + st.Op()))
	}

	s.check()

	return vlib.Obs{"view": s.view()}
}

func main() {
	flag.Parse()
	vlib.StepTimeout = 20 * time.Second
	vlib.Parallel = 10

	if *wire == "http" {
		warm()
	}
	vlib.Replay(build)
}
