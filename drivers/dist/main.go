// Command dist replays behaviours of spec/Dist.tla against clusters of the
// distributed backend, over in-process or HTTP peer transports.
package main

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

var (
	wire     = flag.String("wire", "mem", "mem: in-process behind a faulty link; direct: in-process; http: HTTP listeners")
	parallel = flag.Bool("parallel", false, "parallel reads")
	compress = flag.Int("compress", 0, "HTTP compression threshold")
	interval = flag.Duration("interval", time.Hour, "read-repair flush interval")
	crafted  = flag.Bool("crafted", false, "keys whose names embed other keys' digest bytes")
)

// tick is one unit of model time; a lifetime of t ticks lasts t-1/2 of them,
// and every step runs within slot after its tick.
const (
	tick = 60 * time.Millisecond
	slot = 25 * time.Millisecond
)

var errLink = errors.New("link fault")

type node struct {
	dm   *backend.DistMemory
	addr string
}

type sys struct {
	n, r    int
	init    vlib.Step
	keys    []string
	nodes   []*node
	views   []map[int]bool
	mem     *backend.InProcessTransport
	mu      sync.Mutex
	link    [][]int
	base    time.Time
	ticks   int
	late    bool
	timed   bool
	batched bool
}

func id(n int) string { return fmt.Sprintf("n%d", n) }

func num(s string) int {
	var n int

	_, _ = fmt.Sscanf(s, "n%d", &n)

	return n
}

// ------------------------------------------------------------------ keys

var (
	keyMu    sync.Mutex
	keyCache = map[string]string{}
)

// key finds a 10-byte key, ordered by index, whose ring order over all nodes
// is the permutation wanted.
func key(k int, perm []int) string {
	keyMu.Lock()
	defer keyMu.Unlock()

	tag := fmt.Sprint(k, perm)
	if s, ok := keyCache[tag]; ok {
		return s
	}

	ring := cluster.NewRing(cluster.WithReplication(len(perm)))
	m := cluster.NewMembership(ring)

	for i := range len(perm) {
		m.Upsert(cluster.NewNode(id(i+1), "x"))
	}

	for i := 0; ; i++ {
		s := fmt.Sprintf("k%d-%07d", k, i)
		got := ring.Lookup(s)
		same := len(got) == len(perm)

		for j := range got {
			same = same && num(string(got[j])) == perm[j]
		}

		if same {
			keyCache[tag] = s

			return s
		}
	}
}

// ------------------------------------------------------------- transport

// faulty sits between a node and its peers and applies the link states.
type faulty struct {
	s  *sys
	me int
	t  backend.DistTransport
}

func (f *faulty) err(to string) error {
	f.s.mu.Lock()
	defer f.s.mu.Unlock()

	t := num(to)
	if t < 1 || t > f.s.n {
		return sentinel.ErrBackendNotFound
	}

	switch f.s.link[f.me-1][t-1] {
	case 1:
		return sentinel.ErrBackendNotFound
	case 2:
		return errLink
	default:
		return nil
	}
}

func (f *faulty) ForwardSet(ctx context.Context, to string, it *cache.Item, repl bool) error {
	if err := f.err(to); err != nil {
		return err
	}

	return f.t.ForwardSet(ctx, to, it, repl)
}

func (f *faulty) ForwardGet(ctx context.Context, to, key string) (*cache.Item, bool, error) {
	if err := f.err(to); err != nil {
		return nil, false, err
	}

	return f.t.ForwardGet(ctx, to, key)
}

func (f *faulty) ForwardRemove(ctx context.Context, to, key string, repl bool) error {
	if err := f.err(to); err != nil {
		return err
	}

	return f.t.ForwardRemove(ctx, to, key, repl)
}

func (f *faulty) Health(ctx context.Context, to string) error {
	if err := f.err(to); err != nil {
		return err
	}

	return f.t.Health(ctx, to)
}

func (f *faulty) IndirectHealth(ctx context.Context, relay, to string) error {
	if err := f.err(relay); err != nil {
		return err
	}

	return f.t.IndirectHealth(ctx, relay, to)
}

func (f *faulty) Gossip(ctx context.Context, to string, ms []backend.GossipMember) error {
	if err := f.err(to); err != nil {
		return err
	}

	return f.t.Gossip(ctx, to, ms)
}

func (f *faulty) FetchMerkle(ctx context.Context, to string) (*backend.MerkleTree, error) {
	if err := f.err(to); err != nil {
		return nil, err
	}

	return f.t.FetchMerkle(ctx, to)
}

func (f *faulty) ListKeys(ctx context.Context, to, pattern string) ([]string, error) {
	if err := f.err(to); err != nil {
		return nil, err
	}

	return f.t.ListKeys(ctx, to, pattern)
}

// ----------------------------------------------------------------- system

func ints(a []any) []int {
	out := []int{}
	for _, v := range a {
		out = append(out, int(v.(float64)))
	}

	return out
}

func build(init vlib.Step) vlib.System {
	s := &sys{init: init, n: init.Int("n"), r: init.Int("r"), mem: backend.NewInProcessTransport()}

	for k, p := range init.List("pref") {
		s.keys = append(s.keys, key(k+1, ints(p.([]any))))
	}

	if *crafted {
		// A copy of keys[0] at version 1 followed by a copy of keys[1]: the
		// same bytes as one copy of this key.
		s.keys[2%len(s.keys)] = s.keys[0] + "\x00\x00\x00\x00\x00\x00\x00\x01" + s.keys[1]
	}

	s.timed = init.Int("httl") > 0 || init.Int("tttl") > 0 || init.Int("grace") > 0
	s.batched = init.Int("batch") > 0
	s.nodes = make([]*node, s.n)
	s.views = make([]map[int]bool, s.n)
	s.link = make([][]int, s.n)

	for i := range s.n {
		s.link[i] = make([]int, s.n)
		s.views[i] = map[int]bool{}

		for j := range s.n {
			s.views[i][j+1] = true
		}

		s.nodes[i] = &node{addr: address()}
	}

	for i := range s.n {
		s.start(i + 1)
	}

	s.base = time.Now()

	return s
}

var used atomic.Int64

// address is a loopback address no other node of any test process uses,
// with a port that outgoing connections never take.
func address() string {
	if *wire != "http" {
		return ""
	}

	for {
		i, pid := int(used.Add(1)), os.Getpid()
		a := fmt.Sprintf("127.%d.%d.%d:%d", 1+pid%250, 1+pid/250%250, 1+i/8000%250, 12000+i%8000)

		l, err := (&net.ListenConfig{}).Listen(context.Background(), "tcp", a)
		if err == nil {
			_ = l.Close()

			return a
		}

		if i > 1_000_000 {
			vlib.Fatal(err)
		}
	}
}

func level(s string) backend.ConsistencyLevel {
	switch s {
	case "all":
		return backend.ConsistencyAll
	case "quorum":
		return backend.ConsistencyQuorum
	default:
		return backend.ConsistencyOne
	}
}

func life(ticks int) time.Duration { return time.Duration(2*ticks-1) * tick / 2 }

func (s *sys) start(n int) {
	in := s.init
	ring := cluster.NewRing(cluster.WithReplication(s.r))
	m := cluster.NewMembership(ring)

	for i := range s.n {
		if s.views[n-1][i+1] {
			m.Upsert(s.member(i + 1))
		}
	}

	opts := []backend.DistMemoryOption{
		backend.WithDistMembership(m, s.member(n)),
		backend.WithDistReplication(s.r),
		backend.WithDistWriteConsistency(level(in.Str("wc"))),
		backend.WithDistReadConsistency(level(in.Str("rc"))),
		backend.WithDistParallelReads(*parallel),
		backend.WithDistShardCount(4),
		backend.WithDistMerkleChunkSize(in.Int("chunk")),
		backend.WithDistRebalanceBatchSize(1),
		backend.WithDistRebalanceMaxConcurrent(2),
		backend.WithDistHTTPLimits(backend.DistHTTPLimits{CompressionThreshold: *compress}),
	}

	if in.Bool("hints") {
		ttl := time.Hour
		if t := in.Int("httl"); t > 0 {
			ttl = life(t)
		}

		opts = append(opts, backend.WithDistHintTTL(ttl), backend.WithDistHintMaxPerNode(in.Int("hpn")),
			backend.WithDistHintMaxTotal(in.Int("ht")), backend.WithDistHintMaxBytes(int64(in.Int("hb"))))
	}

	if g := in.Int("grace"); g > 0 {
		opts = append(opts, backend.WithDistRemovalGrace(life(g)))
	}

	if t := in.Int("tttl"); t > 0 {
		opts = append(opts, backend.WithDistTombstoneTTL(life(t)))
	}

	if s.batched {
		opts = append(opts, backend.WithDistReadRepairBatch(*interval, in.Int("batch")))
	}

	var inner backend.DistTransport = s.mem

	if *wire == "http" {
		opts = append(opts, backend.WithDistNode(id(n), s.nodes[n-1].addr))
		inner = backend.NewDistHTTPTransportWithLimits(backend.DistHTTPLimits{CompressionThreshold: *compress, ClientTimeout: 3 * time.Second},
			func(to string) (string, bool) {
				t := num(to)
				if t < 1 || t > s.n {
					return "", false
				}

				return "http://" + s.nodes[t-1].addr, true
			})
	} else {
		opts = append(opts, backend.WithDistTransport(s.mem))
	}

	bi, err := backend.NewDistMemory(context.Background(), opts...)
	if err != nil {
		vlib.Fatal(err)
	}

	dm, ok := bi.(*backend.DistMemory)
	if !ok {
		vlib.Fatal(errors.New("not a DistMemory"))
	}

	if *wire != "direct" {
		dm.SetTransport(&faulty{s: s, me: n, t: inner})
	}

	s.mem.Register(dm)
	s.nodes[n-1].dm = dm
}

func (s *sys) member(n int) *cluster.Node {
	return cluster.NewNode(id(n), s.nodes[n-1].addr)
}

func (s *sys) halt(n int) string {
	nd := s.nodes[n-1]
	if nd.dm == nil {
		return "ok"
	}

	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()

	res := "ok"

	for range 2 {
		if err := nd.dm.Stop(ctx); err != nil {
			res = "error: " + err.Error()
		}
	}

	s.mem.Unregister(id(n))
	nd.dm = nil

	return res
}

// Close stops the nodes.
func (s *sys) Close() {
	for i := range s.n {
		s.halt(i + 1)
	}
}

// Unreliable reports a step that ran too late to be judged.
func (s *sys) Unreliable() bool { return s.late }

func (s *sys) check() {
	if s.timed {
		if d := time.Since(s.base.Add(time.Duration(s.ticks) * tick)); d < 0 || d > slot {
			s.late = true
		}
	}
}

// ------------------------------------------------------------ observation

func text(v int) string { return strings.Repeat("v", v) }

func (s *sys) item(it *cache.Item) map[string]any {
	v := -1

	switch x := it.Value.(type) {
	case string:
		if strings.Trim(x, "v") == "" {
			v = len(x)
		}
	case []byte:
		if strings.Trim(string(x), "v") == "" {
			v = len(x)
		}
	default:
		if str := strings.Trim(fmt.Sprintf("%s", x), `"`); strings.Trim(str, "v") == "" {
			v = len(str)
		}
	}

	return map[string]any{"ver": it.Version, "org": num(it.Origin), "val": v}
}

func none() map[string]any { return map[string]any{"ver": 0, "org": 0, "val": 0} }

func (s *sys) copies() []any {
	out := []any{}

	for _, nd := range s.nodes {
		row := make([]any, len(s.keys))
		for i := range row {
			row[i] = none()
		}

		if nd.dm != nil {
			items, err := nd.dm.List(context.Background())
			if err != nil {
				row = append(row, "error: "+err.Error())
			}

			for _, it := range items {
				known := false

				for i, k := range s.keys {
					if k == it.Key {
						row[i], known = s.item(it), true
					}
				}

				if !known {
					row = append(row, "stray key "+it.Key)
				}
			}
		}

		out = append(out, row)
	}

	return out
}

func (s *sys) each(f func(dm *backend.DistMemory) any, zero any) []any {
	out := []any{}

	for _, nd := range s.nodes {
		if nd.dm == nil {
			out = append(out, zero)
		} else {
			out = append(out, f(nd.dm))
		}
	}

	return out
}

func (s *sys) hints() []any {
	row := func(dm *backend.DistMemory) any {
		r := []any{}
		for i := range s.n {
			r = append(r, dm.HintedQueueSize(id(i+1)))
		}

		return r
	}

	zero := make([]any, s.n)
	for i := range zero {
		zero[i] = 0
	}

	return s.each(row, zero)
}

func (s *sys) hintMetrics() []any {
	return s.each(func(dm *backend.DistMemory) any {
		m := dm.Metrics()

		return map[string]any{"by": m.HintedBytes, "q": m.HintedQueued, "d": m.HintedGlobalDropped, "r": m.HintedReplayed, "e": m.HintedExpired}
	}, map[string]any{"by": 0, "q": 0, "d": 0, "r": 0, "e": 0})
}

func (s *sys) refused() []any {
	return s.each(func(dm *backend.DistMemory) any { return dm.Metrics().WriteApplyRefused }, 0)
}

func (s *sys) coalesced() []any {
	return s.each(func(dm *backend.DistMemory) any { return dm.Metrics().ReadRepairCoalesced }, 0)
}

func (s *sys) batches() []any {
	return s.each(func(dm *backend.DistMemory) any { return dm.Metrics().ReadRepairBatched }, 0)
}

func code(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, sentinel.ErrQuorumFailed):
		return "quorum"
	case errors.Is(err, sentinel.ErrDraining):
		return "draining"
	default:
		return "fail"
	}
}

// settleRepairs waits for the asynchronous flushes the step expects.
func (s *sys) settleRepairs(want []any) {
	for range 200 {
		if vlib.Canon("b", s.batches()) == vlib.Canon("b", want) {
			return
		}

		time.Sleep(2 * time.Millisecond)
	}
}

// ------------------------------------------------------------------ steps

// Do runs one step.
func (s *sys) Do(st vlib.Step) vlib.Obs {
	ctx := context.Background()
	o := vlib.Obs{}

	if st.Op() == "tick" {
		s.ticks++
		time.Sleep(time.Until(s.base.Add(time.Duration(s.ticks) * tick)))
	}

	s.check()

	n := st.Int("n")
	if n < 1 {
		n = 1
	}

	nd := s.nodes[n-1]
	k := ""

	if i := st.Int("k"); i > 0 {
		k = s.keys[i-1]
	}

	switch st.Op() {
	case "set":
		e := code(nd.dm.Set(ctx, &cache.Item{Key: k, Value: text(st.Int("v")), Version: 7, Origin: "n9"}))
		o["d1err"], o["d9err"] = e, e
	case "get":
		got := none()
		if it, ok := nd.dm.Get(ctx, k); ok {
			got = s.item(it)
			if it.Key != k {
				got["val"] = "key " + it.Key
			}
		}

		o["d2x"], o["d9x"] = got, got

		if s.batched {
			s.settleRepairs(st.Exp().List("d14b"))
		}
	case "del":
		e := code(nd.dm.Remove(ctx, k))
		o["d4err"], o["d9err"] = e, e
	case "arrive":
		x := st.Rec("x")
		it := &cache.Item{Key: k, Value: text(x.Int("val")), Version: uint64(x.Int("ver"))}

		if g := x.Int("org"); g > 0 {
			it.Origin = id(g)
		}

		o["d1err"] = code(s.to(n).ForwardSet(ctx, id(n), it, st.Bool("repl")))
	case "arrdel":
		if err := s.to(n).ForwardRemove(ctx, id(n), k, st.Bool("repl")); err != nil {
			o["d3cp"] = err.Error()
		}
	case "replay":
		nd.dm.ReplayHintsForTest(ctx)
	case "sync":
		o["d6err"] = code(nd.dm.SyncWith(ctx, id(st.Int("m"))))
	case "cmp":
		a, b := nd.dm.BuildMerkleTree(), s.nodes[st.Int("m")-1].dm.BuildMerkleTree()
		eq := string(a.Root) == string(b.Root)

		if same := len(a.DiffLeafRanges(b)) == 0 && len(b.DiffLeafRanges(a)) == 0; same != eq {
			o["d6eq"] = fmt.Sprintf("roots equal: %v, no ranges differ: %v", eq, same)
		} else {
			o["d6eq"] = eq
		}
	case "drop":
		nd.dm.DebugDropLocal(k)
	case "link":
		s.mu.Lock()
		s.link[n-1][st.Int("m")-1] = st.Int("l")
		s.mu.Unlock()
	case "heal":
		s.mu.Lock()
		for a := range s.n {
			s.link[a] = make([]int, s.n)
		}
		s.mu.Unlock()
	case "cut":
		s.mu.Lock()
		for a := range s.n {
			for b := range s.n {
				if a != b && (a == n-1 || b == n-1) {
					s.link[a][b] = st.Int("l")
				}
			}
		}
		s.mu.Unlock()
	case "view":
		s.view(n, st.Int("m"), st.Bool("add"))
	case "crash":
		s.halt(n)

		for i := range s.n {
			if i+1 != n {
				s.view(i+1, n, false)
			}
		}
	case "join":
		live := map[int]bool{n: true}
		for i, d := range s.nodes {
			if d.dm != nil {
				live[i+1] = true
			}
		}

		s.views[n-1] = live
		s.start(n)

		for i, d := range s.nodes {
			if d.dm != nil && i+1 != n {
				for j := range s.n {
					s.view(i+1, j+1, live[j+1])
				}
			}
		}
	case "rebalance":
		nd.dm.VerifRebalance(ctx)
	case "settle":
		s.mu.Lock()
		for a := range s.n {
			s.link[a] = make([]int, s.n)
		}
		s.mu.Unlock()

		for range 3 {
			for _, d := range s.nodes {
				if d.dm != nil {
					d.dm.ReplayHintsForTest(ctx)
					d.dm.VerifRebalance(ctx)
				}
			}
		}
	case "drain":
		if *wire == "http" && s.ticks == 0 && n%2 == 1 {
			s.post(nd.addr, "/dist/drain")
		} else if err := nd.dm.Drain(ctx); err != nil {
			o["d9n"] = err.Error()
		}

		if o["d9n"] == nil {
			o["d9n"] = nd.dm.Metrics().Drains
		}

		o["d9is"] = nd.dm.IsDraining()
	case "health":
		o["d9health"] = s.health(nd.addr)
	case "flush":
		if *interval < time.Minute {
			s.settleRepairs(st.Exp().List("d14fb"))
			time.Sleep(time.Millisecond)
		} else {
			nd.dm.VerifFlushRepairs(ctx)
		}

		o["d14fcp"], o["d14fb"] = s.copies(), s.batches()
	case "stop":
		o["d9stop"] = s.halt(n)
	case "compact":
		o["d4p"] = nd.dm.VerifCompactTombstones()
	case "tick":
	default:
		vlib.Fatal(errors.New("unknown op " + st.Op()))
	}

	cp := s.copies()
	for f := range st.Exp() {
		if _, done := o[f]; done {
			continue
		}

		switch f {
		case "d5h", "d7h":
			o[f] = s.hints()
		case "d5m":
			o[f] = s.hintMetrics()
		case "d10ref":
			o[f] = s.refused()
		case "d14c":
			o[f] = s.coalesced()
		case "d14b":
			o[f] = s.batches()
		default:
			if strings.HasSuffix(f, "cp") {
				o[f] = cp
			}
		}
	}

	s.check()

	return o
}

// to is a transport on which anyone can reach node n.
func (s *sys) to(n int) backend.DistTransport {
	if *wire != "http" {
		return s.mem
	}

	return backend.NewDistHTTPTransportWithLimits(backend.DistHTTPLimits{CompressionThreshold: *compress, ClientTimeout: 3 * time.Second},
		func(string) (string, bool) { return "http://" + s.nodes[n-1].addr, true })
}

func (s *sys) view(n, m int, in bool) {
	if n == m || s.views[n-1][m] == in {
		return
	}

	s.views[n-1][m] = in

	if d := s.nodes[n-1].dm; d != nil {
		if in {
			d.Membership().Upsert(s.member(m))
		} else {
			d.Membership().Remove(cluster.NodeID(id(m)))
		}
	}
}

func (s *sys) request(method, addr, path string) int {
	req, err := http.NewRequestWithContext(context.Background(), method, "http://"+addr+path, nil)
	if err != nil {
		return -1
	}

	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		return -1
	}
	defer resp.Body.Close()

	_, _ = io.Copy(io.Discard, resp.Body)

	return resp.StatusCode
}

func (s *sys) post(addr, path string) int { return s.request(http.MethodPost, addr, path) }

func (s *sys) health(addr string) int { return s.request(http.MethodGet, addr, "/health") }

func main() {
	flag.Parse()
	vlib.StepTimeout = 20 * time.Second

	if *wire == "http" {
		warm()
	}

	if vlib.Mode() == "record" {
		record()

		return
	}

	vlib.Replay(build)
}
