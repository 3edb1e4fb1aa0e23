// Command life drives values and lifetimes of copies through a cluster of
// HyperCache nodes over HTTP.
package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"net"
	"os"
	"slices"

	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"

	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
)

const (
	nodes = 3
	ttl   = 750 * time.Millisecond
	tick  = 500 * time.Millisecond
	slack = 120 * time.Millisecond
)

var (
	used     atomic.Int64
	compress = flag.Int("compress", 0, "compression threshold")
	noClock  = flag.Bool("noclock", false, "no lifetimes that end on a tick")
)

// address is a loopback address no other node of any test process uses.
func address() string {
	for {
		i, pid := int(used.Add(1)), os.Getpid()
		a := fmt.Sprintf("127.%d.%d.%d:%d", 1+pid%250, 1+pid/250%250, 1+i/8000%250, 12000+i%8000)

		l, err := (&net.ListenConfig{}).Listen(context.Background(), "tcp", a)
		if err == nil {
			_ = l.Close()

			return a
		}

		if i > 1_000_000 {
			vlib.Fatal(err)
		}
	}
}

type value struct {
	kind string
	n    int
}

type sys struct {
	hcs   []*hypercache.HyperCache[backend.DistMemory]
	addr  []string
	wire  backend.DistTransport
	order map[string][]int // key -> nodes by place
	known map[string]map[string]value
	top   map[string]uint64
	began time.Time
	ticks int
	late  bool
}

func must[T any](v T, err error) T {
	if err != nil {
		vlib.Fatal(err)
	}

	return v
}

func build(init vlib.Step) vlib.System {
	r := init.Int("r")
	s := &sys{order: map[string][]int{}, known: map[string]map[string]value{}, top: map[string]uint64{}}

	for range nodes {
		s.addr = append(s.addr, address())
	}

	for i := range nodes {
		seeds := []string{}

		for j := range nodes {
			if j != i {
				seeds = append(seeds, fmt.Sprintf("n%d@%s", j, s.addr[j]))
			}
		}

		cfg := must(hypercache.NewConfig[backend.DistMemory](constants.DistMemoryBackend))
		cfg.DistMemoryOptions = []backend.DistMemoryOption{
			backend.WithDistNode(fmt.Sprintf("n%d", i), s.addr[i]), backend.WithDistSeeds(seeds), backend.WithDistReplication(r),
			backend.WithDistHTTPLimits(backend.DistHTTPLimits{CompressionThreshold: *compress, ClientTimeout: 5 * time.Second}),
			backend.WithDistWriteConsistency(backend.ConsistencyAll),
		}
		cfg.HyperCacheOptions = append(cfg.HyperCacheOptions, hypercache.WithExpirationInterval[backend.DistMemory](time.Hour),
			hypercache.WithEvictionInterval[backend.DistMemory](time.Hour))
		s.hcs = append(s.hcs, must(hypercache.New(context.Background(), hypercache.GetDefaultManager(), cfg)))
	}

	s.wire = backend.NewDistHTTPTransportWithAuth(backend.DistHTTPLimits{CompressionThreshold: *compress, ClientTimeout: 5 * time.Second},
		backend.DistHTTPAuth{}, func(id string) (string, bool) {
			var i int
			if _, err := fmt.Sscanf(id, "n%d", &i); err != nil {
				return "", false
			}

			return "http://" + s.addr[i], true
		})
	s.began = time.Now()

	return s
}

func (s *sys) Close() {
	for _, h := range s.hcs {
		ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
		_ = h.Stop(ctx)

		cancel()
	}
}

// Unreliable: the clock ran ahead of the ticks.
func (s *sys) Unreliable() bool { return s.late }

func key(k string) string {
	return map[string]string{"k1": "plain-key", "k2": "ключ &?%41/ +#\n\"=;", "raw": "raw\xff\xfe"}[k]
}

// node is the index of the node at a place of the key's ring order.
func (s *sys) node(k string, place int) int {
	o, ok := s.order[k]
	if !ok {
		for _, id := range s.hcs[0].ClusterOwners(key(k)) {
			var i int

			_, _ = fmt.Sscanf(id, "n%d", &i)
			o = append(o, i)
		}

		for i := range nodes {
			if !slices.Contains(o, i) {
				o = append(o, i)
			}
		}

		s.order[k] = o
	}

	return o[place-1]
}

func content(kind string, n int) []byte {
	switch kind {
	case "text":
		return fmt.Appendf(nil, "v%d é", n)
	case "bin":
		return []byte{0xff, 0, byte(n), 0x80, '\n'}
	case "b64":
		return []byte(base64.StdEncoding.EncodeToString(fmt.Appendf(nil, "v%05d", n)))
	case "json":
		return fmt.Appendf(nil, `{"v":%d}`, n)
	case "quoted":
		return fmt.Appendf(nil, `"v%d"`, n)
	case "num":
		return fmt.Appendf(nil, "%d", n)
	case "null":
		return fmt.Appendf(nil, "null%d", n)
	case "big":
		return bytes.Repeat(fmt.Appendf(nil, "v%d<&>", n), 9000)
	case "empty":
		return []byte{}
	}

	vlib.Fatal(errors.New("unknown kind " + kind))

	return nil
}

// asBytes is how the server reads a stored value.
func asBytes(v any) []byte {
	un := func(x string) []byte {
		if len(x) >= 4 && len(x)%4 == 0 {
			if b, err := base64.StdEncoding.DecodeString(x); err == nil && len(b) > 0 {
				return b
			}
		}

		return []byte(x)
	}

	switch x := v.(type) {
	case []byte:
		return x
	case string:
		return un(x)
	case json.RawMessage:
		var t string
		if json.Unmarshal(x, &t) == nil {
			return un(t)
		}

		return x
	}

	return fmt.Appendf(nil, "%T %v", v, v)
}

func (s *sys) label(k string, it *cache.Item) value {
	b := asBytes(it.Value)
	if v, ok := s.known[k][string(b)]; ok {
		return v
	}

	if len(b) > 60 {
		b = b[:60]
	}

	return value{fmt.Sprintf("corrupt: %q", b), 0}
}

func expiration(t string) time.Duration {
	return map[string]time.Duration{"none": 0, "short": ttl, "long": time.Hour, "tiny": 200 * time.Microsecond}[t]
}

// left classifies the time an item still has.
func left(it *cache.Item) int {
	rem := time.Until(it.LastAccess.Add(it.Expiration))

	switch {
	case it.Expiration == 0:
		return 0
	case rem > 59*time.Minute && rem <= time.Hour:
		return 9
	case it.Expiration != ttl:
		return -1
	case rem > ttl-slack-20*time.Millisecond:
		return 2
	default:
		return 1
	}
}

func dead(it *cache.Item) bool {
	return it.Expiration > 0 && time.Since(it.LastAccess) > it.Expiration || it.Expiration > 0 && it.Expiration <= time.Millisecond
}

func (s *sys) live(o vlib.Obs) vlib.Obs {
	out := []any{}

	for i, h := range s.hcs {
		items := must(h.List(context.Background()))

		for _, it := range items {
			if dead(it) {
				continue
			}

			k := "other " + it.Key

			for _, x := range []string{"k1", "k2", "raw"} {
				if key(x) == it.Key {
					k = x
				}
			}

			place := 0

			if _, ok := s.known[k]; ok {
				for p := 1; p <= nodes; p++ {
					if s.node(k, p) == i {
						place = p
					}
				}
			}

			v := s.label(k, it)
			out = append(out, map[string]any{"k": k, "i": place, "kind": v.kind, "n": v.n, "left": left(it)})
		}
	}

	o["live_s"] = out

	if d := time.Since(s.began) - time.Duration(s.ticks)*tick; d > slack && !*noClock {
		s.late = true
	}

	return o
}

func (s *sys) learn(st vlib.Step) []byte {
	k, kind, n := st.Str("k"), st.Str("kind"), st.Int("n")
	b := content(kind, n)

	if s.known[k] == nil {
		s.known[k] = map[string]value{}
	}

	if kind == "empty" {
		n = 0
	}

	s.known[k][string(b)] = value{kind, n}

	return b
}

func (s *sys) highest(k string) uint64 {
	v := s.top[k] // also when it is new

	for _, h := range s.hcs {
		for _, it := range must(h.List(context.Background())) {
			if it.Key == key(k) {
				v = max(v, it.Version)
			}
		}
	}

	s.top[k] = v

	return v
}

// SigOp tells keys that are not text from others.
func (s *sys) SigOp(st vlib.Step) string {
	if st.Str("k") == "raw" {
		return st.Op() + "-raw"
	}

	return st.Op()
}

// Do runs one step.
func (s *sys) Do(st vlib.Step) vlib.Obs {
	ctx := context.Background()
	k := st.Str("k")

	switch st.Op() {
	case "set":
		b := s.learn(st)
		err := s.hcs[s.node(k, st.Int("i"))].Set(ctx, key(k), b, expiration(st.Str("ttl")))
		s.highest(k)

		if st.Str("ttl") == "tiny" {
			time.Sleep(3 * time.Millisecond)
		}

		return s.live(vlib.Obs{"ok": err == nil})
	case "plant":
		b := s.learn(st)
		to := fmt.Sprintf("n%d", s.node(k, st.Int("j")))
		v := s.highest(k) + 1
		s.top[k] = v
		err := s.wire.ForwardSet(ctx, to, &cache.Item{Key: key(k), Value: b, Expiration: expiration(st.Str("ttl")),
			LastAccess: time.Now(), Version: v, Origin: to}, false)

		return s.live(vlib.Obs{"ok": err == nil})
	case "xfer":
		from, to := fmt.Sprintf("n%d", s.node(k, st.Int("i"))), fmt.Sprintf("n%d", s.node(k, st.Int("j")))

		it, ok, err := s.wire.ForwardGet(ctx, from, key(k))
		if err == nil && ok {
			err = s.wire.ForwardSet(ctx, to, it, false)
		}

		o := s.live(vlib.Obs{})
		if err != nil || !ok {
			o["live_s"] = fmt.Sprintf("transfer failed: %v %v", ok, err)
		}

		return o
	case "tick":
		s.ticks++
		time.Sleep(time.Until(s.began.Add(time.Duration(s.ticks) * tick)))

		return s.live(vlib.Obs{})
	case "get":
		it, ok := s.hcs[s.node(k, st.Int("i"))].GetWithInfo(ctx, key(k))
		if !ok {
			return s.live(vlib.Obs{"found": false, "kind": "", "n": 0, "left": 0})
		}

		v := s.label(k, it)

		return s.live(vlib.Obs{"found": true, "kind": v.kind, "n": v.n, "left": left(it)})
	case "pass":
		return s.live(vlib.Obs{"gone": s.pass(st.Int("i") - 1)})
	case "remove":
		err := s.hcs[s.node(k, st.Int("i"))].Remove(ctx, key(k))
		// the delete's own version is above all the deleting node has issued
		for x := range s.top {
			s.top[k] = max(s.top[k], s.highest(x))
		}

		s.top[k] += 100

		return s.live(vlib.Obs{"ok": err == nil})
	}

	vlib.Fatal(errors.New("unknown op " + st.Op()))

	return nil
}

// pass lets a node make expiration passes until none of its copies is expired
// any more, and at least one to the end.
func (s *sys) pass(i int) bool {
	h := s.hcs[i]

	passes := func() int {
		st, ok := h.GetStats()["expiration_loop_duration"]
		if !ok {
			return 0
		}

		return st.Count
	}
	before := passes()

	for end := time.Now().Add(4 * time.Second); time.Now().Before(end); time.Sleep(3 * time.Millisecond) {
		h.TriggerExpiration()
		time.Sleep(time.Millisecond)

		if passes() == before {
			continue
		}

		if !slices.ContainsFunc(must(h.List(context.Background())), (*cache.Item).Expired) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	warm()

	vlib.Parallel = 24
	vlib.Replay(build)
}
