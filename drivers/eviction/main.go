// Command eviction replays/records eviction-algorithm behaviours.
package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
	"github.com/hyp3rd/hypercache/pkg/eviction"
)

type sys struct {
	alg   eviction.IAlgorithm
	names []string // names[k-1] is model key k
	back  map[string]int
}

func build(algo string, capacity int) (eviction.IAlgorithm, error) {
	switch algo {
	case "lru":
		return eviction.NewLRUAlgorithm(capacity)
	case "lfu":
		return eviction.NewLFUAlgorithm(capacity)
	case "clock":
		return eviction.NewClockAlgorithm(capacity)
	case "cawolfu":
		return eviction.NewCAWOLFU(capacity)
	case "arc":
		return eviction.NewARCAlgorithm(capacity)
	}

	return nil, fmt.Errorf("unknown algorithm %s", algo)
}

var (
	namesMu  sync.Mutex
	namesFor = map[string][]string{}
)

// names finds n keys of which key k lives in shard (k-1)%ns: two keys share a
// shard iff storing one displaces the other in a router of one-slot shards.
func names(n, ns int) []string {
	namesMu.Lock()
	defer namesMu.Unlock()

	id := fmt.Sprint(n, "/", ns)
	if l, ok := namesFor[id]; ok {
		return l
	}

	out := make([]string, n)
	for k := range out {
		out[k] = fmt.Sprintf("key-%d", k+1)
	}

	if ns > 1 {
		same := func(a, b string) bool {
			r, err := eviction.NewSharded("lru", ns, ns)
			if err != nil {
				vlib.Fatal(err)
			}

			r.Set(a, 1)
			r.Set(b, 2)
			_, still := r.Get(a)

			return !still
		}

		for k := range out {
			for j := range 500 {
				c := fmt.Sprintf("key-%d-%d", k+1, j)
				if k >= ns {
					if !same(out[k-ns], c) {
						continue
					}
				} else {
					clash := false
					for x := range k {
						clash = clash || same(out[x], c)
					}

					if clash {
						continue
					}
				}

				out[k] = c

				break
			}
		}
	}

	namesFor[id] = out

	return out
}

func newSys(init vlib.Step) vlib.System {
	capacity, ns := init.Int("cap"), init.Int("ns")

	var (
		a   eviction.IAlgorithm
		err error
	)

	if ns == 0 {
		a, err = build(init.Str("algo"), capacity)
	} else {
		total := capacity * ns
		if capacity > 0 { // any total that rounds up to the same shard capacity
			total -= init.Int("keys") % ns
		}

		a, err = eviction.NewSharded(init.Str("algo"), total, ns)
	}

	if err != nil {
		vlib.Fatal(err)
	}

	s := &sys{alg: a, names: names(init.Int("keys"), ns), back: map[string]int{}}
	for i, n := range s.names {
		s.back[n] = i + 1
	}

	return s
}

func (s *sys) evict() (int, bool) {
	key, ok := s.alg.Evict()
	if !ok {
		return 0, false
	}

	if k, known := s.back[key]; known {
		return k, true
	}

	return -1, true
}

func (s *sys) Do(st vlib.Step) vlib.Obs {
	o := vlib.Obs{}

	switch st.Op() {
	case "set":
		s.alg.Set(s.names[st.Int("k")-1], st.Int("v"))
	case "get":
		v, ok := s.alg.Get(s.names[st.Int("k")-1])
		n, isInt := v.(int)

		if ok != isInt || (!ok && v != nil) {
			n = -1
		}

		o["got"] = map[string]any{"ok": ok, "v": n}
	case "del":
		s.alg.Delete(s.names[st.Int("k")-1])
	case "evict":
		k, _ := s.evict()
		o["key"] = k
	case "drain":
		order := []int{}

		for len(order) < 3*len(s.names) {
			k, ok := s.evict()
			if !ok {
				break
			}

			order = append(order, k)
		}

		o["order"] = order
	}

	if l, ok := s.alg.(interface{ Len() int }); ok {
		o["len"] = l.Len()
	}

	return o
}

func (s *sys) Close() {}

// record runs short concurrent scenarios.
func record() {
	w := vlib.NewTraceWriter()
	defer w.Close()

	algos := strings.Split(os.Getenv("ALGOS"), ",")

	for round := range vlib.Rounds() {
		rng := vlib.Rand(int64(round))
		algo := algos[round%len(algos)]

		ns := 0
		if algo != "arc" && (round/len(algos))%3 == 0 {
			ns = 2
		}

		capacity := 1 + rng.Intn(2)
		init := vlib.Step{"op": "init", "algo": algo, "cap": float64(capacity), "ns": float64(ns), "keys": float64(4)}
		s := newSys(init).(*sys)
		rec := &vlib.Recorder{}

		var (
			wg    sync.WaitGroup
			start = make(chan struct{})
		)

		threads := 3
		for t := range threads {
			var ops []vlib.Step
			for range 3 {
				o := vlib.Step{"k": float64(1 + rng.Intn(4)), "v": float64(1 + rng.Intn(3))}

				switch x := rng.Intn(10); {
				case x < 4:
					o["op"] = "set"
				case x < 7:
					o["op"] = "get"
				case x < 8:
					o["op"] = "del"
				default:
					o["op"] = "evict"
					if ns > 0 { // the router's Evict visits its shards one by one
						o["op"] = "get"
					}
				}

				ops = append(ops, o)
			}

			wg.Go(func() {
				<-start

				for j, o := range ops {
					id := t*10 + j + 1
					call := map[string]any{"c": id, "o": o}
					rec.Add(call)
					b := s.Do(o)
					delete(b, "len")
					call["b"] = b
					rec.Add(map[string]any{"r": id})
				}
			})
		}

		close(start)
		wg.Wait()

		tr := []any{init}
		for _, e := range rec.Ev {
			tr = append(tr, e)
		}

		drain := vlib.Step{"op": "drain"}
		drain["obs"] = s.Do(drain)
		w.Add(append(tr, drain))
	}
}

func main() {
	flag.Parse()

	if vlib.Mode() == "record" {
		record()
		vlib.Emit(map[string]any{})

		return
	}

	vlib.LogInit = true
	vlib.Replay(newSys)
}
