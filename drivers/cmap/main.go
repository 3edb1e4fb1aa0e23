// Command cmap replays/records concurrent-map behaviours.
package main

import (
	"flag"
	"fmt"
	"sync"

	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

type sys struct {
	m     cache.ConcurrentMap
	names []string
	back  map[string]int
	ptr   map[int]*cache.Item // the item stored last under each id
	mu    sync.Mutex
}

// keys 1 and 2 share a shard, and so do 3 and 4, ...; pairs differ.
func names(m *cache.ConcurrentMap, n int) []string {
	out := []string{""}
	odd := []string{"k 1", "ключ", "\x00\xff", "a/b?c"}

	for k := 1; k < n; k++ {
		for j := range 5000 {
			c := fmt.Sprintf("key-%d-%d", k, j)
			if k < len(odd)+1 {
				c = odd[k-1] + fmt.Sprint(j)
			}

			if k%2 == 1 && m.GetShard(c) != m.GetShard(out[k-1]) {
				continue
			}

			if k%2 == 0 && m.GetShard(c) == m.GetShard(out[k-1]) {
				continue
			}

			out = append(out, c)

			break
		}
	}

	if len(out) < n {
		vlib.Fatal(fmt.Errorf("keys do not spread over the shards"))
	}

	return out
}

func newSys(init vlib.Step) vlib.System {
	s := &sys{m: cache.New(), back: map[string]int{}, ptr: map[int]*cache.Item{}}
	s.names = names(&s.m, init.Int("keys"))

	for i, n := range s.names {
		s.back[n] = i + 1
	}

	return s
}

// id is the id of the stored item, -1 when it is not the stored item itself.
func id(it *cache.Item, ok bool) int {
	if ok != (it != nil) {
		return -2
	}

	if it == nil {
		return 0
	}

	n, good := it.Value.(int)
	if !good {
		return -1
	}

	return n
}

func (s *sys) all(stop int) []any {
	out := []any{}

	s.m.All()(func(k string, v *cache.Item) bool {
		n, known := s.back[k]
		if !known {
			n = -1
		}

		out = append(out, map[string]any{"k": n, "id": id(v, true), "acc": int(v.AccessCount)})

		return len(out) != stop
	})

	return out
}

func (s *sys) do(st vlib.Step) vlib.Obs {
	key := ""
	if k := st.Int("k"); k > 0 {
		key = s.names[k-1]
	}

	switch st.Op() {
	case "set":
		it := &cache.Item{Key: key, Value: st.Int("id")}
		s.mu.Lock()
		s.ptr[st.Int("id")] = it
		s.mu.Unlock()
		s.m.Set(key, it)

		return vlib.Obs{"done": true}
	case "get":
		it, ok := s.m.Get(key)

		return vlib.Obs{"id": id(it, ok)}
	case "pop":
		it, ok := s.m.Pop(key)

		return vlib.Obs{"id": id(it, ok)}
	case "copy":
		it, ok := s.m.GetCopy(key)
		o := vlib.Obs{"id": id(it, ok), "acc": 0}

		if it != nil {
			o["acc"] = int(it.AccessCount)
			it.Value = -7 // the copy is the caller's
			it.AccessCount = 999
		}

		return o
	case "has":
		return vlib.Obs{"ok": s.m.Has(key)}
	case "touch":
		return vlib.Obs{"ok": s.m.Touch(key)}
	case "remove":
		s.m.Remove(key)

		return vlib.Obs{"done": true}
	case "clear":
		s.m.Clear()

		return vlib.Obs{"done": true}
	case "all":
		return vlib.Obs{"all": s.all(0)}
	case "some":
		return vlib.Obs{"seen": len(s.all(st.Int("n")))}
	}

	return vlib.Obs{}
}

func (s *sys) Do(st vlib.Step) vlib.Obs {
	o := s.do(st)
	o["count"] = s.m.Count()
	o["all_s"] = s.all(0)

	return o
}

func (s *sys) Close() {}

func record() {
	w := vlib.NewTraceWriter()
	defer w.Close()

	for round := range vlib.Rounds() {
		rng := vlib.Rand(int64(round))
		s := newSys(vlib.Step{"keys": float64(3)}).(*sys)
		rec := &vlib.Recorder{}

		var wg sync.WaitGroup

		start := make(chan struct{})

		for t := range 3 {
			var ops []vlib.Step

			for j := range 4 {
				o := vlib.Step{"k": float64(1 + rng.Intn(1+round%3))}

				switch x := rng.Intn(20); {
				case x < 6:
					o["op"], o["id"] = "set", float64(t*10+j+1)
				case x < 8:
					o["op"] = "get"
				case x < 10:
					o["op"] = "copy"
				case x < 13:
					o["op"] = "touch"
				case x < 14:
					o["op"] = "has"
				case x < 16:
					o["op"] = "pop"
				case x < 18:
					o["op"] = "remove"
				case x < 19:
					o["op"] = "clear"
				default:
					o["op"] = "all"
				}

				ops = append(ops, o)
			}

			wg.Go(func() {
				<-start

				for j, o := range ops {
					n := t*10 + j + 1
					call := map[string]any{"c": n, "o": o}
					rec.Add(call)
					call["b"] = s.do(o)
					rec.Add(map[string]any{"r": n})
				}
			})
		}

		close(start)
		wg.Wait()

		tr := []any{}
		for _, e := range rec.Ev {
			tr = append(tr, e)
		}

		w.Add(append(tr, map[string]any{"end": true, "all": s.all(0), "count": s.m.Count()}))
	}
}

func main() {
	flag.Parse()

	if vlib.Mode() == "record" {
		record()
		vlib.Emit(map[string]any{})

		return
	}

	vlib.Replay(newSys)
}
