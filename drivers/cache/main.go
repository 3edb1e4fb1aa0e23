// Command cache replays/records behaviours of the cache over the in-memory backend.
package main

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	mnoop "go.opentelemetry.io/otel/metric/noop"
	tnoop "go.opentelemetry.io/otel/trace/noop"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
	"github.com/hyp3rd/hypercache/pkg/middleware"
	"github.com/hyp3rd/hypercache/pkg/stats"
)

// tick is one unit of model time; an item with ttl t lives t-1/2 ticks, and
// every operation has to run within the first part of its tick.
const (
	tick = 60 * time.Millisecond
	slot = 25 * time.Millisecond
)

type marshaled struct{ n int }

func (v *marshaled) MarshalBinary() ([]byte, error) { return make([]byte, v.n), nil }

type broken struct{}

func (*broken) MarshalBinary() ([]byte, error) { return nil, errors.New("no") }

type sized struct{ n int }

func (v *sized) SizeBytes() int { return v.n }

// value v has size v; see TypeOf in the specification.
func value(v int) any {
	switch v {
	case 1, 6, 8:
		return strings.Repeat("s", v)
	case 3:
		return &marshaled{3}
	case 4:
		return &sized{4}
	case 5:
		return 70000 // five bytes of CBOR
	}

	return []byte(strings.Repeat("b", v))
}

func valueID(x any) int {
	switch t := x.(type) {
	case string:
		if t == strings.Repeat("s", len(t)) {
			return len(t)
		}
	case []byte:
		if string(t) == strings.Repeat("b", len(t)) {
			return len(t)
		}
	case *marshaled:
		return t.n
	case *sized:
		return t.n
	case int:
		if t == 70000 {
			return 5
		}
	case nil:
		return 0
	}

	return -1
}

func ttl(t int) time.Duration {
	if t == 0 {
		return 0
	}

	return time.Duration(t)*tick - tick/2
}

func ttlOf(d time.Duration) int {
	if d == 0 {
		return 0
	}

	return int((d + tick/2) / tick)
}

// counter is a statistics collector that remembers the middleware's own records.
type counter struct {
	stats.ICollector

	mu   sync.Mutex
	recs []string
}

func (c *counter) add(s constants.Stat, v int64, dur bool) {
	name := strings.TrimPrefix(string(s), "hypercache_")
	if !dur && v != 1 {
		name = fmt.Sprintf("%s*%d", name, v)
	}

	if dur && (v < 0 || v > int64(time.Minute)) {
		name = fmt.Sprintf("%s=%d", name, v)
	}

	c.mu.Lock()
	c.recs = append(c.recs, name)
	c.mu.Unlock()
}
func (c *counter) Incr(s constants.Stat, v int64)   { c.add(s, v, false) }
func (c *counter) Timing(s constants.Stat, v int64) { c.add(s, v, true) }
func (c *counter) Decr(constants.Stat, int64)       {}
func (c *counter) Gauge(constants.Stat, int64)      {}
func (c *counter) Histogram(constants.Stat, int64)  {}
func (c *counter) GetStats() stats.Stats            { return nil }

func (c *counter) take() []string {
	c.mu.Lock()
	defer c.mu.Unlock()

	r := append([]string{}, c.recs...)
	c.recs = nil

	return r
}

type nolog struct{}

func (nolog) Printf(string, ...any) {}

type sys struct {
	hc    *hypercache.HyperCache[backend.InMemory]
	svc   hypercache.Service
	cnt   *counter
	str   *hypercache.Typed[backend.InMemory, string]
	num   *hypercache.Typed[backend.InMemory, int]
	base  time.Time
	ticks int
	late  bool
	judge bool
}

var wrapOrder int

var wrapMu sync.Mutex

func newCache(init vlib.Step) *hypercache.HyperCache[backend.InMemory] {
	conf := init.Rec("conf")

	cfg, err := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
	if err != nil {
		vlib.Fatal(err)
	}

	interval := time.Hour
	if conf.Bool("imm") {
		interval = 0
	}

	cfg.HyperCacheOptions = []hypercache.Option[backend.InMemory]{
		hypercache.WithEvictionInterval[backend.InMemory](interval),
		hypercache.WithExpirationInterval[backend.InMemory](time.Hour),
		hypercache.WithEvictionAlgorithm[backend.InMemory](conf.Str("algo")),
		hypercache.WithEvictionShardCount[backend.InMemory](1),
		hypercache.WithMaxCacheSize[backend.InMemory](int64(conf.Int("lim"))),
		hypercache.WithMaxEvictionCount[backend.InMemory](uint(conf.Int("mx"))),
	}
	cfg.InMemoryOptions = []backend.Option[backend.InMemory]{backend.WithCapacity[backend.InMemory](conf.Int("cap0"))}

	hc, err := hypercache.New(context.Background(), hypercache.GetDefaultManager(), cfg)
	if err != nil {
		vlib.Fatal(err)
	}

	return hc
}

func newSys(init vlib.Step) vlib.System {
	hc := newCache(init)
	s := &sys{
		hc: hc, svc: hc, str: hypercache.NewTyped[backend.InMemory, string](hc), num: hypercache.NewTyped[backend.InMemory, int](hc),
	}

	if init.Rec("conf").Bool("mw") {
		s.cnt = &counter{}
		wraps := []hypercache.Middleware{
			func(n hypercache.Service) hypercache.Service { return middleware.NewStatsCollectorMiddleware(n, s.cnt) },
			func(n hypercache.Service) hypercache.Service { return middleware.NewLoggingMiddleware(n, nolog{}) },
			func(n hypercache.Service) hypercache.Service {
				return middleware.NewOTelTracingMiddleware(n, tnoop.NewTracerProvider().Tracer("t"))
			},
			func(n hypercache.Service) hypercache.Service {
				w, err := middleware.NewOTelMetricsMiddleware(n, mnoop.NewMeterProvider().Meter("m"))
				if err != nil {
					vlib.Fatal(err)
				}

				return w
			},
		}

		wrapMu.Lock()
		k := wrapOrder
		wrapOrder++
		wrapMu.Unlock()

		order := append(append([]hypercache.Middleware{}, wraps[k%4:]...), wraps[:k%4]...)
		s.svc = hypercache.ApplyMiddleware(hc, order...)
	}

	s.base = time.Now()

	return s
}

func name(k int) string { return fmt.Sprintf("key-%02d", k) }

func index(key string) int {
	var k int
	if _, err := fmt.Sscanf(key, "key-%02d", &k); err != nil || name(k) != key {
		return -1
	}

	return k
}

func code(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, sentinel.ErrCacheFull):
		return "full"
	case errors.Is(err, sentinel.ErrKeyExpired):
		return "expired"
	case errors.Is(err, sentinel.ErrKeyNotFound):
		return "missing"
	case errors.Is(err, sentinel.ErrTypeMismatch):
		return "mismatch"
	case errors.Is(err, sentinel.ErrInvalidKey):
		return "key"
	case errors.Is(err, sentinel.ErrNilValue):
		return "nil"
	case errors.Is(err, sentinel.ErrInvalidExpiration):
		return "neg"
	case errors.Is(err, sentinel.ErrInvalidSize):
		return "size"
	}

	return "other"
}

func names(s vlib.Step) []string {
	var out []string
	for _, k := range s.List("ks") {
		out = append(out, name(int(k.(float64))))
	}

	return out
}

func (s *sys) Unreliable() bool { return s.late && !s.judge }

func (s *sys) check() {
	if d := time.Since(s.base.Add(time.Duration(s.ticks) * tick)); d < 0 || d > slot {
		s.late = true
	}
}

// list returns the items as the specification shows them and, if asked, the
// sort field's values in order.
func (s *sys) items(items []*cache.Item, field string) (list, vals []any) {
	list, vals = []any{}, []any{}

	for _, it := range items {
		k := index(it.Key)
		list = append(list, map[string]any{
			"k": k, "v": valueID(it.Value), "ttl": ttlOf(it.Expiration), "n": it.AccessCount, "size": it.Size,
		})

		switch field {
		case "Key":
			vals = append(vals, k)
		case "Size":
			vals = append(vals, it.Size)
		case "LastAccess":
			vals = append(vals, int(math.Floor(float64(it.LastAccess.Sub(s.base))/float64(tick))))
		case "AccessCount":
			vals = append(vals, it.AccessCount)
		case "Expiration":
			vals = append(vals, ttlOf(it.Expiration))
		}
	}

	return list, vals
}

func pairs[V any](m map[string]V, f func(V) any) []any {
	out := []any{}
	for k, v := range m {
		out = append(out, []any{index(k), f(v)})
	}

	return out
}

func errPairs(m map[string]error) []any {
	return pairs(m, func(e error) any { return code(e) })
}

func (s *sys) Do(st vlib.Step) vlib.Obs {
	o := vlib.Obs{}
	ctx := context.Background()

	if st.Op() == "tick" {
		s.ticks++
		time.Sleep(time.Until(s.base.Add(time.Duration(s.ticks) * tick)))
	}

	runs := ""
	if st.Op() == "evict" || st.Op() == "setcap" && s.hc.Count(ctx) > st.Int("c") {
		runs = "eviction_loop_duration"
	} else if st.Op() == "purge" {
		runs = "expiration_loop_duration"
	}

	before := s.runs(runs)

	s.check()
	s.do(ctx, st, o)

	// a background run that was asked for has to be over before the next step
	for deadline := time.Now().Add(200 * time.Millisecond); runs != "" && s.runs(runs) == before && time.Now().Before(deadline); {
		time.Sleep(20 * time.Microsecond)
	}

	s.check()

	exp := st.Exp()
	for deadline := time.Now().Add(2 * time.Second); s.hc.Count(ctx) != exp.Int("count") || int(s.hc.Allocation()) != exp.Int("alloc"); {
		if s.Unreliable() {
			return o
		}

		if time.Now().After(deadline) { // time cannot mend this: nothing more is purged or evicted unasked
			s.judge = true

			break
		}

		time.Sleep(50 * time.Microsecond)
	}

	all, err := s.hc.List(ctx)
	if err != nil {
		o["err"] = "list failed"
	}

	keys := []int{}
	for _, it := range all {
		keys = append(keys, index(it.Key))
	}

	sort.Ints(keys)

	o["count"], o["alloc"], o["keys_s"] = s.hc.Count(ctx), s.hc.Allocation(), keys

	if s.cnt != nil {
		o["rec_s"] = s.cnt.take()
	}

	s.check()

	return o
}

// runs counts the background runs completed, as the statistics tell.
func (s *sys) runs(stat string) int {
	if stat == "" {
		return 0
	}

	if st := s.hc.GetStats()[stat]; st != nil {
		return st.Count
	}

	return 0
}

func (s *sys) do(ctx context.Context, st vlib.Step, o vlib.Obs) {
	k, v := name(st.Int("k")), st.Int("v")

	switch st.Op() {
	case "set":
		o["err"] = code(s.svc.Set(ctx, k, value(v), ttl(st.Int("ttl"))))
	case "gos":
		got, err := s.svc.GetOrSet(ctx, k, value(v), ttl(st.Int("ttl")))
		o["got"], o["err"] = valueID(got), code(err)
	case "bad":
		var val any = value(1)

		d := time.Duration(0)

		switch st.Str("kind") {
		case "key":
			k = ""
		case "blank":
			k = " \t "
		case "nil":
			val = nil
		case "neg":
			d = -time.Second
		case "size":
			val = &broken{}
		}

		var err error
		if st.Str("call") == "set" {
			err = s.svc.Set(ctx, k, val, d)
		} else {
			var got any
			if got, err = s.svc.GetOrSet(ctx, k, val, d); got != nil {
				o["got"] = "a value"
			}
		}

		o["err"] = code(err)
		if st.Str("kind") == "blank" && o["err"] == "key" {
			o["err"] = "blank"
		}
	case "get":
		got, ok := s.svc.Get(ctx, k)
		o["got"] = found(got, ok)
	case "info":
		it, ok := s.svc.GetWithInfo(ctx, k)
		if !ok || it == nil {
			o["got"], o["info"] = found(nil, ok), []any{}

			break
		}

		o["got"] = found(it.Value, ok)
		o["info"] = map[string]any{"k": index(it.Key), "ttl": ttlOf(it.Expiration), "n": it.AccessCount, "size": it.Size}
	case "getm":
		hits, failed := s.svc.GetMultiple(ctx, names(st)...)
		o["hits_s"] = pairs(hits, func(x any) any { return valueID(x) })
		o["failed_s"] = errPairs(failed)
	case "rm":
		o["err"] = code(s.svc.Remove(ctx, names(st)...))
	case "clear":
		o["err"] = code(s.svc.Clear(ctx))
	case "setcap":
		s.hc.SetCapacity(ctx, st.Int("c"))
		o["cap"] = s.svc.Capacity()
	case "evict":
		s.svc.TriggerEviction(ctx)
	case "purge":
		s.hc.TriggerExpiration()
	case "list":
		s.list(ctx, st, o)
	case "tset":
		if st.Str("w") == "string" {
			o["err"] = code(s.str.Set(ctx, k, value(v).(string), ttl(st.Int("ttl"))))
		} else {
			o["err"] = code(s.num.Set(ctx, k, value(v).(int), ttl(st.Int("ttl"))))
		}
	case "tget":
		if st.Str("w") == "string" {
			tget(ctx, s.str, st.Str("call"), k, o)
		} else {
			tget(ctx, s.num, st.Str("call"), k, o)
		}
	case "tgos":
		if st.Str("w") == "string" {
			tgos(ctx, s.str, k, value(v).(string), o)
		} else {
			tgos(ctx, s.num, k, value(v).(int), o)
		}
	case "tgetm":
		if st.Str("w") == "string" {
			hits, failed := s.str.GetMultiple(ctx, names(st)...)
			o["hits_s"], o["failed_s"] = pairs(hits, func(x string) any { return valueID(x) }), errPairs(failed)
		} else {
			hits, failed := s.num.GetMultiple(ctx, names(st)...)
			o["hits_s"], o["failed_s"] = pairs(hits, func(x int) any { return valueID(x) }), errPairs(failed)
		}
	}
}

func found(x any, ok bool) any {
	if !ok {
		if x != nil {
			return "a value with a miss"
		}

		return 0
	}

	return valueID(x)
}

// zero shows a typed result: 0 for the zero value of a failed call.
func typed[V comparable](x V, bad bool) any {
	var zero V
	if bad {
		if x != zero {
			return "a value with a failure"
		}

		return 0
	}

	return valueID(x)
}

func tget[V comparable](ctx context.Context, t *hypercache.Typed[backend.InMemory, V], call, k string, o vlib.Obs) {
	switch call {
	case "ok":
		x, ok := t.Get(ctx, k)
		o["got"], o["code"] = typed(x, !ok), yes(ok)
	case "err":
		x, err := t.GetTyped(ctx, k)
		o["got"], o["code"] = typed(x, err != nil), code(err)
	case "info":
		it, x, ok := t.GetWithInfo(ctx, k)
		o["got"], o["code"] = typed(x, !ok), yes(ok)

		if ok && (it == nil || it.Key != k || valueID(it.Value) != valueID(x)) || !ok && it != nil {
			o["got"] = "item does not go with the value"
		}
	}
}

func yes(ok bool) string {
	if ok {
		return ""
	}

	return "no"
}

func tgos[V comparable](ctx context.Context, t *hypercache.Typed[backend.InMemory, V], k string, v V, o vlib.Obs) {
	x, err := t.GetOrSet(ctx, k, v, 0)
	o["got"], o["code"] = typed(x, err != nil), code(err)
}

func (s *sys) list(ctx context.Context, st vlib.Step, o vlib.Obs) {
	var fs []backend.IFilter

	keep := backend.WithFilterFunc(func(it *cache.Item) bool {
		switch st.Str("sel") {
		case "big":
			return it.Size >= 3
		case "odd":
			return index(it.Key)%2 == 1
		case "used":
			return it.AccessCount > 0
		}

		return true
	})

	if st.Bool("first") && st.Str("sel") != "all" {
		fs = append(fs, keep)
	}

	if f := st.Str("f"); f != "" {
		fs = append(fs, backend.WithSortBy(f))
		if !st.Bool("asc") || st.Bool("first") {
			fs = append(fs, backend.WithSortOrderAsc(st.Bool("asc")))
		}
	}

	if !st.Bool("first") && st.Str("sel") != "all" {
		fs = append(fs, keep)
	}

	items, err := s.svc.List(ctx, fs...)

	o["err"] = code(err)
	if st.Str("f") == "bogus" && err != nil {
		o["err"] = "field"
	}

	o["list_s"], o["vals"] = s.items(items, st.Str("f"))
}

func (s *sys) Close() { _ = s.hc.Stop(context.Background()) }

func record(expiring bool) {
	w := vlib.NewTraceWriter()
	defer w.Close()

	for round := range vlib.Rounds() {
		r := vlib.Rand(int64(round))
		nk := 2 + r.Intn(2)
		lim, capacity := 0, 100

		if !expiring && r.Intn(3) == 0 {
			lim = 6 + r.Intn(6)
		}

		if !expiring && (r.Intn(3) == 0 || os.Getenv("CAPPED") != "") {
			capacity = 1 + r.Intn(2)
		}

		conf := map[string]any{"cap0": float64(capacity), "lim": float64(lim), "mx": float64(0), "algo": "lru", "imm": true, "mw": false}
		s := newSys(vlib.Step{"op": "init", "conf": conf}).(*sys)
		rec := &vlib.Recorder{}

		var wg sync.WaitGroup

		start := make(chan struct{})
		kinds := []string{"set", "set", "gos", "gos", "get", "info", "rm", "getm", "clear"}
		dead := []any{}

		if expiring { // the keys hold expired items when the race begins
			kinds = []string{"set", "gos", "get", "getm", "purge", "purge"}

			for k := range nk {
				if r.Intn(4) > 0 {
					dead = append(dead, k+1)
					_ = s.hc.Set(context.Background(), name(k+1), value(1), time.Millisecond)
				}
			}

			time.Sleep(2 * time.Millisecond)
		}

		for t := range 2 + r.Intn(2) {
			ops := []vlib.Step{}
			for range 2 + r.Intn(3) {
				o := vlib.Step{"op": kinds[r.Intn(len(kinds))], "k": float64(1 + r.Intn(nk)), "v": float64(1 + r.Intn(7))}
				if o.Op() == "rm" || o.Op() == "getm" {
					// Distinct keys: the code handles each occurrence of a
					// repeated key on its own, the specification a set.
					o["ks"] = []any{o["k"]}
					if k2 := float64(1 + r.Intn(nk)); k2 != o["k"] {
						o["ks"] = []any{o["k"], k2}
					}
				}

				ops = append(ops, o)
			}

			wg.Go(func() {
				<-start

				for j, o := range ops {
					id := t*10 + j + 1
					call := map[string]any{"c": id, "o": o}
					rec.Add(call)

					b := vlib.Obs{}
					s.do(context.Background(), o, b)
					delete(b, "info")
					call["b"] = b
					rec.Add(map[string]any{"r": id})
				}
			})
		}

		close(start)
		wg.Wait()

		if expiring { // a trigger from now on has to purge whatever is left
			left := func() bool {
				items, _ := s.hc.List(context.Background(), backend.WithFilterFunc((*cache.Item).Expired))

				return len(items) > 0
			}

			s.hc.TriggerExpiration()

			for deadline := time.Now().Add(time.Second); left() && time.Now().Before(deadline); {
				time.Sleep(50 * time.Microsecond)
			}
		}

		items, _ := s.hc.List(context.Background())
		list, _ := s.items(items, "")
		short := []any{}
		size := int64(0)

		for i, it := range items {
			e := list[i].(map[string]any)
			short = append(short, []any{e["k"], e["v"]})
			size += it.Size
		}

		rec.Add(map[string]any{"end": 1, "all": short, "count": s.hc.Count(context.Background()), "alloc": s.hc.Allocation(), "size": size})

		tr := []any{map[string]any{"op": "init", "lim": lim, "cap": capacity, "dead": dead}}
		for _, e := range rec.Ev {
			tr = append(tr, e)
		}

		w.Add(tr)
		s.Close()
	}
}

// orphans shows histories in which the eviction algorithm forgets keys the
// cache still holds.
func orphans() {
	ctx := context.Background()
	rep := vlib.Report{}
	mk := func(capacity int, opts ...hypercache.Option[backend.InMemory]) *hypercache.HyperCache[backend.InMemory] {
		cfg, err := hypercache.NewConfig[backend.InMemory](constants.InMemoryBackend)
		if err != nil {
			vlib.Fatal(err)
		}

		cfg.HyperCacheOptions = append([]hypercache.Option[backend.InMemory]{hypercache.WithEvictionAlgorithm[backend.InMemory]("lru")}, opts...)
		cfg.InMemoryOptions = []backend.Option[backend.InMemory]{backend.WithCapacity[backend.InMemory](capacity)}

		hc, err := hypercache.New(ctx, hypercache.GetDefaultManager(), cfg)
		if err != nil {
			vlib.Fatal(err)
		}

		return hc
	}
	put := func(hc *hypercache.HyperCache[backend.InMemory], from, n int) (lost int) {
		for k := from; k < from+n; k++ {
			if err := hc.Set(ctx, name(k), "v", 0); err != nil {
				vlib.Fatal(err)
			}

			if _, ok := hc.Get(ctx, name(k)); !ok {
				lost++
			}
		}

		return lost
	}
	bad := func(sig, what string) {
		rep.Mismatches = append(rep.Mismatches, vlib.Mismatch{Sig: sig, Summary: what})
	}

	{
		hc := mk(64, hypercache.WithEvictionInterval[backend.InMemory](0))
		put(hc, 1, 64)

		put(hc, 65, 3000)

		stay := 0
		for k := 1; k <= 64; k++ {
			if _, ok := hc.Get(ctx, name(k)); ok {
				stay++
			}
		}

		if stay > 0 {
			bad("orphans:sharded", fmt.Sprintf("default 32 eviction shards, capacity 64: of the first 64 keys %d, never used again, outlive 3000 newer ones", stay))
		}

		_ = hc.Stop(ctx)
	}

	{
		hc := mk(2, hypercache.WithEvictionInterval[backend.InMemory](0), hypercache.WithEvictionShardCount[backend.InMemory](1))
		put(hc, 1, 2)
		hc.SetCapacity(ctx, 4)
		put(hc, 3, 2)
		hc.SetCapacity(ctx, 2)

		for deadline := time.Now().Add(2 * time.Second); hc.Count(ctx) > 2 && time.Now().Before(deadline); {
			time.Sleep(time.Millisecond)
		}

		_, c := hc.Get(ctx, name(3))
		_, d := hc.Get(ctx, name(4))

		if !c || !d {
			bad("orphans:raised", "capacity 2 raised to 4, two more keys, lowered to 2: the newer keys were evicted, the oldest kept")
		}

		_ = hc.Stop(ctx)
	}

	{
		hc := mk(2, hypercache.WithEvictionInterval[backend.InMemory](5*time.Millisecond), hypercache.WithEvictionShardCount[backend.InMemory](1))
		put(hc, 1, 8)

		for deadline := time.Now().Add(time.Second); hc.Count(ctx) > 2 && time.Now().Before(deadline); {
			time.Sleep(time.Millisecond)
		}

		if n := hc.Count(ctx); n > 2 {
			bad("orphans:background", fmt.Sprintf("capacity 2 with periodic eviction: of 8 keys stored between two runs %d stay for ever", n))
		}

		_ = hc.Stop(ctx)
	}

	vlib.Emit(rep)
}

func main() {
	flag.Parse()

	if vlib.Mode() == "orphans" {
		orphans()

		return
	}

	if vlib.Mode() == "record" {
		record(os.Getenv("EXPIRING") != "")
		vlib.Emit(map[string]any{})

		return
	}

	vlib.Parallel = 48
	vlib.Replay(newSys)
}
