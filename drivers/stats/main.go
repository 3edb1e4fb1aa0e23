// Command stats replays/records statistics-collector behaviours.
package main

import (
	"flag"
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"

	"github.com/hyp3rd/hypercache/internal/constants"
	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
	"github.com/hyp3rd/hypercache/pkg/stats"
)

type collector interface {
	stats.ICollector
	Mean(stat constants.Stat) float64
	Median(stat constants.Stat) float64
	Percentile(stat constants.Stat, p float64) float64
}

var pcts = []float64{-1, 0, 0.125, 0.25, 0.5, 0.75, 0.875, 0.9375, 1, 1.5}

type sys struct {
	c    collector
	unit int
}

func (s *sys) mul(v int) int64 { return int64(v) << s.unit }

// near echoes the model's value when the real one is that value (in units).
func near(got, want, unit float64) bool {
	return math.Abs(got-want*unit) <= 1e-9*math.Max(math.Abs(want*unit), unit)
}

func call(c stats.ICollector, how string, st constants.Stat, v int64) {
	switch how {
	case "incr":
		c.Incr(st, v)
	case "decr":
		c.Decr(st, v)
	case "timing":
		c.Timing(st, v)
	case "gauge":
		c.Gauge(st, v)
	default:
		c.Histogram(st, v)
	}
}

func (s *sys) div(v int64) any {
	q := v >> s.unit
	if q<<s.unit != v {
		return fmt.Sprintf("%d (not a multiple of the unit)", v)
	}

	return q
}

func expFor(l []any, name string) vlib.Step {
	for _, x := range l {
		m := vlib.Step(x.(map[string]any))
		if m.Str("s") == name {
			return m
		}
	}

	return vlib.Step{}
}

func (s *sys) lifeOf(name string, st *stats.Stat, e vlib.Step) map[string]any {
	m := map[string]any{"s": name, "count": st.Count, "min": s.div(st.Min), "max": s.div(st.Max)}
	u := math.Ldexp(1, s.unit)
	sum := e.Int("sum")

	if s.unit > 55 && (sum > 3 || sum < -4) { // the true sum is not an int64
		m["sum"] = e["sum"]

		return m
	}

	m["sum"] = s.div(st.Sum)

	want := 0.0
	if e.Int("count") > 0 {
		want = float64(sum) / float64(e.Int("count"))
	}

	if !near(st.Mean, want, u) {
		m["mean"] = st.Mean / u
	}

	if x := s.c.Mean(constants.Stat(name)); !near(x, want, u) {
		m["mean()"] = x / u
	}

	return m
}

func (s *sys) Do(st vlib.Step) vlib.Obs {
	call(s.c, st.Str("how"), constants.Stat(st.Str("s")), s.mul(st.Int("v")))

	exp := st.Exp()
	life, win := []any{}, []any{}
	u := math.Ldexp(1, s.unit)

	// readers first, twice: they must not disturb anything
	for _, x := range exp.List("win_s") {
		name := vlib.Step(x.(map[string]any)).Str("s")
		_ = s.c.Percentile(constants.Stat(name), 0.5)
		_ = s.c.Median(constants.Stat(name))
	}

	for _, g := range s.c.GetStats() {
		for i := range g.Values {
			g.Values[i] = 12345
		}
	}

	all := s.c.GetStats()
	for name, g := range all {
		life = append(life, s.lifeOf(name, g, expFor(exp.List("life_s"), name)))
	}

	for _, x := range exp.List("win_s") {
		e := vlib.Step(x.(map[string]any))
		name := e.Str("s")
		k := constants.Stat(name)
		m := map[string]any{"s": name}

		vals := []any{}
		med, varn := 0.0, 0.0

		if g := all[name]; g != nil {
			for _, v := range g.Values {
				vals = append(vals, s.div(v))
			}

			med, varn = g.Median, g.Variance
		}

		m["values"] = vals

		m["med2"] = e["med2"]
		if want := float64(e.Int("med2")) / 2; !near(med, want, u) || !near(s.c.Median(k), want, u) {
			m["med2"] = fmt.Sprint(2*med/u, " ", 2*s.c.Median(k)/u)
		}

		n := float64(max(len(e.List("values")), 1))
		m["varnum"] = e["varnum"]
		if want := float64(e.Int("varnum")) / n / n; !near(varn, want, u*u) {
			m["varnum"] = varn / u / u * n * n
		}

		ps := []any{}
		for i, p := range pcts {
			w := e.List("pcts")[i]
			if got := s.c.Percentile(k, p); !near(got, w.(float64), u) {
				w = fmt.Sprint(got/u, " for p=", p)
			}

			ps = append(ps, w)
		}

		m["pcts"] = ps
		win = append(win, m)
	}

	return vlib.Obs{"life_s": life, "win_s": win}
}

func (s *sys) Close() {}

func record() {
	w := vlib.NewTraceWriter()
	rng := vlib.Rand(5)
	hows := []string{"incr", "decr", "timing", "gauge", "histogram"}
	names := []string{"s1", "s2", "s3"}

	for round := range vlib.Rounds() {
		runtime.GOMAXPROCS([]int{2, 4, 8}[round%3])
		c := stats.NewHistogramStatsCollectorWithCapacity(4)
		tr := []map[string]any{}

		type job struct {
			s, how string
			v, c   int
		}

		jobs := make([][]job, 3+rng.Intn(6))
		reps := 1
		if round%5 == 0 {
			reps = 300
		}

		for t := range jobs {
			for range 1 + rng.Intn(3) {
				j := job{names[rng.Intn(1+rng.Intn(3))], hows[rng.Intn(5)], rng.Intn(15) - 7, reps}
				jobs[t] = append(jobs[t], j)
				tr = append(tr, map[string]any{"e": "rec", "s": j.s, "how": j.how, "v": j.v, "c": j.c})
			}
		}

		var wg sync.WaitGroup

		start := make(chan struct{})
		stop := make(chan struct{})

		var rd sync.WaitGroup

		rd.Add(1)
		go func() {
			defer rd.Done()
			for {
				select {
				case <-stop:
					return
				default:
					_ = c.GetStats()
					_ = c.Median("s1")
				}
			}
		}()

		for _, js := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, j := range js {
					for range j.c {
						call(c, j.how, constants.Stat(j.s), int64(j.v))
					}
				}
			}()
		}

		close(start)
		wg.Wait()
		close(stop)
		rd.Wait()

		life := []any{}
		for n, g := range c.GetStats() {
			life = append(life, map[string]any{"s": n, "count": g.Count, "sum": g.Sum, "min": g.Min, "max": g.Max})
		}

		tr = append(tr, map[string]any{"e": "end", "life": life})
		w.Add(tr)
	}

	w.Close()
	vlib.Emit(map[string]any{"traces": w.N, "dups": w.Dups})
}

func main() {
	flag.Parse()

	if strings.HasPrefix(vlib.Mode(), "record") {
		record()

		return
	}

	vlib.Replay(func(init vlib.Step) vlib.System {
		return &sys{c: stats.NewHistogramStatsCollectorWithCapacity(init.Int("cap")), unit: init.Int("unit")}
	})
}
