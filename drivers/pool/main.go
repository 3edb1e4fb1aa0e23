// Command pool replays/records worker-pool behaviours.
package main

import (
	"errors"
	"flag"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
)

type jobErr struct{ j int }

func (e jobErr) Error() string { return "job failed" }

type sys struct {
	pool     *hypercache.WorkerPool
	mu       sync.Mutex
	started  []int // since the last command
	running  map[int]chan bool
	shut     bool
	returned bool
	late     bool
}

var lates atomic.Int64 // behaviours in which the pool did not get where it should

func newSys(init vlib.Step) vlib.System {
	return &sys{pool: hypercache.NewWorkerPool(init.Int("n")), running: map[int]chan bool{}}
}

func (s *sys) job(j int) hypercache.JobFunc {
	return func() error {
		end := make(chan bool, 1)

		s.mu.Lock()
		s.started = append(s.started, j)
		s.running[j] = end
		s.mu.Unlock()

		if <-end {
			return jobErr{j}
		}

		return nil
	}
}

func (s *sys) state() (nStarted, nRunning, nErr int, ret bool) {
	s.mu.Lock()
	defer s.mu.Unlock()

	return len(s.started), len(s.running), len(s.pool.Errors()), s.returned
}

func (s *sys) Do(st vlib.Step) vlib.Obs {
	o := vlib.Obs{}

	switch st.Op() {
	case "own":
		time.Sleep(100 * time.Microsecond)
	case "enq":
		s.pool.Enqueue(s.job(st.Int("j")))
	case "resize":
		s.pool.Resize(st.Int("n"))
	case "fin":
		s.mu.Lock()

		pick := st.Int("j")
		if _, ok := s.running[pick]; !ok {
			pick = 0
			for j := range s.running {
				if pick == 0 || j < pick {
					pick = j
				}
			}
		}

		if pick != 0 {
			s.running[pick] <- st.Bool("e")
			delete(s.running, pick)
		}

		s.mu.Unlock()

		o["j"] = pick
	case "shut":
		if s.shut {
			s.pool.Shutdown() // repeated: returns at once

			break
		}

		s.shut = true

		go func() {
			s.pool.Shutdown()
			s.mu.Lock()
			s.returned = true
			s.mu.Unlock()
		}()

		time.Sleep(5 * time.Millisecond) // let it close the pool before the next command
	case "errs":
		o["errs"] = s.errs()
	}

	exp := st.Exp()
	settled := func() bool {
		_, r, e, ret := s.state()

		return r >= exp.Int("low") && e == exp.Int("nerr") && ret == exp.Bool("ret")
	}

	if len(exp) > 0 {
		limit := 3 * time.Second
		if s.late || lates.Load() > 10 { // already a deviation
			limit = 20 * time.Millisecond
		}

		deadline := time.Now().Add(limit)
		for !settled() && time.Now().Before(deadline) {
			time.Sleep(30 * time.Microsecond)
		}

		if !settled() && !s.late {
			s.late = true
			lates.Add(1)
		}
	}

	for quiet := 0; quiet < 4; quiet++ {
		a, b, c, d := s.state()
		time.Sleep(60 * time.Microsecond)

		if e, f, g, h := s.state(); a != e || b != f || c != g || d != h {
			quiet = 0
		}
	}

	s.mu.Lock()
	defer s.mu.Unlock()

	o["started"] = s.started
	s.started = nil
	o["nerr"] = len(s.pool.Errors())
	o["ret"] = s.returned

	return o
}

func (s *sys) errs() []int {
	out := []int{}

	for {
		select {
		case err, ok := <-s.pool.Errors():
			if !ok {
				return out
			}

			var je jobErr
			if errors.As(err, &je) {
				out = append(out, je.j)
			} else {
				out = append(out, -1)
			}
		default:
			return out
		}
	}
}

func (s *sys) Close() {
	if s.late {
		return
	}

	done := make(chan struct{})
	defer close(done)

	go func() {
		for {
			select {
			case <-done:
				return
			default:
			}

			s.mu.Lock()
			for j, c := range s.running {
				c <- false
				delete(s.running, j)
			}
			s.mu.Unlock()
			time.Sleep(time.Millisecond)
		}
	}()

	s.pool.Shutdown()
}

func record() {
	w := vlib.NewTraceWriter()
	defer w.Close()

	hangs := 0

	for round := range vlib.Rounds() {
		if hangs > 3 {
			return
		}

		r := vlib.Rand(int64(round))
		n0 := 1 + r.Intn(3)
		pool := hypercache.NewWorkerPool(n0)
		rec := &vlib.Recorder{}

		var (
			wg    sync.WaitGroup
			id    int
			idMu  sync.Mutex
			start = make(chan struct{})
		)

		call := func(o map[string]any, f func()) {
			idMu.Lock()
			id++
			me := id
			idMu.Unlock()
			rec.Add(map[string]any{"c": me, "o": o})
			f()
			rec.Add(map[string]any{"r": me, "o": o})
		}

		job := 0
		for range 1 + r.Intn(3) {
			first, n := job+1, 1+r.Intn(4)
			job += n
			pause := time.Duration(r.Intn(60)) * time.Microsecond
			fail := r.Intn(2) == 0

			wg.Go(func() {
				<-start

				for j := first; j < first+n; j++ {
					call(map[string]any{"op": "enq", "j": j}, func() {
						pool.Enqueue(func() error {
							rec.Add(map[string]any{"s": j})
							time.Sleep(pause)
							rec.Add(map[string]any{"f": j})

							if fail {
								return jobErr{j}
							}

							return nil
						})
					})
				}
			})
		}

		if r.Intn(3) == 0 { // a resizer
			sizes := []int{1 + r.Intn(3), 1 + r.Intn(3)}

			wg.Go(func() {
				<-start

				for _, n := range sizes {
					call(map[string]any{"op": "resize", "n": n}, func() { pool.Resize(n) })
				}
			})
		}

		late := time.Duration(r.Intn(120)) * time.Microsecond

		wg.Go(func() {
			<-start
			time.Sleep(late)
			call(map[string]any{"op": "shut"}, pool.Shutdown)
		})

		close(start)

		ended := make(chan struct{})

		go func() { wg.Wait(); close(ended) }()

		select {
		case <-ended:
			time.Sleep(20 * time.Microsecond) // a job running after Shutdown would show
			rec.Add(map[string]any{"end": 1})
		case <-time.After(8 * time.Second):
			hangs++
			rec.Add(map[string]any{"hang": 1}) // no step of the specification
		}

		tr := []any{map[string]any{"op": "init", "n": n0}}
		for _, e := range rec.Ev {
			tr = append(tr, e)
		}

		w.Add(tr)
	}
}

func main() {
	flag.Parse()

	if vlib.Mode() == "record" {
		record()
		vlib.Emit(map[string]any{})

		return
	}

	vlib.LogInit = true
	vlib.Parallel = 8
	vlib.Replay(newSys)
}
