// Package vlib is the part shared by the conformance drivers: reading
// behaviours generated by TLC, comparing what the real code did with what the
// specification says, and reporting.
package vlib

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"maps"
	"math/rand"
	"os"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Step is one step of a behaviour (the specification's `last` record).
type Step map[string]any

// Str returns a string argument.
func (s Step) Str(k string) string { v, _ := s[k].(string); return v }

// Int returns an integer argument.
func (s Step) Int(k string) int {
	switch v := s[k].(type) {
	case float64:
		return int(v)
	case json.Number:
		n, _ := v.Int64()
		return int(n)
	}

	return 0
}

// Bool returns a boolean argument.
func (s Step) Bool(k string) bool { v, _ := s[k].(bool); return v }

// Strs returns a list/set of strings.
func (s Step) Strs(k string) []string {
	a, _ := s[k].([]any)
	out := make([]string, 0, len(a))
	for _, x := range a {
		t, _ := x.(string)
		out = append(out, t)
	}

	return out
}

// List returns a raw list.
func (s Step) List(k string) []any { a, _ := s[k].([]any); return a }

// Rec returns a nested record.
func (s Step) Rec(k string) Step { a, _ := s[k].(map[string]any); return Step(a) }

// Exp is the expected observation of a step.
func (s Step) Exp() Step { return s.Rec("exp") }

// Op is the step's operation name.
func (s Step) Op() string { return s.Str("op") }

// Mismatch describes one deviation.
type Mismatch struct {
	Sig      string `json:"sig"`
	Summary  string `json:"summary"`
	Trace    int    `json:"trace"`
	Step     int    `json:"step"`
	Field    string `json:"field"`
	Expected any    `json:"expected"`
	Got      any    `json:"got"`
	Path     []Step `json:"path"`
}

// Report is printed as one JSON line at the end.
type Report struct {
	Traces     int        `json:"traces"`
	Steps      int        `json:"steps"`
	Compared   int        `json:"compared"`
	Mismatches []Mismatch `json:"mismatches"`
	Sample     any        `json:"sample,omitempty"`
	Extra      any        `json:"extra,omitempty"`
}

// Obs is what the real code did in a step: field -> value.
type Obs map[string]any

var (
	in     = flag.String("in", "", "behaviours (ndjson)")
	out    = flag.String("out", "", "traces to write (ndjson)")
	fields = flag.String("fields", "", "fields to compare")
	rounds = flag.Int("rounds", 100, "rounds for recording drivers")
	mode   = flag.String("mode", "", "driver mode")
)

// Mode returns -mode.
func Mode() string { return *mode }

// Rounds returns -rounds.
func Rounds() int { return *rounds }

// In returns -in.
func In() string { return *in }

// Seed is VERIF_SEED.
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}

	return n
}

// Rand is a generator seeded by VERIF_SEED and a salt.
func Rand(salt int64) *rand.Rand { return rand.New(rand.NewSource(Seed()*1000003 + salt)) }

// Canon normalises a value for comparison; sets (field name ending in _s) are sorted.
func Canon(field string, v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("unmarshalable %v", v)
	}

	var x any
	_ = json.Unmarshal(b, &x)
	x = canon(strings.HasSuffix(field, "_s"), x)
	b, _ = json.Marshal(x)

	return string(b)
}

func canon(set bool, v any) any {
	switch t := v.(type) {
	case nil:
		return []any{}
	case []any:
		o := make([]any, len(t))
		for i := range t {
			o[i] = canon(false, t[i])
		}
		if set {
			sort.Slice(o, func(i, j int) bool {
				a, _ := json.Marshal(o[i])
				b, _ := json.Marshal(o[j])

				return string(a) < string(b)
			})
			// sets have no duplicates in the model; keep them visible here
		}

		return o
	case map[string]any:
		if len(t) == 0 {
			return []any{}
		}

		o := map[string]any{}
		for k, x := range t {
			o[k] = canon(strings.HasSuffix(k, "_s"), x)
		}

		return o
	}

	return v
}

// System is one instance of the code under test driven by steps.
type System interface {
	// Do executes the step and returns the observation.
	Do(s Step) Obs
	// Close releases it.
	Close()
}

// Timed is a System whose behaviour depends on real time: Unreliable reports
// that a step ran too late to be judged, and the behaviour is driven again.
type Timed interface{ Unreliable() bool }

// Namer is a System that names the kind of step a deviation belongs to.
type Namer interface{ SigOp(Step) string }

func sigOp(sys System, s Step) string {
	if n, ok := sys.(Namer); ok {
		return n.SigOp(s)
	}

	return s.Op()
}

// Skipped counts behaviours that could not be driven in time.
var Skipped atomic.Int64

// StepTimeout bounds one operation; a hang is a deviation.
var StepTimeout = 20 * time.Second

// frames lists where in the code under test the current panic arose.
func frames() string {
	out := ""

	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, ".go:") && strings.Contains(l, "/repo/") && !strings.Contains(l, "verifdrv") {
			out += " at" + strings.SplitN(l, " +", 2)[0]
		}
	}

	return strings.ReplaceAll(out, "\t", " ")
}

// LogInit puts the init step at the head of driven traces.
var LogInit bool

// Parallel is the number of behaviours replayed at once.
var Parallel = 4

// Replay drives every behaviour in -in through fresh systems built from the
// first (init) step, and prints the report.
func Replay(build func(init Step) System) {
	if !flag.Parsed() {
		flag.Parse()
	}

	want := map[string]bool{}
	for _, f := range strings.Split(*fields, ",") {
		if f != "" {
			want[f] = true
		}
	}

	f, err := os.Open(*in)
	if err != nil {
		Fatal(err)
	}
	defer f.Close()

	var (
		mu  sync.Mutex
		rep Report
		wg  sync.WaitGroup
		n   int
		bad atomic.Int64
	)

	var tw *TraceWriter
	if *out != "" {
		tw = NewTraceWriter()
	}

	jobs := make(chan struct {
		id   int
		line []byte
	}, 64)

	for range Parallel {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if bad.Load() > 20 {
					continue
				}

				var path []Step
				if err := json.Unmarshal(j.line, &path); err != nil {
					Fatal(fmt.Errorf("bad behaviour line: %w", err))
				}

				var log *[]any
				if tw != nil {
					log = &[]any{}
					if LogInit {
						*log = append(*log, path[0])
					}
				}

				var (
					steps, compared int
					mm              *Mismatch
					late            bool
				)

				for range 6 {
					if log != nil && late {
						*log = (*log)[:0]
						if LogInit {
							*log = append(*log, path[0])
						}
					}

					steps, compared, mm, late = runPath(j.id, path, want, build, log)
					if !late {
						break
					}
				}

				if late {
					Skipped.Add(1)

					continue
				}

				if tw != nil && mm == nil {
					tw.Add(*log)
				}

				mu.Lock()
				rep.Traces++
				rep.Steps += steps
				rep.Compared += compared
				if rep.Sample == nil && len(path) > 2 {
					rep.Sample = path
				}
				if mm != nil {
					bad.Add(1)
					if len(rep.Mismatches) < 200 {
						dup := false
						for _, o := range rep.Mismatches {
							if o.Sig == mm.Sig {
								dup = true
							}
						}
						if !dup {
							rep.Mismatches = append(rep.Mismatches, *mm)
						}
					}
				}
				mu.Unlock()
			}
		}()
	}

	r := bufio.NewReaderSize(f, 1<<20)
	for {
		line, rerr := r.ReadBytes('\n')
		if len(strings.TrimSpace(string(line))) > 0 {
			jobs <- struct {
				id   int
				line []byte
			}{n, line}
			n++
		}

		if rerr == io.EOF {
			break
		}

		if rerr != nil {
			Fatal(rerr)
		}
	}

	close(jobs)
	wg.Wait()

	if tw != nil {
		tw.Close()
	}

	Emit(rep)
}

func runPath(id int, path []Step, want map[string]bool, build func(Step) System, log *[]any) (steps, compared int, mm *Mismatch, late bool) {
	if len(path) == 0 {
		return 0, 0, nil, false
	}

	sys := build(path[0])
	timed, _ := sys.(Timed)
	defer func() { // a Close that hangs or panics is not this step's concern
		_, _ = guardedFor(min(5*time.Second, StepTimeout), func() Obs { sys.Close(); return nil })
	}()

	for i := 1; i < len(path); i++ {
		s := path[i]
		obs, perr := guarded(func() Obs { return sys.Do(s) })
		steps++

		if timed != nil && timed.Unreliable() {
			return steps, compared, nil, true
		}

		if perr != "" {
			return steps, compared, &Mismatch{
				Sig: s.Op() + ":" + firstLine(perr), Summary: fmt.Sprintf("step %d %s: %s", i, brief(s), perr),
				Trace: id, Step: i, Field: "completion", Expected: "returns", Got: perr, Path: path[:i+1],
			}, false
		}

		if log != nil { // the real code's behaviour is judged by the trace specification
			e := map[string]any{}
			for k, v := range s {
				if k != "exp" {
					e[k] = v
				}
			}

			e["obs"] = obs
			*log = append(*log, e)

			continue
		}

		exp := s.Exp()
		for _, k := range slices.Sorted(maps.Keys(exp)) {
			ev := exp[k]

			if len(want) > 0 && !want[k] {
				continue
			}

			got, ok := obs[k]
			if !ok {
				continue
			}

			compared++
			if a, b := Canon(k, ev), Canon(k, got); a != b {
				return steps, compared, &Mismatch{
					Sig: sigOp(sys, s) + ":" + k, Summary: fmt.Sprintf("step %d %s: %s expected %s, real code gave %s", i, brief(s), k, clip(a), clip(b)),
					Trace: id, Step: i, Field: k, Expected: ev, Got: got, Path: path[:i+1],
				}, false
			}
		}
	}

	return steps, compared, nil, false
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}

	return s
}

func brief(s Step) string {
	t := Step{}
	for k, v := range s {
		if k != "exp" {
			t[k] = v
		}
	}

	b, _ := json.Marshal(t)

	return clip(string(b))
}

// Guarded runs f with panic capture and a hang watchdog.
func guarded(f func() Obs) (Obs, string) { return guardedFor(StepTimeout, f) }

func guardedFor(limit time.Duration, f func() Obs) (Obs, string) {
	type res struct {
		o Obs
		p string
	}

	ch := make(chan res, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- res{nil, fmt.Sprintf("panic: %v%s", r, frames())}
			}
		}()
		ch <- res{f(), ""}
	}()

	t := time.NewTimer(limit)
	defer t.Stop()

	select {
	case r := <-ch:
		return r.o, r.p
	case <-t.C:
		return nil, "hang: the operation did not return"
	}
}

// Fatal ends the driver with an error of the driver (not of the code under test).
func Fatal(err error) {
	fmt.Fprintf(os.Stderr, "verif-driver: %v\n", err)
	os.Exit(4)
}

// Emit prints the report line.
func Emit(rep any) {
	b, err := json.Marshal(rep)
	if err != nil {
		Fatal(err)
	}

	fmt.Println(string(b))
}

// TraceWriter writes distinct traces as ndjson.
type TraceWriter struct {
	mu   sync.Mutex
	f    *os.File
	w    *bufio.Writer
	seen map[string]bool
	N    int
	Dups int
}

// NewTraceWriter opens -out.
func NewTraceWriter() *TraceWriter {
	f, err := os.Create(*out)
	if err != nil {
		Fatal(err)
	}

	return &TraceWriter{f: f, w: bufio.NewWriterSize(f, 1<<20), seen: map[string]bool{}}
}

// Add writes a trace unless an identical one was written.
func (t *TraceWriter) Add(tr any) {
	b, err := json.Marshal(tr)
	if err != nil {
		Fatal(err)
	}

	var x any
	_ = json.Unmarshal(b, &x)
	b, _ = json.Marshal(noNull(x))

	t.mu.Lock()
	defer t.mu.Unlock()

	if t.seen[string(b)] {
		t.Dups++

		return
	}

	t.seen[string(b)] = true
	t.N++
	_, _ = t.w.Write(b)
	_ = t.w.WriteByte('\n')
}

// noNull turns JSON nulls (empty Go slices) into empty lists.
func noNull(v any) any {
	switch t := v.(type) {
	case nil:
		return []any{}
	case []any:
		for i := range t {
			t[i] = noNull(t[i])
		}
	case map[string]any:
		for k := range t {
			t[k] = noNull(t[k])
		}
	}

	return v
}

// Close flushes.
func (t *TraceWriter) Close() {
	_ = t.w.Flush()
	_ = t.f.Close()
}

// Recorder records a concurrent history: each event gets its place in a
// single total order consistent with real time (a mutex-protected append,
// taken before the call for invocations and after it for responses).
type Recorder struct {
	mu sync.Mutex
	Ev []map[string]any
}

// Add appends an event.
func (r *Recorder) Add(e map[string]any) {
	r.mu.Lock()
	r.Ev = append(r.Ev, e)
	r.mu.Unlock()
}

// Sorted returns a sorted copy.
func Sorted(a []string) []string {
	o := append([]string{}, a...)
	sort.Strings(o)

	return o
}
