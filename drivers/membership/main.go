// Command membership replays/records cluster membership behaviours.
package main

import (
	"flag"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
)

var vn = flag.Int("vnodes", 8, "virtual nodes")

type event struct {
	Obs   int    `json:"obs"`
	ID    string `json:"id"`
	State string `json:"state"`
	Ver   uint64 `json:"ver"`
}

type sys struct {
	m    *cluster.Membership
	r    *cluster.Ring
	mu   sync.Mutex
	evs  []event
	nobs int
	errs []string
}

func newSys(vnodes int) *sys {
	r := cluster.NewRing(cluster.WithVirtualNodes(vnodes), cluster.WithReplication(3))

	return &sys{r: r, m: cluster.NewMembership(r)}
}

func state(s string) cluster.NodeState {
	switch s {
	case "alive":
		return cluster.NodeAlive
	case "suspect":
		return cluster.NodeSuspect
	default:
		return cluster.NodeDead
	}
}

type listed struct {
	ID    string `json:"id"`
	State string `json:"state"`
	Inc   uint64 `json:"inc"`
}

func (s *sys) nodes() []listed {
	out := []listed{}
	for _, n := range s.m.List() {
		out = append(out, listed{string(n.ID), n.State.String(), n.Incarnation})
	}

	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })

	return out
}

// ringMembers is the set of ids that own virtual points, cross-checked with lookups.
func (s *sys) ringMembers() []string {
	set := map[string]bool{}
	for _, h := range s.r.VNodeHashes() {
		set[h[strings.Index(h, ":")+1:]] = true
	}

	if s.m.Ring() != s.r {
		set["membership reports another ring"] = true
	}

	owners := map[string]bool{}
	for i := range 24 {
		o := s.r.Lookup(fmt.Sprintf("k%d", i))
		if len(o) != min(3, len(set)) {
			set[fmt.Sprintf("lookup gave %d owners", len(o))] = true
		}

		for _, id := range o {
			owners[string(id)] = true
		}
	}

	for id := range owners {
		if !set[id] {
			set["owner not in ring: "+id] = true
		}
	}

	out := []string{}
	for id := range set {
		out = append(out, id)
	}

	sort.Strings(out)

	return out
}

func (s *sys) observe(reenter bool) {
	s.mu.Lock()
	s.nobs++
	k := s.nobs
	s.mu.Unlock()

	s.m.OnStateChange(func(id cluster.NodeID, st cluster.NodeState, ver uint64) {
		e := event{k, string(id), st.String(), ver}

		if reenter { // the change must be visible and calls must not deadlock
			found := ""
			for _, n := range s.m.List() {
				if n.ID == id {
					found = n.State.String()
				}
			}

			if found == "" {
				found = "dead"
			}

			if found != e.State {
				e.State = e.State + " but listed as " + found
			}

			if v := s.m.Version(); v != ver {
				e.State = fmt.Sprintf("%s but version %d", e.State, v)
			}

			_ = s.m.Mark("no-such-member", cluster.NodeDead)
			_ = s.r.Lookup("k")
		}

		s.mu.Lock()
		s.evs = append(s.evs, e)
		s.mu.Unlock()
	})
}

func (s *sys) apply(op, id, st string, inc int) bool {
	switch op {
	case "upsert":
		n := cluster.NewNode(id, "addr-"+id)
		n.State, n.Incarnation = state(st), uint64(inc)
		s.m.Upsert(n)

		return true
	case "remove":
		return s.m.Remove(cluster.NodeID(id))
	case "mark":
		return s.m.Mark(cluster.NodeID(id), state(st))
	case "refute":
		return s.m.Refute(cluster.NodeID(id))
	}

	panic("verif-driver: op " + op)
}

func (s *sys) Do(st vlib.Step) vlib.Obs {
	s.mu.Lock()
	s.evs = []event{}
	s.mu.Unlock()

	ret := true

	switch st.Op() {
	case "observe":
		s.observe(true)
	case "scribble":
		for _, n := range s.m.List() {
			n.ID, n.State, n.Incarnation = "zz", cluster.NodeDead, 999
		}
	default:
		ret = s.apply(st.Op(), st.Str("id"), st.Str("state"), st.Int("inc"))
	}

	return vlib.Obs{"ret": ret, "nodes_s": s.nodes(), "ver": s.m.Version(), "ring_s": s.ringMembers(), "events": s.evs}
}

func (s *sys) Close() {}

func record(fields string) {
	w := vlib.NewTraceWriter()
	rng := vlib.Rand(7)
	ids := []string{"a", "b", "c"}
	sts := []string{"alive", "suspect", "dead"}
	ops := []string{"upsert", "upsert", "remove", "mark", "mark", "refute"}
	procs := []int{2, 4, 8}

	for round := range vlib.Rounds() {
		runtime.GOMAXPROCS(procs[round%len(procs)])
		s := newSys(*vn)
		s.observe(false)

		rec := &vlib.Recorder{}
		rec.Add(map[string]any{"e": "reg", "n": 1})

		type call struct {
			op, id, st string
			inc        int
		}

		// a short sequential prefix so removals and marks find members
		pre := []call{}
		for _, id := range ids {
			if rng.Intn(3) > 0 {
				pre = append(pre, call{"upsert", id, sts[rng.Intn(3)], 1})
			}
		}

		do := func(t int, c call) {
			rec.Add(map[string]any{"e": "inv", "t": t, "op": c.op, "id": c.id, "state": c.st, "inc": c.inc})
			r := s.apply(c.op, c.id, c.st, c.inc)
			rec.Add(map[string]any{"e": "res", "t": t, "ret": r})
		}

		for _, c := range pre {
			do(1, c)
		}

		nth := 2 + rng.Intn(2)
		plans := make([][]call, nth)
		for t := range plans {
			for range 1 + rng.Intn(2) {
				plans[t] = append(plans[t], call{ops[rng.Intn(len(ops))], ids[rng.Intn(3)], sts[rng.Intn(3)], 1 + rng.Intn(3)})
			}
		}

		var wg sync.WaitGroup

		start := make(chan struct{})
		for t := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, c := range plans[t] {
					do(t+1, c)
				}
			}()
		}

		close(start)
		wg.Wait()

		end := map[string]any{"e": "end"}
		if strings.Contains(fields, "nodes") {
			end["nodes"], end["ver"] = s.nodes(), s.m.Version()
		}

		if strings.Contains(fields, "ring") {
			end["ring"] = s.ringMembers()
			end["nodes"] = s.nodes()
		}

		if strings.Contains(fields, "events") {
			end["events"] = s.evs
		}

		rec.Add(end)
		w.Add(rec.Ev)
	}

	w.Close()
	vlib.Emit(map[string]any{"traces": w.N, "dups": w.Dups})
}

func main() {
	flag.Parse()

	switch {
	case strings.HasPrefix(vlib.Mode(), "record:"):
		record(strings.TrimPrefix(vlib.Mode(), "record:"))
	default:
		vlib.Replay(func(vlib.Step) vlib.System { return newSys(*vn) })
	}
}
