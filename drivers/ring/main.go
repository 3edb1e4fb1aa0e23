// Command ring records hash-ring placements of several independent nodes.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"

	"github.com/hyp3rd/hypercache/internal/cluster"
	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
)

type plan struct {
	Nodes []string   `json:"nodes"`
	VN    int        `json:"vn"`
	R     int        `json:"r"`
	Keys  []string   `json:"keys"`
	Steps [][]change `json:"steps"` // one history per independent node
}

type change struct {
	Op    string `json:"op"` // up, suspect, remove, dead
	Node  string `json:"node"`
	Inc   int    `json:"inc"`
	Check bool   `json:"check"`
}

type own struct {
	E       string     `json:"e"`
	Who     string     `json:"who"`
	Members []string   `json:"members"`
	Owners  [][]string `json:"owners"`
}

func run(p plan, proc string) []own {
	out := []own{}

	for w, hist := range p.Steps {
		opts := []cluster.RingOption{cluster.WithReplication(p.R)}
		if p.VN > 0 {
			opts = append(opts, cluster.WithVirtualNodes(p.VN))
		}

		ring := cluster.NewRing(opts...)
		mem := cluster.NewMembership(ring)
		members := map[string]bool{}

		for _, c := range hist {
			switch c.Op {
			case "remove":
				mem.Remove(cluster.NodeID(c.Node))
				delete(members, c.Node)
			default:
				n := cluster.NewNode(c.Node, fmt.Sprintf("host-%s-%d:%d", proc, w, c.Inc))
				n.Incarnation = uint64(c.Inc)
				switch c.Op {
				case "suspect":
					n.State = cluster.NodeSuspect
				case "dead":
					n.State = cluster.NodeDead
				default:
					n.State = cluster.NodeAlive
				}

				mem.Upsert(n)

				if c.Op == "dead" {
					delete(members, c.Node)
				} else {
					members[c.Node] = true
				}
			}

			if !c.Check {
				continue
			}

			o := own{E: "own", Who: fmt.Sprintf("%s/%d", proc, w), Members: []string{}, Owners: [][]string{}}
			for m := range members {
				o.Members = append(o.Members, m)
			}

			sort.Strings(o.Members)

			for _, k := range p.Keys {
				ids := []string{}
				for _, id := range mem.Ring().Lookup(k) {
					ids = append(ids, string(id))
				}

				o.Owners = append(o.Owners, ids)
			}

			out = append(out, o)
		}
	}

	return out
}

// order lists the universe's virtual points round the circle.
func order(p plan) []string {
	opts := []cluster.RingOption{}
	if p.VN > 0 {
		opts = append(opts, cluster.WithVirtualNodes(p.VN))
	}

	r := cluster.NewRing(opts...)
	ns := []*cluster.Node{}

	for _, n := range p.Nodes {
		ns = append(ns, cluster.NewNode(n, "x"))
	}

	r.Build(ns)

	h := r.VNodeHashes()
	sort.Strings(h) // "%016x:id": the circle order

	out := []string{}
	for _, x := range h {
		out = append(out, x[strings.Index(x, ":")+1:])
	}

	return out
}

var pool = []string{"node-1", "node-2", "a", "b", "c", "10.0.0.1:8080", "10.0.0.2:8080", "näs", "zz-very-long-node-identifier-0123456789", "A"}

func mkPlan(rng *rand.Rand, i int) plan {
	n := 1 + rng.Intn(6)
	p := plan{VN: []int{1, 2, 3, 8, 8, 16}[rng.Intn(6)], R: 1 + rng.Intn(4)}

	if i%25 == 24 {
		p.VN = 0 // default (64)
		n = min(n, 3)
	}

	perm := rng.Perm(len(pool))
	for _, x := range perm[:n] {
		p.Nodes = append(p.Nodes, pool[x])
	}

	p.Keys = []string{""}
	for len(p.Keys) < 14 {
		p.Keys = append(p.Keys, fmt.Sprintf("%s%d", []string{"k", "user:", "☃", "/a/b/", "0"}[rng.Intn(5)], rng.Intn(1<<20)))
	}

	for range 2 + rng.Intn(2) {
		h := []change{}
		inc := 1

		for _, x := range rng.Perm(n) { // learn everybody in some order
			h = append(h, change{[]string{"up", "up", "suspect"}[rng.Intn(3)], p.Nodes[x], inc, true})
		}

		for range rng.Intn(7) { // then churn
			inc++
			h = append(h, change{[]string{"up", "suspect", "remove", "remove", "dead"}[rng.Intn(5)], p.Nodes[rng.Intn(n)], inc, true})
		}

		p.Steps = append(p.Steps, h)
	}

	return p
}

func main() {
	flag.Parse()

	if vlib.Mode() == "child" {
		var ps []plan
		if err := json.NewDecoder(os.Stdin).Decode(&ps); err != nil {
			vlib.Fatal(err)
		}

		res := [][]own{}
		for _, p := range ps {
			res = append(res, run(p, "p2"))
		}

		vlib.Emit(res)

		return
	}

	rng := vlib.Rand(3)
	ps := []plan{}

	for i := range vlib.Rounds() {
		ps = append(ps, mkPlan(rng, i))
	}

	// the same plans in another process (other member order first)
	js, _ := json.Marshal(ps)
	self, err := os.Executable()
	if err != nil {
		vlib.Fatal(err)
	}

	cmd := exec.Command(self, "-mode", "child")
	cmd.Stdin = strings.NewReader(string(js))
	cmd.Stderr = os.Stderr

	b, err := cmd.Output()
	if err != nil {
		vlib.Fatal(err)
	}

	var other [][]own
	if err := json.Unmarshal(b, &other); err != nil {
		vlib.Fatal(err)
	}

	w := vlib.NewTraceWriter()
	checked := 0

	for i, p := range ps {
		ord := order(p)
		tr := []any{map[string]any{"e": "hdr", "ord": ord, "r": p.R, "keys": len(p.Keys)}}
		seen := map[string]bool{}

		for _, o := range append(run(p, "p1"), other[i]...) {
			// identical observations by different nodes say nothing new to the validator
			j, _ := json.Marshal([]any{o.Members, o.Owners})
			checked++

			if seen[string(j)] {
				continue
			}

			seen[string(j)] = true
			tr = append(tr, o)
		}

		w.Add(tr)
	}

	w.Close()
	vlib.Emit(map[string]any{"traces": w.N, "dups": w.Dups, "observations": checked})
}
