// Command eventbus replays/records event-bus behaviours.
package main

import (
	"context"
	"flag"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/hyp3rd/hypercache/internal/eventbus"
	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
)

type payload struct {
	id int
	tm time.Time
}

type slot struct {
	ch     <-chan eventbus.Event
	unsub  func()
	cancel context.CancelFunc
}

type sys struct {
	b     *eventbus.Bus
	slots map[int]*slot
	sent  map[int]*payload
	typ   map[int]string
	all   []*slot
}

func newSys() *sys {
	return &sys{b: eventbus.New(), slots: map[int]*slot{}, sent: map[int]*payload{}, typ: map[int]string{}}
}

func (s *sys) sub(k int, dead bool) {
	ctx, cancel := context.WithCancel(context.Background())
	if dead {
		cancel()
	}

	ch, un := s.b.Subscribe(ctx)
	s.slots[k] = &slot{ch, un, cancel}
	s.all = append(s.all, s.slots[k])
}

// publish sends event id; explicit says whether the timestamp is given.
func (s *sys) publish(id int, explicit bool) uint64 {
	p := &payload{id: id}
	e := eventbus.Event{Type: fmt.Sprintf("type%d", id%3), Payload: p}
	p.tm = time.Now()

	if explicit {
		p.tm = time.Unix(int64(1000+id), 7)
		e.Timestamp = p.tm
	}

	s.sent[id], s.typ[id] = p, e.Type

	return s.b.Publish(e)
}

type got struct {
	ID int    `json:"id"`
	TS string `json:"ts"`
}

// recv is one non-blocking receive.
func (s *sys) recv(k int) (string, *got, uint64) {
	select {
	case e, ok := <-s.slots[k].ch:
		if !ok {
			return "closed", nil, 0
		}

		g := &got{ID: -1, TS: "altered"}

		p, isP := e.Payload.(*payload)
		if isP {
			g.ID = p.id

			switch {
			case s.sent[p.id] != p || s.typ[p.id] != e.Type:
				g.TS = "altered payload or type " + e.Type
			case e.Timestamp.Equal(p.tm) && p.tm.Year() < 2000:
				g.TS = "set"
			case p.tm.Year() > 2000 && !e.Timestamp.Before(p.tm) && time.Since(e.Timestamp) >= 0 && time.Since(e.Timestamp) < time.Minute:
				g.TS = "unset"
			default:
				g.TS = "wrong timestamp " + e.Timestamp.String()
			}
		}

		return "event", g, e.Version
	default:
		return "empty", nil, 0
	}
}

// settle waits for a background reap to show.
func settle(cond func() bool) {
	for range 4000 {
		if cond() {
			return
		}

		time.Sleep(time.Millisecond / 2)
	}
}

func (s *sys) Do(st vlib.Step) vlib.Obs {
	k := st.Int("k")
	exp := st.Exp()
	o := vlib.Obs{}
	n := func() int { return s.b.SubscriberCount() }
	reaped := func() { settle(func() bool { return n() == exp.Int("n") }) }

	switch st.Op() {
	case "sub":
		s.sub(k, false)
	case "subdead":
		s.sub(k, true)
		reaped()
	case "unsub":
		s.slots[k].unsub()
	case "cancel":
		s.slots[k].cancel()
		reaped()
	case "pub":
		rets := []uint64{}
		for j := range st.Int("n") {
			rets = append(rets, s.publish(st.Int("first")+j, st.Str("ts") == "set"))
		}
		o["rets"] = rets
	case "recv", "drain":
		ids, vers := []got{}, []uint64{}
		end := ""

		for i := 0; i < 200; i++ {
			var g *got

			var v uint64

			end, g, v = s.recv(k)
			if end == "empty" && exp.Str("end") == "closed" { // the reaper closes the channel after it stops delivery
				settle(func() bool { end, g, v = s.recv(k); return end != "empty" })
			}

			if g != nil {
				ids, vers = append(ids, *g), append(vers, v)
			}

			if st.Op() == "recv" || end != "event" {
				break
			}
		}

		o["end"], o["got"], o["vers"] = end, ids, vers
	}

	o["n"], o["dropped"] = n(), s.b.Dropped()

	return o
}

func (s *sys) Close() {
	for _, x := range s.all {
		x.cancel()
	}
}

type call struct {
	op string
	k  int
	id int
}

func record(fields string) {
	w := vlib.NewTraceWriter()
	rng := vlib.Rand(11)
	procs := []int{2, 4, 8}
	wantOrder, wantIDs, wantEnd := strings.Contains(fields, "order"), strings.Contains(fields, "ids"), strings.Contains(fields, "end")
	stuck := 0

	for round := range vlib.Rounds() {
		runtime.GOMAXPROCS(procs[round%len(procs)])
		s := newSys()
		rec := &vlib.Recorder{}

		var mu sync.Mutex // the driver's own maps

		do := func(t int, c call) {
			inv := map[string]any{"e": "inv", "t": t, "op": c.op}
			res := map[string]any{"e": "res", "t": t}

			switch c.op {
			case "pub":
				inv["id"] = c.id
				p := &payload{id: c.id}
				rec.Add(inv)
				v := s.b.Publish(eventbus.Event{Type: "t", Payload: p, Timestamp: time.Unix(5, 0)})
				if wantOrder {
					res["ver"] = v
				}
			case "sub":
				inv["k"] = c.k
				ctx, cancel := context.WithCancel(context.Background())
				rec.Add(inv)
				ch, un := s.b.Subscribe(ctx)
				mu.Lock()
				s.slots[c.k] = &slot{ch, un, cancel}
				mu.Unlock()
			case "unsub", "cancel":
				inv["k"] = c.k
				mu.Lock()
				sl := s.slots[c.k]
				mu.Unlock()
				rec.Add(inv)
				if c.op == "unsub" {
					sl.unsub()
				} else {
					sl.cancel()
				}
			case "recv":
				inv["k"] = c.k
				mu.Lock()
				sl := s.slots[c.k]
				mu.Unlock()
				rec.Add(inv)

				end, id, v := "empty", 0, uint64(0)
				select {
				case e, ok := <-sl.ch:
					end = "closed"
					if ok {
						end = "event"
						id, v = e.Payload.(*payload).id, e.Version
					}
				default:
				}

				res["end"] = end
				if wantOrder {
					res["vers"], res["got"] = []uint64{}, []int{}
					if end == "event" {
						res["vers"], res["got"] = []uint64{v}, []int{id}
					}
				} else if end == "event" {
					res["got"] = []int{id}
				}
			}

			rec.Add(res)
		}

		nslots := 1 + rng.Intn(2)
		for k := 1; k <= nslots; k++ {
			do(1, call{op: "sub", k: k})
		}

		id := 0
		for range []int{0, 0, 14, 15, 16, 3}[rng.Intn(6)] {
			id++
			do(1, call{op: "pub", id: id})
		}

		nth := 2 + rng.Intn(2)
		plans := make([][]call, nth)

		for t := range plans {
			for range 1 + rng.Intn(3) {
				id++
				c := call{op: "pub", id: id}

				switch x := rng.Intn(10); {
				case wantEnd && x < 3:
					c = call{op: []string{"unsub", "cancel", "unsub"}[rng.Intn(3)], k: 1 + rng.Intn(nslots)}
				case wantEnd && x == 3 || wantOrder && x < 2:
					c = call{op: "recv", k: 1 + rng.Intn(nslots)}
				}

				plans[t] = append(plans[t], c)
			}
		}

		if nslots == 1 && rng.Intn(2) == 0 { // a subscription that starts while others publish
			plans[0] = append([]call{{op: "sub", k: 2}}, plans[0]...)
			nslots = 2
		}

		var wg sync.WaitGroup

		start := make(chan struct{})

		for t := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, c := range plans[t] {
					do(t+1, c)
				}
			}()
		}

		close(start)
		wg.Wait()

		// subscriptions told to end must end soon
		ending := map[int]bool{}
		for _, p := range plans {
			for _, c := range p {
				if c.op == "unsub" || c.op == "cancel" {
					ending[c.k] = true
				}
			}
		}

		settleN := 0
		settle(func() bool { settleN = s.b.SubscriberCount(); return stuck > 3 || settleN <= nslots-len(ending) })

		if settleN > nslots-len(ending) {
			stuck++
		}

		end := map[string]any{"e": "end"}
		if wantEnd {
			end["n"] = settleN
		}

		if wantIDs || wantEnd {
			end["dropped"] = s.b.Dropped()
		}

		slots := []map[string]any{}

		for k := 1; k <= nslots; k++ {
			r := map[string]any{"k": k}
			ids, evs := []int{}, [][]any{}
			closed := false

		loop:
			for {
				if ending[k] { // the channel of an ended subscription must close
					select {
					case e, ok := <-s.slots[k].ch:
						if !ok {
							closed = true

							break loop
						}
						ids, evs = append(ids, e.Payload.(*payload).id), append(evs, []any{e.Payload.(*payload).id, e.Version})
					case <-time.After(2 * time.Second):
						break loop
					}

					continue
				}

				select {
				case e, ok := <-s.slots[k].ch:
					if !ok {
						closed = true

						break loop
					}
					ids, evs = append(ids, e.Payload.(*payload).id), append(evs, []any{e.Payload.(*payload).id, e.Version})
				default:
					break loop
				}
			}

			if wantIDs {
				r["ids"] = ids
			}

			if wantOrder {
				r["evs"] = evs
			}

			if wantEnd {
				r["closed"] = closed
				r["ids"] = ids
			}

			slots = append(slots, r)
		}

		end["slots"] = slots
		rec.Add(end)
		w.Add(rec.Ev)
		s.Close()

		for _, sl := range s.slots {
			sl.cancel()
		}
	}

	w.Close()
	vlib.Emit(map[string]any{"traces": w.N, "dups": w.Dups})
}

// stress publishes from many goroutines at once to a subscriber that keeps
// reading, and writes what it saw (no events may be lost or reordered silently).
func main() {
	flag.Parse()

	if strings.HasPrefix(vlib.Mode(), "record:") {
		record(strings.TrimPrefix(vlib.Mode(), "record:"))

		return
	}

	vlib.Replay(func(vlib.Step) vlib.System { return newSys() })
}
