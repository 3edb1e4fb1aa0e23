----------------------------- MODULE BusTrace -----------------------------
(* Recorded concurrent histories of the bus against Bus.tla.  Unsubscribe  *)
(* and the reaping of a cancelled subscription are two steps (delivery     *)
(* stops, then the channel closes); everything else is one step.           *)
EXTENDS TraceLib
CONSTANTS Slots, Cap, MaxVer, Bursts, Threads
VARIABLES tid, i, st, buf, ver, dropped, last, pend, dying
B == INSTANCE Bus
TraceView == <<tid, i, st, buf, ver, dropped, pend, dying>>
bv == <<st, buf, ver, dropped, last>>
Idle == [op |-> "idle"]
Ev == Traces[tid][i + 1]
TraceInit == tid \in 1..NTraces /\ i = 0 /\ B!Init /\ pend = [t \in Threads |-> Idle] /\ dying = {}

(* payload ids are the publisher's own, not the version *)
PubOne(id) ==
    LET open == { k \in Slots : st[k] = "open" }
        fits == { k \in open : Len(buf[k]) < Cap }
    IN /\ buf' = [k \in Slots |-> IF k \in fits THEN Append(buf[k], [id |-> id, ver |-> ver + 1, ts |-> "set"]) ELSE buf[k]]
       /\ ver' = ver + 1 /\ dropped' = dropped + Cardinality(open) - Cardinality(fits) /\ UNCHANGED <<st, last>>

Done(t, r) == pend' = [pend EXCEPT ![t] = [op |-> "done"] @@ r]
Linearize(t) ==
    LET p == pend[t] IN
    \/ p.op = "pub" /\ PubOne(p.id) /\ Done(t, [ver |-> ver + 1]) /\ UNCHANGED dying
    \/ p.op = "sub" /\ st' = [st EXCEPT ![p.k] = "open"] /\ Done(t, <<>>) /\ UNCHANGED <<buf, ver, dropped, last, dying>>
    \/ p.op = "unsub" /\ st[p.k] = "open" /\ B!Detach(p.k) /\ UNCHANGED <<buf, ver, dropped, last, dying, pend>>
    \/ p.op = "unsub" /\ st[p.k] = "closed" /\ Done(t, <<>>) /\ UNCHANGED <<bv, dying>>
    \/ p.op = "cancel" /\ dying' = dying \cup {p.k} /\ Done(t, <<>>) /\ UNCHANGED bv
    \/ p.op = "recv" /\ B!Recv(p.k) /\ Done(t, last'.exp) /\ UNCHANGED dying

Background ==
    \/ \E k \in dying : st[k] = "open" /\ B!Detach(k) /\ UNCHANGED <<buf, ver, dropped, last, dying, pend>>
    \/ \E k \in Slots : B!CloseCh(k) /\ UNCHANGED <<buf, ver, dropped, last, dying, pend>>

Same(f, g, v) == Has(f, g) => f[g] = v
TraceNext ==
    \/ /\ (Background \/ \E t \in Threads : Linearize(t))
       /\ UNCHANGED <<tid, i>>
    \/ /\ i < Len(Traces[tid])
       /\ \/ Ev.e = "inv" /\ pend[Ev.t] = Idle /\ pend' = [pend EXCEPT ![Ev.t] = Ev] /\ UNCHANGED <<bv, dying>>
          \/ Ev.e = "res" /\ pend[Ev.t].op = "done"
             /\ (Has(Ev, "ver") => Ev.ver = pend[Ev.t].ver)
             /\ (Has(Ev, "end") => Ev.end = pend[Ev.t].end)
             /\ (Has(Ev, "got") => Ev.got = [j \in DOMAIN pend[Ev.t].got |-> pend[Ev.t].got[j].id])
             /\ (Has(Ev, "vers") => Ev.vers = pend[Ev.t].vers)
             /\ pend' = [pend EXCEPT ![Ev.t] = Idle] /\ UNCHANGED <<bv, dying>>
          \/ Ev.e = "end" /\ \A t \in Threads : pend[t] = Idle
             /\ \A k \in Slots : st[k] # "detached" /\ (k \in dying => st[k] # "open")
             /\ (Has(Ev, "n") => Ev.n = B!NOpen(st))
             /\ (Has(Ev, "dropped") => Ev.dropped = dropped)
             /\ \A j \in DOMAIN Ev.slots :
                  LET r == Ev.slots[j] IN
                  /\ (Has(r, "ids") => SeqSet(r.ids) = { e.id : e \in SeqSet(buf[r.k]) } /\ Len(r.ids) = Len(buf[r.k]))
                  /\ (Has(r, "evs") => r.evs = [x \in DOMAIN buf[r.k] |-> <<buf[r.k][x].id, buf[r.k][x].ver>>])
                  /\ (Has(r, "closed") => r.closed = (st[r.k] = "closed"))
             /\ UNCHANGED <<bv, pend, dying>>
       /\ i' = i + 1 /\ tid' = tid
       /\ Reach(tid, i')
=========================================================================
