----------------------------- MODULE CMapTrace -----------------------------
(* Concurrent histories of the map.  Every operation takes effect at one   *)
(* moment between call and return; Clear empties each key at one moment of *)
(* its own; a concurrent iteration reports each key as it stood at some    *)
(* moment; the final listing and count are exact.                          *)
EXTENDS TraceLib
CONSTANTS Keys, Ids, MaxTouch
VARIABLES tid, i, m, pend, last
C == INSTANCE CMap
TraceView == <<tid, i, m, pend>>
Ev == Traces[tid][i + 1]
TraceInit == tid \in 1..NTraces /\ i = 0 /\ m = [k \in Keys |-> C!None] /\ pend = <<>> /\ last = ""
Part(f, r) == \A n \in DOMAIN f : n \in DOMAIN r /\ r[n] = f[n]
Without(c) == [x \in DOMAIN pend \ {c} |-> pend[x]]
Seen(b, k) == LET h == { j \in DOMAIN b : b[j].k = k } IN
              IF h = {} THEN C!None ELSE LET e == b[CHOOSE j \in h : TRUE] IN [id |-> e.id, acc |-> e.acc]
TraceNext ==
    /\ i < Len(Traces[tid])
    /\ tid' = tid /\ UNCHANGED last
    /\ \/ /\ Has(Ev, "c")
          /\ pend' = pend @@ (Ev.c :> [o |-> Ev.o, b |-> Ev.b, left |-> Keys])
          /\ UNCHANGED m /\ i' = i + 1
       \/ \E c \in DOMAIN pend : LET p == pend[c] IN
          /\ i' = i
          /\ \/ /\ p.o.op \notin {"clear", "all"}
                /\ Part(C!Ret(p.o, m[p.o.k]), p.b)
                /\ m' = [m EXCEPT ![p.o.k] = C!Put(p.o, @)]
                /\ pend' = Without(c)
             \/ \E k \in p.left :
                /\ p.o.op \in {"clear", "all"}
                /\ IF p.o.op = "clear" THEN m' = [m EXCEPT ![k] = C!None]
                   ELSE m[k].id = Seen(p.b.all, k).id /\ UNCHANGED m
                /\ pend' = IF p.left = {k} THEN Without(c) ELSE [pend EXCEPT ![c].left = @ \ {k}]
       \/ /\ Has(Ev, "r") /\ Ev.r \notin DOMAIN pend
          /\ UNCHANGED <<m, pend>> /\ i' = i + 1
       \/ /\ Has(Ev, "end")
          /\ SeqSet(Ev.all) = C!List(m) /\ Len(Ev.all) = Ev.count /\ Ev.count = Cardinality(C!Held(m))
          /\ UNCHANGED <<m, pend>> /\ i' = i + 1
    /\ Reach(tid, i')
=========================================================================
