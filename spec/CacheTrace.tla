---------------------------- MODULE CacheTrace ----------------------------
(* Concurrent histories of the cache.  Each operation takes effect at one  *)
(* moment between call and return -- per key for those naming several --   *)
(* and keys may be evicted while a new key is stored over capacity.  Keys  *)
(* in dead hold expired items, which a pass may remove at any moment.      *)
EXTENDS TraceLib
CONSTANTS Keys
VARIABLES tid, i, m, dead, pend
TraceView == <<tid, i, m, dead, pend>>
Hdr == Traces[tid][1]
Ev == Traces[tid][i + 1]
TraceInit == tid \in 1..NTraces /\ i = 1 /\ TLCSet(tid, 1) /\ m = [k \in Keys |-> IF k \in SeqSet(Hdr.dead) THEN 1 ELSE 0]
             /\ dead = SeqSet(Hdr.dead) /\ pend = <<>>
Drop(f, c) == [x \in DOMAIN f \ {c} |-> f[x]]
Multi(o) == o.op \in {"rm", "getm", "clear"}
Left(o) == IF o.op = "clear" THEN Keys ELSE IF Multi(o) THEN SeqSet(o.ks) ELSE {o.k}
Pair(s, k) == IF \E j \in DOMAIN s : s[j][1] = k THEN s[CHOOSE j \in DOMAIN s : s[j][1] = k][2] ELSE 0
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN m[k] + Sum(S \ {k})
Present == Cardinality({ k \in Keys : m[k] # 0 })
RECURSIVE OwedBy(_)
OwedBy(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN pend[c].owe + OwedBy(S \ {c})
Owed == OwedBy(DOMAIN pend)
Storing(c) == pend[c].o.op \in {"set", "gos"}
Live(k) == IF k \in dead THEN 0 ELSE m[k]
(* one key of one pending operation takes effect *)
Eff(p, k) ==
    \/ p.o.op = "set" /\ p.b.err = "" /\ m' = [m EXCEPT ![k] = p.o.v]
    \/ p.o.op = "set" /\ p.b.err = "full" /\ Hdr.lim > 0 /\ UNCHANGED m
    \/ p.o.op = "gos" /\ p.b.err = "full" /\ Hdr.lim > 0 /\ m[k] = 0 /\ UNCHANGED m
    \/ p.o.op = "gos" /\ p.b.err = "" /\ Live(k) # 0 /\ p.b.got = m[k] /\ UNCHANGED m
    \/ p.o.op = "gos" /\ p.b.err = "" /\ m[k] = 0 /\ p.b.got = p.o.v /\ m' = [m EXCEPT ![k] = p.o.v]
    \/ p.o.op = "gos" /\ p.b.err = "expired" /\ k \in dead /\ UNCHANGED m
    \/ p.o.op = "purge" /\ UNCHANGED m
    \/ p.o.op \in {"get", "info"} /\ p.b.got = Live(k) /\ UNCHANGED m
    \/ p.o.op = "getm" /\ Pair(p.b.hits_s, k) = Live(k) /\ (Live(k) = 0 => Pair(p.b.failed_s, k) = "missing") /\ UNCHANGED m
    \/ p.o.op \in {"rm", "clear"} /\ m' = [m EXCEPT ![k] = 0]
TraceNext ==
    /\ i < Len(Traces[tid])
    /\ tid' = tid
    /\ \/ /\ Has(Ev, "c")
          /\ pend' = pend @@ (Ev.c :> [o |-> Ev.o, b |-> Ev.b, left |-> Left(Ev.o), new |-> FALSE, owe |-> 0])
          /\ UNCHANGED <<m, dead>> /\ i' = i + 1
       \/ \E c \in DOMAIN pend : \E k \in pend[c].left :
          /\ Eff(pend[c], k) /\ i' = i
          /\ dead' = IF pend[c].o.op \in {"rm", "clear", "set"} /\ (pend[c].o.op = "set" => pend[c].b.err = "") THEN dead \ {k} ELSE dead
          /\ pend' = IF Storing(c) /\ <<m', dead'>> # <<m, dead>> THEN [pend EXCEPT ![c].left = {}, ![c].new = TRUE]
                     ELSE IF pend[c].left = {k} THEN [pend EXCEPT ![c].left = {}] ELSE [pend EXCEPT ![c].left = @ \ {k}]
       \/ /\ Present > Hdr.cap + Owed                                \* an eviction is decided ...
          /\ \E c \in DOMAIN pend : pend[c].new /\ pend' = [pend EXCEPT ![c].owe = @ + 1]
          /\ UNCHANGED <<m, dead, i>>
       \/ /\ \E c \in DOMAIN pend : pend[c].owe > 0 /\ pend' = [pend EXCEPT ![c].owe = @ - 1]   \* ... and happens
          /\ \E k \in Keys : m[k] # 0 /\ m' = [m EXCEPT ![k] = 0] /\ dead' = dead \ {k}
          /\ UNCHANGED i
       \/ /\ \E k \in dead : m' = [m EXCEPT ![k] = 0] /\ dead' = dead \ {k}   \* an expiration pass
          /\ UNCHANGED <<pend, i>>
       \/ /\ Has(Ev, "r") /\ pend[Ev.r].left = {}
          /\ pend' = Drop(pend, Ev.r) /\ UNCHANGED <<m, dead>> /\ i' = i + 1
       \/ /\ Has(Ev, "end") /\ dead = {}
          /\ SeqSet(Ev.all) = { <<k, m[k]>> : k \in { x \in Keys : m[x] # 0 } } /\ Len(Ev.all) = Ev.count
          /\ Ev.count = Cardinality({ k \in Keys : m[k] # 0 }) /\ Ev.count <= Hdr.cap
          /\ Ev.alloc = Sum({ k \in Keys : m[k] # 0 }) /\ Ev.size = Ev.alloc
          /\ (Hdr.lim > 0 => Ev.alloc <= Hdr.lim)
          /\ UNCHANGED <<m, dead, pend>> /\ i' = i + 1
    /\ Reach(tid, i')
=========================================================================
