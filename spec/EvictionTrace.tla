--------------------------- MODULE EvictionTrace ---------------------------
(* Recorded behaviour of the eviction algorithms against Eviction.tla:     *)
(* sequential (op with its obs) and concurrent (call/ret events; each call *)
(* takes effect at one moment between the two).                            *)
EXTENDS TraceLib
CONSTANTS Keys, Vals, Algos, Caps, ShardCounts, MaxTouch
VARIABLES tid, i, algo, cap, ns, sh, pend, last
E == INSTANCE Eviction
TraceView == <<tid, i, sh, pend>>
Hdr == Traces[tid][1]
Ev == Traces[tid][i + 1]
TraceInit ==
    /\ tid \in 1..NTraces /\ i = 1 /\ TLCSet(tid, 1)
    /\ algo = Hdr.algo /\ cap = Hdr.cap /\ ns = Hdr.ns
    /\ sh = [x \in 1..E!NShards(ns) |-> <<>>] /\ pend = <<>> /\ last = ""
(* op o with observation b takes effect *)
Eff(o, b) ==
    \/ /\ o.op = "set"
       /\ \E s \in E!AfterSet(sh[E!Shard(o.k)], o.k, o.v) : sh' = [sh EXCEPT ![E!Shard(o.k)] = s]
    \/ /\ o.op = "get"
       /\ LET x == E!Shard(o.k) IN
          /\ E!Got(sh[x], o.k) = b.got
          /\ sh' = [sh EXCEPT ![x] = IF E!Has(@, o.k) THEN E!Touch(@, o.k, @[E!At(@, o.k)].v) ELSE @]
    \/ /\ o.op = "del"
       /\ sh' = [sh EXCEPT ![E!Shard(o.k)] = IF E!Has(@, o.k) THEN E!Drop(@, E!At(@, o.k)) ELSE @]
    \/ /\ o.op = "evict"
       /\ IF E!Size = 0 THEN b.key = 0 /\ UNCHANGED sh
          ELSE /\ b.key \in Keys
               /\ LET x == E!Shard(b.key) IN \E j \in E!Victims(sh[x]) :
                    sh[x][j].k = b.key /\ sh' = [sh EXCEPT ![x] = E!Drop(@, j)]
    \/ /\ o.op = "drain"
       /\ E!Drains(sh, b.order)
       /\ sh' = [x \in DOMAIN sh |-> <<>>]
Keep == UNCHANGED <<algo, cap, ns, last>>
TraceNext ==
    /\ i < Len(Traces[tid])
    /\ tid' = tid /\ Keep
    /\ \/ /\ Has(Ev, "op") /\ Eff(Ev, Ev.obs)
          /\ (Has(Ev.obs, "len") => Ev.obs.len = E!Size')
          /\ UNCHANGED pend /\ i' = i + 1
       \/ /\ Has(Ev, "c")                       \* call: Ev.c its number, Ev.o the operation, Ev.b what it returned
          /\ pend' = pend @@ (Ev.c :> [o |-> Ev.o, b |-> Ev.b])
          /\ UNCHANGED sh /\ i' = i + 1
       \/ \E c \in DOMAIN pend :                \* takes effect
             /\ Eff(pend[c].o, pend[c].b)
             /\ pend' = [x \in DOMAIN pend \ {c} |-> pend[x]] /\ i' = i
       \/ /\ Has(Ev, "r") /\ Ev.r \notin DOMAIN pend
          /\ UNCHANGED <<sh, pend>> /\ i' = i + 1
    /\ Reach(tid, i')
=========================================================================
