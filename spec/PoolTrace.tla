----------------------------- MODULE PoolTrace -----------------------------
(* Recorded behaviour of the worker pool against Pool.tla.  Sequential     *)
(* traces: each command with, in obs, the jobs started since the last      *)
(* command.  Concurrent traces: calls (c) and returns (r) of commands,     *)
(* job starts (s) and ends (f).                                            *)
EXTENDS TraceLib
CONSTANTS Sizes, MaxJobs
VARIABLES tid, i, ph, n0, size, extra, tok, queue, running, done, refused, state, errs, next, last, pend
P == INSTANCE Pool
PV == <<n0, size, extra, tok, queue, running, done, refused, state, errs, next>>
TraceView == <<tid, i, ph, size, extra, tok, queue, running, done, refused, state, errs, pend>>
Hdr == Traces[tid][1]
Ev == Traces[tid][i + 1]
TraceInit ==
    /\ tid \in 1..NTraces /\ i = 1 /\ TLCSet(tid, 1) /\ ph = 0
    /\ n0 = Hdr.n /\ size = n0 /\ extra = 0 /\ tok = 0 /\ queue = <<>> /\ running = {} /\ done = {} /\ refused = {}
    /\ state = "open" /\ errs = {} /\ next = 1 /\ last = "" /\ pend = <<>>
Do(o) == \/ o.op = "enq" /\ P!Enq(o.j)
         \/ o.op = "resize" /\ P!Resize(o.n)
         \/ o.op = "shut" /\ P!Shut
Settled == /\ P!Rest
           /\ Ev.obs.nerr = Cardinality(errs)
           /\ Ev.obs.ret = P!Ret
Without(s, j) == SelectSeq(s, LAMBDA x : x # j)
TraceNext ==
    /\ i < Len(Traces[tid])
    /\ tid' = tid /\ UNCHANGED last
    /\ \/ /\ Has(Ev, "op") /\ ph = 0                              \* the command itself
          /\ \/ Ev.op # "shut" /\ Do(Ev) /\ UNCHANGED pend
             \/ Ev.op = "shut" /\ UNCHANGED PV /\ pend' = pend @@ (0 :> Ev)   \* Shutdown was called
             \/ Ev.op = "fin" /\ P!Fin(Ev.obs.j, Ev.e) /\ UNCHANGED pend
             \/ Ev.op = "own" /\ UNCHANGED <<PV, pend>>
             \/ Ev.op = "errs" /\ SeqSet(Ev.obs.errs) = errs /\ Len(Ev.obs.errs) = Cardinality(errs) /\ P!Errs /\ UNCHANGED pend
          /\ ph' = 1 /\ i' = i
       \/ /\ Has(Ev, "op") /\ ph > 0 /\ ph <= Len(Ev.obs.started)  \* a start the driver saw
          /\ queue # <<>> /\ Head(queue) = Ev.obs.started[ph]
          /\ P!Start /\ ph' = ph + 1 /\ i' = i /\ UNCHANGED pend
       \/ /\ Has(Ev, "op") /\ ph > 0 /\ P!Quit /\ i' = i /\ UNCHANGED <<ph, pend>>
       \/ /\ Has(Ev, "op") /\ ph = Len(Ev.obs.started) + 1 /\ Settled
          /\ ph' = 0 /\ i' = i + 1 /\ UNCHANGED <<PV, pend>>
       (* concurrent histories *)
       \/ /\ Has(Ev, "c")
          /\ pend' = pend @@ (Ev.c :> Ev.o) /\ i' = i + 1 /\ UNCHANGED <<PV, ph>>
       \/ \E c \in DOMAIN pend :
          /\ Do(pend[c])
          /\ pend' = [x \in DOMAIN pend \ {c} |-> pend[x]] /\ i' = i /\ UNCHANGED ph
       \/ /\ Has(Ev, "r") /\ Ev.r \notin DOMAIN pend
          /\ (Ev.o.op = "shut" => P!Ret)
          /\ i' = i + 1 /\ UNCHANGED <<PV, ph, pend>>
       \/ /\ Has(Ev, "s") /\ Ev.s \in SeqSet(queue) /\ Cardinality(running) < size + extra
          /\ queue' = Without(queue, Ev.s) /\ running' = running \cup {Ev.s}
          /\ i' = i + 1 /\ UNCHANGED <<n0, size, extra, tok, done, refused, state, errs, next, ph, pend>>
       \/ /\ Has(Ev, "f") /\ P!Fin(Ev.f, FALSE) /\ i' = i + 1 /\ UNCHANGED <<ph, pend>>
       \/ /\ Has(Ev, "end") /\ P!Ret /\ i' = i + 1 /\ UNCHANGED <<PV, ph, pend>>
    /\ Reach(tid, i')
=========================================================================
