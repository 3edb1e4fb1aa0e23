---------------------------- MODULE RingTrace ----------------------------
(* Recorded placements against Ring.tla.  First event {e:"hdr", ord, r,    *)
(* keys}; then {e:"own", who, members, owners} after each membership step  *)
(* of any of several independent nodes.  For every key the set of circle   *)
(* positions that explain all owner lists seen so far is narrowed; it must *)
(* never become empty.  (Agreement, totality and minimal disruption follow *)
(* from Walk: Ring.tla.)                                                   *)
EXTENDS TraceLib
VARIABLES tid, i, cand, full
R == INSTANCE Ring WITH Nodes <- {}, PerNode <- 0, MaxR <- 0, ord <- <<>>, key <- 0, repl <- 0, members <- {}, owners <- <<>>, last <- ""
TraceView == <<tid, i, cand>>     \* full is a function of the trace
Hdr == Traces[tid][1]
Ev == Traces[tid][i + 1]
TraceInit == tid \in 1..NTraces /\ i = 0 /\ cand = <<>> /\ full = <<>>
TraceNext ==
    /\ i < Len(Traces[tid])
    /\ \/ /\ Ev.e = "hdr"
          /\ cand' = [k \in 1..Ev.keys |-> 1..Len(Ev.ord)]
          /\ LET U == SeqSet(Ev.ord)
                 d == Ev.ord
             IN full' = [p \in 1..Len(d) |-> R!Walk(d, U, p, Cardinality(U))]
       \/ /\ Ev.e = "own"
          /\ LET M == SeqSet(Ev.members)
                 r == Hdr.r
                 W == TLCEval([p \in DOMAIN full |-> R!Narrow(full[p], M, r)])
                 o == Ev.owners IN
             /\ cand' = TLCEval([k \in DOMAIN cand |-> { p \in cand[k] : W[p] = o[k] }])
             /\ \A k \in DOMAIN cand' : cand'[k] # {}
          /\ UNCHANGED full
    /\ i' = i + 1 /\ tid' = tid
    /\ Reach(tid, i')
=========================================================================
