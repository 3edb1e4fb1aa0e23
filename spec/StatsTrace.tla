---------------------------- MODULE StatsTrace ----------------------------
(* Lifetime aggregates after concurrent recording: the recorded calls in   *)
(* any order give the same aggregates, so they are applied as logged.      *)
EXTENDS TraceLib
CONSTANTS Names, Cap, Vals, Units, MaxCount
VARIABLES tid, i, cnt, sum, mn, mx, win, unit, last
S == INSTANCE Stats
TraceView == <<tid, i>>
Ev == Traces[tid][i + 1]
TraceInit == tid \in 1..NTraces /\ i = 0 /\ S!Init
(* one event stands for c identical calls *)
Many(n, x, c) ==
    /\ cnt' = [cnt EXCEPT ![n] = @ + c] /\ sum' = [sum EXCEPT ![n] = @ + c * x]
    /\ mn' = [mn EXCEPT ![n] = IF cnt[n] = 0 \/ x < @ THEN x ELSE @]
    /\ mx' = [mx EXCEPT ![n] = IF cnt[n] = 0 \/ x > @ THEN x ELSE @]
    /\ UNCHANGED <<win, unit, last>>
TraceNext ==
    /\ i < Len(Traces[tid])
    /\ \/ Ev.e = "rec" /\ Many(Ev.s, IF Ev.how = "decr" THEN -Ev.v ELSE Ev.v, Ev.c)
       \/ /\ Ev.e = "end"
          /\ SeqSet(Ev.life) = { S!Life(n) : n \in { x \in Names : cnt[x] > 0 } }
          /\ UNCHANGED <<cnt, sum, mn, mx, win, unit, last>>
    /\ i' = i + 1 /\ tid' = tid
    /\ Reach(tid, i')
=========================================================================
