------------------------------ MODULE SwimTrace ------------------------------
(* Recorded failure detection against Swim.tla.                             *)
EXTENDS TraceLib
CONSTANTS N, SuspectAfter, DeadAfter, K, Sample, MaxInc, MaxTicks, Ops
VARIABLES tid, i, v, link, clk, last
S == INSTANCE Swim
TraceView == <<tid, i, v>>
Ev == Traces[tid][i + 1]
TraceInit ==
    /\ tid \in 1..NTraces /\ i = 0
    /\ v = S!First /\ link = [n \in 1..N |-> [m \in 1..N |-> 0]] /\ clk = 0 /\ last = ""
Outcomes ==
    CASE Ev.op = "hb" -> S!Heartbeat(v, link, Ev.n)
      [] Ev.op = "gossip" -> S!Gossip(v, link, Ev.n)
      [] Ev.op = "hear" -> {S!HearAll(v, Ev.n, Ev.cs)}
      [] Ev.op = "storm" -> S!Storm(v, Ev.n, ToSet(Ev.cs))
      [] Ev.op = "tick" -> {S!Tick(v)}
      [] OTHER -> {v}
TraceNext ==
    /\ i < Len(Traces[tid]) /\ i' = i + 1 /\ tid' = tid
    /\ UNCHANGED <<clk, last>>
    /\ link' = CASE Ev.op = "link" -> [link EXCEPT ![Ev.n][Ev.m] = Ev.l]
                 [] Ev.op = "cut" -> [a \in 1..N |-> [b \in 1..N |-> IF a # b /\ (a = Ev.n \/ b = Ev.n) THEN Ev.l ELSE link[a][b]]]
                 [] OTHER -> link
    /\ v' \in Outcomes
    /\ S!Shown(v') = Ev.obs.view
    /\ Reach(tid, i')
=============================================================================
