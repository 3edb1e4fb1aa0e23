------------------------------ MODULE ChaosTrace ------------------------------
(* Recorded fault injection against Chaos.tla.                              *)
EXTENDS TraceLib
CONSTANTS Ways, Kinds, Ops
VARIABLES tid, i, drop, lat, late, drops, lates, last
S == INSTANCE Chaos
TraceView == <<tid, i, drop, lat, late, drops, lates>>
Ev == Traces[tid][i + 1]
TraceInit == tid \in 1..NTraces /\ i = 0 /\ drop = 0 /\ lat = 0 /\ late = 0 /\ drops = 0 /\ lates = 0 /\ last = ""
One ==
    \E x \in S!Dropped, y \in S!Delayed :
        /\ drops' = drops + (IF x THEN 1 ELSE 0)
        /\ lates' = lates + (IF ~x /\ y THEN 1 ELSE 0)
        /\ Ev.obs.reached = IF x THEN 0 ELSE 1
        /\ Ev.obs.answer = IF x THEN "dropped" ELSE Ev.a
        /\ (~x => Ev.obs.args)
        /\ (~x /\ y => Ev.obs.took >= lat)
Many ==
    LET d == Ev.obs.drops - drops IN
    /\ drops' = Ev.obs.drops /\ lates' = lates
    /\ Ev.obs.reached + d = Ev.count
    /\ Ev.obs.refused = d
    /\ (drop = 0 => d = 0) /\ (drop = 10 => d = Ev.count)
    \* a rate between is only held to roughly: many standard deviations
    /\ 10 * d <= Ev.count * (drop + 3) /\ 10 * d >= Ev.count * (drop - 3)
TraceNext ==
    /\ i < Len(Traces[tid]) /\ i' = i + 1 /\ tid' = tid /\ UNCHANGED last
    /\ drop' = IF Ev.op = "drop" THEN S!Clamp(Ev.r) ELSE drop
    /\ lat' = IF Ev.op = "latency" THEN Ev.d ELSE lat
    /\ late' = IF Ev.op = "latency" THEN S!Clamp(Ev.r) ELSE late
    /\ CASE Ev.op = "call" -> One [] Ev.op = "burst" -> Many [] OTHER -> UNCHANGED <<drops, lates>>
    /\ drops' = Ev.obs.drops /\ lates' = Ev.obs.lates
    /\ Reach(tid, i')
=============================================================================
