------------------------------ MODULE KeysTrace ------------------------------
(* Recorded key listings against Keys.tla.                                  *)
EXTENDS TraceLib
CONSTANTS N, Shards, PatLen, Ops
VARIABLES tid, i, held, st, cut, last
S == INSTANCE Keys
TraceView == <<tid, i, held, st, cut>>
Ev == Traces[tid][i + 1]
TraceInit ==
    /\ tid \in 1..NTraces /\ i = 0
    /\ held = [n \in 1..N |-> {}] /\ st = [n \in 1..N |-> "alive"] /\ cut = [n \in 1..N |-> FALSE] /\ last = ""
TraceNext ==
    /\ i < Len(Traces[tid]) /\ i' = i + 1 /\ tid' = tid /\ UNCHANGED last
    /\ held' = CASE Ev.op = "put" -> [held EXCEPT ![Ev.n] = @ \cup SeqSet(Ev.ks_s)]
                 [] Ev.op = "drop" -> [held EXCEPT ![Ev.n] = @ \ SeqSet(Ev.ks_s)]
                 [] Ev.op = "all" -> [n \in 1..N |-> S!Keys]
                 [] OTHER -> held
    /\ st' = IF Ev.op = "state" THEN [st EXCEPT ![Ev.n] = Ev.st] ELSE st
    /\ cut' = IF Ev.op = "cut" THEN [cut EXCEPT ![Ev.n] = Ev.b] ELSE cut
    /\ Ev.op = "list" => S!Listing(Ev.p, Ev.max, Ev.obs)
    /\ Ev.op = "pages" => S!Paging(Ev.n, Ev.p, Ev.limit, Ev.obs)
    /\ Reach(tid, i')
=============================================================================
