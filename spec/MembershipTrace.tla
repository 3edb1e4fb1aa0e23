------------------------- MODULE MembershipTrace -------------------------
(* Linearizability of recorded concurrent histories against Membership.    *)
(* Events: {e:"reg",n}, {e:"inv",t,op,...}, {e:"res",t,ret}, and a final   *)
(* {e:"end", nodes, ver, ring, events} taken after all calls returned.     *)
EXTENDS TraceLib
CONSTANTS Nodes, MaxInc, MaxObs, MaxVer, Threads
VARIABLES tid, i, mem, ver, ring, nobs, last, pend, evs
M == INSTANCE Membership
TraceView == <<tid, i, mem, ver, ring, nobs, pend, evs>>
mv == <<mem, ver, ring, nobs, last>>

Idle == [op |-> "idle"]
Ev == Traces[tid][i + 1]
TraceInit == tid \in 1..NTraces /\ i = 0 /\ M!Init /\ pend = [t \in Threads |-> Idle] /\ evs = {}

Eat == i' = i + 1 /\ tid' = tid
Do(p) == CASE p.op = "upsert" -> M!Upsert(p.id, p.state, p.inc)
           [] p.op = "remove" -> M!Remove(p.id)
           [] p.op = "mark"   -> M!Mark(p.id, p.state)
           [] p.op = "refute" -> M!Refute(p.id)

Linearize(t) ==
    /\ pend[t].op \notin {"idle", "done"}
    /\ Do(pend[t])
    /\ pend' = [pend EXCEPT ![t] = [op |-> "done", ret |-> last'.exp.ret]]
    /\ evs' = evs \cup { [obs |-> x.obs, id |-> x.id, state |-> x.state, ver |-> x.ver] : x \in SeqSet(last'.exp.events) }
    /\ UNCHANGED <<tid, i>>

TraceNext ==
    \/ \E t \in Threads : Linearize(t)
    \/ /\ i < Len(Traces[tid])
       /\ \/ Ev.e = "reg" /\ nobs' = Ev.n /\ UNCHANGED <<mem, ver, ring, last, pend, evs>>
          \/ Ev.e = "inv" /\ pend[Ev.t] = Idle /\ pend' = [pend EXCEPT ![Ev.t] = Ev] /\ UNCHANGED <<mv, evs>>
          \/ Ev.e = "res" /\ pend[Ev.t].op = "done" /\ pend[Ev.t].ret = Ev.ret
             /\ pend' = [pend EXCEPT ![Ev.t] = Idle] /\ UNCHANGED <<mv, evs>>
          \/ Ev.e = "end" /\ \A t \in Threads : pend[t] = Idle
             /\ (Has(Ev, "nodes") => SeqSet(Ev.nodes) = M!Listed(mem))
             /\ (Has(Ev, "ver") => Ev.ver = ver)
             /\ (Has(Ev, "ring") => SeqSet(Ev.ring) = ring)
             /\ (Has(Ev, "events") => SeqSet(Ev.events) = evs /\ Len(Ev.events) = Cardinality(evs))
             /\ UNCHANGED <<mv, pend, evs>>
       /\ Eat
       /\ Reach(tid, i')
=========================================================================
