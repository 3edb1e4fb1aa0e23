--------------------------- MODULE ClientTrace ---------------------------
(* Recorded client behaviour against Client.tla.  obs.att lists the       *)
(* requests the network saw: endpoint, and what the request asked for.    *)
EXTENDS TraceLib
CONSTANTS Seeds, Others, Scheme, KeyForms, ValForms, TTLForms, Statuses, MaxKeys, CredOpts, Focus
VARIABLES tid, i, view, cred, via, run, last
C == INSTANCE Client
TraceView == <<tid, i, view, run>>
Ev == Traces[tid][i + 1]
TraceInit == tid \in 1..NTraces /\ i = 0 /\ C!Init
On(f) == f \in Focus

Eps(att) == [j \in DOMAIN att |-> att[j].ep]
(* the request every attempt must carry *)
ReqOk(a) ==
    /\ a.route = Ev.cmd
    /\ On("req") => (a.keys = Ev.keys /\ a.vals = Ev.vals /\ a.ttls = [j \in DOMAIN Ev.ttls |-> C!WireTTL(Ev.cmd, Ev.ttls[j])])
CredOk(a) == On("cred") => (a.auth = cred /\ a.via = via)
(* results carry the set of matched sentinels as a sorted list *)
Norm(r) == [r EXCEPT !.is = SeqSet(@), !.items = [j \in DOMAIN @ |-> [@[j] EXCEPT !.is = SeqSet(@)]]]
Kind(r) == [k |-> r.k, all |-> r.all]
ErrPart(r) == [k |-> r.k, st |-> r.st, code |-> r.code, body |-> r.body, is |-> r.is]
ResOk(got, want) ==
    /\ On("fail") => Kind(got) = Kind(want)
    /\ On("err") => ErrPart(got) = ErrPart(want)
    /\ On("items") => (got.k = want.k /\ got.items = want.items)
AttOk(att) == On("fail") => C!LegalIn(C!Hosts(view), Ev.ans, Eps(att))
Shape(att) == att # <<>> /\ \A j \in DOMAIN att : att[j].ep \in C!Endpoints

TraceNext ==
    /\ i < Len(Traces[tid])
    /\ UNCHANGED last
    /\ \/ /\ Ev.op = "new"
          /\ (On("cred") => Ev.obs.err = C!Refused(Ev.opts))
          /\ IF Ev.obs.err THEN UNCHANGED <<view, cred, via, run>>
             ELSE /\ cred' = C!LastOf(Ev.opts, C!AuthOf, "none") /\ via' = C!LastOf(Ev.opts, C!HTTPOf, "default")
                  /\ view' = C!SeedUrls
                  /\ run' = IF C!LastOf(Ev.opts, C!RefreshOf, "off") = "tick" THEN "on" ELSE "off"
       \/ /\ Ev.op = "close" /\ ~Ev.obs.err
          /\ run' = IF run = "on" THEN "closed" ELSE run
          /\ UNCHANGED <<view, cred, via>>
       \/ /\ Ev.op = "wait"
          /\ Ev.obs.refreshed = (run = "on")
          /\ view' = C!WaitView(Ev.items) /\ SeqSet(Ev.obs.view) = view'
          /\ UNCHANGED <<cred, via, run>>
       \/ /\ Ev.op = "call"
          /\ Shape(Ev.obs.att)
          /\ AttOk(Ev.obs.att)
          /\ \A j \in DOMAIN Ev.obs.att : ReqOk(Ev.obs.att[j]) /\ CredOk(Ev.obs.att[j])
          /\ ResOk(Norm(Ev.obs.res), C!Res(Ev.cmd, Ev.ans, Eps(Ev.obs.att)))
          /\ UNCHANGED <<view, cred, via, run>>
       \/ /\ Ev.op = "emptybatch"
          /\ (On("items") => (~Ev.obs.err /\ Ev.obs.n = 0 /\ Ev.obs.att = <<>>))
          /\ UNCHANGED <<view, cred, via, run>>
       \/ /\ Ev.op = "refresh"
          /\ Shape(Ev.obs.att)
          /\ \A j \in DOMAIN Ev.obs.att : Ev.obs.att[j].route = "members" /\ CredOk(Ev.obs.att[j])
          /\ IF On("topo")
             THEN /\ C!RefreshLegal(Ev.ans, Eps(Ev.obs.att))
                  /\ Ev.obs.err = ~C!RefreshOk(Ev.ans, Eps(Ev.obs.att))
                  /\ view' = C!ViewAfter(Ev.ans, Eps(Ev.obs.att))
                  /\ SeqSet(Ev.obs.view) = view' /\ Len(Ev.obs.view) = Cardinality(view')
             ELSE view' = SeqSet(Ev.obs.view)
          /\ UNCHANGED <<cred, via, run>>
    /\ i' = i + 1 /\ tid' = tid
    /\ Reach(tid, i')
=========================================================================
