------------------------------ MODULE Client ------------------------------
(* The Go client (pkg/client): endpoint view, failover, credentials and    *)
(* the mapping between calls, requests, answers and results.  The order in *)
(* which endpoints are tried is the client's choice.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd

CONSTANTS Seeds, Others,       \* endpoints
          Scheme,              \* of the seeds
          KeyForms, ValForms, TTLForms,
          Statuses,            \* HTTP error statuses
          MaxKeys,
          CredOpts             \* constructor options offered

VARIABLES view, cred, via,
          run,                 \* background refresh: "off", "on" or "closed"
          last
vars == <<view, cred, via, run, last>>
state == <<view, cred, via, run>>

Singles == {"set", "get", "getitem", "delete", "identity", "can"}
Batches == {"batchset", "batchget", "batchdelete"}
Cmds == Singles \cup Batches
Writes == {"set", "batchset"}
Endpoints == Seeds \cup Others
Sentinels == {"notfound", "unauthorized", "forbidden", "draining", "badrequest", "internal"}

(* ------------------------------------------------------------ answers *)
(* err: an error status, with the server's canonical body or another one *)
CodeOf(st) == CASE st = 404 -> "NOT_FOUND" [] st = 401 -> "UNAUTHORIZED" [] st = 403 -> "FORBIDDEN" [] st = 503 -> "DRAINING"
                [] st = 400 -> "BAD_REQUEST" [] st = 500 -> "INTERNAL" [] OTHER -> "OTHER"
Bodies == {"canon", "details", "empty", "text", "long", "nocode", "exact256"}
ErrAns == { [k |-> "err", st |-> s, body |-> b, items |-> <<>>] : s \in Statuses, b \in Bodies }
DownAns == { [k |-> d, st |-> 0, body |-> "", items |-> <<>>] : d \in {"refused", "midbody"} }
(* per-key answers: present/stored, value, metadata number, item error code *)
Item(key, f, v, n, code) == [key |-> key, f |-> f, v |-> v, n |-> n, code |-> code]
Ok(items) == [k |-> "ok", st |-> 200, body |-> "", items |-> items]
NoContent == [k |-> "ok", st |-> 204, body |-> "", items |-> <<>>]

Retry(a) == a.k \in {"refused", "midbody"} \/ (a.k = "err" /\ a.st >= 500)

(* ------------------------------------------------------------ results *)
Class(code, st) ==
    CASE code = "NOT_FOUND" -> {"notfound"} [] code = "UNAUTHORIZED" -> {"unauthorized"} [] code = "DRAINING" -> {"draining"}
      [] code = "BAD_REQUEST" -> {"badrequest"} [] code = "INTERNAL" -> {"internal"}
      [] OTHER -> CASE st = 404 -> {"notfound"} [] st = 401 -> {"unauthorized"} [] st = 403 -> {"forbidden"} [] st = 503 -> {"draining"}
                    [] st = 400 -> {"badrequest"} [] st >= 500 -> {"internal"} [] OTHER -> {}
Canon(a) == a.body \in {"canon", "details"}
ErrRes(a, all) ==
    IF a.k = "err"
    THEN [k |-> "err", all |-> all, st |-> a.st, code |-> IF Canon(a) THEN CodeOf(a.st) ELSE "",
          body |-> a.body, is |-> Class(IF Canon(a) THEN CodeOf(a.st) ELSE "", a.st), items |-> <<>>]
    ELSE [k |-> "err", all |-> all, st |-> 0, code |-> "", body |-> "transport", is |-> {}, items |-> <<>>]
(* what the caller sees of an item *)
Show(cmd, it) ==
    CASE cmd \in {"batchset", "batchdelete"} ->
            [key |-> it.key, f |-> it.f, v |-> "", n |-> it.n, code |-> it.code,
             is |-> IF it.code = "" THEN {} ELSE Class(it.code, 0)]
      [] cmd \in {"get", "getitem", "batchget"} ->
            [key |-> it.key, f |-> it.f, v |-> IF it.f THEN it.v ELSE "", n |-> IF it.f /\ cmd # "get" THEN it.n ELSE 0, code |-> "", is |-> {}]
      [] OTHER -> [key |-> it.key, f |-> it.f, v |-> "", n |-> IF cmd = "can" THEN 0 ELSE it.n, code |-> "", is |-> {}]
OkRes(cmd, a) == [k |-> "ok", all |-> FALSE, st |-> 0, code |-> "", body |-> "", is |-> {},
                  items |-> IF cmd \in {"set", "delete"} THEN <<>> ELSE [j \in DOMAIN a.items |-> Show(cmd, a.items[j])]]

(* att: the endpoints tried, in order, out of set V *)
LegalIn(V, ans, att) ==
    /\ Len(att) >= 1
    /\ \A j, k \in DOMAIN att : j # k => att[j] # att[k]
    /\ \A j \in DOMAIN att : att[j] \in V
    /\ \A j \in 1..(Len(att) - 1) : Retry(ans[att[j]])
    /\ Retry(ans[att[Len(att)]]) => Len(att) = Cardinality(V)
Final(ans, att) == ans[att[Len(att)]]
Res(cmd, ans, att) ==
    LET a == Final(ans, att) IN IF a.k = "ok" THEN OkRes(cmd, a) ELSE ErrRes(a, Retry(a))

(* --------------------------------------------------------- topology *)
States == {"alive", "suspect", "dead"}
Forms == {"bare", "padded", "full", "fullslash", "blank"}
Url(m) == IF m.form \in {"full", "fullslash"} THEN "https://" \o m.ep ELSE Scheme \o "://" \o m.ep
Usable(ms) == { Url(m) : m \in { x \in { ms[k] : k \in DOMAIN ms } : x.state # "dead" /\ x.form # "blank" } }
SeedUrls == { Scheme \o "://" \o s : s \in Seeds }
Host(u) == CHOOSE e \in Endpoints : u \in {"https://" \o e, "http://" \o e}
Hosts(V) == { Host(u) : u \in V }

(* refresh: the view first, then the seeds outside it *)
RefreshLegal(ans, att) ==
    LET V == Hosts(view)
        rest == { u \in SeedUrls : u \notin view }
        R == Hosts(rest) IN
    \/ LegalIn(V, ans, att) /\ (rest = {} \/ ~Retry(Final(ans, att)))
    \/ \E n \in 1..Len(att) :
         /\ n = Cardinality(V) /\ n < Len(att)
         /\ LegalIn(V, ans, SubSeq(att, 1, n)) /\ Retry(ans[att[n]])
         /\ LegalIn(R, ans, SubSeq(att, n + 1, Len(att)))
RefreshOk(ans, att) == Final(ans, att).k = "ok"
ViewAfter(ans, att) ==
    IF RefreshOk(ans, att) /\ Usable(Final(ans, att).items) # {} THEN Usable(Final(ans, att).items) ELSE view

(* ----------------------------------------------------- constructor *)
(* options are applied in order; the first invalid one refuses *)
BadOpts == {"noseeds", "blankseeds", "emptybearer", "emptyuser", "emptypw", "nooidcid", "nooidcsecret", "nooidcurl", "nilhttp", "fast"}
AuthOf(o) == CASE o \in {"bearer1", "bearer2", "basic1", "oidc1"} -> o [] OTHER -> ""
HTTPOf(o) == IF o \in {"http1", "http2", "http3"} THEN o ELSE ""
RefreshOf(o) == IF o \in {"tick", "norefresh", "negrefresh", "slow"} THEN o ELSE ""
LastOf(opts, F(_), d) ==
    LET I == { k \in DOMAIN opts : F(opts[k]) # "" } IN
    IF I = {} THEN d ELSE F(opts[CHOOSE k \in I : \A j \in I : j <= k])
Refused(opts) == \E k \in DOMAIN opts : opts[k] \in BadOpts
(* the documented order: HTTP client first, then credentials *)
Documented(opts) == \A j, k \in DOMAIN opts : (HTTPOf(opts[j]) # "" /\ AuthOf(opts[k]) # "") => j < k

(* --------------------------------------------------------- actions *)
NewClient(opts) ==
    /\ IF Refused(opts) THEN UNCHANGED <<cred, via, run>>
       ELSE cred' = LastOf(opts, AuthOf, "none") /\ via' = LastOf(opts, HTTPOf, "default")
            /\ run' = IF LastOf(opts, RefreshOf, "off") = "tick" THEN "on" ELSE "off"
    /\ view' = IF Refused(opts) THEN view ELSE SeedUrls
    /\ last' = [op |-> "new", opts |-> opts, exp |-> [err |-> Refused(opts)]]
Call(cmd, keys, vals, ttls, ans, att) ==
    /\ LegalIn(Hosts(view), ans, att)
    /\ UNCHANGED state
    /\ last' = [op |-> "call", cmd |-> cmd, keys |-> keys, vals |-> vals, ttls |-> ttls, ans |-> ans,
                exp |-> [att |-> att, res |-> Res(cmd, ans, att)]]
(* a batch of nothing is answered without a request *)
EmptyBatch(cmd) ==
    /\ cmd \in Batches /\ UNCHANGED state
    /\ last' = [op |-> "emptybatch", cmd |-> cmd, exp |-> [err |-> FALSE, n |-> 0, att |-> <<>>]]
Refresh(ans, att) ==
    /\ RefreshLegal(ans, att)
    /\ view' = ViewAfter(ans, att)
    /\ UNCHANGED <<cred, via, run>>
    /\ last' = [op |-> "refresh", ans |-> ans, exp |-> [err |-> ~RefreshOk(ans, att), att |-> att, view |-> view']]

Close == /\ run' = IF run = "on" THEN "closed" ELSE run
         /\ UNCHANGED <<view, cred, via>>
         /\ last' = [op |-> "close", exp |-> [err |-> FALSE]]
(* longer than a refresh interval passes; every endpoint lists members ms *)
WaitView(ms) == IF run = "on" /\ Usable(ms) # {} THEN Usable(ms) ELSE view
Wait(ms) == /\ view' = WaitView(ms)
            /\ UNCHANGED <<cred, via, run>>
            /\ last' = [op |-> "wait", items |-> ms, exp |-> [refreshed |-> (run = "on"), view |-> view']]

(* how a TTL is written on the wire: positive ones only; batches count *)
(* milliseconds, and less than one is still a TTL                      *)
WireTTL(cmd, f) == IF f \in {"none", "neg"} THEN "none" ELSE IF f = "sub" /\ cmd = "batchset" THEN "ms1" ELSE f

(* ----------------------------------------------- generated choices *)
Init == /\ view = SeedUrls /\ cred = "none" /\ via = "default" /\ run = "off"
        /\ last = [op |-> "init", scheme |-> Scheme, seeds |-> Seeds]

TryOrder(V, ans) ==   \* some legal order
    LET F == { e \in V : ~Retry(ans[e]) } IN
    CHOOSE q \in UNION { [1..n -> V] : n \in 1..Cardinality(V) } : LegalIn(V, ans, q)
One(S) == TLCEval(CHOOSE x \in Pick(S) : TRUE)
(* the metadata numbers and item codes an ok answer carries *)
OkItems(cmd, keys) ==
    [j \in DOMAIN keys |->
        LET f == IF cmd \in Batches \cup {"can"} THEN One(BOOLEAN) ELSE TRUE
            code == IF cmd \in {"batchset", "batchdelete"} /\ ~f THEN One({"DRAINING", "INTERNAL", "BAD_REQUEST"}) ELSE "" IN
        Item(keys[j], f, IF cmd \in {"get", "getitem", "batchget"} /\ f THEN One(ValForms) ELSE "", One(0..5), code)]
Answer(cmd, keys) ==
    LET r == One(1..10) IN
    IF r <= 3 THEN Ok(OkItems(cmd, keys))
    ELSE IF r = 4 THEN One(DownAns)
    ELSE IF r <= 7 THEN [One(ErrAns) EXCEPT !.st = One({ s \in Statuses : s >= 500 })]
    ELSE IF r = 8 /\ cmd = "delete" THEN NoContent
    ELSE One(ErrAns)
RandKeys(n) == [j \in 1..n |-> One(KeyForms)]
(* \E v \in {draw} : binds one draw; a LET would draw again at each use *)
CallSim == \E cmd \in Pick(Cmds), n \in Pick(1..MaxKeys) :
    \E keys \in {TLCEval(RandKeys(IF cmd \in Batches THEN n ELSE 1))},
       vals \in {TLCEval([j \in 1..(IF cmd = "batchset" THEN n ELSE IF cmd = "set" THEN 1 ELSE 0) |-> One(ValForms)])},
       ttls \in {TLCEval([j \in 1..(IF cmd = "batchset" THEN n ELSE IF cmd = "set" THEN 1 ELSE 0) |-> One(TTLForms)])} :
    \E ans \in {TLCEval([e \in Endpoints |-> Answer(cmd, keys)])} :
    \E att \in {TLCEval(TryOrder(Hosts(view), ans))} : Call(cmd, keys, vals, ttls, ans, att)
RandMember(e) == [ep |-> e, form |-> IF One(1..3) = 1 THEN One(Forms) ELSE "bare", state |-> IF One(1..2) = 1 THEN One(States) ELSE "alive"]
Distinct(ms) == \A j, k \in DOMAIN ms : j # k => ms[j].ep # ms[k].ep
RAnswer(e) ==
    LET r == One(1..6) IN
    IF r <= 3 THEN LET E == One(SUBSET Endpoints)
                       sq == CHOOSE q \in [1..Cardinality(E) -> E] : \A j, k \in DOMAIN q : j # k => q[j] # q[k] IN
                   Ok([j \in DOMAIN sq |-> RandMember(sq[j])])
    ELSE IF r = 4 THEN One(DownAns)
    ELSE IF r = 5 THEN [k |-> "garbage", st |-> 200, body |-> "", items |-> <<>>]
    ELSE One(ErrAns)
RTryOrder(ans) ==
    LET V == TLCEval(Hosts(view))
        R == Hosts({ u \in SeedUrls : u \notin view })
        a == TLCEval(TryOrder(V, ans)) IN
    IF Retry(Final(ans, a)) /\ R # {} THEN a \o TryOrder(R, ans) ELSE a
RefreshSim == \E all \in Pick(1..4) :      \* sometimes the whole view is gone
    \E ans \in {TLCEval([e \in Endpoints |-> IF all = 1 /\ e \in Hosts(view) THEN One(DownAns) ELSE RAnswer(e)])} :
    \E att \in {TLCEval(RTryOrder(ans))} : Refresh(ans, att)
NewSim == \E n \in Pick(0..3) : \E opts \in {TLCEval([j \in 1..n |-> One(CredOpts)])} :
    NewClient(IF Documented(opts) THEN opts ELSE <<>>)
NextCalls == CallSim
Listed(e) == <<[ep |-> e, form |-> "bare", state |-> "alive"]>>
NextLoop == \/ \E o \in {<<>>, <<"tick">>, <<"tick", "negrefresh">>, <<"norefresh", "tick">>, <<"slow">>} : last.op = "init" /\ NewClient(o)
            \/ last.op \notin {"init", "close"} /\ Close
            \/ last.op = "close" /\ \E a \in {"first", "again"} : IF a = "again" /\ run = "closed" THEN Close ELSE Wait(Listed("n2"))
            \/ last.op = "new" /\ \E e \in {"n1", "n2"} : Wait(Listed(e))
NextTopo == \E r \in Pick(1..3) : IF r = 1 THEN CallSim ELSE RefreshSim
NextBatch == \E r \in Pick(1..12) : IF r = 1 THEN \E c \in Pick(Batches) : EmptyBatch(c) ELSE CallSim
NextCred == \E r \in Pick(1..3) : IF r = 1 \/ last.op = "init" THEN NewSim ELSE IF r = 2 THEN CallSim ELSE RefreshSim

(* ------------------------------------------- bounded exhaustive model *)
SmallAns == { Ok(<<>>), [k |-> "refused", st |-> 0, body |-> "", items |-> <<>>] }
            \cup { [k |-> "err", st |-> s, body |-> "canon", items |-> <<>>] : s \in Statuses }
SmallMembers == { <<>> } \cup { <<[ep |-> e, form |-> f, state |-> s]>> : e \in Endpoints, f \in {"bare", "full", "blank"}, s \in {"alive", "dead"} }
                \cup { <<[ep |-> e, form |-> "bare", state |-> s], [ep |-> d, form |-> "bare", state |-> "alive"]>> : e \in Seeds, d \in Others, s \in States }
Orders(V) == UNION { { q \in [1..n -> V] : \A j, k \in DOMAIN q : j # k => q[j] # q[k] } : n \in 1..Cardinality(V) }
NextSmall ==
    \/ \E ans \in [Endpoints -> SmallAns], att \in Orders(Hosts(view)) : Call("delete", <<"k">>, <<>>, <<>>, ans, att)
    \/ \E ok \in SUBSET Endpoints, ms \in SmallMembers, bad \in {"refused", "garbage"} :
         LET ans == [e \in Endpoints |-> IF e \in ok THEN Ok(ms) ELSE [k |-> bad, st |-> 200, body |-> "", items |-> <<>>]] IN
         \E att \in UNION { { q \in [1..n -> Endpoints] : TRUE } : n \in 1..3 } : Refresh(ans, att)
------------------------------------------------------------------------
AtMostOnce == last.op = "call" => \A j, k \in DOMAIN last.exp.att : j # k => last.exp.att[j] # last.exp.att[k]     \* K01
FirstAnswerWins == last.op = "call" =>
    \A j \in DOMAIN last.exp.att : ~Retry(last.ans[last.exp.att[j]]) => j = Len(last.exp.att)
AllFailedOnlyIfAll == (last.op = "call" /\ last.exp.res.all) => \A u \in view : Retry(last.ans[Host(u)])
ViewNeverEmpty == view # {}                                                                                      \* K03
NeverDead == [][ (last'.op = "refresh" /\ view' # view) => view' = Usable(Final(last'.ans, last'.exp.att).items) ]_vars
(* with every member of the view gone, one answering seed suffices *)
Recovers == [][ (last'.op = "refresh" /\ (\A e \in Hosts(view) : Retry(last'.ans[e]))
                  /\ (\A e \in Seeds : last'.ans[e].k = "ok") /\ SeedUrls \cap view = {}) => ~last'.exp.err ]_vars
A_AtMostOnce == [][AtMostOnce']_vars
A_FirstAnswerWins == [][FirstAnswerWins']_vars
A_AllFailedOnlyIfAll == [][AllFailedOnlyIfAll']_vars
=========================================================================
