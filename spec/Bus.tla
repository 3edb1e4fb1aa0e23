------------------------------- MODULE Bus -------------------------------
(* The in-process event bus (internal/eventbus): per-subscriber bounded    *)
(* buffers, one version counter, a dropped counter.  Slots are the         *)
(* subscriptions a test holds; a slot whose subscription ended can be      *)
(* subscribed again (a new channel).                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd

CONSTANTS Slots, Cap, MaxVer, Bursts

VARIABLES st,      \* Slots -> "none" | "open" | "detached" | "closed"
          buf,     \* Slots -> sequence of undelivered events
          ver, dropped, last
vars == <<st, buf, ver, dropped, last>>
view == <<st, buf, ver, dropped>>

TsKinds == {"set", "unset"}
NOpen(s) == Cardinality({ k \in Slots : s[k] = "open" })
Ids(q)  == [j \in DOMAIN q |-> [id |-> q[j].id, ts |-> q[j].ts]]
Vers(q) == [j \in DOMAIN q |-> q[j].ver]

Min(a, b) == IF a < b THEN a ELSE b
Burst(n, ts) == [j \in 1..n |-> [id |-> ver + j, ver |-> ver + j, ts |-> ts]]

(* what each subscriber can still take of a burst *)
Room(k) == Cap - Len(buf[k])
Pub(n, ts) ==
    LET evs == Burst(n, ts)
        open == { k \in Slots : st[k] = "open" }
        lost(k) == n - Min(n, Room(k))
        RECURSIVE Sum(_)
        Sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN lost(k) + Sum(S \ {k})
    IN /\ buf' = [k \in Slots |-> IF k \in open THEN buf[k] \o SubSeq(evs, 1, Min(n, Room(k))) ELSE buf[k]]
       /\ ver' = ver + n
       /\ dropped' = dropped + Sum(open)
       /\ UNCHANGED st
       /\ last' = [op |-> "pub", n |-> n, ts |-> ts, first |-> ver + 1,
                   exp |-> [rets |-> [j \in 1..n |-> ver + j], dropped |-> dropped', n |-> NOpen(st)]]

Sub(k) ==
    /\ st[k] \in {"none", "closed"}
    /\ st' = [st EXCEPT ![k] = "open"] /\ buf' = [buf EXCEPT ![k] = <<>>]
    /\ UNCHANGED <<ver, dropped>>
    /\ last' = [op |-> "sub", k |-> k, exp |-> [n |-> NOpen(st'), dropped |-> dropped]]

(* the end of a subscription: no more delivery, then the channel closes *)
Detach(k) == st' = [st EXCEPT ![k] = IF @ = "open" THEN "detached" ELSE @]
CloseCh(k) == st[k] = "detached" /\ st' = [st EXCEPT ![k] = "closed"]
Ended(k) == st' = [st EXCEPT ![k] = "closed"]

(* subscribing under an already-cancelled context ends on its own *)
SubDead(k) ==
    /\ st[k] \in {"none", "closed"}
    /\ Ended(k) /\ buf' = [buf EXCEPT ![k] = <<>>] /\ UNCHANGED <<ver, dropped>>
    /\ last' = [op |-> "subdead", k |-> k, exp |-> [n |-> NOpen(st'), dropped |-> dropped]]

End(k, how) ==
    /\ st[k] \in {"open", "closed"}
    /\ Ended(k) /\ UNCHANGED <<buf, ver, dropped>>
    /\ last' = [op |-> how, k |-> k, exp |-> [n |-> NOpen(st'), dropped |-> dropped]]

(* one non-blocking receive *)
Outcome(k) == IF buf[k] # <<>> THEN "event" ELSE IF st[k] = "closed" THEN "closed" ELSE "empty"
Recv(k) ==
    /\ st[k] # "none"
    /\ buf' = [buf EXCEPT ![k] = IF @ = <<>> THEN @ ELSE Tail(@)]
    /\ UNCHANGED <<st, ver, dropped>>
    /\ last' = [op |-> "recv", k |-> k,
                exp |-> [end |-> Outcome(k),
                         got |-> IF buf[k] = <<>> THEN <<>> ELSE Ids(<<buf[k][1]>>),
                         vers |-> IF buf[k] = <<>> THEN <<>> ELSE <<buf[k][1].ver>>]]
(* receive until empty or closed *)
Drain(k) ==
    /\ st[k] # "none"
    /\ buf' = [buf EXCEPT ![k] = <<>>] /\ UNCHANGED <<st, ver, dropped>>
    /\ last' = [op |-> "drain", k |-> k,
                exp |-> [end |-> IF st[k] = "closed" THEN "closed" ELSE "empty",
                         got |-> Ids(buf[k]), vers |-> Vers(buf[k])]]

Init ==
    /\ st = [k \in Slots |-> "none"] /\ buf = [k \in Slots |-> <<>>]
    /\ ver = 0 /\ dropped = 0 /\ last = [op |-> "init"]

Next ==
    \/ \E n \in Pick(Bursts), ts \in Pick(TsKinds) : Pub(n, ts)
    \/ \E k \in Pick(Slots) : Sub(k) \/ SubDead(k) \/ Recv(k) \/ Drain(k)
    \/ \E k \in Pick(Slots), how \in Pick({"unsub", "cancel"}) : End(k, how)

Bound == ver <= MaxVer
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------
Ascending(q) == \A a, b \in DOMAIN q : a < b => q[a].ver < q[b].ver
TypeOK == \A k \in Slots : Len(buf[k]) <= Cap /\ Ascending(buf[k])                      \* E01, E02
VersionStep == [][ver' >= ver]_vars                                                    \* E02
(* every event published while a subscription is open is delivered or counted *)
Accounted == [][ last'.op = "pub" =>
    LET open == { k \in Slots : st[k] = "open" }
        RECURSIVE D(_)
        D(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE
                                      IN Len(buf'[k]) - Len(buf[k]) + D(S \ {k})
    IN D(open) + (dropped' - dropped) = last'.n * Cardinality(open) ]_vars              \* E01
EndedStaysEnded == [][ \A k \in Slots :
    (st[k] = "closed" /\ last'.op \notin {"sub", "subdead"}) =>
        st'[k] = "closed" /\ Len(buf'[k]) <= Len(buf[k]) ]_vars                         \* E03
=========================================================================
