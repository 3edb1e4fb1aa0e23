------------------------------- MODULE Lifetime -------------------------------
(* Values and lifetimes of copies in a cluster.  Nodes are named by their    *)
(* place in the key's ring order: 1..R own it, 1 is its primary.  A live copy *)
(* knows which write it is of (n), its bytes (kind) and how many more ticks   *)
(* it has (left; 9: as good as forever, 0: no expiration).  A copy that has   *)
(* expired stays around until its node makes an expiration pass (gone).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd
CONSTANTS N, R, Keys, Kinds, MaxN, Ops

Nodes == 1..N
Owners == 1..R
Ttls == {"none", "long", "tiny"} \cup (IF "tick" \in Ops THEN {"short"} ELSE {})
None == [n |-> 0, kind |-> "", left |-> 0, fades |-> FALSE]

VARIABLES cp,    \* key -> owner -> live copy
          ex,    \* key -> owner -> write of an expired copy that may still be there (0: none)
          top,   \* key -> number of the latest write
          dirty, \* key -> the primary has not seen the latest write
          last
vars == <<cp, ex, top, dirty, last>>
view == <<cp, ex, top, dirty>>

Live(k, i) == cp[k][i] # None
Left(t) == CASE t = "none" -> 0 [] t = "long" -> 9 [] t = "short" -> 2 [] OTHER -> 1
(* "tiny" lifetimes are over before anyone looks, but they do end *)
Copy(n, kind, t) == [n |-> n, kind |-> kind, left |-> Left(t), fades |-> t = "short"]
Val(c) == [kind |-> c.kind, n |-> IF c.kind = "empty" THEN 0 ELSE c.n]
LiveSet(c) == { [k |-> k, i |-> i, v |-> Val(c[k][i]), left |-> c[k][i].left] : k \in Keys, i \in Owners }
Obs == [live_s |-> { x \in { [k |-> k, i |-> i, kind |-> Val(cp'[k][i]).kind, n |-> Val(cp'[k][i]).n, left |-> cp'[k][i].left]
                             : k \in Keys, i \in Owners } : x.kind # "" } ]

Init == /\ cp = [k \in Keys |-> [i \in Owners |-> None]] /\ ex = [k \in Keys |-> [i \in Owners |-> 0]]
        /\ top = [k \in Keys |-> 0] /\ dirty = [k \in Keys |-> FALSE]
        /\ last = [op |-> "init", r |-> R]
On(o) == o \in Ops
Set(i, k, kind, t) ==
    /\ On("set") /\ ~dirty[k] /\ top[k] < MaxN
    /\ LET c == IF t = "tiny" THEN None ELSE Copy(top[k] + 1, kind, t) IN
        /\ cp' = [cp EXCEPT ![k] = [j \in Owners |-> c]]
        /\ ex' = [ex EXCEPT ![k] = [j \in Owners |-> IF t = "tiny" THEN top[k] + 1 ELSE 0]]
    /\ top' = [top EXCEPT ![k] = @ + 1] /\ UNCHANGED dirty
    /\ last' = [op |-> "set", i |-> i, k |-> k, kind |-> kind, ttl |-> t, n |-> top[k] + 1, exp |-> [ok |-> TRUE] @@ Obs]
(* a write that reaches one owner only *)
Plant(j, k, kind, t) ==
    /\ On("plant") /\ top[k] < MaxN /\ t # "tiny"
    /\ cp' = [cp EXCEPT ![k][j] = Copy(top[k] + 1, kind, t)]
    /\ ex' = [ex EXCEPT ![k][j] = 0]
    /\ top' = [top EXCEPT ![k] = @ + 1] /\ dirty' = [dirty EXCEPT ![k] = j # 1]
    /\ last' = [op |-> "plant", j |-> j, k |-> k, kind |-> kind, ttl |-> t, n |-> top[k] + 1, exp |-> [ok |-> TRUE] @@ Obs]
(* a copy is brought from one owner to another (hand-off, repair, rebalancing) *)
Xfer(i, j, k) ==
    /\ On("xfer") /\ i # j /\ Live(k, i) /\ cp[k][i].n >= ex[k][j]
    /\ LET in == ~Live(k, j) \/ cp[k][i].n >= cp[k][j].n IN
        /\ cp' = IF in THEN [cp EXCEPT ![k][j] = cp[k][i]] ELSE cp
        /\ ex' = IF in THEN [ex EXCEPT ![k][j] = 0] ELSE ex
        /\ dirty' = [dirty EXCEPT ![k] = @ /\ ~(j = 1 /\ cp[k][i].n = top[k])]
    /\ UNCHANGED top
    /\ last' = [op |-> "xfer", i |-> i, j |-> j, k |-> k, exp |-> Obs]
Tick ==
    /\ On("tick")
    /\ LET over(k, i) == cp[k][i].fades /\ cp[k][i].left = 1
       IN /\ cp' = [k \in Keys |-> [i \in Owners |-> IF over(k, i) THEN None ELSE IF cp[k][i].fades THEN [cp[k][i] EXCEPT !.left = 1] ELSE cp[k][i]]]
          /\ ex' = [k \in Keys |-> [i \in Owners |-> IF over(k, i) THEN cp[k][i].n ELSE ex[k][i]]]
    /\ UNCHANGED <<top, dirty>>
    /\ last' = [op |-> "tick", exp |-> Obs]
(* what a read through node i finds, where it does not depend on expired     *)
(* copies that may or may not still be there                                 *)
Holders(k) == { j \in Owners : Live(k, j) }
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Certain(i, k) ==
    IF Holders(k) = {} \/ i \in Holders(k) THEN TRUE
    ELSE (IF i \in Owners THEN ex[k][i] = 0 ELSE TRUE) /\ \A j \in 1..(Min(Holders(k)) - 1) : ex[k][j] = 0
Found(i, k) == IF Holders(k) = {} THEN None ELSE IF i \in Holders(k) THEN cp[k][i] ELSE cp[k][Min(Holders(k))]
(* An owner that serves a read prolongs its own copy (after repairing it if it *)
(* had none); reads through other nodes prolong nothing.                      *)
Fresh(c) == IF c.fades THEN [c EXCEPT !.left = 2] ELSE c
Get(i, k) ==
    /\ On("get") /\ Certain(i, k)
    /\ LET f == Found(i, k)
           h == IF f # None /\ i \in Owners THEN Fresh(f) ELSE f IN
        /\ cp' = IF f # None /\ i \in Owners THEN [cp EXCEPT ![k][i] = h] ELSE cp
        /\ dirty' = [dirty EXCEPT ![k] = @ /\ ~(i = 1 /\ f # None /\ f.n = top[k])]
        /\ last' = [op |-> "get", i |-> i, k |-> k,
                    exp |-> [found |-> f # None, kind |-> Val(h).kind, n |-> Val(h).n, left |-> h.left] @@ Obs]
    /\ UNCHANGED <<ex, top>>
(* node i makes an expiration pass: its expired copies go, and nothing else *)
Pass(i) ==
    /\ On("pass")
    /\ ex' = [k \in Keys |-> [j \in Owners |-> ex[k][j]]]
    /\ UNCHANGED <<cp, top, dirty>>
    /\ last' = [op |-> "pass", i |-> i, exp |-> [gone |-> TRUE] @@ Obs]
Remove(i, k) ==
    /\ On("remove") /\ ~dirty[k]
    /\ cp' = [cp EXCEPT ![k] = [j \in Owners |-> None]] /\ ex' = [ex EXCEPT ![k] = [j \in Owners |-> 0]]
    /\ UNCHANGED <<top, dirty>>
    /\ last' = [op |-> "remove", i |-> i, k |-> k, exp |-> [ok |-> TRUE] @@ Obs]
Next ==
    \/ \E i \in Pick(Nodes), k \in Pick(Keys), kd \in Pick(Kinds), t \in Pick(Ttls) : Set(i, k, kd, t)
    \/ \E i \in Pick(Nodes), k \in Pick(Keys), kd \in Pick(Kinds), t \in Pick(Ttls \cap {"short", "long"}) : Set(i, k, kd, t)
    \/ \E j \in Pick(Owners), k \in Pick(Keys), kd \in Pick(Kinds), t \in Pick(Ttls) : Plant(j, k, kd, t)
    \/ \E i \in Pick(Owners), j \in Pick(Owners), k \in Pick(Keys) : Xfer(i, j, k)
    \/ Tick
    \/ \E i \in Pick(Nodes), k \in Pick(Keys) : Get(i, k)
    \/ \E i \in Pick(Nodes), k \in Pick(Keys) : Get(i, k)
    \/ \E i \in Pick(Nodes) : Pass(i)
    \/ \E i \in Pick(Nodes), k \in Pick(Keys) : Remove(i, k)
------------------------------------------------------------------------
(* a copy's lifetime never grows, whoever holds it, unless its holder serves a read of it *)
Shrinks == [][ \A k \in Keys : \A i \in Owners : (cp'[k][i].fades /\ cp'[k][i].n <= top[k]) =>
                 \/ \E j \in Owners : cp[k][j].n = cp'[k][i].n /\ cp[k][j].left >= cp'[k][i].left
                 \/ last'.op = "get" /\ last'.i = i /\ last'.k = k ]_vars
(* expiry takes away nothing that has not expired *)
OnlyExpired == [][ last'.op \in {"pass", "get", "xfer"} => \A k \in Keys, i \in Owners : cp[k][i] # None => cp'[k][i] # None ]_vars
NoneReturned == [][ (last'.op = "get" /\ last'.exp.found) => \E j \in Owners : cp[last'.k][j].n = top[last'.k] \/ cp[last'.k][j] # None ]_vars
SameWrite == \A k \in Keys, i, j \in Owners : (Live(k, i) /\ Live(k, j) /\ cp[k][i].n = cp[k][j].n) => Val(cp[k][i]) = Val(cp[k][j])
=============================================================================
