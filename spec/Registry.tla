----------------------------- MODULE Registry -----------------------------
(* The plugin registries (eviction algorithms, statistics collectors,      *)
(* serializers): a name resolves to exactly what was registered under it   *)
(* in that registry.  And the serializers themselves: a blob decodes to    *)
(* the value it was made from, whatever was encoded since.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd

CONSTANTS Kinds,      \* subset of {"eviction", "stats", "serializer"}
          Regs, Names, Customs, Slots, Values
VARIABLES kind, tab, blob, last
vars == <<kind, tab, blob, last>>
view == <<kind, tab, blob>>

None == "none"
Defaults(k) == CASE k = "eviction" -> {"lru", "lfu", "clock", "cawolfu"} [] k = "stats" -> {"default"} [] k = "serializer" -> {"default", "msgpack"}
                 [] OTHER -> {}
Fresh(k, empty) == [n \in Names |-> IF ~empty /\ n \in Defaults(k) THEN "std:" \o n ELSE None]

Make(r, k, empty) ==
    /\ kind' = [kind EXCEPT ![r] = k] /\ tab' = [tab EXCEPT ![r] = Fresh(k, empty)]
    /\ UNCHANGED blob
    /\ last' = [op |-> "make", r |-> r, kind |-> k, empty |-> empty, exp |-> [done |-> TRUE]]
Register(r, n, c) ==
    /\ kind[r] # None
    /\ tab' = [tab EXCEPT ![r][n] = c] /\ UNCHANGED <<kind, blob>>
    /\ last' = [op |-> "register", r |-> r, name |-> n, c |-> c, exp |-> [done |-> TRUE]]
RegisterMany(r, S, c) ==
    /\ kind[r] = "eviction"
    /\ tab' = [tab EXCEPT ![r] = [n \in Names |-> IF n \in S THEN c ELSE @[n]]] /\ UNCHANGED <<kind, blob>>
    /\ last' = [op |-> "registermany", r |-> r, names |-> S, c |-> c, exp |-> [done |-> TRUE]]
(* what a resolution gives: the registered thing, or why not *)
Given(k, t, n, cap) ==
    IF n = "" THEN "empty" ELSE IF k = "eviction" /\ cap < 0 THEN (IF t[n] = None THEN "refused" ELSE "capacity")
    ELSE IF t[n] = None THEN "unknown" ELSE t[n]
Resolve(r, n, cap) ==
    /\ kind[r] # None /\ (n = "" => cap >= 0)
    /\ UNCHANGED <<kind, tab, blob>>
    /\ last' = [op |-> "resolve", r |-> r, name |-> n, cap |-> cap, exp |-> [given |-> Given(kind[r], tab[r], n, cap), fresh |-> TRUE]]
(* the package-level constructors know the defaults only *)
Direct(k, n, cap) ==
    /\ (n = "" => cap >= 0)
    /\ UNCHANGED <<kind, tab, blob>>
    /\ last' = [op |-> "direct", kind |-> k, name |-> n, cap |-> cap, exp |-> [given |-> Given(k, Fresh(k, FALSE), n, cap), fresh |-> TRUE]]

(* ------------------------------------------------------ serializers *)
Unfit == {"nan", "inf", "chan", "func"}     \* no representation
Sers == {"default", "msgpack"}
(* msgpack is registered but disabled: it refuses, it never yields data *)
Encode(s, slot, v) ==
    /\ blob' = IF s = "default" /\ v \notin Unfit THEN [blob EXCEPT ![slot] = v] ELSE blob
    /\ UNCHANGED <<kind, tab>>
    /\ last' = [op |-> "encode", ser |-> s, slot |-> slot, v |-> v, exp |-> [err |-> s # "default" \/ v \in Unfit]]
Decode(s, slot) ==
    /\ blob[slot] # None
    /\ UNCHANGED <<kind, tab, blob>>
    /\ last' = [op |-> "decode", ser |-> s, slot |-> slot,
                exp |-> [err |-> s # "default", v |-> IF s = "default" THEN blob[slot] ELSE None]]

Init == kind = [r \in Regs |-> None] /\ tab = [r \in Regs |-> [n \in Names |-> None]] /\ blob = [x \in Slots |-> None] /\ last = [op |-> "init"]
NextReg ==
    \/ \E r \in Pick(Regs), k \in Pick(Kinds), e \in Pick(BOOLEAN) : kind[r] = None /\ Make(r, k, e)
    \/ \E r \in Pick(Regs), n \in Pick(Names \ {""}), c \in Pick(Customs) : Register(r, n, c)
    \/ \E r \in Pick(Regs), S \in Pick(SUBSET (Names \ {""})), c \in Pick(Customs) : RegisterMany(r, S, c)
    \/ \E r \in Pick(Regs), n \in Pick(Names), cap \in Pick({-1, 0, 3}) : Resolve(r, n, cap)
    \/ \E k \in Pick(Kinds), n \in Pick(Names), cap \in Pick({-1, 0, 3}) : Direct(k, n, cap)
NextSer ==
    \/ \E s \in Pick(Sers), x \in Pick(Slots), v \in Pick(Values) : Encode(IF v = "text" THEN s ELSE "default", x, v)
    \/ \E s \in Pick(Sers), x \in Pick(Slots) : Decode(s, x)
Next == NextReg \/ NextSer
------------------------------------------------------------------------
(* registering in one registry leaves the others alone *)
Independent == [][ \A r \in Regs : tab'[r] # tab[r] => last'.r = r ]_vars
OnlyRegistered == [][ (last'.op = "resolve" /\ last'.exp.given \notin {"empty", "refused", "capacity", "unknown"}) =>
                         tab[last'.r][last'.name] = last'.exp.given ]_vars
BlobStays == [][ \A x \in Slots : blob'[x] # blob[x] => last'.op = "encode" /\ last'.slot = x ]_vars
=========================================================================
