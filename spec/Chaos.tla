-------------------------------- MODULE Chaos --------------------------------
(* Fault injection in front of the peer transport.  Rates are in tenths and *)
(* clamped to 0..10; a call is dropped before it reaches the peer, or it    *)
(* reaches the peer once, perhaps late.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd
CONSTANTS Ways, Kinds, Ops

VARIABLES drop, lat, late, drops, lates, last
vars == <<drop, lat, late, drops, lates, last>>
view == <<drop, lat, late, drops, lates>>
Clamp(r) == IF r < 0 THEN 0 ELSE IF r > 10 THEN 10 ELSE r

(* whether a call is dropped, and whether it is delayed *)
Dropped == IF drop = 0 THEN {FALSE} ELSE IF drop = 10 THEN {TRUE} ELSE BOOLEAN
Delayed == IF lat = 0 \/ late = 0 THEN {FALSE} ELSE IF late = 10 THEN {TRUE} ELSE BOOLEAN

Init ==
    /\ drop = 0 /\ lat = 0 /\ late = 0 /\ drops = 0 /\ lates = 0
    /\ \E w \in Pick(Ways) : last = [op |-> "init", way |-> w]
On(o) == o \in Ops
SetDrop(r) == On("drop") /\ drop' = Clamp(r) /\ last' = [op |-> "drop", r |-> r] /\ UNCHANGED <<lat, late, drops, lates>>
SetLatency(d, r) == On("latency") /\ lat' = d /\ late' = Clamp(r) /\ last' = [op |-> "latency", d |-> d, r |-> r] /\ UNCHANGED <<drop, drops, lates>>
(* one call of a kind; the peer answers with outcome a *)
Call(kind, a) ==
    /\ On("call")
    /\ \E x \in Pick(Dropped), y \in Pick(Delayed) :
        /\ drops' = drops + (IF x THEN 1 ELSE 0)
        /\ lates' = lates + (IF ~x /\ y THEN 1 ELSE 0)
        /\ last' = [op |-> "call", kind |-> kind, a |-> a, reached |-> IF x THEN 0 ELSE 1]
    /\ UNCHANGED <<drop, lat, late>>
(* many calls, from several callers at once *)
Count == 200
Burst(kind, g) == On("burst") /\ lat = 0 /\ last' = [op |-> "burst", kind |-> kind, g |-> g, count |-> Count] /\ UNCHANGED <<drop, lat, late, drops, lates>>

Answers == {"ok", "miss", "fail"}
Next ==
    \/ \E r \in Pick({-3, 0, 0, 1, 5, 9, 10, 10, 25}) : SetDrop(r)
    \/ \E r \in Pick({0, 0, 10, 5, 30, -1}), d \in Pick({0, 1, 20}) : SetLatency(d, r)
    \/ \E k \in Pick(Kinds), a \in Pick(Answers) : Call(k, a)
    \/ \E k \in Pick(Kinds), a \in Pick(Answers) : Call(k, a)
    \/ \E k \in Pick(Kinds), a \in Pick(Answers) : Call(k, a)
    \/ \E k \in Pick(Kinds), g \in Pick({1, 4}) : Burst(k, g)

Bound == drops + lates <= 4
------------------------------------------------------------------------
Disabled == [][last'.op = "call" /\ drop = 0 => last'.reached = 1 /\ drops' = drops]_vars
Certain == [][last'.op = "call" /\ drop = 10 => last'.reached = 0 /\ drops' = drops + 1 /\ lates' = lates]_vars
OnceOrCounted == [][last'.op = "call" => last'.reached + (drops' - drops) = 1]_vars
InRange == drop \in 0..10 /\ late \in 0..10
=============================================================================
