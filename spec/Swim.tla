-------------------------------- MODULE Swim --------------------------------
(* Failure detection among nodes 1..N: heartbeats with direct and indirect  *)
(* probes, timeouts, gossip, refutation.  Each node keeps its own view of   *)
(* every member (state, incarnation, time since it last had news of it).    *)
(* The code chooses the order in which it probes, its relays, its samples   *)
(* and its gossip targets at random, so a step yields a set of outcomes.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd, Functions, SequencesExt

CONSTANTS N, SuspectAfter, DeadAfter,   \* in ticks, 0 = off
          K,                            \* relays asked, 0 = no indirect probes
          Sample,                       \* members probed per heartbeat, 0 = all
          MaxInc, MaxTicks, Ops

Nodes == 1..N
Absent == [st |-> "none", inc |-> 0, age |-> 0]
States == {"alive", "suspect", "dead"}

VARIABLES v, link, clk, last
vars == <<v, link, clk, last>>
view == <<v, link, clk>>

Known(w, n) == {m \in Nodes : w[n][m].st # "none"}
Ok(L, a, b) == L[a][b] = 0

(* a transition of member m noted by n itself *)
Mark(w, n, m, st) ==
    IF w[n][m].st = "none" THEN w
    ELSE IF w[n][m].st = st THEN [w EXCEPT ![n][m].age = 0]
    ELSE [w EXCEPT ![n][m] = [st |-> st, inc |-> @.inc + 1, age |-> 0]]

(* whether some relay confirms m: every answer the choice of relays allows *)
Relayed(w, L, n, m) ==
    LET cand == {r \in Nodes \ {n, m} : w[n][r].st = "alive"}
        good == {r \in cand : Ok(L, n, r) /\ Ok(L, r, m)}
        k == IF Cardinality(cand) < K THEN Cardinality(cand) ELSE K
    IN IF K = 0 THEN {FALSE}
       ELSE (IF good # {} THEN {TRUE} ELSE {}) \cup (IF Cardinality(cand \ good) >= k THEN {FALSE} ELSE {})

(* n evaluates member m, as snapshot `snap` of its view had it *)
Evaluate(w, L, n, m, snap) ==
    IF DeadAfter > 0 /\ snap[m].age >= DeadAfter THEN {[w EXCEPT ![n][m] = Absent]}
    ELSE LET x == IF SuspectAfter > 0 /\ snap[m].age >= SuspectAfter /\ snap[m].st = "alive"
                  THEN Mark(w, n, m, "suspect") ELSE w
         IN IF Ok(L, n, m) THEN {Mark(x, n, m, "alive")}
            ELSE { IF b THEN Mark(x, n, m, "alive")
                   ELSE IF snap[m].st = "alive" THEN Mark(x, n, m, "suspect") ELSE x : b \in Relayed(x, L, n, m) }

RECURSIVE EvalAll(_, _, _, _, _)
EvalAll(w, L, n, todo, snap) ==
    IF todo = {} THEN {w}
    ELSE UNION { UNION { EvalAll(x, L, n, todo \ {m}, snap) : x \in Evaluate(w, L, n, m, snap) } : m \in todo }

Samples(w, n) ==
    IF Sample = 0 \/ Sample >= Cardinality(Known(w, n)) THEN {Known(w, n)}
    ELSE {x \in SUBSET Known(w, n) : Cardinality(x) = Sample}
Heartbeat(w, L, n) == UNION { EvalAll(w, L, n, x \ {n}, w[n]) : x \in Samples(w, n) }

(* node t hears a claim *)
Hear(w, t, c) ==
    IF c.m = t THEN IF c.st = "alive" \/ c.inc < w[t][t].inc THEN w
                    ELSE [w EXCEPT ![t][t] = [st |-> "alive", inc |-> (IF @.inc > c.inc THEN @.inc ELSE c.inc) + 1, age |-> 0]]
    ELSE IF w[t][c.m].st = "none" \/ c.inc > w[t][c.m].inc
         THEN [w EXCEPT ![t][c.m] = [st |-> c.st, inc |-> c.inc, age |-> 0]]
    ELSE w
HearAll(w, t, cs) == FoldLeft(LAMBDA a, c : Hear(a, t, c), w, cs)
Claims(w, n) == LET ks == SetToSeq(Known(w, n)) IN [i \in 1..Len(ks) |-> [m |-> ks[i], st |-> w[n][ks[i]].st, inc |-> w[n][ks[i]].inc]]
Gossip(w, L, n) ==
    IF Known(w, n) = {n} THEN {w}
    ELSE { IF Ok(L, n, t) THEN HearAll(w, t, Claims(w, n)) ELSE w : t \in Known(w, n) \ {n} }

Tick(w) == [n \in Nodes |-> [m \in Nodes |-> IF w[n][m].st = "none" \/ w[n][m].age >= 9 THEN w[n][m] ELSE [w[n][m] EXCEPT !.age = @ + 1]]]

Shown(w) == [n \in Nodes |-> [m \in Nodes |-> [st |-> w[n][m].st, inc |-> w[n][m].inc]]]
Step(w, op, args) == v' = w /\ last' = ([op |-> op, exp |-> [view |-> Shown(w)]] @@ args)

First == [n \in Nodes |-> [m \in Nodes |-> [st |-> "alive", inc |-> 1, age |-> 0]]]
Header == [op |-> "init", n |-> N, suspect |-> SuspectAfter, dead |-> DeadAfter, k |-> K, sample |-> Sample]
Init ==
    /\ v = First
    /\ link = [n \in Nodes |-> [m \in Nodes |-> 0]]
    /\ clk = 0
    /\ last = Header

On(op) == op \in Ops
DoHeartbeat(n) == On("hb") /\ (\E w \in Pick(Heartbeat(v, link, n)) : Step(w, "hb", [n |-> n])) /\ UNCHANGED <<link, clk>>
DoGossip(n) == On("gossip") /\ (\E w \in Pick(Gossip(v, link, n)) : Step(w, "gossip", [n |-> n])) /\ UNCHANGED <<link, clk>>
DoHear(n, cs) == On("hear") /\ Step(HearAll(v, n, cs), "hear", [n |-> n, cs |-> cs]) /\ UNCHANGED <<link, clk>>
(* n hears several claims at once: they take effect in some order; a claim  *)
(* about n itself may be answered although a higher one has just been       *)
Late(w, n, c) ==
    IF c.m = n /\ c.st # "alive" /\ c.inc < w[n][n].inc
    THEN {w, [w EXCEPT ![n][n] = [st |-> "alive", inc |-> @.inc + 1, age |-> 0]]}
    ELSE {Hear(w, n, c)}
RECURSIVE Storm(_, _, _)
Storm(w, n, cs) ==
    IF cs = {} THEN {w} ELSE UNION { UNION { Storm(x, n, cs \ {c}) : x \in Late(w, n, c) } : c \in cs }
DoStorm(n, m, sts) ==
    /\ On("storm")
    /\ LET cs == [i \in 1..Len(sts) |-> [m |-> m, st |-> sts[i], inc |-> v[n][m].inc + i]]
       IN \E w \in Pick(Storm(v, n, ToSet(cs))) : Step(w, "storm", [n |-> n, cs |-> cs])
    /\ UNCHANGED <<link, clk>>
DoLink(n, m, l) ==
    /\ On("link") /\ n # m /\ link[n][m] # l
    /\ link' = [link EXCEPT ![n][m] = l]
    /\ Step(v, "link", [n |-> n, m |-> m, l |-> l]) /\ UNCHANGED clk
(* a node cut off from all others, or back *)
DoCut(n, l) ==
    /\ On("cut") /\ \E m \in Nodes \ {n} : link[m][n] # l
    /\ link' = [a \in Nodes |-> [b \in Nodes |-> IF a # b /\ (a = n \/ b = n) THEN l ELSE link[a][b]]]
    /\ Step(v, "cut", [n |-> n, l |-> l]) /\ UNCHANGED clk
DoTick == On("tick") /\ clk < MaxTicks /\ clk' = clk + 1 /\ Step(Tick(v), "tick", <<>>) /\ UNCHANGED link

Incs == 0..MaxInc
ClaimSeqs ==
    { <<[m |-> m, st |-> st, inc |-> inc]>> : m \in Nodes, st \in States, inc \in Incs }
Next ==
    \/ \E n \in Pick(Nodes), l \in Pick(0..1) : DoCut(n, l)
    \/ \E n \in Pick(Nodes) : \E m \in Pick(Nodes \ {n}), l \in Pick(0..1) : DoLink(n, m, l)
    \/ \E n \in Pick(Nodes) : DoHeartbeat(n)
    \/ \E n \in Pick(Nodes) : DoGossip(n)
    \/ \E n \in Pick(Nodes), cs \in Pick(ClaimSeqs) : DoHear(n, cs)
    \/ \E n \in Pick(Nodes), a \in Pick(ClaimSeqs), b \in Pick(ClaimSeqs) : On("hear2") /\ DoHear(n, a \o b)
    \/ \E n \in Pick(Nodes), m \in Pick(Nodes), sts \in Pick([1..5 -> States]) : DoStorm(n, m, sts)
    \/ DoTick
    \/ \E n \in Pick(Nodes) : DoHeartbeat(n)

Bound == \A n, m \in Nodes : v[n][m].inc <= MaxInc

------------------------------------------------------------------------
SelfAlive == \A n \in Nodes : v[n][n].st = "alive"
IncGrows == [][ \A n, m \in Nodes : (v[n][m].st # "none" /\ v'[n][m].st # "none") =>
    (v'[n][m].inc > v[n][m].inc \/ (v'[n][m].inc = v[n][m].inc /\ v'[n][m].st = v[n][m].st)) ]_vars
Adopted == [][ last'.op = "hear" => \A m \in Nodes \ {last'.n} : LET n == last'.n IN
    Shown(v')[n][m] # Shown(v)[n][m] =>
        \E i \in DOMAIN last'.cs : last'.cs[i].m = m /\ Shown(v')[n][m] = [st |-> last'.cs[i].st, inc |-> last'.cs[i].inc]
                                   /\ (v[n][m].st = "none" \/ last'.cs[i].inc > v[n][m].inc) ]_vars
Highest == [][ last'.op = "storm" => \A i \in DOMAIN last'.cs : LET n == last'.n  c == last'.cs[i] IN
    IF c.m # n THEN v'[n][c.m].inc >= c.inc ELSE (c.st # "alive" => v'[n][n].inc > c.inc) ]_vars
Refuted == [][ last'.op = "hear" => \A i \in DOMAIN last'.cs : LET n == last'.n  c == last'.cs[i] IN
    (c.m = n /\ c.st # "alive" /\ c.inc >= v[n][n].inc) => v'[n][n].st = "alive" /\ v'[n][n].inc > c.inc ]_vars
Detected == [][ (last'.op = "hb" /\ Sample = 0) => \A m \in Known(v, last'.n) \ {last'.n} : LET n == last'.n IN
    IF DeadAfter > 0 /\ v[n][m].age >= DeadAfter THEN v'[n][m].st = "none"
    ELSE /\ Ok(link, n, m) => v'[n][m].st = "alive" /\ v'[n][m].age = 0
         /\ (~Ok(link, n, m) /\ K = 0) => v'[n][m].st \in {"suspect", "dead"}
         /\ (~Ok(link, n, m) /\ \A r \in Nodes : ~(Ok(link, n, r) /\ Ok(link, r, m))) => v'[n][m].st \in {"suspect", "dead"} ]_vars
(* a node that can reach nobody is eventually pruned by who hears nothing: pruning needs the timeout *)
PrunedOnlyLate == [][ \A n, m \in Nodes : (v[n][m].st # "none" /\ v'[n][m].st = "none") =>
    (last'.op = "hb" /\ DeadAfter > 0 /\ v[n][m].age >= DeadAfter) ]_vars
=============================================================================
