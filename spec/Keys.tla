-------------------------------- MODULE Keys --------------------------------
(* Listing the cluster's keys from node 1.  Each node holds a set of keys;  *)
(* node 1 has an opinion of every member and may be unable to reach some.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd, Glob
CONSTANTS N, Shards, PatLen, Ops

Nodes == 1..N
\* a a/b ab abc b b/a ba c* [a] é aé a-b ^ \ c?d (a is 97)
Universe == << <<97>>, <<97, 47, 98>>, <<97, 98>>, <<97, 98, 99>>, <<98>>, <<98, 47, 97>>, <<98, 97>>, <<99, 42>>, <<91, 97, 93>>,
               <<233>>, <<97, 233>>, <<97, 45, 98>>, <<94>>, <<92>>, <<99, 63, 100>>, <<97, 97>> >>
Chars == {97, 98, 99, 233, Slash, Star, Quest, Open, Close, Caret, Dash, Back}
Keys == DOMAIN Universe

VARIABLES held, st, cut, last
vars == <<held, st, cut, last>>
view == <<held, st, cut>>

Live == {n \in Nodes : st[n] = "alive"}
Asked == {n \in Live : n = 1 \/ ~cut[n]}
Listed(h, p) == {Universe[k] : k \in {k \in UNION {h[n] : n \in Asked} : Matches(p, Universe[k])}}
Unheard == Live \ Asked

(* what a listing may answer *)
Listing(p, max, r) ==
    IF Malformed(p) THEN r.err
    ELSE LET all == Listed(held, p) IN
         /\ ~r.err
         /\ \A i \in DOMAIN r.keys : r.keys[i] \in all /\ (i > 1 => Less(r.keys[i - 1], r.keys[i]))
         /\ Len(r.keys) = IF max > 0 /\ max < Cardinality(all) THEN max ELSE Cardinality(all)
         /\ r.trunc = (max > 0 /\ max < Cardinality(all))
         /\ {r.partial[i] : i \in DOMAIN r.partial} = Unheard
         /\ Len(r.partial) = Cardinality(Unheard)
(* what walking the pages of node n's own key route may answer: each page a  *)
(* record of its keys and whether it was cut short                          *)
RECURSIVE Total(_, _)
Total(r, i) == IF i = 0 THEN 0 ELSE Len(r.pages[i].keys) + Total(r, i - 1)
Paging(n, p, limit, r) ==
    IF Malformed(p) THEN r.err
    ELSE LET mine == {Universe[k] : k \in {k \in held[n] : Matches(p, Universe[k])}}
             got == UNION {{r.pages[i].keys[j] : j \in DOMAIN r.pages[i].keys} : i \in DOMAIN r.pages}
         IN /\ ~r.err
            /\ Len(r.pages) = Shards
            /\ got \subseteq mine
            /\ Total(r, Len(r.pages)) = Cardinality(got)
            /\ \A i \in DOMAIN r.pages : limit > 0 => Len(r.pages[i].keys) <= limit /\ (r.pages[i].trunc => Len(r.pages[i].keys) = limit)
            /\ (limit = 0 => \A i \in DOMAIN r.pages : ~r.pages[i].trunc)
            /\ (got = mine) = (\A i \in DOMAIN r.pages : ~r.pages[i].trunc)

Init ==
    /\ held = [n \in Nodes |-> {}]
    /\ st = [n \in Nodes |-> "alive"]
    /\ cut = [n \in Nodes |-> FALSE]
    /\ last = [op |-> "init", n |-> N, shards |-> Shards]
On(o) == o \in Ops
Put(n, ks) == On("put") /\ held' = [held EXCEPT ![n] = @ \cup ks] /\ last' = [op |-> "put", n |-> n, ks_s |-> ks] /\ UNCHANGED <<st, cut>>
Drop(n, ks) == On("drop") /\ held[n] \cap ks # {} /\ held' = [held EXCEPT ![n] = @ \ ks] /\ last' = [op |-> "drop", n |-> n, ks_s |-> ks] /\ UNCHANGED <<st, cut>>
State(n, s) == On("state") /\ n # 1 /\ st[n] # s /\ st' = [st EXCEPT ![n] = s] /\ last' = [op |-> "state", n |-> n, st |-> s] /\ UNCHANGED <<held, cut>>
Cut(n, b) == On("cut") /\ n # 1 /\ cut[n] # b /\ cut' = [cut EXCEPT ![n] = b] /\ last' = [op |-> "cut", n |-> n, b |-> b] /\ UNCHANGED <<held, st>>
List(p, max) == On("list") /\ last' = [op |-> "list", p |-> p, max |-> max] /\ UNCHANGED <<held, st, cut>>
Pages(n, p, limit) == On("pages") /\ last' = [op |-> "pages", n |-> n, p |-> p, limit |-> limit] /\ UNCHANGED <<held, st, cut>>

(* a pattern: four independent characters, cut to a length *)
Pat(a, b, c, d, l) == SubSeq(<<a, b, c, d>>, 1, l)
Lens == 0..PatLen
Draws == 1..3
Next ==
    \/ \E n \in Pick(Nodes), a \in Pick(Keys), b \in Pick(Keys), c \in Pick(Keys), d \in Pick(Draws) : Put(n, IF d = 1 THEN {a} ELSE {a, b, c})
    \/ \E n \in Pick(Nodes), a \in Pick(Keys), b \in Pick(Keys) : Drop(n, {a, b})
    \/ \E n \in Pick(Nodes), s \in Pick({"alive", "suspect", "dead", "none"}) : State(n, s)
    \/ \E n \in Pick(Nodes), b \in Pick(BOOLEAN) : Cut(n, b)
    \/ \E a \in Pick(Chars), b \in Pick(Chars), c \in Pick(Chars), d \in Pick(Chars), l \in Pick(Lens), m \in Pick({0, 0, 1, 2, 4, 9}) : List(Pat(a, b, c, d, l), m)
    \/ \E m \in Pick({0, 1, 2, 4, 9}), l \in Pick(0..1), a \in Pick(Chars) : List(SubSeq(<<a>>, 1, l), m)
    \/ \E n \in Pick(Nodes), a \in Pick(Chars), b \in Pick(Chars), l \in Pick(0..2), m \in Pick({0, 1, 2, 4}) : Pages(n, SubSeq(<<a, b>>, 1, l), m)

------------------------------------------------------------------------
(* Every key, and every pattern up to three characters, once. *)
Small == UNION {[1..l -> {97, 98, Slash, Star, Quest, Open, Close, Caret, Dash, Back}] : l \in 0..PatLen}
AllNext ==
    \/ /\ held # [n \in Nodes |-> Keys]
       /\ held' = [n \in Nodes |-> Keys] /\ last' = [op |-> "all"] /\ UNCHANGED <<st, cut>>
    \/ held = [n \in Nodes |-> Keys] /\ \E p \in Small : List(p, 0)

(* Facts about the patterns. *)
Escaped(k) == LET RECURSIVE E(_)
                  E(x) == IF x = <<>> THEN <<>> ELSE (IF x[1] \in {Star, Quest, Open, Back} THEN <<Back, x[1]>> ELSE <<x[1]>>) \o E(Tail(x))
              IN E(k)
GlobFacts ==
    /\ \A k \in Keys : LET u == Universe[k] IN
        /\ Matches(<<>>, u) /\ (Matches(u, u) \/ IsGlob(u))
        /\ Fits(Parse(Escaped(u), 1, <<>>).v, 1, u, 1)
        /\ (\A i \in DOMAIN u : u[i] # Slash) = Matches(<<Star>>, u)
        /\ Matches(<<Quest>>, u) = (Len(u) = 1 /\ u[1] # Slash)
    /\ \A p \in Small : ~Malformed(p) /\ IsGlob(p) =>
        \A k \in Keys : Matches(p, Universe[k]) => Matches(Append(p, Star), Universe[k])
=============================================================================
