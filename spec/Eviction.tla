----------------------------- MODULE Eviction -----------------------------
(* The eviction algorithms (pkg/eviction).  sh[x] lists the resident       *)
(* entries of shard x, least recently touched first, with their touch      *)
(* counts (kept for LFU only).  LRU, CAWOLFU and LFU fix their victim;     *)
(* Clock and ARC may evict any resident key.  ns = 0 is a plain instance,  *)
(* ns > 0 the sharded router over ns instances of capacity cap each.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd

CONSTANTS Keys,      \* 1..n; key k lives in shard (k - 1) % ns
          Vals, Algos, Caps, ShardCounts, MaxTouch
VARIABLES algo, cap, ns, sh, last
vars == <<algo, cap, ns, sh, last>>
view == <<algo, cap, ns, sh>>

NShards(n) == IF n = 0 THEN 1 ELSE n
Shard(k) == ((k - 1) % NShards(ns)) + 1
Exact == algo \in {"lru", "cawolfu", "lfu"}

Has(s, k) == \E j \in DOMAIN s : s[j].k = k
At(s, k) == CHOOSE j \in DOMAIN s : s[j].k = k
Drop(s, j) == [x \in 1..(Len(s) - 1) |-> IF x < j THEN s[x] ELSE s[x + 1]]
Touch(s, k, v) == LET j == At(s, k) IN
    Append(Drop(s, j), [k |-> k, v |-> v, n |-> IF algo = "lfu" THEN s[j].n + 1 ELSE 1])
Victims(s) ==
    IF s = <<>> THEN {}
    ELSE IF algo \in {"lru", "cawolfu"} THEN {1}
    ELSE IF algo = "lfu" THEN { CHOOSE j \in DOMAIN s : /\ \A x \in DOMAIN s : s[j].n <= s[x].n
                                                        /\ \A x \in 1..(j - 1) : s[x].n > s[j].n }
    ELSE DOMAIN s
(* the shards reachable by storing k: a full shard makes room by one victim *)
AfterSet(s, k, v) ==
    IF cap = 0 THEN {s}
    ELSE IF Has(s, k) THEN {Touch(s, k, v)}
    ELSE IF Len(s) < cap THEN {Append(s, [k |-> k, v |-> v, n |-> 1])}
    ELSE { Append(Drop(s, j), [k |-> k, v |-> v, n |-> 1]) : j \in Victims(s) }
(* the shards after evicting everything in the order ks, or no such order *)
RECURSIVE Drains(_, _)
Drains(all, ks) ==
    IF ks = <<>> THEN \A x \in DOMAIN all : all[x] = <<>>
    ELSE \E x \in DOMAIN all : \E j \in Victims(all[x]) :
           all[x][j].k = Head(ks) /\ Drains([all EXCEPT ![x] = Drop(@, j)], Tail(ks))
RECURSIVE Order(_)
Order(s) == IF s = <<>> THEN <<>>
            ELSE LET j == CHOOSE j \in Victims(s) : TRUE IN <<s[j].k>> \o Order(Drop(s, j))
Got(s, k) == IF Has(s, k) THEN [ok |-> TRUE, v |-> s[At(s, k)].v] ELSE [ok |-> FALSE, v |-> 0]
Size == LET RECURSIVE Sum(_)
            Sum(x) == IF x > NShards(ns) THEN 0 ELSE Len(sh[x]) + Sum(x + 1)
        IN Sum(1)

Set(k, v) == \E s \in AfterSet(sh[Shard(k)], k, v) :
    /\ sh' = [sh EXCEPT ![Shard(k)] = s]
    /\ last' = [op |-> "set", k |-> k, v |-> v, exp |-> [len |-> Size']]
Get(k) ==
    /\ sh' = [sh EXCEPT ![Shard(k)] = IF Has(@, k) THEN Touch(@, k, @[At(@, k)].v) ELSE @]
    /\ last' = [op |-> "get", k |-> k, exp |-> [got |-> Got(sh[Shard(k)], k), len |-> Size']]
Delete(k) ==
    /\ sh' = [sh EXCEPT ![Shard(k)] = IF Has(@, k) THEN Drop(@, At(@, k)) ELSE @]
    /\ last' = [op |-> "del", k |-> k, exp |-> [len |-> Size']]
Evict == IF Size = 0
         THEN UNCHANGED sh /\ last' = [op |-> "evict", exp |-> [key |-> 0, len |-> 0]]
         ELSE \E x \in DOMAIN sh : \E j \in Victims(sh[x]) :
                /\ sh' = [sh EXCEPT ![x] = Drop(@, j)]
                /\ last' = [op |-> "evict", exp |-> [key |-> sh[x][j].k, len |-> Size']]
Drain ==
    /\ sh' = [x \in DOMAIN sh |-> <<>>]
    /\ last' = [op |-> "drain", exp |-> [order |-> IF Exact /\ ns = 0 THEN Order(sh[1]) ELSE <<>>, len |-> 0]]

Init == /\ algo \in Algos /\ cap \in Caps /\ ns \in ShardCounts
        /\ sh = [x \in 1..NShards(ns) |-> <<>>]
        /\ last = [op |-> "init", algo |-> algo, cap |-> cap, ns |-> ns, keys |-> Cardinality(Keys)]
Next == /\ UNCHANGED <<algo, cap, ns>>
        /\ \/ \E k \in Pick(Keys), v \in Pick(Vals) : Set(k, v)
           \/ \E k \in Pick(Keys) : Get(k)
           \/ \E k \in Pick(Keys), v \in Pick(Vals) : Set(k, v)
           \/ \E k \in Pick(Keys) : Delete(k)
           \/ Evict
           \/ \E r \in Pick(1..4) : IF r = 1 THEN Drain ELSE \E k \in Pick(Keys) : Get(k)
Bound == \A x \in DOMAIN sh : \A j \in DOMAIN sh[x] : sh[x][j].n <= MaxTouch
------------------------------------------------------------------------
Fits == \A x \in DOMAIN sh : Len(sh[x]) <= cap                                       \* V03
Once == \A x \in DOMAIN sh : \A a, b \in DOMAIN sh[x] : sh[x][a].k = sh[x][b].k => a = b
Routed == \A x \in DOMAIN sh : \A a \in DOMAIN sh[x] : Shard(sh[x][a].k) = x
Resident(all) == UNION { { all[x][j].k : j \in DOMAIN all[x] } : x \in DOMAIN all }
SetStores == last'.op = "set" /\ cap > 0 => Got(sh'[Shard(last'.k)], last'.k) = [ok |-> TRUE, v |-> last'.v]
SetCost == last'.op = "set" =>                 \* at most one key goes, and only when the shard was full
    LET gone == Resident(sh) \ Resident(sh') IN
    gone # {} => Cardinality(gone) = 1 /\ Len(sh[Shard(last'.k)]) = cap /\ ~Has(sh[Shard(last'.k)], last'.k)
EvictTakes == last'.op = "evict" =>
    IF Resident(sh) = {} THEN last'.exp.key = 0
    ELSE Resident(sh') = Resident(sh) \ {last'.exp.key} /\ last'.exp.key \in Resident(sh)
(* V01: the victim of LRU was touched before every other resident of its shard; V02: the victim of LFU was touched least *)
LFUOk == algo = "lfu" /\ last'.op = "evict" /\ last'.exp.key # 0 =>
    LET s == sh[Shard(last'.exp.key)] IN \A j \in DOMAIN s : s[j].n >= s[At(s, last'.exp.key)].n
A_Set == [][SetStores /\ SetCost]_vars
A_Evict == [][EvictTakes /\ LFUOk]_vars
OrderIsDrain == Exact => \A x \in DOMAIN sh : Drains([y \in {x} |-> sh[x]], Order(sh[x]))
=========================================================================
