------------------------------- MODULE Cache -------------------------------
(* The cache as its users see it (package hypercache over the in-memory    *)
(* backend): a map with sliding expiration, a size limit, eviction in the  *)
(* algorithm's order, listing, typed views.  Values are numbered by their  *)
(* size.  Time passes in ticks; an item with ttl t expires once t ticks    *)
(* have passed since it was last stored or read.  A purge of expired items *)
(* runs after each read that meets one (the calls shown as one step).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd

CONSTANTS Keys, Vals, Ttls, Caps, Lims, Mxs, Algos, Imms, Views, Ops, MaxNow, MaxN
VARIABLES conf,     \* [cap0, lim, mx, algo, imm, mw]: the configuration
          cap,      \* capacity in force
          now,
          m,        \* key -> item
          alg,      \* tracked keys, least recently used first, with use counts
          last
vars == <<conf, cap, now, m, alg, last>>
view == <<conf, cap, now, m, alg>>

None == [v |-> 0, ttl |-> 0, acc |-> 0, n |-> 0]
S0 == [m |-> m, a |-> alg]
Held(S) == { k \in Keys : S.m[k].v # 0 }
RECURSIVE Sum(_, _)
Sum(S, ks) == IF ks = {} THEN 0 ELSE LET k == CHOOSE k \in ks : TRUE IN S.m[k].v + Sum(S, ks \ {k})
Total(S) == Sum(S, Held(S))
Count(S) == Cardinality(Held(S))
Expired(S, k) == S.m[k].v # 0 /\ S.m[k].ttl > 0 /\ now - S.m[k].acc >= S.m[k].ttl
Live(S, k) == S.m[k].v # 0 /\ ~Expired(S, k)

(* eviction order *)
Has(s, k) == \E j \in DOMAIN s : s[j].k = k
At(s, k) == CHOOSE j \in DOMAIN s : s[j].k = k
DropAt(s, j) == [x \in 1..(Len(s) - 1) |-> IF x < j THEN s[x] ELSE s[x + 1]]
Untrack(s, k) == IF Has(s, k) THEN DropAt(s, At(s, k)) ELSE s
Use(s, k) == IF ~Has(s, k) THEN s
             ELSE Append(Untrack(s, k), [k |-> k, n |-> IF conf.algo = "lfu" THEN s[At(s, k)].n + 1 ELSE 1])
Track(s, k) == IF Has(s, k) THEN Use(s, k) ELSE Append(s, [k |-> k, n |-> 1])
Victim(s) == IF conf.algo = "lru" THEN s[1].k
             ELSE s[CHOOSE j \in DOMAIN s : /\ \A x \in DOMAIN s : s[j].n <= s[x].n
                                            /\ \A x \in 1..(j - 1) : s[x].n > s[j].n].k
AlgCap == IF conf.mx > conf.cap0 THEN conf.mx ELSE conf.cap0

Rm(S, k) == [m |-> [S.m EXCEPT ![k] = None], a |-> Untrack(S.a, k)]
RECURSIVE RmAll(_, _)
RmAll(S, ks) == IF ks = {} THEN S ELSE LET k == CHOOSE k \in ks : TRUE IN RmAll(Rm(S, k), ks \ {k})
RECURSIVE EvictTo(_, _, _)
EvictTo(S, c, most) == IF Count(S) <= c \/ S.a = <<>> \/ most = 0 THEN S ELSE EvictTo(Rm(S, Victim(S.a)), c, most - 1)
Evict(S) == EvictTo(S, cap, IF conf.mx = 0 THEN conf.cap0 ELSE conf.mx)       \* one eviction run
Purge(S) == RmAll(S, { k \in Keys : Expired(S, k) })
Touch(S, k) == [m |-> [S.m EXCEPT ![k].acc = now, ![k].n = @ + 1], a |-> Use(S.a, k)]
RECURSIVE TouchAll(_, _)
TouchAll(S, ks) == IF ks = <<>> THEN S
                   ELSE TouchAll(IF Live(S, Head(ks)) THEN Touch(S, Head(ks)) ELSE S, Tail(ks))
Full(S, k, v) == conf.lim > 0 /\ Total(S) + v - S.m[k].v > conf.lim
Store(S, k, v, ttl) ==
    LET new == S.m[k].v = 0
        s1 == [S EXCEPT !.m[k] = [v |-> v, ttl |-> ttl, acc |-> now, n |-> 0]]
        s2 == IF conf.imm /\ new THEN EvictTo(s1, cap, 1000) ELSE s1
        s3 == [s2 EXCEPT !.a = Track(@, k)]
    IN IF conf.imm THEN EvictTo(s3, cap, 1000) ELSE s3
(* reading k: its effect on the cache *)
Read(S, k) == IF Live(S, k) THEN Touch(S, k) ELSE IF Expired(S, k) THEN Purge(S) ELSE S

Rec(name) == IF conf.mw /\ name # "" THEN { name \o "_count", name \o "_duration" } ELSE {}
To(S) == m' = S.m /\ alg' = S.a
Obs(name) == [count |-> Count([m |-> m', a |-> alg']), alloc |-> Total([m |-> m', a |-> alg']),
              keys_s |-> Held([m |-> m', a |-> alg']), rec_s |-> Rec(name)]

Set(k, v, ttl) ==
    /\ IF Full(S0, k, v) THEN UNCHANGED <<m, alg>> ELSE To(Store(S0, k, v, ttl))
    /\ last' = [op |-> "set", k |-> k, v |-> v, ttl |-> ttl,
                exp |-> Obs("set") @@ [err |-> IF Full(S0, k, v) THEN "full" ELSE ""]]
GetOrSet(k, v, ttl) ==
    LET r == IF Live(S0, k) THEN <<S0.m[k].v, "">> ELSE IF Expired(S0, k) THEN <<0, "expired">>
             ELSE IF Full(S0, k, v) THEN <<0, "full">> ELSE <<v, "">>
    IN /\ To(IF Held(S0) \cap {k} # {} THEN Read(S0, k)
             ELSE IF Full(S0, k, v) THEN S0 ELSE Store(S0, k, v, ttl))
       /\ last' = [op |-> "gos", k |-> k, v |-> v, ttl |-> ttl, exp |-> Obs("get_or_set") @@ [got |-> r[1], err |-> r[2]]]
(* refused stores: nothing happens *)
Bad(call, kind, k) ==
    /\ UNCHANGED <<m, alg>>
    /\ call = "gos" => m[k].v = 0
    /\ conf.lim > 0 => Total(S0) + 1 <= conf.lim
    /\ last' = [op |-> "bad", call |-> call, kind |-> kind, k |-> k,
                exp |-> Obs(IF call = "set" THEN "set" ELSE "get_or_set") @@ [err |-> kind]]
Get(k) ==
    /\ To(Read(S0, k))
    /\ last' = [op |-> "get", k |-> k, exp |-> Obs("get") @@ [got |-> IF Live(S0, k) THEN m[k].v ELSE 0]]
Info(k) ==
    /\ To(Read(S0, k))
    /\ last' = [op |-> "info", k |-> k, exp |-> Obs("get_with_info") @@
                [got |-> IF Live(S0, k) THEN m[k].v ELSE 0,
                 info |-> IF Live(S0, k) THEN [k |-> k, ttl |-> m[k].ttl, n |-> m[k].n + 1, size |-> m[k].v] ELSE <<>>]]
After(S, ks) == LET t == TouchAll(S, ks) IN IF \E k \in { ks[j] : j \in DOMAIN ks } : Expired(S, k) THEN Purge(t) ELSE t
GetMulti(ks) ==
    LET K == { ks[j] : j \in DOMAIN ks } IN
    /\ To(After(S0, ks))
    /\ last' = [op |-> "getm", ks |-> ks, exp |-> Obs("get_multiple") @@
                [hits_s |-> { <<k, m[k].v>> : k \in { x \in K : Live(S0, x) } },
                 failed_s |-> { <<k, "missing">> : k \in { x \in K : ~Live(S0, x) } }]]
Remove(ks) ==
    /\ To(RmAll(S0, { ks[j] : j \in DOMAIN ks }))
    /\ last' = [op |-> "rm", ks |-> ks, exp |-> Obs("remove") @@ [err |-> ""]]
Clear ==
    /\ To(RmAll(S0, Keys))
    /\ last' = [op |-> "clear", exp |-> Obs("clear") @@ [err |-> ""]]
(* lowering the capacity or asking for an eviction run *)
SetCap(c) ==
    /\ c <= AlgCap /\ cap' = c
    /\ To(IF Count(S0) > c THEN EvictTo(S0, c, IF conf.mx = 0 THEN conf.cap0 ELSE conf.mx) ELSE S0)
    /\ last' = [op |-> "setcap", c |-> c, exp |-> Obs("") @@ [cap |-> c]]
EvictRun ==
    /\ To(Evict(S0))
    /\ last' = [op |-> "evict", exp |-> Obs("trigger_eviction")]
PurgeRun ==
    /\ To(Purge(S0))
    /\ last' = [op |-> "purge", exp |-> Obs("")]
Tick ==
    /\ now' = now + 1 /\ UNCHANGED <<m, alg>>
    /\ last' = [op |-> "tick", exp |-> Obs("")]
(* listing *)
Fields == {"Key", "Size", "LastAccess", "AccessCount", "Expiration", "", "bogus"}
Field(f, k) == IF f = "Key" THEN k ELSE IF f = "Size" THEN m[k].v ELSE IF f = "LastAccess" THEN m[k].acc
               ELSE IF f = "AccessCount" THEN m[k].n ELSE m[k].ttl
Keep(sel) == { k \in Held(S0) : sel = "all" \/ (sel = "big" /\ m[k].v >= 3) \/ (sel = "odd" /\ k % 2 = 1)
                               \/ (sel = "used" /\ m[k].n > 0) }
RECURSIVE SortedVals(_, _)
SortedVals(f, ks) == IF ks = {} THEN <<>>
                     ELSE LET k == CHOOSE k \in ks : \A x \in ks : Field(f, k) <= Field(f, x)
                          IN <<Field(f, k)>> \o SortedVals(f, ks \ {k})
Reverse(s) == [j \in DOMAIN s |-> s[Len(s) + 1 - j]]
List(f, asc, sel, first) ==
    LET ks == Keep(sel) vals == SortedVals(f, ks) IN
    /\ UNCHANGED <<m, alg>>
    /\ last' = [op |-> "list", f |-> f, asc |-> asc, sel |-> sel, first |-> first,
                exp |-> Obs("list") @@
                   [err |-> IF f = "bogus" THEN "field" ELSE "",
                    list_s |-> IF f = "bogus" THEN {} ELSE { [k |-> k, v |-> m[k].v, ttl |-> m[k].ttl, n |-> m[k].n, size |-> m[k].v] : k \in ks },
                    vals |-> IF f \in {"", "bogus"} THEN <<>> ELSE IF asc THEN vals ELSE Reverse(vals)]]
(* typed views: a value is a string, a number or something else *)
TypeOf(v) == IF v \in {1, 6, 8} THEN "string" ELSE IF v = 5 THEN "int" ELSE "other"
Code(S, k, w) == IF ~Live(S, k) THEN "missing" ELSE IF TypeOf(S.m[k].v) # w THEN "mismatch" ELSE ""
TGet(w, call, k) ==
    /\ To(Read(S0, k))
    /\ last' = [op |-> "tget", w |-> w, call |-> call, k |-> k,
                exp |-> Obs("") @@ [got |-> IF Code(S0, k, w) = "" THEN m[k].v ELSE 0,
                                    code |-> IF call = "err" THEN Code(S0, k, w) ELSE IF Code(S0, k, w) = "" THEN "" ELSE "no"]]
TGetOrSet(w, k, v) ==
    /\ TypeOf(v) = w /\ ~Expired(S0, k) /\ ~Full(S0, k, v)
    /\ To(IF Live(S0, k) THEN Touch(S0, k) ELSE Store(S0, k, v, 0))
    /\ last' = [op |-> "tgos", w |-> w, k |-> k, v |-> v,
                exp |-> Obs("") @@ [got |-> IF ~Live(S0, k) THEN v ELSE IF Code(S0, k, w) = "" THEN m[k].v ELSE 0,
                                    code |-> IF ~Live(S0, k) THEN "" ELSE Code(S0, k, w)]]
TGetMulti(w, ks) ==
    LET K == { ks[j] : j \in DOMAIN ks } IN
    /\ To(After(S0, ks))
    /\ last' = [op |-> "tgetm", w |-> w, ks |-> ks, exp |-> Obs("") @@
                [hits_s |-> { <<k, m[k].v>> : k \in { x \in K : Code(S0, x, w) = "" } },
                 failed_s |-> { <<k, Code(S0, k, w)>> : k \in { x \in K : Code(S0, x, w) # "" } }]]
TSet(w, k, v, ttl) ==
    /\ TypeOf(v) = w /\ ~Full(S0, k, v)
    /\ To(Store(S0, k, v, ttl))
    /\ last' = [op |-> "tset", w |-> w, k |-> k, v |-> v, ttl |-> ttl, exp |-> Obs("") @@ [err |-> ""]]

Init == /\ conf \in [cap0 : Caps, lim : Lims, mx : Mxs, algo : Algos, imm : Imms, mw : Views]
        /\ (~conf.imm => conf.mx >= Cardinality(Keys))      \* the algorithm can track every key it is given
        /\ cap = conf.cap0 /\ now = 0 /\ m = [k \in Keys |-> None] /\ alg = <<>>
        /\ last = [op |-> "init", conf |-> conf]
Seqs == { <<a>> : a \in Keys } \cup { <<a, b>> : a \in Keys, b \in Keys }
KSeqs(x) == IF Cardinality(Keys) <= 3 THEN Seqs ELSE { <<a, b, c>> : a \in Pick(Keys), b \in Pick(Keys), c \in Pick(Keys) }
Step(o) ==
    \/ o = "set" /\ \E k \in Pick(Keys), v \in Pick(Vals), t \in Pick(Ttls) : Set(k, v, t)
    \/ o = "gos" /\ \E k \in Pick(Keys), v \in Pick(Vals), t \in Pick(Ttls) : GetOrSet(k, v, t)
    \/ o = "bad" /\ \E c \in Pick({"set", "gos"}), b \in Pick({"key", "blank", "nil", "neg", "size"}), k \in Pick(Keys) : Bad(c, b, k)
    \/ o = "get" /\ \E k \in Pick(Keys) : Get(k)
    \/ o = "info" /\ \E k \in Pick(Keys) : Info(k)
    \/ o = "getm" /\ \E ks \in KSeqs(now) : GetMulti(ks)
    \/ o = "rm" /\ \E ks \in KSeqs(now) : Remove(ks)
    \/ o = "clear" /\ \E r \in Pick(1..3) : r = 1 /\ Clear
    \/ o = "evict" /\ EvictRun
    \/ o = "purge" /\ PurgeRun
    \/ o = "list" /\ \E f \in Pick(Fields), a \in Pick(BOOLEAN), s \in Pick({"all", "big", "odd", "used"}), b \in Pick(BOOLEAN) : List(f, a, s, b)
    \/ o = "tget" /\ \E w \in Pick({"string", "int"}), c \in Pick({"ok", "err", "info"}), k \in Pick(Keys) : TGet(w, c, k)
    \/ o = "tgos" /\ \E k \in Pick(Keys), v \in Pick(Vals \cap {1, 5, 6, 8}) : TGetOrSet(TypeOf(v), k, v)
    \/ o = "tgetm" /\ \E w \in Pick({"string", "int"}), ks \in KSeqs(now) : TGetMulti(w, ks)
    \/ o = "tset" /\ \E k \in Pick(Keys), v \in Pick(Vals \cap {1, 5, 6, 8}), t \in Pick(Ttls) : TSet(TypeOf(v), k, v, t)
Next == /\ UNCHANGED conf
        /\ \/ \E o \in Ops : Step(o) /\ UNCHANGED <<cap, now>>
           \/ "setcap" \in Ops /\ \E c \in Pick(1..AlgCap) : SetCap(c) /\ UNCHANGED now
           \/ "tick" \in Ops /\ now < MaxNow /\ Tick /\ UNCHANGED cap
Bound == \A k \in Keys : m[k].n <= MaxN /\ \A j \in DOMAIN alg : alg[j].n <= MaxN + 1
------------------------------------------------------------------------
Tracked == { alg[j].k : j \in DOMAIN alg } = Held(S0) /\ Len(alg) = Count(S0)      \* H04
WithinLimit == conf.lim > 0 => Total(S0) <= conf.lim                                \* H03
A_Capacity == [][last'.op \in {"set", "tset"} /\ conf.imm /\ (last'.op = "set" => last'.exp.err = "") => Cardinality({ k \in Keys : m'[k].v # 0 }) <= cap]_vars
A_NewKept == [][last'.op = "set" /\ last'.exp.err = "" => m'[last'.k].v = last'.v]_vars
A_Served == [][last'.op \in {"get", "info"} /\ last'.exp.got # 0 => ~Expired(S0, last'.k)]_vars      \* H02
A_LiveStay == [][last'.op \in {"get", "info", "getm", "purge", "tick", "tget"} => \A k \in Keys : Live(S0, k) => m'[k].v = m[k].v]_vars
A_Refused == [][last'.op = "bad" \/ ("err" \in DOMAIN last'.exp /\ last'.exp.err = "full") => m' = m /\ alg' = alg]_vars
=========================================================================
