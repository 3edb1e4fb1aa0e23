-------------------------------- MODULE Server --------------------------------
(* The client API of one or several server processes that hold one cache:     *)
(* single-key routes, batches, metadata and the key listing.  Every server    *)
(* serves every key; a server that drains refuses writes.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd
CONSTANTS N, Keys, Kinds, MaxBatch, Ops

Nodes == 1..N
(* keys no cache accepts: nothing at all, only blanks *)
BadKeys == {"empty", "blank"}
None == [v |-> 0, kind |-> "", ttl |-> ""]

VARIABLES data,   \* key -> value number, its kind and its lifetime
          dr,     \* servers that drain
          cnt,    \* values written so far
          last
vars == <<data, dr, cnt, last>>
view == <<data, dr>>

Has(k) == IF k \in Keys THEN data[k] # None ELSE FALSE
Present == { k \in Keys : data[k] # None }
(* an empty value has no number on it *)
Num(c) == IF c.kind = "void" THEN 0 ELSE c.v

Init == /\ data = [k \in Keys |-> None] /\ dr = {} /\ cnt = 0
        /\ last = [op |-> "init", n |-> N]
On(o) == o \in Ops
Same == UNCHANGED <<data, dr, cnt>>

(* what a lifetime in a request means; "neg" and "bad" are refused *)
TtlForms == {"none", "long", "longer", "neg", "bad"}
Ttl(t) == IF t = "none" THEN "" ELSE t

Reply(st, code) == [status |-> st, code |-> code, meta |-> "ok"]

Put(i, k, kind, t) ==
    /\ On("put")
    /\ LET res == IF t = "bad" \/ k = "blank" THEN "bad" ELSE IF k = "empty" THEN "none" ELSE IF t = "neg" THEN "bad" ELSE IF i \in dr THEN "drain" ELSE "ok"
       IN /\ k # "empty"
          /\ data' = IF res = "ok" THEN [data EXCEPT ![k] = [v |-> cnt + 1, kind |-> kind, ttl |-> Ttl(t)]] ELSE data
          /\ cnt' = cnt + 1 /\ UNCHANGED dr
          /\ (i \in dr => res \in {"ok", "drain"})   \* several reasons to refuse: any may be given
          /\ last' = [op |-> "put", i |-> i, k |-> k, kind |-> kind, ttl |-> t, v |-> cnt + 1,
                      exp |-> CASE res = "ok" -> Reply(200, "") [] res = "bad" -> Reply(400, "BAD_REQUEST") [] OTHER -> Reply(503, "DRAINING")]
Get(i, k, acc) ==
    /\ On("get") /\ k # "empty"
    /\ last' = [op |-> "get", i |-> i, k |-> k, acc |-> acc,
                exp |-> IF Has(k) THEN Reply(200, "") @@ [v |-> Num(data[k]), kind |-> data[k].kind, ttl |-> IF acc = "json" THEN data[k].ttl ELSE ""]
                        ELSE Reply(404, "NOT_FOUND") @@ [v |-> 0, kind |-> "", ttl |-> ""]]
    /\ Same
HeadOf(i, k) ==
    /\ On("head") /\ k # "empty"
    /\ last' = [op |-> "head", i |-> i, k |-> k,
                exp |-> [status |-> IF Has(k) THEN 200 ELSE 404, ttl |-> IF Has(k) THEN data[k].ttl ELSE "", meta |-> "ok"]]
    /\ Same
Del(i, k) ==
    /\ On("del") /\ k \in Keys
    /\ data' = (IF i \in dr THEN data ELSE [data EXCEPT ![k] = None]) /\ UNCHANGED <<dr, cnt>>
    /\ last' = [op |-> "del", i |-> i, k |-> k, exp |-> IF i \in dr THEN Reply(503, "DRAINING") ELSE Reply(200, "")]
OwnersOf(i, k) ==
    /\ On("owners") /\ k \in Keys
    /\ last' = [op |-> "owners", i |-> i, k |-> k, exp |-> Reply(200, "")] /\ Same

(* one entry of a batch: key, kind, encoding, lifetime *)
Encs == {"none", "base64", "text", "broken"}
BTtls == {"none", "long", "neg", "over"}
Entry(k, kind, enc, t) == [k |-> k, kind |-> IF kind = "bin" /\ enc \in {"none", "text"} THEN "text" ELSE kind, enc |-> enc, ttl |-> t]
EntryOk(e) == e.k \in Keys /\ e.enc # "broken" /\ e.ttl \notin {"neg", "over"}
(* several reasons to refuse one entry: any may be given *)
EntryClear(i, e) == EntryOk(e) \/ i \notin dr
RECURSIVE Apply(_, _, _)
Apply(d, es, n) == IF es = <<>> THEN d
    ELSE Apply(IF EntryOk(es[1]) THEN [d EXCEPT ![es[1].k] = [v |-> n, kind |-> es[1].kind, ttl |-> Ttl(es[1].ttl)]] ELSE d, Tail(es), n + 1)
BPut(i, es) ==
    /\ On("bput") /\ \A j \in DOMAIN es : EntryClear(i, es[j])
    /\ data' = IF i \in dr THEN data ELSE Apply(data, es, cnt + 1)
    /\ cnt' = cnt + Len(es) /\ UNCHANGED dr
    /\ last' = [op |-> "bput", i |-> i, es |-> [j \in DOMAIN es |-> es[j] @@ [v |-> cnt + j]],
                exp |-> [status |-> 200, meta |-> "ok",
                         codes |-> [j \in DOMAIN es |-> IF ~EntryOk(es[j]) THEN "BAD_REQUEST" ELSE IF i \in dr THEN "DRAINING" ELSE "stored"]]]
BGet(i, ks) ==
    /\ On("bget")
    /\ last' = [op |-> "bget", i |-> i, ks |-> ks,
                exp |-> [status |-> 200, meta |-> "ok",
                         found |-> [j \in DOMAIN ks |-> IF Has(ks[j]) THEN [v |-> Num(data[ks[j]]), kind |-> data[ks[j]].kind, ttl |-> data[ks[j]].ttl]
                                                        ELSE [v |-> 0, kind |-> "", ttl |-> ""]]]]
    /\ Same
BDel(i, ks) ==
    /\ On("bdel") /\ \A j \in DOMAIN ks : ks[j] # "blank" /\ (i \in dr => ks[j] # "empty")
    /\ data' = IF i \in dr THEN data ELSE [k \in Keys |-> IF \E j \in DOMAIN ks : ks[j] = k THEN None ELSE data[k]]
    /\ UNCHANGED <<dr, cnt>>
    /\ last' = [op |-> "bdel", i |-> i, ks |-> ks,
                exp |-> [status |-> 200, meta |-> "ok",
                         codes |-> [j \in DOMAIN ks |-> IF ks[j] = "empty" THEN "BAD_REQUEST" ELSE IF i \in dr THEN "DRAINING" ELSE "deleted"]]]
(* requests that make no sense change nothing *)
Nonsense == {"batch/get", "batch/put", "batch/delete", "cursor=-1", "cursor=x", "limit=0", "limit=-3", "limit=x", "max=0", "max=x", "q=%5B"}
Junk(i, w) ==
    /\ On("junk")
    /\ last' = [op |-> "junk", i |-> i, w |-> w, exp |-> Reply(400, "BAD_REQUEST")] /\ Same
(* the listing, read page by page to its end *)
List(i, limit) ==
    /\ On("list")
    /\ last' = [op |-> "list", i |-> i, limit |-> limit,
                exp |-> [status |-> 200, meta |-> "ok", keys_s |-> Present, total |-> Cardinality(Present), cut |-> FALSE]] /\ Same
Drain(i) ==
    /\ On("drain") /\ i \notin dr /\ Cardinality(dr) < N - 1
    /\ dr' = dr \cup {i} /\ UNCHANGED <<data, cnt>>
    /\ last' = [op |-> "drain", i |-> i, exp |-> [status |-> 200]]

AnyKey == Keys \cup BadKeys
Some3(a, b, c, l) == SubSeq(<<a, b, c>>, 1, l)
Batches == 0..MaxBatch
PutN == \E i \in Pick(Nodes), k \in Pick(Keys), kd \in Pick(Kinds), t \in Pick({"none", "long", "longer"}) : Put(i, k, kd, t)
GetN == \E i \in Pick(Nodes), k \in Pick(Keys), a \in Pick({"", "any", "json", "bytes"}) : Get(i, k, a)
BPutN == \E i \in Pick(Nodes), k1 \in Pick(AnyKey), k2 \in Pick(Keys), k3 \in Pick(AnyKey), d1 \in Pick(Kinds), d2 \in Pick(Kinds), d3 \in Pick(Kinds),
            e1 \in Pick(Encs), e2 \in Pick(Encs \ {"broken"}), e3 \in Pick(Encs), t1 \in Pick(BTtls), t2 \in Pick({"none", "long"}), t3 \in Pick(BTtls), l \in Pick(Batches) :
            BPut(i, Some3(Entry(k2, d1, e1, t1), Entry(k1, d2, e2, t2), Entry(k3, d3, e3, t3), l))
BGetN == \E i \in Pick(Nodes), k1 \in Pick(AnyKey), k2 \in Pick(AnyKey), k3 \in Pick(AnyKey), l \in Pick(Batches) : BGet(i, Some3(k1, k2, k3, l))
Next ==
    \/ PutN \/ PutN \/ GetN \/ GetN \/ GetN
    \/ \E i \in Pick(Nodes), k \in Pick(AnyKey), kd \in Pick(Kinds), t \in Pick(TtlForms) : Put(i, k, kd, t)
    \/ \E i \in Pick(Nodes), k \in Pick(AnyKey), a \in Pick({"", "json"}) : Get(i, k, a)
    \/ \E i \in Pick(Nodes), k \in Pick(AnyKey) : HeadOf(i, k)
    \/ \E i \in Pick(Nodes), k \in Pick(Keys) : Del(i, k)
    \/ \E i \in Pick(Nodes), k \in Pick(Keys) : OwnersOf(i, k)
    \/ BPutN \/ BGetN
    \/ \E i \in Pick(Nodes), k1 \in Pick(AnyKey), k2 \in Pick(AnyKey), k3 \in Pick(AnyKey), l \in Pick(Batches) : BDel(i, Some3(k1, k2, k3, l))
    \/ \E i \in Pick(Nodes), w \in Pick(Nonsense) : Junk(i, w)
    \/ \E i \in Pick(Nodes), l \in Pick({1, 2, 3, 100, 600}) : List(i, l)
    \/ \E i \in Pick(Nodes) : Drain(i)
Bound == cnt <= 2
------------------------------------------------------------------------
Writes == {"put", "del", "bput", "bdel"}
(* what a server refuses or merely reads changes nothing *)
RefusedIsNothing == [][ (last'.op \notin Writes \/ (last'.op \in {"put", "del"} /\ last'.exp.status # 200)
                         \/ (last'.op = "bput" /\ \A j \in DOMAIN last'.exp.codes : last'.exp.codes[j] # "stored")) => data' = data ]_vars
DrainRefuses == [][ (last'.op \in Writes /\ last'.i \in dr) => data' = data ]_vars
(* the last stored entry of a key is the one that stays *)
LastWins == [][ last'.op = "bput" => \A j \in DOMAIN last'.es :
    (last'.exp.codes[j] = "stored" /\ \A m \in DOMAIN last'.es : (m > j /\ last'.es[m].k = last'.es[j].k) => last'.exp.codes[m] # "stored")
        => data'[last'.es[j].k].v = last'.es[j].v ]_vars
(* an entry another one cannot harm *)
EachAlone == [][ last'.op = "bput" => \A k \in Keys : (\A j \in DOMAIN last'.es : last'.es[j].k # k) => data'[k] = data[k] ]_vars
ListsAll == [][ last'.op = "list" => last'.exp.keys_s = { k \in Keys : data[k] # None } ]_vars
=============================================================================
