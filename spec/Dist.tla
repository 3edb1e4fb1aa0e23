------------------------------- MODULE Dist -------------------------------
(* The distributed backend: nodes 1..N holding copies of keys, with        *)
(* replication, quorums, forwarding and promotion, hinted handoff, read    *)
(* repair, anti-entropy and rebalancing over links that may fail.          *)
(*                                                                         *)
(* A key's ring order is a permutation Pref[k] of the nodes; the owners a  *)
(* node sees are the first R members of its own view in that order (this   *)
(* is what consistent hashing gives; spec Ring covers the hashing itself). *)
(* Every public operation is one step; what it does at the other nodes is  *)
(* composed from the same functions (Store, Fan, Coordinate, ...) the      *)
(* nodes apply to messages arriving from peers.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd, Functions, SequencesExt

CONSTANTS N, R, Pref, WC, RC,
          Hints,      \* hinted handoff enabled
          HPN, HT, HB, \* hint caps: per node, total, bytes (0 = none)
          Batch,      \* read repair batch size (0 = immediate)
          Chunk,      \* Merkle chunk size
          Grace,      \* removal grace in ticks (0 = off)
          HTTL,       \* hint lifetime in ticks (0 = longer than the run)
          TTTL,       \* tombstone lifetime in ticks (0 = kept)
          Ops,        \* operations enabled
          MaxVer, Vals, MaxTicks

Nodes == 1..N
Keys == 1..Len(Pref)
No == [ver |-> 0, org |-> 0, val |-> 0]
KL == 10   \* bytes in a key; value v has v bytes

VARIABLES s, last
vars == <<s, last>>
view == s

Item(ver, org, val) == [ver |-> ver, org |-> org, val |-> val]
Newer(a, b) == a.ver > b.ver \/ (a.ver = b.ver /\ a.org < b.org)

Owners(S, n, k) == LET q == SelectSeq(Pref[k], LAMBDA m : m \in S.view[n])
                   IN SubSeq(q, 1, IF Len(q) < R THEN Len(q) ELSE R)
Has(q, n) == \E i \in 1..Len(q) : q[i] = n
Owns(S, n, k) == Has(Owners(S, n, k), n)
Needed(c, n) == CASE c = "all" -> n [] c = "quorum" -> (n \div 2) + 1 [] OTHER -> 1
Up(S, n, m) == S.link[n][m] = 0 /\ S.alive[m]
LinkErr(S, n, m) == IF S.alive[m] /\ S.link[n][m] = 2 THEN "failed" ELSE "unreachable"
Max2(a, b) == IF a > b THEN a ELSE b

------------------------------------------------------------------------
(* local storage *)
RecordOwners(S, n, k) ==
    IF S.op[n][k] # 0 THEN S
    ELSE [S EXCEPT !.op[n][k] = Owners(S, n, k)[1],
                   !.oo[n][k] = IF @ = <<>> THEN Owners(S, n, k) ELSE @]

Accepts(S, n, k, x) == ~(S.tb[n][k].ver # 0 /\ S.tb[n][k].ver >= x.ver)
                       /\ ~(S.it[n][k] # No /\ Newer(S.it[n][k], x))

Store(S, n, k, x) ==
    LET beat == S.tb[n][k].ver # 0 /\ S.tb[n][k].ver >= x.ver
        T == IF beat THEN S ELSE [S EXCEPT !.tb[n][k] = [ver |-> 0, age |-> 0]]
        U == IF ~Accepts(S, n, k, x) THEN T ELSE RecordOwners([T EXCEPT !.it[n][k] = x], n, k)
    IN [U EXCEPT !.vc[n] = Max2(@, x.ver)]

HSize(h) == KL + h.x.val
QBytes(q) == FoldLeft(LAMBDA a, h : a + HSize(h), 0, q)
HCount(S, n) == FoldLeft(LAMBDA a, m : a + Len(S.hq[n][m]), 0, [i \in Nodes |-> i])
HBytes(S, n) == FoldLeft(LAMBDA a, m : a + QBytes(S.hq[n][m]), 0, [i \in Nodes |-> i])

(* returns [s, ok] *)
QueueHint(S, n, m, k, x, src) ==
    IF ~Hints THEN [s |-> S, ok |-> FALSE]
    ELSE LET q == S.hq[n][m]
             T == IF HPN > 0 /\ Len(q) >= HPN THEN [S EXCEPT !.hq[n][m] = Tail(q)] ELSE S
             full == (HT > 0 /\ HCount(T, n) >= HT)
                     \/ (HB > 0 /\ HBytes(T, n) + KL + x.val > HB)
         IN IF full THEN [s |-> [T EXCEPT !.hd[n] = @ + 1], ok |-> FALSE]
            ELSE [s |-> [T EXCEPT !.hq[n][m] = Append(@, [k |-> k, x |-> x, src |-> src, ttl |-> HTTL]),
                                  !.hn[n] = @ + 1],
                  ok |-> TRUE]

ForgetBase(S, n, k, m) == [S EXCEPT !.oo[n][k] = SelectSeq(@, LAMBDA o : o # m)]

------------------------------------------------------------------------
(* a released or deleted copy's placement record goes with it *)
Forget(S, n, k) == [S EXCEPT !.op[n][k] = 0, !.oo[n][k] = <<>>]

(* a copy sent n -> m without replication; [s, err] *)
SendPlain(S, n, m, k, x) ==
    IF ~Up(S, n, m) THEN [s |-> S, err |-> LinkErr(S, n, m)]
    ELSE IF ~Owns(S, m, k) THEN [s |-> [S EXCEPT !.ref[m] = @ + 1], err |-> "ok"]
    ELSE [s |-> Store(S, m, k, x), err |-> "ok"]

(* the write path of the node that accepts a write; [s, err, acks] *)
Coordinate(S, n, k, v, promoted) ==
    LET own == Owners(S, n, k)
        ver == Max2(S.vc[n], Max2(S.tb[n][k].ver, S.it[n][k].ver)) + 1
        x == Item(ver, n, v)
        T == Store(S, n, k, x)
        to == SelectSeq(IF promoted THEN own ELSE Tail(own), LAMBDA m : m # n)
        one(a, m) == LET r == SendPlain(a.s, n, m, k, x)
                     IN IF r.err = "ok" THEN [s |-> r.s, acks |-> a.acks + 1]
                        ELSE [s |-> QueueHint(r.s, n, m, k, x, "repl").s, acks |-> a.acks]
        e == FoldLeft(one, [s |-> T, acks |-> 1], to)
    IN [s |-> e.s, acks |-> e.acks,
        err |-> IF e.acks < Needed(WC, Len(own)) THEN "quorum" ELSE "ok"]

(* an arriving copy that the receiver passes on to the other owners *)
FanOut(S, m, k, x) ==
    LET own == Owners(S, m, k)
        T == Store(S, m, k, x)
        one(a, o) == LET r == SendPlain(a, m, o, k, x)
                     IN IF r.err = "ok" THEN r.s
                        ELSE LET q == QueueHint(r.s, m, o, k, x, "repl")
                             IN IF q.ok THEN q.s ELSE ForgetBase(q.s, m, k, o)
    IN FoldLeft(one, T, SelectSeq(own, LAMBDA o : o # m))

Arrive(S, m, k, x, repl) ==
    IF ~Owns(S, m, k) THEN [s |-> [S EXCEPT !.ref[m] = @ + 1], err |-> "ok"]
    ELSE IF repl /\ x.ver = 0
         THEN LET c == Coordinate(S, m, k, x.val, Owners(S, m, k)[1] # m) IN [s |-> c.s, err |-> c.err]
    ELSE [s |-> IF repl THEN FanOut(S, m, k, x) ELSE Store(S, m, k, x), err |-> "ok"]

SendRepl(S, n, m, k, x) ==
    IF ~Up(S, n, m) THEN [s |-> S, err |-> LinkErr(S, n, m)] ELSE Arrive(S, m, k, x, TRUE)

(* delete at node m.  Its coordinator gives the delete a version (v) above     *)
(* every write it knows of; a delete that carries none (0) is one above the    *)
(* copy it deletes.                                                            *)
DelLocal(S, m, k, v) ==
    LET held == S.it[m][k] # No
        blind == ~held /\ v = 0
        base == IF blind THEN S.tv[m] + 1 ELSE Max2(v, IF held THEN S.it[m][k].ver + 1 ELSE 0)
    IN [Forget(S, m, k) EXCEPT !.it[m][k] = No,
                 !.tv[m] = IF blind THEN @ + 1 ELSE @,
                 !.tb[m][k] = [ver |-> Max2(base, @.ver), age |-> 0]]
DelFan(S, m, k) ==
    LET v == Max2(S.vc[m], Max2(S.tb[m][k].ver, S.it[m][k].ver)) + 1
        T == DelLocal([S EXCEPT !.vc[m] = v], m, k, v)
        one(a, o) == IF Up(a, m, o) THEN DelLocal(a, o, k, v) ELSE a
        own == Owners(S, m, k)
    IN IF Len(own) <= 1 THEN T
       ELSE FoldLeft(one, T, SelectSeq(Tail(own), LAMBDA o : o # m))

------------------------------------------------------------------------
(* operations: each yields a state and a result *)
SetAt(S, n, k, v) ==
    LET own == Owners(S, n, k) IN
    IF S.dr[n] THEN [s |-> S, err |-> "draining"]
    ELSE IF own[1] = n THEN LET c == Coordinate(S, n, k, v, FALSE) IN [s |-> c.s, err |-> c.err]
    ELSE LET r == SendRepl(S, n, own[1], k, Item(0, 0, v)) IN
         IF r.err \in {"ok", "quorum"} THEN r
         ELSE IF Has(Tail(own), n) THEN LET c == Coordinate(r.s, n, k, v, TRUE) IN [s |-> c.s, err |-> c.err]
         ELSE r

DelAt(S, n, k) ==
    LET own == Owners(S, n, k) IN
    IF S.dr[n] THEN [s |-> S, err |-> "draining"]
    ELSE IF own[1] = n THEN [s |-> DelFan(S, n, k), err |-> "ok"]
    ELSE IF Up(S, n, own[1]) THEN [s |-> DelFan(S, own[1], k), err |-> "ok"]
    ELSE IF Has(Tail(own), n) THEN [s |-> DelFan(S, n, k), err |-> "ok"]
    ELSE [s |-> S, err |-> LinkErr(S, n, own[1])]

(* what node n gets when it asks owner o *)
Fetch(S, n, o, k) == IF o = n \/ Up(S, n, o) THEN S.it[o][k] ELSE No

Choose2(a, b) == IF a = No THEN b ELSE IF b.ver > a.ver THEN b ELSE IF a.ver > b.ver THEN a
                 ELSE IF b.org < a.org THEN b ELSE a

(* a repair queued for, or sent to, owner o *)
Flush(S, n, o) ==
    LET one(a, k) == IF S.rp[n][o][k] = No THEN a ELSE SendPlain(a, n, o, k, S.rp[n][o][k]).s
        T == FoldLeft(one, S, [k \in Keys |-> k])
    IN [T EXCEPT !.rp[n][o] = [k \in Keys |-> No],
                 !.rb[n] = @ + Cardinality({k \in Keys : S.rp[n][o][k] # No})]
FlushAll(S, n) == FoldLeft(LAMBDA a, o : Flush(a, n, o), S, [i \in Nodes |-> i])

RepairRemote(S, n, o, k, x) ==
    IF Batch = 0 THEN SendPlain(S, n, o, k, x).s
    ELSE LET cur == S.rp[n][o][k]
             T == [S EXCEPT !.rc[n] = IF cur # No THEN @ + 1 ELSE @]
             U == IF cur # No /\ ~Newer(x, cur) THEN T ELSE [T EXCEPT !.rp[n][o][k] = x]
             took == cur = No \/ Newer(x, cur)
         IN IF took /\ Cardinality({j \in Keys : U.rp[n][o][j] # No}) >= Batch THEN Flush(U, n, o) ELSE U

(* consult the owners of `ask` in order until enough answered *)
Consult(S, n, k, ask, need) ==
    LET one(a, o) == IF a.acks >= need THEN a
                     ELSE LET x == Fetch(S, n, o, k) IN
                          IF x = No THEN a
                          ELSE LET c == Choose2(a.x, x) IN
                               [acks |-> a.acks + 1, x |-> c,
                                stale |-> IF a.x # No /\ c # a.x THEN Append(a.stale, o) ELSE a.stale]
    IN FoldLeft(one, [acks |-> 0, x |-> No, stale |-> <<>>], ask)

RepairAll(S, n, k, own, c) ==
    LET st(a, o) == IF o = n THEN a ELSE RepairRemote(a, n, o, k, c.x)
        all(a, o) == IF o # n THEN RepairRemote(a, n, o, k, c.x)
                     ELSE IF a.it[n][k] = No \/ Newer(c.x, a.it[n][k]) THEN Store(a, n, k, c.x) ELSE a
    IN FoldLeft(all, FoldLeft(st, S, c.stale), own)

GetOne(S, n, k) ==
    LET own == Owners(S, n, k)
        one(a, o) == IF a.x # No THEN a
                     ELSE LET x == Fetch(S, n, o, k) IN
                          IF x = No THEN a
                          ELSE [x |-> x,
                                s |-> IF o # n /\ Owns(S, n, k) /\ S.it[n][k] = No THEN Store(S, n, k, x) ELSE S]
    IN IF S.it[n][k] # No THEN [s |-> S, x |-> S.it[n][k]]
       ELSE FoldLeft(one, [s |-> S, x |-> No], own)

GetAt(S, n, k) ==
    IF RC = "one" THEN GetOne(S, n, k)
    ELSE LET own == Owners(S, n, k)
             need == Needed(RC, Len(own))
             c == Consult(S, n, k, own, need)
         IN IF c.acks < need \/ c.x = No THEN [s |-> S, x |-> No]
            ELSE [s |-> RepairAll(S, n, k, own, c), x |-> c.x]

(* hint replay by node n *)
ReplayTo(S, n, m) ==
    LET q == S.hq[n][m]
        one(a, h) == IF HTTL > 0 /\ h.ttl <= 0 THEN [a EXCEPT !.s.he[n] = @ + 1]
                     ELSE LET r == IF h.src = "migr" THEN SendRepl(a.s, n, m, h.k, h.x)
                                   ELSE SendPlain(a.s, n, m, h.k, h.x)
                          IN IF r.err = "ok" THEN [a EXCEPT !.s = [r.s EXCEPT !.hr[n] = @ + 1]]
                             ELSE [s |-> r.s, q |-> Append(a.q, h)]
        e == FoldLeft(one, [s |-> S, q |-> <<>>], q)
    IN [e.s EXCEPT !.hq[n][m] = e.q]
Replay(S, n) == FoldLeft(LAMBDA a, m : ReplayTo(a, n, m), S, [i \in Nodes |-> i])

------------------------------------------------------------------------
(* anti-entropy *)
Entries(S, n) == \* keys with a copy or a tombstone, in order, with versions
    LET ks == SelectSeq([k \in Keys |-> k], LAMBDA k : S.it[n][k] # No \/ S.tb[n][k].ver # 0)
    IN [i \in 1..Len(ks) |-> [k |-> ks[i], v |-> IF S.it[n][ks[i]] # No THEN S.it[n][ks[i]].ver ELSE S.tb[n][ks[i]].ver]]
Leaves(e) == LET c == (Len(e) + Chunk - 1) \div Chunk
             IN [i \in 1..c |-> SubSeq(e, (i-1)*Chunk + 1, IF i*Chunk < Len(e) THEN i*Chunk ELSE Len(e))]

Adopt(S, n, m, k) ==
    IF S.it[m][k] # No THEN Store(S, n, k, S.it[m][k])
    ELSE IF m \in S.view[n] /\ ~Has(Owners(S, n, k), m) THEN S
    ELSE IF S.tb[n][k].ver # 0 \/ S.it[n][k] = No THEN S
    ELSE [Forget(S, n, k) EXCEPT !.it[n][k] = No, !.tb[n][k] = [ver |-> S.it[n][k].ver + 1, age |-> 0]]

Sync(S, n, m) ==
    IF ~Up(S, n, m) THEN [s |-> S, err |-> LinkErr(S, n, m)]
    ELSE LET a == Entries(S, n)  la == Leaves(a)  lb == Leaves(Entries(S, m))
             dif == IF Len(la) # Len(lb) THEN 1..Len(la) ELSE {i \in 1..Len(la) : la[i] # lb[i]}
             miss == {k \in Keys : S.it[m][k] # No /\ \A i \in 1..Len(a) : a[i].k # k}
             todo == miss \cup UNION { {la[i][j].k : j \in 1..Len(la[i])} : i \in dif }
             one(x, k) == IF k \in todo THEN Adopt(x, n, m, k) ELSE x
         IN [s |-> FoldLeft(one, S, [k \in Keys |-> k]), err |-> "ok"]

------------------------------------------------------------------------
(* rebalancing tick at node n *)
Candidates(S, n) ==  \* [s, ks]
    LET one(a, k) ==
            IF a.s.it[n][k] = No THEN a
            ELSE LET own == Owners(a.s, n, k) IN
                 IF ~Has(own, n)
                 THEN [s |-> IF Grace > 0 /\ a.s.rm[n][k] = -1 THEN [a.s EXCEPT !.rm[n][k] = 0] ELSE a.s,
                       ks |-> a.ks \cup {k}]
                 ELSE IF own[1] = n THEN [a EXCEPT !.s.op[n][k] = IF @ = 0 THEN 0 ELSE n]
                 ELSE IF a.s.op[n][k] # own[1] THEN [a EXCEPT !.ks = @ \cup {k}] ELSE a
    IN FoldLeft(one, [s |-> S, ks |-> {}], [k \in Keys |-> k])

Migrate(S, n, k, x) ==
    LET own == Owners(S, n, k) IN
    IF own[1] = n THEN S
    ELSE LET r == SendRepl(S, n, own[1], k, x)
             q == IF r.err = "ok" THEN [s |-> r.s, ok |-> TRUE] ELSE QueueHint(r.s, n, own[1], k, x, "migr")
         IN IF ~q.ok
            THEN LET T == [q.s EXCEPT !.op[n][k] = 0] IN IF Grace > 0 /\ T.rm[n][k] # -1 THEN [T EXCEPT !.rm[n][k] = 0] ELSE T
            ELSE LET T == [q.s EXCEPT !.op[n][k] = own[1]] IN
                 IF Has(own, n) THEN T
                 ELSE IF Grace > 0 THEN IF T.rm[n][k] = -1 THEN [T EXCEPT !.rm[n][k] = 0] ELSE T
                 ELSE [Forget(T, n, k) EXCEPT !.it[n][k] = No]

ReplicaDiff(S, n, k) ==
    LET own == Owners(S, n, k)
        base == S.oo[n][k]
        shrink(T) == [T EXCEPT !.oo[n][k] = SelectSeq(@, LAMBDA o : Has(own, o))]
    IN IF S.it[n][k] = No THEN S
       ELSE IF own[1] # n
            THEN shrink(IF Grace > 0 /\ ~Has(own, n) /\ S.rm[n][k] = -1 THEN [S EXCEPT !.rm[n][k] = 0] ELSE S)
       ELSE IF base = <<>> THEN [S EXCEPT !.oo[n][k] = own]
       ELSE LET new == SelectSeq(Tail(own), LAMBDA o : ~Has(base, o))
                one(a, o) == LET r == SendPlain(a.s, n, o, k, S.it[n][k])
                                 q == IF r.err = "ok" THEN [s |-> r.s, ok |-> TRUE]
                                      ELSE QueueHint(r.s, n, o, k, S.it[n][k], "repl")
                             IN [s |-> q.s, pend |-> IF q.ok THEN a.pend ELSE Append(a.pend, o)]
                e == FoldLeft(one, [s |-> S, pend |-> <<>>], new)
            IN IF new = <<>> THEN shrink(S)
               ELSE [e.s EXCEPT !.oo[n][k] = SelectSeq(own, LAMBDA o : ~Has(e.pend, o))]

Shed(S, n) ==
    IF Grace = 0 THEN S
    ELSE LET due(k) == S.rm[n][k] >= Grace
             out(k) == due(k) /\ ~Owns(S, n, k)
         IN [S EXCEPT !.it[n] = [k \in Keys |-> IF out(k) THEN No ELSE S.it[n][k]],
                      !.op[n] = [k \in Keys |-> IF out(k) THEN 0 ELSE S.op[n][k]],
                      !.oo[n] = [k \in Keys |-> IF out(k) THEN <<>> ELSE S.oo[n][k]],
                      !.rm[n] = [k \in Keys |-> IF due(k) THEN -1 ELSE S.rm[n][k]]]

Rebalance(S, n) ==
    LET c == Candidates(S, n)
        snap == c.s.it[n]
        mig(a, k) == IF k \in c.ks THEN Migrate(a, n, k, snap[k]) ELSE a
        T == FoldLeft(mig, c.s, [k \in Keys |-> k])
        U == FoldLeft(LAMBDA a, k : ReplicaDiff(a, n, k), T, [k \in Keys |-> k])
    IN [Shed(U, n) EXCEPT !.uc = @ \ {n}, !.uj = @ \ {n}]

(* every live node ticks and replays its hints, three rounds, links healed *)
Heal(S) == [S EXCEPT !.link = [n \in Nodes |-> [m \in Nodes |-> 0]]]
Round(S) == FoldLeft(LAMBDA a, n : IF S.alive[n] THEN Rebalance(Replay(a, n), n) ELSE a, S, [i \in Nodes |-> i])
Settle(S) == Round(Round(Round(Heal(S))))

------------------------------------------------------------------------
(* observations *)
Cp(S) == [n \in Nodes |-> [k \in Keys |-> S.it[n][k]]]
Hq(S) == [n \in Nodes |-> [m \in Nodes |-> Len(S.hq[n][m])]]
Hm(S) == [n \in Nodes |-> [by |-> HBytes(S, n), q |-> S.hn[n], d |-> S.hd[n], r |-> S.hr[n], e |-> S.he[n]]]

E(err) == IF err \in {"unreachable", "failed"} THEN "fail" ELSE err
Step(S, op, args, e) == s' = S /\ last' = ([op |-> op, exp |-> e] @@ args)

Tick(S) == [S EXCEPT !.clk = @ + 1,
    !.tb = [n \in Nodes |-> [k \in Keys |-> [S.tb[n][k] EXCEPT !.age = IF S.tb[n][k].ver = 0 \/ TTTL = 0 THEN 0
                                                                      ELSE IF @ < TTTL THEN @ + 1 ELSE @]]],
    !.rm = [n \in Nodes |-> [k \in Keys |-> IF @[n][k] = -1 \/ @[n][k] >= Grace THEN @[n][k] ELSE @[n][k] + 1]],
    !.hq = [n \in Nodes |-> [m \in Nodes |-> [i \in 1..Len(S.hq[n][m]) |->
                [S.hq[n][m][i] EXCEPT !.ttl = IF @ > 0 THEN @ - 1 ELSE @]]]]]

Compact(S, n) == [S EXCEPT !.tb[n] = [k \in Keys |->
    IF TTTL > 0 /\ S.tb[n][k].ver # 0 /\ S.tb[n][k].age >= TTTL THEN [ver |-> 0, age |-> 0] ELSE S.tb[n][k]]]

Live(S) == {n \in Nodes : S.alive[n]}
Fresh(S, m) == \* node m gone: what it held is lost
    [S EXCEPT !.it[m] = [k \in Keys |-> No], !.tb[m] = [k \in Keys |-> [ver |-> 0, age |-> 0]],
              !.vc[m] = 0, !.tv[m] = 0, !.hq[m] = [i \in Nodes |-> <<>>],
              !.rp[m] = [i \in Nodes |-> [k \in Keys |-> No]],
              !.op[m] = [k \in Keys |-> 0], !.oo[m] = [k \in Keys |-> <<>>], !.rm[m] = [k \in Keys |-> -1],
              !.ref[m] = 0, !.hn[m] = 0, !.hd[m] = 0, !.hr[m] = 0, !.he[m] = 0, !.rc[m] = 0, !.rb[m] = 0,
              !.dr[m] = FALSE]

Init ==
    /\ s = [it |-> [n \in Nodes |-> [k \in Keys |-> No]],
            tb |-> [n \in Nodes |-> [k \in Keys |-> [ver |-> 0, age |-> 0]]],
            vc |-> [n \in Nodes |-> 0], tv |-> [n \in Nodes |-> 0],
            hq |-> [n \in Nodes |-> [m \in Nodes |-> <<>>]],
            rp |-> [n \in Nodes |-> [m \in Nodes |-> [k \in Keys |-> No]]],
            op |-> [n \in Nodes |-> [k \in Keys |-> 0]],
            oo |-> [n \in Nodes |-> [k \in Keys |-> <<>>]],
            rm |-> [n \in Nodes |-> [k \in Keys |-> -1]],
            view |-> [n \in Nodes |-> Nodes], alive |-> [n \in Nodes |-> TRUE],
            link |-> [n \in Nodes |-> [m \in Nodes |-> 0]],
            dr |-> [n \in Nodes |-> FALSE], ref |-> [n \in Nodes |-> 0],
            hn |-> [n \in Nodes |-> 0], hd |-> [n \in Nodes |-> 0], hr |-> [n \in Nodes |-> 0], he |-> [n \in Nodes |-> 0],
            rc |-> [n \in Nodes |-> 0], rb |-> [n \in Nodes |-> 0], uc |-> {}, uj |-> {},  \* nodes not yet rebalanced since the last crash / join
            clk |-> 0]
    /\ last = [op |-> "init", n |-> N, r |-> R, pref |-> Pref, wc |-> WC, rc |-> RC, hints |-> Hints,
               hpn |-> HPN, ht |-> HT, hb |-> HB, batch |-> Batch, chunk |-> Chunk, grace |-> Grace,
               httl |-> HTTL, tttl |-> TTTL]

On(op) == op \in Ops
RoomS(S) == \A n \in Nodes : S.vc[n] < MaxVer
Room == RoomS(s)
Agree(S) == \A n, m \in Live(S) : S.view[n] = S.view[m]

DoSet(n, k, v) ==
    /\ On("set") /\ Room /\ s.alive[n]
    /\ On("calm") => \A a, b \in Nodes : s.link[a][b] = 0   \* no write misses an owner
    /\ LET r == SetAt(s, n, k, v) IN
       Step(r.s, "set", [n |-> n, k |-> k, v |-> v],
            [d1err |-> E(r.err), d1cp |-> Cp(r.s), d9err |-> E(r.err), d9cp |-> Cp(r.s), d5h |-> Hq(r.s), d5m |-> Hm(r.s), d10ref |-> r.s.ref, d10cp |-> Cp(r.s)])

DoGet(n, k) ==
    /\ On("get") /\ s.alive[n]
    /\ LET r == GetAt(s, n, k) IN
       Step(r.s, "get", [n |-> n, k |-> k],
            [d2x |-> r.x, d9cp |-> Cp(r.s), d2cp |-> Cp(r.s), d9x |-> r.x, d14cp |-> Cp(r.s), d14c |-> r.s.rc, d14b |-> r.s.rb])

DoDel(n, k) ==
    /\ On("del") /\ s.alive[n] /\ Room /\ \A m \in Nodes : s.tv[m] < MaxVer /\ s.tb[m][k].ver <= MaxVer
    /\ LET r == DelAt(s, n, k) IN
       Step(r.s, "del", [n |-> n, k |-> k],
            [d4err |-> E(r.err), d4cp |-> Cp(r.s), d9err |-> E(r.err), d9cp |-> Cp(r.s)])

(* a copy / a delete reaching node n from outside the modelled nodes' own paths *)
DoArrive(n, k, x, repl) ==
    /\ On("arrive") /\ s.alive[n] /\ (x.ver = 0 => Room /\ x.org = 0)
    /\ LET r == Arrive(s, n, k, x, repl) IN
       Step(r.s, "arrive", [n |-> n, k |-> k, x |-> x, repl |-> repl],
            [d3cp |-> Cp(r.s), d4cp |-> Cp(r.s), d10cp |-> Cp(r.s), d10ref |-> r.s.ref,
             d1err |-> E(r.err), d5h |-> Hq(r.s), d5m |-> Hm(r.s)])
DoArriveDel(n, k, repl) ==
    /\ On("arrdel") /\ s.alive[n] /\ Room /\ \A m \in Nodes : s.tv[m] < MaxVer
    /\ LET S == IF repl THEN DelFan(s, n, k) ELSE DelLocal(s, n, k, 0) IN
       Step(S, "arrdel", [n |-> n, k |-> k, repl |-> repl], [d3cp |-> Cp(S), d4cp |-> Cp(S)])

DoReplay(n) ==
    /\ On("replay") /\ s.alive[n]
    /\ LET S == Replay(s, n) IN
       Step(S, "replay", [n |-> n], [d5cp |-> Cp(S), d5h |-> Hq(S), d5m |-> Hm(S)])

DoSync(n, m) ==
    /\ On("sync") /\ n # m /\ s.alive[n]
    /\ LET r == Sync(s, n, m) IN
       Step(r.s, "sync", [n |-> n, m |-> m], [d6err |-> E(r.err), d6cp |-> Cp(r.s), d3cp |-> Cp(r.s), d4cp |-> Cp(r.s)])

(* digests compared, both ways *)
DoCmp(n, m) ==
    /\ On("cmp") /\ n < m /\ s.alive[m]
    /\ Step(s, "cmp", [n |-> n, m |-> m], [d6eq |-> Entries(s, n) = Entries(s, m)])

DoDrop(n, k) ==
    /\ On("drop") /\ s.it[n][k] # No
    /\ LET S == [s EXCEPT !.it[n][k] = No] IN Step(S, "drop", [n |-> n, k |-> k], <<>>)

DoLink(n, m, l) ==
    /\ On("link") /\ n # m /\ s.link[n][m] # l
    /\ Step([s EXCEPT !.link[n][m] = l], "link", [n |-> n, m |-> m, l |-> l], <<>>)

(* all links to and from a node fail, or come back *)
DoCut(n, l) ==
    /\ On("cut") /\ \E m \in Nodes \ {n} : s.link[m][n] # l
    /\ LET S == [s EXCEPT !.link = [a \in Nodes |-> [b \in Nodes |->
                    IF a # b /\ (a = n \/ b = n) THEN l ELSE s.link[a][b]]]]
       IN Step(S, "cut", [n |-> n, l |-> l], <<>>)

(* one node's view changes *)
DoView(n, m) ==
    /\ On("view") /\ n # m
    /\ LET S == [s EXCEPT !.view[n] = IF m \in @ THEN @ \ {m} ELSE @ \cup {m}]
       IN Step(S, "view", [n |-> n, m |-> m, add |-> m \notin s.view[n]], <<>>)

DoHeal == On("heal") /\ s # Heal(s) /\ Step(Heal(s), "heal", <<>>, <<>>)

DoCrash(m) ==
    /\ On("crash") /\ s.alive[m] /\ Cardinality(Live(s)) > 1 /\ s.uj \cap Live(s) = {}
    /\ LET S == [Fresh(s, m) EXCEPT !.alive[m] = FALSE, !.uc = Live(s) \ {m},
                    !.view = [n \in Nodes |-> IF n = m THEN @[n] ELSE @[n] \ {m}]]
       IN Step(S, "crash", [n |-> m], [d7cp |-> Cp(S)])
DoJoin(m) ==
    \* back, empty, once every live node has rebalanced without it
    /\ On("join") /\ ~s.alive[m] /\ s.uc \cap Live(s) = {}
    /\ LET S == [s EXCEPT !.alive[m] = TRUE, !.uj = Live(s) \cup {m}, !.view = [n \in Nodes |-> IF s.alive[n] \/ n = m THEN Live(s) \cup {m} ELSE @[n]]]
       IN Step(S, "join", [n |-> m], [d7cp |-> Cp(S)])

DoRebalance(n) ==
    /\ On("rebalance") /\ s.alive[n]
    /\ LET S == Rebalance(s, n) IN
       Step(S, "rebalance", [n |-> n], [d7cp |-> Cp(S), d7h |-> Hq(S), d5m |-> Hm(S)])

DoSettle ==
    /\ On("settle")
    /\ LET S == Settle(s) IN Step(S, "settle", <<>>, [d7cp |-> Cp(S), d7h |-> Hq(S)])

DoDrain(n) ==
    /\ On("drain") /\ s.alive[n]
    /\ LET S == [s EXCEPT !.dr[n] = TRUE] IN
       Step(S, "drain", [n |-> n], [d9n |-> 1, d9is |-> TRUE, d9cp |-> Cp(S)])

DoFlush(n) ==
    /\ On("flush") /\ Batch > 0 /\ s.alive[n]
    /\ LET S == FlushAll(s, n) IN
       Step(S, "flush", [n |-> n], [d14fcp |-> Cp(S), d14fb |-> S.rb])

(* an orderly stop (twice over): queued repairs go out first *)
DoStop(n) ==
    /\ On("stop") /\ s.alive[n] /\ Cardinality(Live(s)) > 1
    /\ LET S == [Fresh(FlushAll(s, n), n) EXCEPT !.alive[n] = FALSE]
       IN Step(S, "stop", [n |-> n], [d14cp |-> Cp(S), d9stop |-> "ok"])

(* what a probe of n's health route says *)
DoHealth(n) ==
    /\ On("health") /\ s.alive[n]
    /\ Step(s, "health", [n |-> n], [d9health |-> IF s.dr[n] THEN 503 ELSE 200])

DoTick == On("tick") /\ s.clk < MaxTicks /\ Step(Tick(s), "tick", <<>>, <<>>)
DoCompact(n) ==
    /\ On("compact")
    /\ LET S == Compact(s, n) IN
       Step(S, "compact", [n |-> n], [d4p |-> Cardinality({k \in Keys : s.tb[n][k].ver # 0 /\ S.tb[n][k].ver = 0})])

(* ring orders used by the configurations *)
P1a == <<<<1>>>>
P2a == <<<<1, 2>>>>
P2b == <<<<1, 2>>, <<2, 1>>>>
P2c == <<<<1, 2>>, <<2, 1>>, <<1, 2>>>>
P3a == <<<<1, 2, 3>>>>
P3b == <<<<1, 2, 3>>, <<3, 1, 2>>>>
P3c == <<<<1, 2, 3>>, <<3, 1, 2>>, <<2, 3, 1>>>>
P4a == <<<<1, 2, 3, 4>>>>
P4b == <<<<1, 2, 3, 4>>, <<4, 2, 1, 3>>>>
P4c == <<<<1, 2, 3, 4>>, <<4, 2, 1, 3>>, <<3, 1, 4, 2>>>>
P5c == <<<<1, 2, 3, 4, 5>>, <<5, 3, 1, 4, 2>>, <<3, 4, 2, 5, 1>>>>

(* operations a configuration leaves out pass their share of a random walk   *)
(* on to the next one listed, hence the order                               *)
Next ==
    \/ \E n \in Pick(Nodes), l \in Pick(0..2) : DoCut(n, l)
    \/ \E n \in Pick(Nodes) : \E m \in Pick(Nodes \ {n}), l \in Pick(0..2) : DoLink(n, m, l)
    \/ \E n \in Pick(Nodes) : \E m \in Pick(Nodes \ {n}) : DoView(n, m)
    \/ DoHeal
    \/ \E n \in Pick(Live(s)), k \in Pick(Keys) : DoDel(n, k)
    \/ \E n \in Pick(Live(s)), k \in Pick(Keys) : DoGet(n, k)
    \/ \E n \in Pick(Live(s)), k \in Pick(Keys), v \in Pick(Vals) : DoSet(n, k, v)
    \/ \E n \in Pick(Live(s)) : DoRebalance(n)
    \/ \E n \in Pick(Live(s)) : DoReplay(n)
    \/ \E n \in Pick(Live(s)) : DoCrash(n)
    \/ \E n \in Pick(Nodes) : DoJoin(n)
    \/ DoTick
    \/ \E n \in Pick(Live(s)) : DoCompact(n)
    \/ \E n \in Pick(Live(s)) : DoFlush(n)
    \/ \E n \in Pick(Live(s)) : DoStop(n)
    \/ \E n \in Pick(Live(s)) : DoDrain(n)
    \/ \E n \in Pick(Live(s)) : DoHealth(n)
    \/ \E n \in Pick(Live(s)), k \in Pick(Keys), rp \in Pick(BOOLEAN) : DoArriveDel(n, k, rp)
    \/ \E n \in Pick(Live(s)), k \in Pick(Keys), ver \in Pick(0..MaxVer-1), org \in Pick(Nodes), v \in Pick(Vals), rp \in Pick(BOOLEAN) :
          DoArrive(n, k, Item(ver, IF ver = 0 THEN 0 ELSE org, v), rp)
    \/ \E n \in Pick(Live(s)) : \E m \in Pick(Nodes \ {n}) : DoCmp(n, m)
    \/ \E n \in Pick(Live(s)) : \E m \in Pick(Nodes \ {n}) : DoSync(n, m)
    \/ \E n \in Pick(Live(s)), k \in Pick(Keys) : DoDrop(n, k)
    \/ DoSettle
    \/ \E n \in Pick(Live(s)), k \in Pick(Keys) : DoGet(n, k)
    \/ \E n \in Pick(Live(s)), k \in Pick(Keys), v \in Pick(Vals) : DoSet(n, k, v)

Bound == \A n \in Nodes : s.vc[n] <= MaxVer /\ s.tv[n] <= MaxVer /\ HCount(s, n) <= 4
                          /\ s.ref[n] <= 2 /\ s.hn[n] <= 4 /\ s.hd[n] <= 2 /\ s.rc[n] <= 2 /\ s.rb[n] <= 3 /\ s.hr[n] <= 4
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------
(* D01 *)
Holders(S, k, x) == {o \in Nodes : S.it[o][k] = x}
NewCopies(k) == {s'.it[o][k] : o \in {o \in Nodes : s'.it[o][k] # s.it[o][k]}}
Coordinator(S, n, k) == LET own == Owners(S, n, k) IN IF own[1] = n \/ Up(S, n, own[1]) THEN own[1] ELSE n
WriteQuorum == [][ (last'.op = "set" /\ Agree(s)) =>
    LET k == last'.k  n == last'.n  own == Owners(s, n, k)  c == Coordinator(s, n, k)
        x == s'.it[c][k]
        chg == {o \in Nodes : s'.it[o][k] # s.it[o][k]}
        acked == {o \in Nodes : Has(own, o) /\ (o = c \/ Up(s, c, o))}
        err == last'.exp.d1err
    IN /\ \A o \in chg : Has(own, o) /\ s'.it[o][k] = x
       /\ err \in {"ok", "quorum"} =>
            /\ x.val = last'.v /\ c \in chg
            /\ err = "ok" <=> Cardinality(acked) >= Needed(WC, Len(own))
            /\ \A o \in acked : s'.it[o][k] = x \/ Newer(s'.it[o][k], x) \/ s'.tb[o][k].ver >= x.ver
       /\ err \in {"draining", "fail"} => chg = {} ]_vars
(* a coordinator's copy is newer than anything it had seen *)
WriteWins == [][ (last'.op = "set") => \A o \in Nodes, k \in Keys :
    s'.it[o][k] # s.it[o][k] => (s'.it[o][k].ver > s.it[o][k].ver \/ Newer(s'.it[o][k], s.it[o][k])) ]_vars
(* D02 *)
ReadNewest == [][ (last'.op = "get" /\ RC # "one" /\ last'.exp.d2x # No) =>
    LET k == last'.k  n == last'.n  own == Owners(s, n, k)
        ans == {o \in Nodes : Has(own, o) /\ Fetch(s, n, o, k) # No}
    IN /\ Cardinality(ans) >= Needed(RC, Len(own))
       /\ \E o \in ans : s.it[o][k] = last'.exp.d2x
       /\ (RC = "all" => \A o \in ans : ~Newer(s.it[o][k], last'.exp.d2x))
       /\ (Batch = 0 => \A o \in Nodes : (Has(own, o) /\ (o = n \/ Up(s, n, o)) /\ Owns(s, o, k) /\ s.tb[o][k].ver < last'.exp.d2x.ver)
               => (s'.it[o][k] # No /\ ~Newer(last'.exp.d2x, s'.it[o][k]))) ]_vars
(* quorum reads see quorum writes: D01+D02 together *)
(* D03 *)
NeverOlder == [][ \A n \in Nodes, k \in Keys :
    (s.it[n][k] # No /\ s'.it[n][k] # No) => ~Newer(s.it[n][k], s'.it[n][k]) ]_vars
(* D04 *)
TombHolds == [][ \A n \in Nodes, k \in Keys :
    (s.tb[n][k].ver # 0 /\ s'.it[n][k] # No /\ s.it[n][k] = No) => s'.it[n][k].ver > s.tb[n][k].ver ]_vars
DeleteReaches == [][ (last'.op = "del" /\ last'.exp.d4err = "ok" /\ Agree(s)) =>
    LET own == Owners(s, last'.n, last'.k)
        c == IF own[1] = last'.n \/ Up(s, last'.n, own[1]) THEN own[1] ELSE last'.n
    IN \A o \in Nodes : (Has(own, o) /\ (o = c \/ Up(s, c, o))) => s'.it[o][last'.k] = No ]_vars
(* while every node is reached, deletes never stand in the way of a later set *)
SetLands == [][ (last'.op = "set" /\ last'.exp.d1err = "ok" /\ Agree(s)) =>
    \A o \in Nodes : Has(Owners(s, last'.n, last'.k), o) => s'.it[o][last'.k].val = last'.v ]_vars
NotBoth == \A n \in Nodes, k \in Keys : s.it[n][k] = No \/ s.tb[n][k].ver = 0
(* D05 *)
HintDelivered == [][ (last'.op = "replay") => \A m \in Nodes : LET n == last'.n IN
    /\ Up(s, n, m) => s'.hq[n][m] = <<>>
    /\ ~Up(s, n, m) => \A i \in 1..Len(s.hq[n][m]) : (HTTL = 0 \/ s.hq[n][m][i].ttl > 0) =>
                            \E j \in 1..Len(s'.hq[n][m]) : s'.hq[n][m][j] = s.hq[n][m][i]
    /\ Up(s, n, m) => \A i \in 1..Len(s.hq[n][m]) : LET h == s.hq[n][m][i] IN
          ((HTTL = 0 \/ h.ttl > 0) /\ Owns(s, m, h.k)) =>
              \/ s'.tb[m][h.k].ver >= h.x.ver
              \/ s'.it[m][h.k] # No /\ ~Newer(h.x, s'.it[m][h.k]) ]_vars
HintCaps == \A n \in Nodes : (HT > 0 => HCount(s, n) <= HT) /\ (HB > 0 => HBytes(s, n) <= HB)
                             /\ (HPN > 0 => \A m \in Nodes : Len(s.hq[n][m]) <= HPN)
MissedKept == [][ (last'.op = "set" /\ Hints /\ HPN = 0 /\ HT = 0 /\ HB = 0 /\ Agree(s)) =>
    \A o \in Nodes, k \in Keys : \A x \in NewCopies(k) :
      (Has(Owners(s, last'.n, k), o) /\ x # No /\ s'.it[o][k] # x) =>
          \/ s'.tb[o][k].ver >= x.ver \/ Newer(s'.it[o][k], x)
          \/ \E n \in Nodes : \E i \in 1..Len(s'.hq[n][o]) : s'.hq[n][o][i].x = x /\ s'.hq[n][o][i].k = k ]_vars
(* D06 *)
SyncCovers == [][ (last'.op = "sync" /\ last'.exp.d6err = "ok") => \A k \in Keys :
    LET n == last'.n m == last'.m IN
    /\ s.it[m][k] # No => \/ s'.it[n][k] # No /\ ~Newer(s.it[m][k], s'.it[n][k])
                          \/ s'.tb[n][k].ver >= s.it[m][k].ver
                          \* equal versions from different origins share a digest
                          \/ s'.it[n][k] # No /\ s'.it[n][k].ver = s.it[m][k].ver
    /\ s.it[m][k] = s.it[n][k] => s'.it[n][k] = s.it[n][k] ]_vars
(* D07 *)
Newest(S, k) == CHOOSE x \in {S.it[n][k] : n \in Nodes} : \A n \in Nodes : S.it[n][k] # No => (x # No /\ ~Newer(S.it[n][k], x))
HeldSomewhere(S, k, x) ==
    \/ \E n \in Nodes : S.it[n][k] # No /\ ~Newer(x, S.it[n][k])
    \/ \E n, m \in Nodes : \E i \in 1..Len(S.hq[n][m]) : S.hq[n][m][i].k = k /\ ~Newer(x, S.hq[n][m][i].x)
    \/ \E n \in Nodes : S.tb[n][k].ver >= x.ver
NoKeyLost == [][ last'.op \in {"rebalance", "replay", "settle"} =>
    \A k \in Keys : Newest(s, k) # No => HeldSomewhere(s', k, Newest(s, k)) ]_vars
Settled == [][ last'.op = "settle" => \A k \in Keys : \A o \in Live(s) :
    LET x == Newest(s, k) IN
    (x # No /\ Owns(s, o, k) /\ \A n \in Nodes : s.tb[n][k].ver = 0) =>
        s'.it[o][k] # No /\ ~Newer(x, s'.it[o][k]) ]_vars
(* D10 *)
NoForeign == [][ last'.op \in {"set", "arrive", "replay"} => \A n \in Nodes, k \in Keys :
    s'.it[n][k] # s.it[n][k] => Owns(s, n, k) ]_vars
(* D09 *)
DrainRefuses == [][ (last'.op \in {"set", "del"} /\ s.dr[last'.n]) =>
    last'.exp.d9err = "draining" /\ s'.it = s.it ]_vars
DrainSticks == [][ \A n \in Nodes : s.dr[n] /\ s.alive[n] /\ s'.alive[n] => s'.dr[n] ]_vars
=========================================================================
