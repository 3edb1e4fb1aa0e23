------------------------------- MODULE CMap -------------------------------
(* The sharded concurrent map (pkg/cache/v2): key -> item, where an item   *)
(* is identified by the Set that stored it and counts its touches.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd
CONSTANTS Keys, Ids, MaxTouch
VARIABLES m, last
vars == <<m, last>>
view == m
None == [id |-> 0, acc |-> 0]
Held(f) == { k \in DOMAIN f : f[k].id # 0 }
List(f) == { [k |-> k, id |-> f[k].id, acc |-> f[k].acc] : k \in Held(f) }

(* what an operation returns, and the entry it leaves *)
Ret(o, e) ==
    CASE o.op \in {"get", "pop"} -> [id |-> e.id]
      [] o.op = "copy" -> [id |-> e.id, acc |-> e.acc]
      [] o.op \in {"has", "touch"} -> [ok |-> e.id # 0]
      [] OTHER -> [done |-> TRUE]
Put(o, e) ==
    CASE o.op = "set" -> [id |-> o.id, acc |-> 0]
      [] o.op \in {"pop", "remove"} -> None
      [] o.op = "touch" /\ e.id # 0 -> [e EXCEPT !.acc = @ + 1]
      [] OTHER -> e

Do(o) == /\ m' = [m EXCEPT ![o.k] = Put(o, @)]
         /\ last' = o @@ [exp |-> Ret(o, m[o.k]) @@ [count |-> Cardinality(Held(m')), all_s |-> List(m')]]
Clear == /\ m' = [k \in Keys |-> None]
         /\ last' = [op |-> "clear", exp |-> [done |-> TRUE, count |-> 0, all_s |-> {}]]
Stop(n) ==   \* iteration stopped by the caller after n entries: an entry is held, and the map is not left locked
    /\ UNCHANGED m
    /\ last' = [op |-> "some", n |-> n, exp |-> [seen |-> IF Cardinality(Held(m)) < n THEN Cardinality(Held(m)) ELSE n,
                                                  count |-> Cardinality(Held(m)), all_s |-> List(m)]]
Init == m = [k \in Keys |-> None] /\ last = [op |-> "init", keys |-> Cardinality(Keys)]
Next == \/ \E k \in Pick(Keys), i \in Pick(Ids) : Do([op |-> "set", k |-> k, id |-> i])
        \/ \E k \in Pick(Keys), op \in Pick({"get", "copy", "has", "pop", "remove", "touch"}) : Do([op |-> op, k |-> k])
        \/ \E k \in Pick(Keys) : Do([op |-> "touch", k |-> k])
        \/ \E k \in Pick(Keys), i \in Pick(Ids) : Do([op |-> "set", k |-> k, id |-> i])
        \/ \E r \in Pick(1..6) : IF r = 1 THEN Clear ELSE Stop(r - 1)
Bound == \A k \in Keys : m[k].acc <= MaxTouch
------------------------------------------------------------------------
OnlyItsKey == last'.op \notin {"init", "clear", "some"} => \A k \in Keys : k # last'.k => m'[k] = m[k]
Reads == last'.op \in {"get", "copy", "has", "some"} => m' = m
A_Map == [][OnlyItsKey /\ Reads]_vars
CountIsSize == last.op # "init" => last.exp.count = Cardinality(last.exp.all_s) /\ last.exp.count <= Cardinality(Keys)
=========================================================================
