------------------------------- MODULE Ring -------------------------------
(* Consistent-hash placement (internal/cluster/ring.go).  A universe of    *)
(* nodes has its virtual points in some order round a circle (ord); a key  *)
(* sits just before the point at index key.  Owners are the first distinct *)
(* members met clockwise.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Nodes, PerNode, MaxR

RECURSIVE WalkFrom(_, _, _, _, _, _)
WalkFrom(ord, M, p, r, steps, acc) ==
    IF Len(acc) = r \/ steps = Len(ord) THEN acc
    ELSE LET n == ord[((p + steps - 1) % Len(ord)) + 1]
         IN WalkFrom(ord, M, p, r, steps + 1,
                     IF n \in M /\ \A j \in DOMAIN acc : acc[j] # n THEN Append(acc, n) ELSE acc)
Walk(ord, M, p, r) == WalkFrom(ord, M, p, r, 0, <<>>)

(* a smaller member set's walk is the universe's walk without the others *)
Prefix(w, r) == IF Len(w) > r THEN SubSeq(w, 1, r) ELSE w
Narrow(full, M, r) == Prefix(SelectSeq(full, LAMBDA x : x \in M), r)

VARIABLES ord, key, repl, members, owners, last
vars == <<ord, key, repl, members, owners, last>>

Total == PerNode * Cardinality(Nodes)
Orders == { f \in [1..Total -> Nodes] : \A n \in Nodes : Cardinality({ j \in 1..Total : f[j] = n }) = PerNode }

Init == /\ ord \in Orders /\ key \in 1..Total /\ repl \in 1..MaxR
        /\ members \in SUBSET Nodes /\ owners = Walk(ord, members, key, repl) /\ last = "init"
Join(n) == n \notin members /\ members' = members \cup {n} /\ last' = n
Leave(n) == n \in members /\ members' = members \ {n} /\ last' = n
Next == /\ \E n \in Nodes : Join(n) \/ Leave(n)
        /\ owners' = Walk(ord, members', key, repl) /\ UNCHANGED <<ord, key, repl>>
------------------------------------------------------------------------
Set(s) == { s[j] : j \in DOMAIN s }
Count == Len(owners) = IF Cardinality(members) < repl THEN Cardinality(members) ELSE repl
Distinct == Cardinality(Set(owners)) = Len(owners) /\ Set(owners) \subseteq members
WalksAgree == Narrow(Walk(ord, Nodes, key, Cardinality(Nodes)), members, repl) = Walk(ord, members, key, repl)
IsPre(a, b) == Len(a) <= Len(b) /\ \A j \in DOMAIN a : a[j] = b[j]
Without(s, n) == SelectSeq(s, LAMBDA x : x # n)
LeaveRule == [][ \A n \in Nodes : (last' = n /\ n \notin members') =>
    IsPre(Without(owners, n), owners') /\ Len(owners') <= Len(Without(owners, n)) + 1 ]_vars
JoinRule == [][ \A n \in Nodes : (last' = n /\ n \in members') =>
    (n \notin Set(owners') => owners' = owners) ]_vars
=========================================================================
