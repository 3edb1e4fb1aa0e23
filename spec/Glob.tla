-------------------------------- MODULE Glob --------------------------------
(* Key patterns: a pattern without any of * ? [ selects by prefix, any      *)
(* other is a shell pattern in the syntax of Go's path.Match.  Text is a    *)
(* sequence of code points.                                                 *)
EXTENDS Integers, Sequences

Slash == 47  Star == 42  Quest == 63  Open == 91  Close == 93  Caret == 94  Dash == 45  Back == 92
IsGlob(p) == \E i \in DOMAIN p : p[i] \in {Star, Quest, Open}
Prefix(p, k) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
Bad == [ok |-> FALSE]
Good(v, i) == [ok |-> TRUE, v |-> v, next |-> i]

(* one bound of a class range starting at p[i]                             *)
Bound(p, i) ==
    IF i > Len(p) \/ p[i] \in {Dash, Close} THEN Bad
    ELSE LET j == IF p[i] = Back THEN i + 1 ELSE i
         IN IF j >= Len(p) THEN Bad ELSE Good(p[j], j + 1)      \* a class still has to be closed
RECURSIVE Ranges(_, _, _)
Ranges(p, i, acc) ==
    IF i <= Len(p) /\ p[i] = Close /\ acc # <<>> THEN Good(acc, i + 1)
    ELSE LET lo == Bound(p, i) IN
         IF ~lo.ok THEN Bad
         ELSE IF p[lo.next] = Dash
         THEN LET hi == Bound(p, lo.next + 1) IN
              IF ~hi.ok THEN Bad ELSE Ranges(p, hi.next, Append(acc, <<lo.v, hi.v>>))
         ELSE Ranges(p, lo.next, Append(acc, <<lo.v, lo.v>>))
RECURSIVE Parse(_, _, _)
Parse(p, i, acc) ==
    IF i > Len(p) THEN Good(acc, i)
    ELSE CASE p[i] = Star -> Parse(p, i + 1, Append(acc, [t |-> "star"]))
           [] p[i] = Quest -> Parse(p, i + 1, Append(acc, [t |-> "any"]))
           [] p[i] = Back -> IF i = Len(p) THEN Bad ELSE Parse(p, i + 2, Append(acc, [t |-> "is", c |-> p[i + 1]]))
           [] p[i] = Open ->
                LET neg == i < Len(p) /\ p[i + 1] = Caret
                    r == Ranges(p, IF neg THEN i + 2 ELSE i + 1, <<>>)
                IN IF ~r.ok THEN Bad ELSE Parse(p, r.next, Append(acc, [t |-> "class", neg |-> neg, rs |-> r.v]))
           [] OTHER -> Parse(p, i + 1, Append(acc, [t |-> "is", c |-> p[i]]))

One(a, c) ==
    CASE a.t = "any" -> c # Slash
      [] a.t = "is" -> c = a.c
      [] OTHER -> (\E i \in DOMAIN a.rs : a.rs[i][1] <= c /\ c <= a.rs[i][2]) # a.neg
RECURSIVE Fits(_, _, _, _)
Fits(as, i, k, j) ==
    IF i > Len(as) THEN j > Len(k)
    ELSE IF as[i].t = "star" THEN Fits(as, i + 1, k, j) \/ (j <= Len(k) /\ k[j] # Slash /\ Fits(as, i, k, j + 1))
    ELSE j <= Len(k) /\ One(as[i], k[j]) /\ Fits(as, i + 1, k, j + 1)

Malformed(p) == IsGlob(p) /\ ~Parse(p, 1, <<>>).ok
Matches(p, k) == IF IsGlob(p) THEN Fits(Parse(p, 1, <<>>).v, 1, k, 1) ELSE Prefix(p, k)

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
=============================================================================
