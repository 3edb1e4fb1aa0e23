------------------------------ MODULE Stats ------------------------------
(* The histogram statistics collector (pkg/stats): per statistic, exact    *)
(* lifetime aggregates and the window of the latest Cap samples.  Values   *)
(* are multiples of a unit 2^unit, so the same behaviours exercise small   *)
(* and near-overflow magnitudes.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd

CONSTANTS Names, Cap, Vals, Units, MaxCount   \* Vals are offset by 4 (TLC configurations have no negative numbers)
VARIABLES cnt, sum, mn, mx, win, unit, last
vars == <<cnt, sum, mn, mx, win, unit, last>>
view == <<cnt, sum, mn, mx, win>>

Sorted(w) == SortSeq(w, LAMBDA a, b : a < b)
RECURSIVE Add(_)
Add(w) == IF w = <<>> THEN 0 ELSE Head(w) + Add(Tail(w))
RECURSIVE Squares(_)
Squares(w) == IF w = <<>> THEN 0 ELSE Head(w) * Head(w) + Squares(Tail(w))

Med2(w) == LET n == Len(w) IN
    IF n = 0 THEN 0 ELSE IF n % 2 = 1 THEN 2 * w[(n \div 2) + 1] ELSE w[n \div 2] + w[(n \div 2) + 1]
(* percentile num/den of a sorted window *)
Pct(w, num, den) == LET n == Len(w) IN
    IF n = 0 THEN 0 ELSE IF num <= 0 THEN w[1] ELSE IF num >= den THEN w[n]
    ELSE LET k == (n * num) \div den IN w[(IF k >= n THEN n - 1 ELSE k) + 1]
Pcts == << <<-1, 1>>, <<0, 1>>, <<1, 8>>, <<1, 4>>, <<1, 2>>, <<3, 4>>, <<7, 8>>, <<15, 16>>, <<1, 1>>, <<3, 2>> >>
(* population variance of the window, as numerator over Len^2 *)
VarNum(w) == Len(w) * Squares(w) - Add(w) * Add(w)

Life(n) == [s |-> n, count |-> cnt[n], sum |-> sum[n], min |-> mn[n], max |-> mx[n]]
Window(n) == LET w == Sorted(win[n]) IN
    [s |-> n, values |-> w, med2 |-> Med2(w), varnum |-> VarNum(w),
     pcts |-> [k \in DOMAIN Pcts |-> Pct(w, Pcts[k][1], Pcts[k][2])]]
Exp == [life_s |-> { Life(n) : n \in { x \in Names : cnt[x] > 0 } },
        win_s  |-> { Window(n) : n \in Names }]

Rec(n, v, how) ==
    LET x == IF how = "decr" THEN -v ELSE v IN
    /\ cnt' = [cnt EXCEPT ![n] = @ + 1] /\ sum' = [sum EXCEPT ![n] = @ + x]
    /\ mn' = [mn EXCEPT ![n] = IF cnt[n] = 0 \/ x < @ THEN x ELSE @]
    /\ mx' = [mx EXCEPT ![n] = IF cnt[n] = 0 \/ x > @ THEN x ELSE @]
    /\ win' = [win EXCEPT ![n] = IF Len(@) < Cap THEN Append(@, x) ELSE Append(Tail(@), x)]
    /\ UNCHANGED unit
    /\ last' = [op |-> "rec", how |-> how, s |-> n, v |-> v, exp |-> Exp']

Init == /\ cnt = [n \in Names |-> 0] /\ sum = [n \in Names |-> 0] /\ mn = [n \in Names |-> 0]
        /\ mx = [n \in Names |-> 0] /\ win = [n \in Names |-> <<>>] /\ unit \in Units
        /\ last = [op |-> "init", unit |-> unit, cap |-> Cap]
Next == \E n \in Pick(Names), v \in { x - 4 : x \in Pick(Vals) }, how \in Pick({"incr", "decr", "timing", "gauge", "histogram"}) :
           (how = "decr" => v > -4) /\ Rec(n, v, how)
Bound == \A n \in Names : cnt[n] <= MaxCount
------------------------------------------------------------------------
Consistent == \A n \in Names : cnt[n] > 0 =>
    /\ mn[n] <= mx[n] /\ mn[n] * cnt[n] <= sum[n] /\ sum[n] <= mx[n] * cnt[n]          \* S01
    /\ Len(win[n]) = IF cnt[n] < Cap THEN cnt[n] ELSE Cap
    /\ \A k \in DOMAIN win[n] : win[n][k] \in mn[n]..mx[n]                             \* S02
PctMonotone == \A n \in Names : LET p == Window(n).pcts IN
    \A a, b \in DOMAIN p : a < b => p[a] <= p[b]                                       \* S02
VarNonNeg == \A n \in Names : Window(n).varnum >= 0
Isolated == [][ \A n \in Names : last'.s # n => UNCHANGED <<cnt[n], sum[n], mn[n], mx[n], win[n]>> ]_vars
=========================================================================
