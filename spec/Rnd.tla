------------------------------ MODULE Rnd ------------------------------
(* Pick(S) is S.  The check's random-simulation configurations replace it *)
(* by PickOne, so that TLC draws arguments instead of enumerating them.   *)
EXTENDS Randomization, FiniteSets
Pick(S) == S
PickOne(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
=========================================================================
