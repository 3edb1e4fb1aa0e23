---------------------------- MODULE TraceLib ----------------------------
(* Shared plumbing of the trace-validation modules.  A run validates many  *)
(* recorded traces at once: variable tid selects the trace, i counts its   *)
(* accepted events, and register tid keeps the furthest point reached.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, SequencesExt, FiniteSetsExt

Traces == ndJsonDeserialize(IOEnv.TRACES)
NTraces == Len(Traces)
ASSUME \A t \in 1..NTraces : TLCSet(t, 0)

Reach(t, k) == TLCSet(t, IF TLCGet(t) < k THEN k ELSE TLCGet(t))
Rejected == { t \in 1..NTraces : TLCGet(t) < Len(Traces[t]) }
TraceAccepted ==
    CSVWrite("%1$s", << ToJson([k \in 1..Cardinality(Rejected) |->
        << SetToSortSeq(Rejected, <)[k], TLCGet(SetToSortSeq(Rejected, <)[k]) >>]) >>, IOEnv.RESULT)

Has(r, f) == f \in DOMAIN r
SeqSet(s) == { s[k] : k \in DOMAIN s }
=========================================================================
