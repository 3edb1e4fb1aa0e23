--------------------------- MODULE Membership ---------------------------
(* Cluster membership (internal/cluster): member records, the membership   *)
(* version, the ring's member set and the observers.  One action per       *)
(* critical section of the implementation (each public operation is one).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd

CONSTANTS Nodes, MaxInc, MaxObs, MaxVer

Alive == "alive"   Suspect == "suspect"   Dead == "dead"
States == {Alive, Suspect, Dead}
None == [state |-> "none", inc |-> 0]

VARIABLES mem,    \* Nodes -> record or None
          ver,    \* membership version
          ring,   \* members the ring is built from
          nobs,   \* registered observers
          last    \* the step just taken, with its expected observation
vars == <<mem, ver, ring, nobs, last>>
view == <<mem, ver, ring, nobs>>

Present(m) == { n \in Nodes : m[n] # None }
InRing(m)  == { n \in Present(m) : m[n].state # Dead }
Listed(m)  == { [id |-> n, state |-> m[n].state, inc |-> m[n].inc] : n \in Present(m) }

Events(k, n, s, v) == [j \in 1..k |-> [obs |-> j, id |-> n, state |-> s, ver |-> v]]

Exp(ret, m, v, ev) == [ret |-> ret, nodes_s |-> Listed(m), ver |-> v, ring_s |-> InRing(m), events |-> ev]

(* an effective change: new member map, one version step, every observer told *)
Effect(m, n, s, op, args) ==
    /\ mem' = m /\ ver' = ver + 1 /\ ring' = InRing(m) /\ UNCHANGED nobs
    /\ last' = [op |-> op, exp |-> Exp(TRUE, m, ver + 1, Events(nobs, n, s, ver + 1))] @@ args

NoEffect(op, ret, args) ==
    /\ UNCHANGED <<mem, ver, ring, nobs>>
    /\ last' = [op |-> op, exp |-> Exp(ret, mem, ver, <<>>)] @@ args

Upsert(n, s, i) ==
    Effect([mem EXCEPT ![n] = [state |-> s, inc |-> i]], n, s, "upsert", [id |-> n, state |-> s, inc |-> i])

Remove(n) ==
    IF mem[n] = None THEN NoEffect("remove", FALSE, [id |-> n])
    ELSE Effect([mem EXCEPT ![n] = None], n, Dead, "remove", [id |-> n])

Mark(n, s) ==
    IF mem[n] = None THEN NoEffect("mark", FALSE, [id |-> n, state |-> s])
    ELSE IF mem[n].state = s THEN NoEffect("mark", TRUE, [id |-> n, state |-> s])
    ELSE Effect([mem EXCEPT ![n] = [state |-> s, inc |-> @.inc + 1]], n, s, "mark", [id |-> n, state |-> s])

Refute(n) ==
    IF mem[n] = None THEN NoEffect("refute", FALSE, [id |-> n])
    ELSE Effect([mem EXCEPT ![n] = [state |-> Alive, inc |-> @.inc + 1]], n, Alive, "refute", [id |-> n])

Observe ==
    /\ nobs < MaxObs
    /\ nobs' = nobs + 1 /\ UNCHANGED <<mem, ver, ring>>
    /\ last' = [op |-> "observe", exp |-> Exp(TRUE, mem, ver, <<>>)]

(* a caller scribbles over the records List returned: nothing changes *)
Scribble == Present(mem) # {} /\ NoEffect("scribble", TRUE, <<>>)

Init ==
    /\ mem = [n \in Nodes |-> None] /\ ver = 0 /\ ring = {} /\ nobs = 0
    /\ last = [op |-> "init"]

Next ==
    \/ \E n \in Pick(Nodes), s \in Pick(States), i \in Pick(1..MaxInc) : Upsert(n, s, i)
    \/ \E n \in Pick(Nodes) : Remove(n)
    \/ \E n \in Pick(Nodes), s \in Pick(States) : Mark(n, s)
    \/ \E n \in Pick(Nodes) : Refute(n)
    \/ Observe
    \/ Scribble

Bound == ver <= MaxVer
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------
RingMatches == ring = { n \in Nodes : mem[n] # None /\ mem[n].state # Dead }          \* C02
VerMonotone == [][ver' = ver \/ ver' = ver + 1]_vars                                   \* C03
NoPhantom == [][(mem' = mem /\ last'.op # "upsert") \/ ver' = ver + 1]_vars             \* C03
EventPerChange == [][ (ver' = ver => last'.exp.events = <<>>)
                   /\ (ver' # ver => Len(last'.exp.events) = nobs) ]_vars               \* C04
IncGrows == [][ \A n \in Nodes :
    (mem[n] # None /\ mem'[n] # None /\ last'.op # "upsert") => mem'[n].inc >= mem[n].inc ]_vars
=========================================================================
