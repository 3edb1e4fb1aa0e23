------------------------------- MODULE Pool -------------------------------
(* The worker pool (pool.go).  alive workers = size + extra, where extra   *)
(* counts the quit tokens of earlier shrinks not yet taken by a worker.    *)
(* Starting a queued job and taking a quit token are the pool's own steps; *)
(* everything else is a call of the user or a job finishing.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd

CONSTANTS Sizes, MaxJobs
VARIABLES n0,       \* initial size: also the room for queued jobs, quit tokens and unread errors
          tok,      \* the most tokens that may still wait to be taken (calls that could block on them are left out)
          size, extra, queue, running, done, refused, state, errs, next, last
vars == <<n0, tok, size, extra, queue, running, done, refused, state, errs, next, last>>
view == <<n0, tok, size, extra, queue, running, done, refused, state, errs, next>>
pool == <<n0, tok, size, extra, queue, running, done, refused, state, errs, next>>

Rng(s) == { s[j] : j \in DOMAIN s }
Min(a, b) == IF a < b THEN a ELSE b
Pending == Len(queue) + Cardinality(running)
Rest == Cardinality(running) >= Min(Pending, size)      \* no worker that should work is idle
Tok == IF Pending = 0 THEN 0 ELSE tok
Ret == state # "open" /\ Pending = 0                     \* Shutdown has returned

(* what the pool does by itself *)
Start == /\ queue # <<>> /\ Cardinality(running) < size + extra
         /\ running' = running \cup {Head(queue)} /\ queue' = Tail(queue)
         /\ UNCHANGED <<n0, tok, size, extra, done, refused, state, errs, next>>
Quit == /\ extra > 0 /\ Cardinality(running) < size + extra
        /\ extra' = extra - 1
        /\ UNCHANGED <<n0, tok, size, queue, running, done, refused, state, errs, next>>
(* what is done to it *)
Enq(j) == /\ IF state = "open" THEN queue' = Append(queue, j) /\ UNCHANGED refused
             ELSE refused' = refused \cup {j} /\ UNCHANGED queue
          /\ next' = next + 1
          /\ UNCHANGED <<n0, tok, size, extra, running, done, state, errs>>
Fin(j, e) == /\ j \in running /\ running' = running \ {j} /\ done' = done \cup {j}
             /\ errs' = IF e /\ Cardinality(errs) < n0 THEN errs \cup {j} ELSE errs
             /\ UNCHANGED <<n0, tok, size, extra, queue, refused, state, next>>
Resize(n) == /\ IF state # "open" THEN UNCHANGED <<size, extra, tok>>
                ELSE /\ size' = n
                     /\ tok' = IF n < size THEN Tok + size - n ELSE tok
                     /\ extra' = IF n < size THEN extra + size - n ELSE extra
             /\ UNCHANGED <<n0, queue, running, done, refused, state, errs, next>>
Shut == /\ state' = "shut"
        /\ UNCHANGED <<n0, tok, size, extra, queue, running, done, refused, errs, next>>
Errs == /\ errs' = {}
        /\ UNCHANGED <<n0, tok, size, extra, queue, running, done, refused, state, next>>

Exp == [nerr |-> Cardinality(errs'), low |-> Min(Pending', size'), ret |-> Ret']
Init == /\ n0 \in Sizes /\ size = n0 /\ extra = 0 /\ tok = 0 /\ queue = <<>> /\ running = {} /\ done = {} /\ refused = {}
        /\ state = "open" /\ errs = {} /\ next = 1 /\ last = [op |-> "init", n |-> n0]
Own == (Start \/ Quit) /\ last' = [op |-> "own"]
Call == \/ /\ next <= MaxJobs /\ (state # "open" \/ Pending - Min(Pending, size) < n0) /\ Enq(next)
           /\ last' = [op |-> "enq", j |-> next, exp |-> Exp]
        \/ \E j \in Pick(IF running = {} THEN {0} ELSE running), e \in Pick(BOOLEAN) : Fin(j, e) /\ last' = [op |-> "fin", j |-> j, e |-> e, exp |-> Exp]
        \/ \E n \in Pick(Sizes) : Tok + size - n <= n0 /\ extra + size - n <= n0 /\ Resize(n) /\ last' = [op |-> "resize", n |-> n, exp |-> Exp]
        \/ \E r \in Pick(1..6) : r = 1 /\ Shut /\ last' = [op |-> "shut", exp |-> Exp]
        \/ Errs /\ last' = [op |-> "errs", exp |-> Exp]
Next == \/ ~Rest /\ Own
        \/ Rest /\ (Call \/ Own)
Spec == Init /\ [][Next]_vars /\ WF_vars(Start /\ last' = [op |-> "own"])
            /\ WF_vars(\E j \in running : Fin(j, FALSE) /\ last' = [op |-> "fin"])
------------------------------------------------------------------------
TypeOK == size \in Sizes /\ extra >= 0 /\ Cardinality(errs) <= n0
OnceEach == /\ Rng(queue) \cap running = {} /\ Rng(queue) \cap done = {} /\ running \cap done = {}
            /\ Cardinality(Rng(queue)) = Len(queue)
            /\ Rng(queue) \cup running \cup done \cup refused = 1..(next - 1)         \* no job lost
            /\ refused \cap (running \cup done \cup Rng(queue)) = {}
Limit == Cardinality(running) <= size + extra
Closing == Ret => queue = <<>> /\ running = {}
A_Closed == [][state # "open" => state' = state /\ Len(queue') <= Len(queue)]_vars
L_Ends == (state = "shut") ~> Ret
=========================================================================
