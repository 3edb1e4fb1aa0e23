------------------------------ MODULE PeerAuth ------------------------------
(* Who may use a node's peer routes.  A node's policy: a shared token, a    *)
(* verifier of its own, a signer of its own, and leave to be open inbound.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd
CONSTANTS Ops

Policies == [token : {"", "tok", "other"}, verify : {"", "v1", "v2"}, sign : {"", "v1", "v2", "bearer"}, open : BOOLEAN]
Inbound(p) == p.token # "" \/ p.verify # ""
Refused(p) == p.sign # "" /\ ~Inbound(p) /\ ~p.open

(* credentials a request may carry *)
Creds == {"none", "tok", "other", "lower", "noscheme", "basic", "longer", "shorter", "empty", "twice", "v1", "v2"}
(* what a node's own requests carry *)
Carries(p) == CASE p.sign = "bearer" -> "tok"
                [] p.sign # "" -> p.sign
                [] p.token # "" -> p.token
                [] OTHER -> "none"
Accepts(p, c) == IF p.verify # "" THEN c = p.verify ELSE IF p.token # "" THEN c = p.token ELSE TRUE

Keys == {"a", "b"}
Writes == {"set", "set2"}  Deletes == {"del", "del2"}
Others == {"get", "get2", "health", "probe", "merkle", "keys", "head", "slash", "upper"}

VARIABLES p, made, held, known, draining, last
vars == <<p, made, held, known, draining, last>>
view == <<p, made, held, known, draining>>
Init ==
    /\ \E t \in Pick({"", "tok", "other"}), v \in Pick({"", "v1", "v2"}), s \in Pick({"", "v1", "v2", "bearer"}), o \in Pick(BOOLEAN) :
        /\ p = [token |-> t, verify |-> v, sign |-> s, open |-> o]
        /\ last = [op |-> "init", p |-> p]
    /\ made = FALSE /\ held = {"a"} /\ known = {} /\ draining = FALSE
On(o) == o \in Ops
Obs == [held_s |-> held', known_s |-> known', draining |-> draining']
Make == ~made /\ made' = ~Refused(p) /\ last' = [op |-> "make", exp |-> [err |-> Refused(p)]] /\ UNCHANGED <<p, held, known, draining>>
Request(r, k, c) ==
    LET in == Accepts(p, c) IN
    /\ made
    /\ held' = IF in /\ r \in Writes THEN held \cup {k} ELSE IF in /\ r \in Deletes THEN held \ {k} ELSE held
    /\ known' = IF in /\ r = "gossip" THEN known \cup {k} ELSE known
    /\ draining' = (draining \/ (in /\ r = "drain"))
    /\ last' = [op |-> "req", r |-> r, k |-> k, c |-> c, exp |-> [refused |-> ~in] @@ Obs]
    /\ UNCHANGED <<p, made>>
(* a peer of policy q uses this node *)
Peer(q, r, k) ==
    /\ made /\ ~Refused(q)
    /\ LET in == Accepts(p, Carries(q)) IN
        /\ held' = IF in /\ r = "set" THEN held \cup {k} ELSE IF in /\ r = "del" THEN held \ {k} ELSE held
        /\ known' = IF in /\ r = "gossip" THEN known \cup {k} ELSE known
        /\ UNCHANGED draining
        /\ last' = [op |-> "peer", q |-> q, r |-> r, k |-> k, exp |-> [ok |-> in] @@ Obs]
    /\ UNCHANGED <<p, made>>
Routes == Writes \cup Deletes \cup Others \cup {"gossip"}
Next ==
    \/ Make
    \/ \E r \in Pick(Routes), k \in Pick(Keys), c \in Pick(Creds) : Request(r, k, c)
    \/ \E r \in Pick(Routes), k \in Pick(Keys), c \in Pick(Creds \cap {p.token, p.verify, "none"}) : Request(r, k, c)
    \/ \E c \in Pick(Creds) : Request("drain", "a", c)
    \/ \E r \in Pick({"set", "del", "gossip", "get", "health", "relay", "merkle", "keys"}), k \in Pick(Keys),
          t \in Pick({"", "tok", "other"}), v \in Pick({"", "v1", "v2"}), s \in Pick({"", "v1", "v2", "bearer"}) :
            On("peer") /\ Peer([token |-> t, verify |-> v, sign |-> s, open |-> TRUE], r, k)
(* every policy once with every route and credential *)
TableNext == Make \/ \E r \in Routes \cup {"drain"}, c \in Creds : Request(r, "b", c)

------------------------------------------------------------------------
(* no effect without credentials a configured policy accepts *)
NoEntry == [][ (last'.op = "req" /\ Inbound(p) /\ ~Accepts(p, last'.c)) => last'.exp.refused /\ UNCHANGED <<held, known, draining>> ]_vars
Guarded == [][ (last'.op = "req" /\ last'.c = "none" /\ Inbound(p)) => last'.exp.refused ]_vars
NeverHalf == made => (p.sign # "" => Inbound(p) \/ p.open)
(* nodes of the same symmetric policy understand each other *)
Symmetric == [][ (last'.op = "peer" /\ last'.q.token = p.token /\ p.verify = "" /\ last'.q.sign = "" /\ last'.q.verify = "") => last'.exp.ok ]_vars
=============================================================================
