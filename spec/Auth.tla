------------------------------- MODULE Auth -------------------------------
(* Request authentication and authorisation (pkg/httpauth/policy.go).  A   *)
(* behaviour is one policy and a series of requests.  Secrets, names and   *)
(* headers are symbolic: a request presents some credential (x) in some    *)
(* written form (form); only the exact form is the credential.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd

CONSTANTS Toks, Users, CNs, BearerForms, BasicForms, Junk, Transports, CertForms

Scopes == {"read", "write", "admin"}
Needs  == Scopes \cup {"any"}
Verifies == {"none", "accept", "reject"}
None == "none"

VARIABLES pol, last
vars == <<pol, last>>
view == pol

Ids == Toks \cup Users \cup CNs \cup {"ext"}
Policies == [ toks : SUBSET Toks, users : SUBSET Users, cns : SUBSET CNs,
              sc : [Ids -> SUBSET Scopes], verify : Verifies, anon : BOOLEAN, plainbasic : BOOLEAN ]

(* authorization headers *)
Auths == {[k |-> "none", x |-> "", form |-> ""]}
    \cup { [k |-> "bearer", x |-> t, form |-> f] : t \in Toks, f \in BearerForms }
    \cup { [k |-> "basic", x |-> u, form |-> f] : u \in Users, f \in BasicForms }
    \cup { [k |-> "junk", x |-> j, form |-> ""] : j \in Junk }
(* client certificates: who the leaf names, and how (form) *)
Certs == {[cn |-> None, form |-> ""]} \cup { [cn |-> n, form |-> f] : n \in CNs, f \in CertForms }

Encrypted(tr) == tr # "plain"
ByBearer(a)    == a.k = "bearer" /\ a.form = "exact" /\ a.x \in pol.toks
ByBasic(a, tr) == a.k = "basic" /\ a.form = "exact" /\ a.x \in pol.users /\ (pol.plainbasic \/ Encrypted(tr))
(* "tls": client certificates are verified against the server's roots;     *)
(* "tlsany": certificates are accepted unverified                          *)
ByCert(c, tr)  == tr = "tls" /\ c.cn # None /\ c.form \in {"exact", "viaca"} /\ c.cn \in pol.cns

Resolve(a, c, tr) ==
    IF ByBearer(a) THEN a.x
    ELSE IF ByBasic(a, tr) THEN a.x
    ELSE IF ByCert(c, tr) THEN c.cn
    ELSE IF pol.verify = "accept" THEN "ext"
    ELSE IF pol.anon THEN "anonymous" ELSE None

ScopesOf(id) == IF id = "anonymous" THEN Scopes ELSE pol.sc[id]
Cap(s) == "cache." \o s

Outcome(a, c, tr, need) ==
    LET id == Resolve(a, c, tr) IN
    IF id = None THEN [status |-> 401, ran |-> FALSE, id |-> "", scopes_s |-> {}, caps_s |-> {}]
    ELSE IF need # "any" /\ need \notin ScopesOf(id)
         THEN [status |-> 403, ran |-> FALSE, id |-> "", scopes_s |-> {}, caps_s |-> {}]
    ELSE [status |-> 200, ran |-> TRUE, id |-> id, scopes_s |-> ScopesOf(id), caps_s |-> { Cap(s) : s \in ScopesOf(id) }]

CertsFor(tr) == IF tr = "plain" THEN { c \in Certs : c.cn = None }
                ELSE IF tr = "tls" THEN { c \in Certs : c.form # "untrusted" } ELSE Certs

Request(a, c, tr, need) ==
    /\ UNCHANGED pol
    /\ last' = [op |-> "request", auth |-> a, cert |-> c, transport |-> tr, need |-> need, exp |-> Outcome(a, c, tr, need)]

Pol(tk, us, cn, v, an, pb, sc) == [toks |-> tk, users |-> us, cns |-> cn, verify |-> v, anon |-> an, plainbasic |-> pb, sc |-> sc]
(* the operator installs another policy *)
SetPolicy == \E tk \in Pick(SUBSET Toks), us \in Pick(SUBSET Users), cn \in Pick(SUBSET CNs),
             v \in Pick(Verifies), an \in Pick(BOOLEAN), pb \in Pick(BOOLEAN) :
             /\ pol' = Pol(tk, us, cn, v, an, pb, TLCEval([i \in Ids |-> CHOOSE s \in Pick(SUBSET Scopes) : TRUE]))
             /\ last' = [op |-> "policy", pol |-> pol', exp |-> [installed |-> TRUE]]

Init == /\ pol = Pol({}, {}, {}, "none", FALSE, FALSE, [i \in Ids |-> {}])
        /\ last = [op |-> "init", pol |-> pol]
Requests == \E tr \in Pick(Transports), n \in Pick(Needs), a \in Pick(Auths) : \E c \in Pick(CertsFor(tr)) : Request(a, c, tr, n)
Next == Requests
(* simulation: a new policy every few requests *)
NextSim == \E k \in Pick(1..5) : IF k = 1 \/ last.op = "init" THEN SetPolicy ELSE Requests

(* small exhaustive instance: scopes fixed per identity *)
FixedSc == [i \in Ids |-> IF i \in Toks THEN {"read"} ELSE IF i \in Users THEN {"write"} ELSE IF i \in CNs THEN {"admin"} ELSE {"read", "admin"}]
InitSmall == /\ \E tk \in SUBSET Toks, us \in SUBSET Users, cn \in SUBSET CNs, v \in Verifies, an \in BOOLEAN, pb \in BOOLEAN :
                  pol = [toks |-> tk, users |-> us, cns |-> cn, verify |-> v, anon |-> an, plainbasic |-> pb, sc |-> FixedSc]
             /\ last = [op |-> "init", pol |-> pol]
------------------------------------------------------------------------
e == last.exp
Req == last.op = "request"
(* A01 *)
NoCredNoEntry == (Req /\ e.ran /\ ~pol.anon /\ pol.verify # "accept") =>
    last.auth.form = "exact" \/ last.cert.form \in {"exact", "viaca"}
RanIffOk == Req => (e.ran <=> e.status = 200)
ScopeHeld == (Req /\ e.ran /\ last.need # "any") => last.need \in e.scopes_s
OnlyKnown == (Req /\ e.ran) => e.id \in pol.toks \cup pol.users \cup pol.cns \cup {"ext", "anonymous"}
(* A02 *)
PlainBasic == (Req /\ e.ran /\ e.id \in Users) => (pol.plainbasic \/ last.transport # "plain")
CertProven == (Req /\ e.ran /\ e.id \in CNs) => last.transport = "tls"
A_NoCredNoEntry == [][NoCredNoEntry']_vars
A_RanIffOk == [][RanIffOk']_vars
A_ScopeHeld == [][ScopeHeld']_vars
A_OnlyKnown == [][OnlyKnown']_vars
A_PlainBasic == [][PlainBasic']_vars
A_CertProven == [][CertProven']_vars
=========================================================================
