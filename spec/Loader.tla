------------------------------ MODULE Loader ------------------------------
(* Loading a policy from the environment (pkg/httpauth/loader.go) and      *)
(* validating one (Policy.Validate).  The file's content is symbolic.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rnd

CONSTANTS MaxEntries

VARIABLES last
view == last.op
vars == <<last>>
Good == {"read", "write", "admin"}
ScopeLists == { <<>>, <<"read">>, <<"read", "write">>, <<"admin">>, <<"write", "admin", "read">>,
                <<"Read">>, <<"read", "root">>, <<"">>, <<"read ">> }
GoodList(s) == s # <<>> /\ \A k \in DOMAIN s : s[k] \in Good
Fill == {"ok", "empty"}

(* entries: which of their fields are filled, and their scopes *)
TokEntries  == [id : Fill, secret : Fill, sc : ScopeLists]
UserEntries == [id : Fill, name : Fill, hash : {"ok", "empty", "nothash"}, sc : ScopeLists]
CertEntries == [cn : Fill, sc : ScopeLists]
Seqs(S) == UNION { [1..n -> S] : n \in 0..MaxEntries }

TokOK(e)  == e.id = "ok" /\ e.secret = "ok"
UserOK(e) == e.id = "ok" /\ e.name = "ok" /\ e.hash = "ok"
CertOK(e) == e.cn = "ok"
ToksOK(d)  == \A k \in DOMAIN d.toks : TokOK(d.toks[k])
UsersOK(d) == \A k \in DOMAIN d.users : UserOK(d.users[k])
CertsOK(d) == \A k \in DOMAIN d.certs : CertOK(d.certs[k])
Listed(q) == \A k \in DOMAIN q : GoodList(q[k].sc)

(* what is wrong with the file as a whole *)
Defects == {"none", "missing", "directory", "empty", "malformed", "topfield", "entryfield", "wrongtype", "dupkey"}

DocOK(d) ==
    /\ d.defect = "none"
    /\ ToksOK(d) /\ UsersOK(d) /\ CertsOK(d)
    /\ Listed(d.toks) /\ Listed(d.users) /\ Listed(d.certs)

(* the scopes in q, listed once each in a fixed order *)
Has(q, x) == \E k \in DOMAIN q : q[k] = x
Set(q) == (IF Has(q, "admin") THEN <<"admin">> ELSE <<>>) \o (IF Has(q, "read") THEN <<"read">> ELSE <<>>)
          \o (IF Has(q, "write") THEN <<"write">> ELSE <<>>)
(* identity j of a list carries the number j in its names and secrets *)
Grants(d) ==
    [ toks |-> [j \in DOMAIN d.toks |-> Set(d.toks[j].sc)],
      users |-> [j \in DOMAIN d.users |-> Set(d.users[j].sc)],
      certs |-> [j \in DOMAIN d.certs |-> Set(d.certs[j].sc)],
      anon |-> d.anon, plain |-> d.plain,
      configured |-> d.toks # <<>> \/ d.users # <<>> \/ d.certs # <<>> ]
Nothing == [toks |-> <<>>, users |-> <<>>, certs |-> <<>>, anon |-> FALSE, plain |-> FALSE, configured |-> FALSE]
Legacy  == [toks |-> <<Set(<<"read", "write", "admin">>)>>, users |-> <<>>, certs |-> <<>>, anon |-> FALSE, plain |-> FALSE, configured |-> TRUE]

Doc(t, u, c, a, p, f) == [toks |-> t, users |-> u, certs |-> c, anon |-> a, plain |-> p, defect |-> f]
Load(d, envfile, envtok) ==
    last' = [op |-> "load", doc |-> d, envfile |-> envfile, envtok |-> envtok,
             exp |-> IF envfile THEN IF DocOK(d) THEN [err |-> FALSE, leak |-> FALSE, pol |-> Grants(d)]
                                     ELSE [err |-> TRUE, leak |-> FALSE, pol |-> Nothing]
                     ELSE IF envtok THEN [err |-> FALSE, leak |-> FALSE, pol |-> Legacy]
                     ELSE [err |-> FALSE, leak |-> FALSE, pol |-> Nothing]]
(* a policy built in code: scopes are the builder's business *)
Validate(d) ==
    last' = [op |-> "validate", doc |-> d,
             exp |-> [err |-> ~(ToksOK(d) /\ UsersOK(d) /\ CertsOK(d)), leak |-> FALSE]]

Init == last = [op |-> "init"]
(* mostly right documents with few mistakes, so that each mistake decides on its own *)
OkTok  == [id |-> "ok", secret |-> "ok", sc |-> <<"read", "write">>]
OkUser == [id |-> "ok", name |-> "ok", hash |-> "ok", sc |-> <<"admin">>]
OkCert == [cn |-> "ok", sc |-> <<"read">>]
(* exhaustive: one entry of one list varies fully among good neighbours *)
NextSmall ==
    \/ \E e \in TokEntries, k \in 1..2, a \in BOOLEAN :
          LET ents == [<<OkTok, OkTok>> EXCEPT ![k] = e] IN
          \/ Load(Doc(ents, <<>>, <<OkCert>>, a, FALSE, "none"), TRUE, a)
          \/ Validate(Doc(ents, <<OkUser>>, <<>>, a, FALSE, "none"))
    \/ \E e \in UserEntries, k \in 1..2, a \in BOOLEAN :
          LET ents == [<<OkUser, OkUser>> EXCEPT ![k] = e] IN
          \/ Load(Doc(<<OkTok>>, ents, <<>>, FALSE, a, "none"), TRUE, FALSE)
          \/ Validate(Doc(<<>>, ents, <<OkCert>>, FALSE, FALSE, "none"))
    \/ \E e \in CertEntries, k \in 1..2 :
          LET ents == [<<OkCert, OkCert>> EXCEPT ![k] = e] IN
          \/ Load(Doc(<<>>, <<>>, ents, FALSE, FALSE, "none"), TRUE, TRUE)
          \/ Validate(Doc(<<OkTok>>, <<>>, ents, FALSE, FALSE, "none"))
    \/ \E f \in Defects, ef \in BOOLEAN, et \in BOOLEAN, a \in BOOLEAN, p \in BOOLEAN, n \in 0..1 :
          Load(Doc([j \in 1..n |-> OkTok], [j \in 1..n |-> OkUser], [j \in 1..n |-> OkCert], a, p, f), ef, et)
Next ==
    \E nt \in Pick(0..MaxEntries), nu \in Pick(0..MaxEntries), nc \in Pick(0..MaxEntries), a \in Pick(BOOLEAN), p \in Pick(BOOLEAN),
       ef \in Pick({TRUE, FALSE}), et \in Pick(BOOLEAN), f \in Pick(1..12), v \in Pick(1..4) :
       LET One(S) == CHOOSE x \in Pick(S) : TRUE
           d == TLCEval(Doc([j \in 1..nt |-> IF One(1..5) > 1 THEN [OkTok EXCEPT !.sc = One(ScopeLists)] ELSE One(TokEntries)],
                    [j \in 1..nu |-> IF One(1..5) > 1 THEN OkUser ELSE One(UserEntries)],
                    [j \in 1..nc |-> IF One(1..5) > 1 THEN OkCert ELSE One(CertEntries)], a, p,
                    IF f > 2 THEN "none" ELSE One(Defects)))
       IN IF v = 1 THEN Validate(d) ELSE Load(d, ef, et)
------------------------------------------------------------------------
FailClosed == (last.op = "load" /\ last.exp.err) => last.exp.pol = Nothing
AnonOnlyIfWritten == (last.op = "load" /\ last.exp.pol.anon) => last.envfile /\ last.doc.anon
NoInvention == (last.op = "load" /\ last.envfile /\ ~last.exp.err) =>
    \A k \in DOMAIN last.exp.pol.toks : last.exp.pol.toks[k] # <<>> /\ \A j \in DOMAIN last.exp.pol.toks[k] : last.exp.pol.toks[k][j] \in Good
A_FailClosed == [][FailClosed']_vars
A_AnonOnlyIfWritten == [][AnonOnlyIfWritten']_vars
A_NoInvention == [][NoInvention']_vars
=========================================================================
