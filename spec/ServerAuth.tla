------------------------------ MODULE ServerAuth ------------------------------
(* Who may do what on a server process: its client API and its management   *)
(* port, under every way an operator can configure authentication.          *)
(*   src   where credentials come from: nothing, the token variable, a      *)
(*         policy file (which wins over the token), a file without          *)
(*         identities, a missing or malformed file                          *)
(*   anon, plainbasic   what the policy file allows                         *)
(*   oidc  no issuer, one with default or custom claims, or misconfigured   *)
(*   tls   of the client API: plain, server certificate, client             *)
(*         certificates required, or misconfigured                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Rnd

Scopes == {"read", "write", "admin"}
Srcs == {"none", "token", "file", "both", "empty", "missing", "broken"}
Oidcs == {"off", "std", "custom", "noaud", "noiss", "dead"}
Tlss == {"plain", "tls", "mtls", "nokey", "nocert", "badca"}

VARIABLES su, up, held, idx, last
vars == <<su, up, held, idx, last>>
view == <<su, up, held, idx>>

HasFile(s) == s.src \in {"file", "both", "empty"}
Named(s)   == s.src \in {"file", "both"}
Bad(s) == s.src \in {"missing", "broken"} \/ s.oidc \in {"noaud", "noiss", "dead"} \/ s.tls \in {"nokey", "nocert", "badca"}
(* open to everyone: the file says so, or nothing at all is configured *)
Open(s) == (HasFile(s) /\ s.anon) \/ (s.src = "none" /\ s.oidc = "off")

FileTokens == [rd |-> {"read"}, wr |-> {"write"}, rw |-> {"read", "write"}, ad |-> {"admin"}, full |-> Scopes]
(* tokens the issuer signs; what they say under the default and the custom claims *)
Jwts == [ jwt      |-> [std |-> [id |-> "sue", sc |-> {"read"}],          custom |-> [id |-> "eve@x", sc |-> {"write", "admin"}]],
          jwtrw    |-> [std |-> [id |-> "sue", sc |-> {"read", "write"}], custom |-> [id |-> "eve@x", sc |-> {"read"}]],
          jwtswap  |-> [std |-> [id |-> "sam", sc |-> {"write"}],         custom |-> [id |-> "sam@x", sc |-> {"read"}]],
          jwtadm   |-> [std |-> [id |-> "amy", sc |-> {"admin"}],         custom |-> [id |-> "amy@x", sc |-> Scopes]],
          jwtnone  |-> [std |-> [id |-> "ned", sc |-> {}],                custom |-> [id |-> "ned@x", sc |-> {}]],
          jwtcase  |-> [std |-> [id |-> "cas", sc |-> {}],                custom |-> [id |-> "cas@x", sc |-> {}]],
          jwtaud2  |-> [std |-> [id |-> "sue", sc |-> {"read"}],          custom |-> [id |-> "eve@x", sc |-> {"write", "admin"}]],
          jwtmail  |-> [std |-> [id |-> "mia", sc |-> {"read"}],          custom |-> [id |-> "", sc |-> {}]],
          jwtnum   |-> [std |-> [id |-> "num", sc |-> {}],                custom |-> [id |-> "", sc |-> {}]] ]
Unsigned == {"jnoid", "jemptyid", "jbadsig", "jother", "jaud", "jiss", "jexp", "jnbf", "jnone", "jhs", "jcut", "jlower"}
Creds == {"none", "tok", "wrong", "lower", "user", "userbad"} \cup DOMAIN FileTokens \cup DOMAIN Jwts \cup Unsigned
Certs == {"none", "r", "w", "unknown", "foreign"}
None == [id |-> "", sc |-> {}]
Id(i, s) == [id |-> i, sc |-> s]

(* r: route; plain: the listener is not encrypted; ct: the certificate verified, if any *)
Resolve(c, ct, plain) ==
    IF Named(su) /\ c \in DOMAIN FileTokens THEN Id(c, FileTokens[c])
    ELSE IF su.src = "token" /\ c = "tok" THEN Id("default", Scopes)
    ELSE IF Named(su) /\ c = "user" /\ (~plain \/ su.plainbasic) THEN Id("user", {"read", "write"})
    ELSE IF Named(su) /\ ct = "r" THEN Id("svc-r", {"read"})
    ELSE IF Named(su) /\ ct = "w" THEN Id("svc-w", {"write"})
    ELSE IF su.oidc \in {"std", "custom"} /\ c \in DOMAIN Jwts /\ Jwts[c][su.oidc].id # "" THEN Jwts[c][su.oidc]
    ELSE IF Open(su) THEN Id("anonymous", Scopes)
    ELSE None

OpenRoutes  == {"healthz", "openapi", "mhealth"}
ReadRoutes  == {"keys", "get", "item", "head", "owners", "me", "can", "bget", "hkeys", "hme"}
WriteRoutes == {"put", "del", "bput", "bdel"}
ObsRoutes   == {"mstats", "mconfig", "mdist", "mowners", "mmembers", "mring", "mbeat", "mevents", "mhead"}
CtlRoutes   == {"mevict", "mexpire", "mclear"}
Mgmt == ObsRoutes \cup CtlRoutes \cup {"mhealth"}
Routes == OpenRoutes \cup ReadRoutes \cup WriteRoutes \cup Mgmt
Need(r) == CASE r \in OpenRoutes -> "" [] r \in ReadRoutes \cup ObsRoutes -> "read" [] r \in WriteRoutes -> "write" [] OTHER -> "admin"
Forms == {"", "slash", "upper", "dslash"}
Keys == {"a", "b"}

Status(who, need) == IF need = "" THEN "in" ELSE IF who.id = "" THEN "401" ELSE IF need \notin who.sc THEN "403" ELSE "in"
Reached(r, ct) == r \in Mgmt \/ su.tls # "mtls" \/ ct \in {"r", "w", "unknown"}

Start ==
    /\ up = FALSE /\ last.op = "init"
    /\ up' = ~Bad(su) /\ held' = {"a"}
    /\ last' = [op |-> "start", exp |-> [started |-> ~Bad(su)]]
    /\ UNCHANGED <<su, idx>>

Effect(r, k) == CASE r \in {"put", "bput"} -> held \cup {k} [] r \in {"del", "bdel"} -> held \ {k} [] r = "mclear" -> {} [] OTHER -> held
Caps(sc) == { "cache." \o s : s \in sc }
Request(r, k, c, ct, form) ==
    LET plain == r \in Mgmt \/ su.tls = "plain"
        who == Resolve(c, IF r \in Mgmt \/ su.tls # "mtls" THEN "none" ELSE ct, plain)
        st == IF ~Reached(r, ct) THEN "unreachable" ELSE Status(who, Need(r))
    IN  /\ up
        /\ form = "" \/ st # "in"      \* other spellings of a path are not a way around
        /\ held' = IF st = "in" THEN Effect(r, k) ELSE held
        /\ last' = [op |-> "req", r |-> r, k |-> k, c |-> c, ct |-> ct, form |-> form,
                    exp |-> (IF form = "" THEN [status |-> st] ELSE [leak |-> FALSE])
                            @@ [held_s |-> held']
                            @@ (IF r = "me" /\ st = "in" THEN [id |-> who.id, scopes_s |-> who.sc, caps_s |-> Caps(who.sc)] ELSE <<>>)
                            @@ (IF r = "can" /\ st = "in" THEN [allowed_s |-> Caps(who.sc)] ELSE <<>>)]
        /\ UNCHANGED <<su, up>>

Setup(s, o, t, a, p) == [src |-> s, oidc |-> o, tls |-> t, anon |-> a, plainbasic |-> p]
InitWith(s) == su = s /\ up = FALSE /\ held = {} /\ idx = 0 /\ last = [op |-> "init", su |-> s]
Good(S, G) == Pick({1, 2, 3, 4, 5, 6})    \* mostly well-formed setups in random behaviours
Init ==
    \E g \in Pick(1..6) :
    \E s \in Pick(IF g = 1 THEN Srcs ELSE Srcs \ {"missing", "broken"}),
       o \in Pick(IF g = 2 THEN Oidcs ELSE {"off", "std", "custom"}),
       t \in Pick(IF g = 3 THEN Tlss ELSE {"plain", "tls", "mtls"}), a \in Pick(BOOLEAN), p \in Pick(BOOLEAN) : InitWith(Setup(s, o, t, a, p))
Next ==
    /\ idx' = idx
    /\ \/ Start
       \/ \E r \in Pick(Routes), k \in Pick(Keys), c \in Pick(Creds), ct \in Pick(Certs), f \in Pick(Forms) : Request(r, k, c, ct, f)
       \/ \E r \in Pick(Routes \ OpenRoutes), k \in Pick(Keys), c \in Pick(Creds), ct \in Pick({"r", "w", "unknown"}) : Request(r, k, c, ct, "")
       \/ \E r \in Pick(WriteRoutes \cup CtlRoutes), k \in Pick(Keys), c \in Pick(Creds), ct \in Pick({"r", "w", "unknown"}) : Request(r, k, c, ct, "")
       \/ \E r \in Pick({"me", "can", "put", "del"}), k \in Pick(Keys), c \in Pick(Creds), ct \in Pick({"r", "w", "unknown"}) : Request(r, k, c, ct, "")

(* every route with every credential, one after the other *)
TableSetups == { Setup(s, o, t, a, FALSE) : s \in Srcs, o \in Oidcs, t \in {"plain"}, a \in BOOLEAN }
Sensible(s) == (~HasFile(s) => ~s.anon) /\ (s.anon => s.src = "file")
TableInit == \E s \in TableSetups : ~Bad(s) /\ Sensible(s) /\ InitWith(s)
Table == SetToSeq({ <<r, c>> : r \in Routes \ {"mevents"}, c \in Creds })
TableNext == \/ Start /\ idx' = idx
             \/ /\ idx' = idx + 1 /\ idx < Len(Table)
                /\ Request(Table[idx + 1][1], "b", Table[idx + 1][2], "none", "")
BadInit == \E s \in Srcs, o \in Oidcs, t \in Tlss : Bad(Setup(s, o, t, FALSE, FALSE)) /\ Cardinality({x \in {1, 2, 3} :
              (x = 1 /\ s \in {"missing", "broken"}) \/ (x = 2 /\ o \in {"noaud", "noiss", "dead"}) \/ (x = 3 /\ t \in {"nokey", "nocert", "badca"})}) = 1
              /\ (s \in {"none", "token", "missing", "broken"}) /\ InitWith(Setup(s, o, t, FALSE, FALSE))

------------------------------------------------------------------------
SmallInit == \E s \in Srcs, o \in Oidcs, t \in {"plain", "mtls", "nokey"}, a \in BOOLEAN, p \in BOOLEAN : InitWith(Setup(s, o, t, a, p))
SmallNext == /\ idx' = idx
             /\ Start \/ \E r \in Routes, c \in Creds, ct \in Certs, f \in {"", "slash"} : Request(r, "b", c, ct, f)
R == last'.op = "req" /\ last'.form = ""
In == R /\ last'.exp.status = "in"
(* nothing runs beyond the open routes unless someone with the scope asked *)
NoEntry == [][ (In /\ last'.r \notin OpenRoutes /\ ~Open(su)) =>
                 (last'.c \in {"tok", "user"} \cup DOMAIN FileTokens \cup DOMAIN Jwts \/ (su.tls = "mtls" /\ last'.ct \in {"r", "w"})) ]_vars
NoEffect == [][ held' # held => (last'.op = "start" \/ (In /\ last'.r \in WriteRoutes \cup CtlRoutes)) ]_vars
ReadersOnlyRead == [][ (In /\ last'.c = "rd" /\ ~Open(su)) => last'.r \in OpenRoutes \cup ReadRoutes \cup ObsRoutes ]_vars
ControlIsAdmin == [][ (In /\ last'.r \in CtlRoutes /\ ~Open(su)) => last'.c \in {"tok", "ad", "full", "jwt", "jwtadm", "jwtaud2"} ]_vars
OpenOnlyWhenBare == [][ (In /\ last'.c = "none" /\ last'.ct = "none" /\ last'.r \notin OpenRoutes) =>
                         (HasFile(su) /\ su.anon) \/ (su.src = "none" /\ su.oidc = "off") ]_vars
Refuses == up => ~Bad(su)
=============================================================================
