----------------------------- MODULE OIDCServer -----------------------------
(* The local OpenID Connect provider: authorization codes, ID tokens and     *)
(* access tokens (property P15).                                             *)
(*                                                                           *)
(* One action per endpoint request, plus Tick. A code carries the user,      *)
(* client, redirect URI, nonce and scopes it was issued for; it is consumed  *)
(* by the first exchange that authenticates as some registered client. One   *)
(* tick is 50 seconds: codes and access tokens live for 120 seconds, so they *)
(* are usable at age 2 and gone at age 3.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCodes,    \* how many codes may be issued in a behaviour
          MaxAge,      \* ages are capped here (> Lifetime)
          GoodReqs     \* "few" or "all": the well-formed authorization requests that are explored

Lifetime == 2          \* in ticks

Users   == {"alice", "bob"}
Clients == {"c1", "c2"}
\* c1 and c2 have a redirect URI of their own and share r1b; "evil" is registered with nobody.
Redirects(c) == CASE c = "c1" -> {"r1a", "r1b"} [] c = "c2" -> {"r2", "r1b"} [] OTHER -> {}

VARIABLES codes,  \* sequence of issued codes, in order of issue
          act,    \* the last request
          out     \* its outcome
vars == <<codes, act, out>>

Code == [user: Users, client: Clients, ruri: {"r1a", "r1b", "r2"}, scope: {"openid", "all"}, nonce: BOOLEAN,
         age: 0..MaxAge, code: {"live", "used"}, tok: {"hidden", "live", "used"}]

TypeOK == codes \in Seq(Code) /\ Len(codes) <= MaxCodes

Init == codes = <<>> /\ act = [op |-> "init"] /\ out = [res |-> "none"]

Err == [res |-> "error"]

(* GET/POST /authorization. u = "none": nobody is logged in. *)
Authorize(u, c, r, rt, sc, nc, m) ==
  LET ok == u \in Users /\ rt = "code" /\ c \in Clients /\ r \in Redirects(c) IN
  /\ act' = [op |-> "authorize", user |-> u, client |-> c, ruri |-> r, rtype |-> rt, scope |-> sc, nonce |-> nc, method |-> m]
  /\ IF ok
     THEN /\ Len(codes) < MaxCodes
          /\ codes' = Append(codes, [user |-> u, client |-> c, ruri |-> r, scope |-> sc, nonce |-> nc,
                                     age |-> 0, code |-> "live", tok |-> "hidden"])
          /\ out' = [res |-> "code", n |-> Len(codes) + 1]
     ELSE /\ UNCHANGED codes
          /\ out' = Err

Fresh(k) == k \in 1..Len(codes) /\ codes[k].age <= Lifetime

(* POST /token. k = 0 stands for a code that was never issued. *)
Exchange(k, c, secretOK, r, m, g) ==
  LET wellFormed == m = "POST" /\ g = "authorization_code"
      authd == wellFormed /\ c \in Clients /\ secretOK /\ r \in Redirects(c)
      hit == authd /\ Fresh(k) /\ codes[k].code = "live"
      ok == hit /\ codes[k].client = c /\ codes[k].ruri = r
  IN
  /\ act' = [op |-> "exchange", k |-> k, client |-> c, secret |-> secretOK, ruri |-> r, method |-> m, grant |-> g]
  /\ codes' = IF hit
              THEN [codes EXCEPT ![k].code = "used", ![k].tok = IF ok THEN "live" ELSE "hidden"]
              ELSE codes
  /\ out' = IF ok
            THEN [res |-> "tokens", n |-> k, user |-> codes[k].user, aud |-> c, nonce |-> codes[k].nonce,
                  scope |-> codes[k].scope]
            ELSE Err

(* GET/POST /userinfo. k = 0 stands for a made-up token. *)
UserInfo(k, m, scheme) ==
  LET shaped == m \in {"GET", "POST"} /\ scheme = "bearer"
      known == shaped /\ Fresh(k) /\ codes[k].tok = "live" IN
  /\ act' = [op |-> "userinfo", k |-> k, method |-> m, scheme |-> scheme]
  /\ k # 0 => k \in 1..Len(codes) /\ codes[k].tok # "hidden"  \* nobody has seen the other tokens
  /\ codes' = IF known THEN [codes EXCEPT ![k].tok = "used"] ELSE codes
  /\ out' = IF known
            THEN [res |-> "info", n |-> k, user |-> codes[k].user, scope |-> codes[k].scope]
            ELSE Err

Tick ==
  /\ \E k \in 1..Len(codes): codes[k].age < MaxAge
  /\ codes' = [k \in 1..Len(codes) |-> [codes[k] EXCEPT !.age = IF @ < MaxAge THEN @ + 1 ELSE @]]
  /\ act' = [op |-> "tick"]
  /\ out' = [res |-> "none"]

(* The requests that are explored: a good one and everything one or two mistakes away from it. *)
AuthReqs ==
  IF GoodReqs = "few"
  THEN {[u |-> "alice", c |-> "c1", r |-> "r1a", rt |-> "code", sc |-> "all", nc |-> TRUE, m |-> "GET"],
        [u |-> "bob", c |-> "c2", r |-> "r2", rt |-> "code", sc |-> "openid", nc |-> FALSE, m |-> "GET"],
        [u |-> "alice", c |-> "c1", r |-> "r1b", rt |-> "code", sc |-> "openid", nc |-> TRUE, m |-> "GET"]}
  ELSE {[u |-> u, c |-> c, r |-> r, rt |-> "code", sc |-> sc, nc |-> nc, m |-> m]:
      u \in Users, c \in Clients, r \in {"r1a", "r1b", "r2"}, sc \in {"openid", "all"}, nc \in BOOLEAN, m \in {"GET"}}

BadReqs ==
  {[u |-> "none", c |-> "c1", r |-> "r1a", rt |-> "code", sc |-> "all", nc |-> TRUE, m |-> m]: m \in {"GET", "POST"}}
  \cup {[u |-> "alice", c |-> c, r |-> r, rt |-> rt, sc |-> "all", nc |-> TRUE, m |-> m]:
      c \in {"c1", "c2", "unknown", ""}, r \in {"r1a", "r2", "evil", "r1a/x", ""}, rt \in {"code", "token", ""}, m \in {"GET", "POST"}}

ExchangeReqs ==
  {[c |-> c, s |-> s, r |-> r, m |-> "POST", g |-> "authorization_code"]:
      c \in {"c1", "c2", "unknown"}, s \in BOOLEAN, r \in {"r1a", "r1b", "r2", "evil"}}
  \cup {[c |-> "c1", s |-> TRUE, r |-> "r1a", m |-> m, g |-> g]:
      m \in {"GET", "POST", "PUT"}, g \in {"authorization_code", "refresh_token", ""}}

Next ==
  \/ \E q \in AuthReqs \cup {b \in BadReqs: GoodReqs = "all" /\ ~(b.u \in Users /\ b.rt = "code" /\ b.c \in Clients /\ b.r \in Redirects(b.c))}: Authorize(q.u, q.c, q.r, q.rt, q.sc, q.nc, q.m)
  \/ \E k \in 0..Len(codes), q \in ExchangeReqs: Exchange(k, q.c, q.s, q.r, q.m, q.g)
  \/ \E k \in 0..Len(codes), m \in {"GET", "POST", "PUT"}, s \in {"bearer", "basic", "none"}: UserInfo(k, m, s)
  \/ Tick

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)

\* Tokens are handed out only for a live, fresh code, to the client and redirect URI it was issued for.
ExchangeSound ==
  [][ out'.res = "tokens" =>
        LET k == act'.k IN
        /\ codes[k].code = "live" /\ codes[k].age <= Lifetime
        /\ act'.client = codes[k].client /\ act'.secret /\ act'.ruri = codes[k].ruri
        /\ out'.user = codes[k].user ]_vars

\* A code is exchanged at most once and a used code never comes back.
SingleUse ==
  [][ \A k \in 1..Len(codes): /\ codes[k].code = "used" => codes'[k].code = "used"
                              /\ codes[k].tok = "used" => codes'[k].tok = "used"
                              /\ codes[k].user = codes'[k].user /\ codes[k].client = codes'[k].client ]_vars

\* User information is returned only once per exchanged code.
InfoSound ==
  [][ out'.res = "info" => codes[act'.k].tok = "live" /\ codes'[act'.k].tok = "used" /\ codes[act'.k].age <= Lifetime ]_vars

\* Codes exist only for logged in users and registered redirect URIs.
CodesSound == \A k \in 1..Len(codes): codes[k].ruri \in Redirects(codes[k].client) /\ codes[k].user \in Users

TokOnlyAfterExchange == \A k \in 1..Len(codes): codes[k].tok # "hidden" => codes[k].code = "used"

-----------------------------------------------------------------------------
View == [codes |-> codes, jt |-> act.op = "tick"]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
