------------------------------ MODULE Cookies ------------------------------
(* Login cookies and ID tokens, property P11.                                 *)
(*                                                                            *)
(* Several identity providers (cookie managers) share the signing keys. A     *)
(* browser with a real cookie jar logs in, visits hosts, logs out; and every  *)
(* token that was ever made can be presented anywhere, in every role.         *)
(* One tick is 7 hours: tokens live for 20 hours (they are valid at age 2),   *)
(* cookies for 24 hours (they are kept at age 3).                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxTok, CMs, Hosts, Muts

(* The cookie managers: A and B are providers with the same issuer and domain, C is on another domain, *)
(* and D has the name of A but another issuer.                                                         *)
Prov(c) == CASE c = "A" -> "p1" [] c = "B" -> "p2" [] c = "C" -> "p3" [] c = "D" -> "p1"
Dom(c) == CASE c \in {"A", "B", "D"} -> "com" [] c = "C" -> "org"
Iss(c) == CASE c \in {"A", "B"} -> "login.com" [] c = "C" -> "login.org" [] c = "D" -> "login2.com"
(* The hosts: login.com is also an issuer, idn.com has an international name, org's are in the other domain. *)
HostDom(h) == IF h \in {"www.com", "login.com", "idn.com"} THEN "com" ELSE "org"
Doms == {"com", "org"}

VARIABLES toks, auth, id, act, out
vars == <<toks, auth, id, act, out>>
\* toks: sequence of [kind, c, u, s, h, age]; auth: domain -> token of the login cookie in the jar (0: none);
\* id: host -> token of the ID token cookie in the jar

Life == 2
CookieLife == 3
Users == {"u1", "u2"}

Init == /\ toks = <<>> /\ auth = [d \in Doms |-> 0] /\ id = [h \in Hosts |-> 0]
        /\ act = [op |-> "init"] /\ out = [res |-> "none"]

(* x: the extra claims that come with the login *)
Login(c, u, s, h, x) ==
  /\ Len(toks) < MaxTok
  /\ toks' = Append(toks, [kind |-> "auth", c |-> c, u |-> u, s |-> s, h |-> h, age |-> 0, cage |-> 0])
  /\ auth' = [auth EXCEPT ![Dom(c)] = Len(toks) + 1]
  /\ act' = [op |-> "login", c |-> c, u |-> u, s |-> s, h |-> h, x |-> x]
  /\ out' = [res |-> "ok", k |-> Len(toks) + 1]
  /\ UNCHANGED id

AsAuth(c, k) == LET t == toks[k] IN /\ t.kind = "auth" /\ Iss(t.c) = Iss(c) /\ Prov(t.c) = Prov(c) /\ t.age <= Life
AsBearer(c, h, k) == LET t == toks[k] IN /\ t.kind = "id" /\ Iss(t.c) = Iss(c) /\ t.h = h /\ t.age <= Life
AsID(c, h, k, a) == LET t == toks[k] IN /\ Iss(t.c) = Iss(c) /\ t.h = h /\ t.age <= Life
                                        /\ t.u = toks[a].u /\ t.s = toks[a].s

(* A request to host h of a backend that uses c: is the user logged in, and is the ID token refreshed? *)
Visit(c, h) ==
  LET a == auth[HostDom(h)]
      in == a # 0 /\ AsAuth(c, a)
      keep == in /\ id[h] # 0 /\ AsID(c, h, id[h], a)
  IN
  /\ act' = [op |-> "visit", c |-> c, h |-> h]
  /\ IF in /\ ~keep
     THEN /\ Len(toks) < MaxTok
          /\ toks' = Append(toks, [toks[a] EXCEPT !.kind = "id", !.h = h, !.cage = 0])
          /\ id' = [id EXCEPT ![h] = Len(toks) + 1]
          /\ out' = [res |-> "renew", k |-> Len(toks) + 1, from |-> a]
     ELSE /\ out' = [res |-> IF in THEN "in" ELSE "out"]
          /\ UNCHANGED <<toks, id>>
  /\ UNCHANGED auth

Logout(c, h) ==
  /\ auth' = [auth EXCEPT ![Dom(c)] = IF HostDom(h) = Dom(c) THEN 0 ELSE @]
  /\ id' = [id EXCEPT ![h] = 0]
  /\ act' = [op |-> "logout", c |-> c, h |-> h] /\ out' = [res |-> "none"]
  /\ UNCHANGED toks

(* Token k is presented to c on host h in a role it may not be meant for; mut says which claim was changed    *)
(* (the token was then signed again with the proxy's key).                                                   *)
AuthMuts == {"none", "iss", "aud", "proxyauth", "noproxyauth", "provider", "noprovider", "nosub", "emptysub", "expired"}
BearerMuts == {"none", "iss", "aud", "proxyauth", "expired", "basic", "short"}

Present(c, h, k, as, m) ==
  /\ act' = [op |-> "present", c |-> c, h |-> h, k |-> k, as |-> as, m |-> m]
  /\ out' = [res |-> IF m = "none" /\ (IF as = "auth" THEN AsAuth(c, k) ELSE AsBearer(c, h, k)) THEN "ok" ELSE "no"]
  /\ UNCHANGED <<toks, auth, id>>

PresentID(c, h, k, a) ==
  /\ toks[k].kind = "id" /\ toks[a].kind = "auth"
  /\ act' = [op |-> "presentid", c |-> c, h |-> h, k |-> k, a |-> a]
  /\ out' = [res |-> IF AsID(c, h, k, a) THEN "ok" ELSE "no"]
  /\ UNCHANGED <<toks, auth, id>>

Tick ==
  /\ \E k \in 1..Len(toks): toks[k].cage < 4
  /\ toks' = [k \in 1..Len(toks) |-> [toks[k] EXCEPT !.age = IF @ < 4 THEN @ + 1 ELSE @, !.cage = IF @ < 4 THEN @ + 1 ELSE @]]
  /\ auth' = [d \in Doms |-> IF auth[d] # 0 /\ toks'[auth[d]].cage > CookieLife THEN 0 ELSE auth[d]]
  /\ id' = [h \in Hosts |-> IF id[h] # 0 /\ toks'[id[h]].cage > CookieLife THEN 0 ELSE id[h]]
  /\ act' = [op |-> "tick"] /\ out' = [res |-> "none"]

Next ==
  \/ \E c \in CMs, u \in Users, s \in {"s1", "s2"}, h \in Hosts, x \in {"plain", "evil"}:
       (u = "u1" \/ s = "s1") /\ (toks = <<>> => u = "u1" /\ s = "s1") /\ HostDom(h) = Dom(c) /\ Login(c, u, s, h, x)
  \/ \E c \in CMs, h \in Hosts: Visit(c, h) \/ Logout(c, h)
  \/ \E c \in CMs, h \in Hosts, k \in 1..Len(toks):
       \/ \E m \in AuthMuts \cap Muts: (m # "none" => toks[k].kind = "auth") /\ (toks[k].kind = "auth" => h = toks[k].h) /\ Present(c, h, k, "auth", m)
       \/ \E m \in BearerMuts \cap Muts: (m # "none" => toks[k].kind = "id") /\ Present(c, h, k, "bearer", m)
       \/ \E a \in 1..Len(toks): PresentID(c, h, k, a)
  \/ Tick

-----------------------------------------------------------------------------
\* The ID token cookie of a host is for that host, and the login cookie of a domain was set for that domain.
InPlace == /\ \A h \in Hosts: id[h] # 0 => toks[id[h]].kind = "id" /\ toks[id[h]].h = h
           /\ \A d \in Doms: auth[d] # 0 => toks[auth[d]].kind = "auth" /\ Dom(toks[auth[d]].c) = d
\* An ID token is never a login, and never good for another host.
Roles == [][ (act'.op = "present" /\ out'.res = "ok") =>
               IF act'.as = "auth" THEN toks[act'.k].kind = "auth" /\ Prov(toks[act'.k].c) = Prov(act'.c)
               ELSE toks[act'.k].kind = "id" /\ toks[act'.k].h = act'.h ]_vars
\* An ID token carries the user and session of the login, and dies with it.
Derived == [][ out'.res = "renew" => LET n == toks'[out'.k] o == toks[out'.from] IN
                 n.u = o.u /\ n.s = o.s /\ n.c = o.c /\ n.age = o.age ]_vars

View == [toks |-> toks, auth |-> auth, id |-> id, jt |-> act.op = "tick"]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
