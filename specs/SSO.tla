-------------------------------- MODULE SSO --------------------------------
(* What the single sign-on policy of a backend does with every request: who is let through to the
   backend or to a protected local endpoint, and what the others get.

   Three identity providers: p1 and p2 share a cookie domain and a login host, p3 has its own.
   Backends a and b use p1, c uses p2, d (served from local files) uses p3 and e (also local
   files) uses p1. The policy of each backend is chosen in the initial state. *)
EXTENDS Naturals, Sequences, FiniteSets, Randomization, TLC, Json

CONSTANTS Mod, Rem,      \* sampling of configurations
          MaxTok,        \* tokens in a behaviour
          Wide           \* how many of the request variants to take

VARIABLES pi, now, toks, jt, act, out
vars == <<pi, now, toks, jt, act, out>>

Hosts == {"a", "b", "c", "d", "e"}
Prov(h) == CASE h = "c" -> "p2" [] h = "d" -> "p3" [] OTHER -> "p1"
Local(h) == h \in {"d", "e"}
Users == {"alice@example.com", "bob@example.com", "eve@example.com.evil.org", "mallory"}

\* Policies -----------------------------------------------------------------------------------
PathSets == << <<>>, <<"/secret">>, <<"/ws", "/secret/">> >>
ACLs == << <<"nil">>, <<>>, <<"alice@example.com">>, <<"@example.com">>, <<"alice", "@evil.org", "example.com", "bob@example.com">> >>
NPol == 120
Pol(i) == [paths |-> PathSets[(i % 3) + 1], acl |-> ACLs[((i \div 3) % 5) + 1], reauth |-> ((i \div 15) % 2) = 1,
           gen |-> ((i \div 30) % 2) = 1, uid |-> (i \div 60) = 1]
Policy(i, h) == Pol(CASE h = "a" -> i [] h = "b" -> (i * 7 + 31) % NPol [] h = "c" -> (i * 11 + 47) % NPol
                      [] h = "d" -> (i * 13 + 71) % NPol [] OTHER -> (i * 17 + 97) % NPol)
P(h) == Policy(pi, h)

\* Request targets: as sent, and the path they mean --------------------------------------------
T(raw, dec, clean) == [raw |-> raw, dec |-> dec, clean |-> clean]
Targets == <<
  T("/", "/", "/"), T("/secret", "/secret", "/secret"), T("/secret/x", "/secret/x", "/secret/x"),
  T("/secretx", "/secretx", "/secretx"), T("/public", "/public", "/public"), T("/SECRET", "/SECRET", "/SECRET"),
  T("//secret/x", "//secret/x", "/secret/x"), T("/./secret/x", "/./secret/x", "/secret/x"),
  T("/public/../secret/x", "/public/../secret/x", "/secret/x"), T("/public/%2e%2e/secret/x", "/public/../secret/x", "/secret/x"),
  T("/%73ecret/x", "/secret/x", "/secret/x"), T("/secret%2fx", "/secret/x", "/secret/x"),
  T("/secret/../public", "/secret/../public", "/public"), T("/secret/x?a=/public", "/secret/x", "/secret/x"),
  T("/public;/secret/x", "/public;/secret/x", "/public;/secret/x"), T("/public?/secret/", "/public", "/public"),
  T("/ws", "/ws", "/ws"), T("/ws/", "/ws/", "/ws/"), T("//ws", "//ws", "/ws"), T("/%77s", "/ws", "/ws"), T("/x/../ws", "/x/../ws", "/ws"),
  T("/.sso/", "/.sso/", "/.sso/"), T("/.sso", "/.sso", "/.sso"), T("/.sso/style.css", "/.sso/style.css", "/.sso/style.css"),
  T("/.sso/../secret/x", "/.sso/../secret/x", "/secret/x"), T("/secret/../.sso/", "/secret/../.sso/", "/.sso/"),
  T("/.sso/nothing", "/.sso/nothing", "/.sso/nothing"), T("/.sso/style.css/", "/.sso/style.css/", "/.sso/style.css/") >>

Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Covered(pol, t) == pol.paths = <<>> \/ \E i \in 1..Len(pol.paths): Prefix(pol.paths[i], t.dec) \/ Prefix(pol.paths[i], t.clean)

Domain(u) == CASE u = "alice@example.com" -> "@example.com" [] u = "bob@example.com" -> "@example.com"
               [] u = "eve@example.com.evil.org" -> "@example.com.evil.org" [] OTHER -> "@"
Admits(pol, u) == \/ pol.acl = <<"nil">>
                  \/ \E i \in 1..Len(pol.acl): pol.acl[i] \in {u, Domain(u)}

\* Credentials: ck, the login cookie; bk, a bearer token; ik, an ID token cookie. m: how they are altered.
\* A host header is the host of a backend, with a port or not.
HH(h, p) == [h |-> h, port |-> p]
NoTok == [kind |-> "none", user |-> "-", lid |-> 0, host |-> "-", hh |-> HH("-", FALSE), prov |-> "-", iat |-> 0, exp |-> 0]
Tok(k) == IF k = 0 THEN NoTok ELSE toks[k]
Live(k) == k # 0 /\ now < toks[k].exp

\* The login that a request carries: what is known of its user.
Bearer(h, hh, bk, m) == /\ Live(bk) /\ m # "tamper" /\ toks[bk].kind = "idt" /\ toks[bk].host = hh.h /\ hh.h = h
LoginCookie(h, ck, m) == /\ Live(ck) /\ m # "tamper" /\ toks[ck].kind = "auth" /\ toks[ck].prov = Prov(h)
IDCookie(hh, ck, ik) == /\ Live(ik) /\ toks[ik].kind = "idt" /\ toks[ik].host = hh.h /\ toks[ik].lid = toks[ck].lid

Endpoint(h, c) == CASE c \in {"/.sso/", "/.sso/style.css"} -> "open"
                    [] c = "/ws" /\ h \in {"a", "e"} -> "closed"
                    [] OTHER -> "none"

Outcome(h, hh, t, meth, ck, bk, ik, m, skip) ==
  LET pol == P(h)
      viaBearer == Bearer(h, hh, bk, m)
      viaCookie == ~viaBearer /\ LoginCookie(h, ck, m)
      known == viaBearer \/ viaCookie
      tk == IF viaBearer THEN Tok(bk) ELSE Tok(ck)
      user == tk.user
      \* ForceReAuth: one hour
      fresh == ~pol.reauth \/ (tk.kind = "auth" /\ tk.hh = hh /\ now <= tk.iat + 60)
      ep0 == Endpoint(h, t.clean)
      \* the websocket endpoint belongs to its host name, the others to the backend
      ep == IF t.clean = "/ws" /\ hh.h # h THEN "none" ELSE ep0
      policy == IF ~Covered(pol, t) THEN "pass"
                ELSE IF ~known \/ ~fresh THEN IF meth # "GET" THEN "need" ELSE IF skip THEN "login302" ELSE "login"
                ELSE IF ~Admits(pol, user) THEN "denied" ELSE "pass"
      R(k) == [k |-> k, u |-> IF known /\ k \in {"backend", "status", "denied"} THEN user ELSE "-"]
  IN IF viaCookie /\ pol.gen /\ hh.h = h /\ ~IDCookie(hh, ck, ik) THEN R("idt")
     ELSE IF ep # "none"
          THEN IF ep = "closed" /\ policy # "pass" THEN R(policy)
               ELSE IF t.clean # t.dec THEN R("clean")
               ELSE IF t.clean = "/.sso/" THEN R("status") ELSE IF ep = "open" THEN R("open") ELSE R("ws")
     ELSE IF policy # "pass" THEN R(policy)
     ELSE IF t.clean = "/.sso" THEN R("slash")
     ELSE IF Local(h) THEN R("site")
     ELSE IF hh.h # h THEN R("misdirected")
     ELSE [R("backend") EXCEPT !.u = IF known /\ pol.uid THEN user ELSE "-"]

Some(n, S) == IF Wide = 0 THEN S ELSE RandomSubset(IF n < Cardinality(S) THEN n ELSE Cardinality(S), S)

\* The request variants taken in an exhaustive enumeration.
Narrow(h, hh, t, meth, ck, bk, m, skip) ==
  /\ (ck = 0 \/ bk = 0)
  /\ m \in {"-", "tamper"}
  /\ (skip => t = 3) /\ (meth = "HEAD" => t = 3)
  /\ (m = "tamper" => t = 3 /\ hh.h = h /\ ~hh.port)
  /\ IF Len(toks) > 0 /\ ck + bk = 0 THEN FALSE
     ELSE IF Len(toks) = 0 \/ (Len(toks) = 1 /\ now = 0 /\ toks[1].user = "alice@example.com" /\ ~toks[1].hh.port) THEN (hh.h # h => t \in {3, 5, 17, 22})
     ELSE t \in {3, 5} /\ meth = "GET" /\ ~skip

Request ==
  \E h \in Some(2, {x \in Hosts: jt \in BOOLEAN}), t \in Some(2, {x \in 1..Len(Targets): jt \in BOOLEAN}),
     meth \in Some(1, {x \in {"GET", "POST", "HEAD"}: jt \in BOOLEAN}),
     skip \in Some(1, {x \in BOOLEAN: jt \in BOOLEAN}), m \in Some(1, {x \in {"-", "-b", "-c", "tamper"}: jt \in BOOLEAN}):
  \E hh \in Some(2, {x \in {HH(h, FALSE), HH(h, TRUE)} \cup (IF Wide = 0 THEN {HH("b", FALSE), HH("e", FALSE)} ELSE {HH(o, p): o \in Hosts, p \in BOOLEAN}): jt \in BOOLEAN}),
     ck \in Some(2, 0..Len(toks)), bk \in Some(2, 0..Len(toks)), ik \in Some(2, {0} \cup {k \in 1..Len(toks): toks[k].kind = "idt"}):
    /\ (ik # 0 => ck # 0)
    /\ (skip => meth = "GET")
    /\ (m \in {"tamper"} => ck + bk > 0)
    /\ IF Wide = 0 THEN Narrow(h, hh, t, meth, ck, bk, m, skip) ELSE TRUE
    /\ act' = [op |-> "req", h |-> h, hh |-> hh.h, port |-> hh.port, t |-> Targets[t].raw, tc |-> Targets[t].clean, meth |-> meth, ck |-> ck, bk |-> bk, ik |-> ik, m |-> m, skip |-> skip]
    /\ LET r == Outcome(h, hh, Targets[t], meth, ck, bk, ik, m, skip) IN
       /\ out' = r
       /\ toks' = IF r.k = "idt" /\ Len(toks) < MaxTok
                  THEN Append(toks, [kind |-> "idt", user |-> toks[ck].user, lid |-> toks[ck].lid, host |-> h, hh |-> HH("-", FALSE),
                                     prov |-> toks[ck].prov, iat |-> now, exp |-> toks[ck].exp])
                  ELSE toks
    /\ UNCHANGED now

\* A user logs in, having begun with a request to host h (with a port, or not).
Login == \E h \in Hosts, port \in Some(1, {x \in BOOLEAN: jt \in BOOLEAN}), u \in Some(2, {x \in Users: jt \in BOOLEAN}):
    /\ Len(toks) < MaxTok
    /\ (Wide = 0 => u = "alice@example.com" \/ ~port)
    /\ act' = [op |-> "login", h |-> h, port |-> port, u |-> u]
    /\ out' = [k |-> "none"]
    /\ toks' = Append(toks, [kind |-> "auth", user |-> u, lid |-> Len(toks) + 1, host |-> "-", hh |-> HH(h, port), prov |-> Prov(h), iat |-> now, exp |-> now + 1200])
    /\ UNCHANGED now

Tick == \E d \in {50, 1140}:
    /\ now + d <= 1300 /\ toks # <<>>
    /\ (Wide = 0 => now + d \in {50, 100, 1190, 1240})
    /\ now' = now + d
    /\ act' = [op |-> "tick", d |-> d] /\ out' = [k |-> "none"]
    /\ UNCHANGED toks

Init == /\ pi \in {i \in 0..(NPol - 1): i % Mod = Rem}
        /\ now = 0 /\ toks = <<>> /\ jt = FALSE
        /\ act = [op |-> "init"]
        /\ out = [pol |-> [h \in Hosts |-> Policy(pi, h)]]

Next == /\ (Request \/ Login \/ Tick)
        /\ UNCHANGED pi
        /\ jt' = (act'.op = "tick")

-----------------------------------------------------------------------------
Protected(h, t) == Covered(P(h), t)
Tgt(raw) == CHOOSE i \in 1..Len(Targets): Targets[i].raw = raw
\* A request for a covered path reaches the backend, the site or a protected endpoint only with an
\* unexpired credential of an admitted user, for this provider or this very host.
OnlyAuthorized == [][ (act'.op = "req" /\ out'.k \in {"backend", "site", "ws", "misdirected"} /\ Protected(act'.h, Targets[Tgt(act'.t)])) =>
     \E k \in {act'.ck, act'.bk} \ {0}:
        /\ now < toks[k].exp
        /\ Admits(P(act'.h), toks[k].user)
        /\ \/ k = act'.ck /\ toks[k].kind = "auth" /\ toks[k].prov = Prov(act'.h)
           \/ k = act'.bk /\ toks[k].kind = "idt" /\ toks[k].host = act'.h /\ act'.hh = act'.h
        /\ (P(act'.h).reauth => toks[k].iat + 60 >= now /\ toks[k].hh.h = act'.hh) ]_vars
\* The identity given to a backend is that of a credential in the request.
TrueIdentity == [][ (act'.op = "req" /\ out'.k = "backend" /\ out'.u # "-") => \E k \in {act'.ck, act'.bk} \ {0}: toks[k].user = out'.u /\ now < toks[k].exp ]_vars

View == [pi |-> pi, now |-> now, toks |-> toks, jt |-> jt, pol |-> IF act.op = "init" THEN out.pol ELSE <<>>]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
