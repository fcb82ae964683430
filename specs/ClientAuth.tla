----------------------------- MODULE ClientAuth -----------------------------
(* TLS client authentication: which clients a backend with a client certificate policy serves.

   The configuration is one or two backends, each with its own policy (or none), and is chosen in the
   initial state. Clients connect over TLS 1.2, TLS 1.3 or QUIC with one of many certificates, or resume a session that
   they established earlier with any of the backends. Certificates of the proxy's own PKI get
   revoked, others expire or become valid as time passes. *)
EXTENDS Selection, TLC, Json

CONSTANTS Mod, Rem

VARIABLES cfg, revoked, late, sess, act, out
vars == <<cfg, revoked, late, sess, act, out>>

-----------------------------------------------------------------------------
(* Certificates *)
Names == [alice |-> {"CN=alice", "SUBJECT:CN=alice", "DNS:alice.test", "EMAIL:alice@x.test", "URI:spiffe://x.test/alice"},
          bob   |-> {"CN=bob", "SUBJECT:CN=bob", "DNS:bob.test", "EMAIL:bob@x.test", "URI:spiffe://x.test/bob"},
          \* alice's names, but each in another place
          swap  |-> {"CN=alice@x.test", "SUBJECT:CN=alice@x.test", "DNS:spiffe.alice", "EMAIL:alice.test@y.test", "URI:dns://alice.test"},
          \* names that contain alice's
          sub   |-> {"CN=alice,O=Evil", "SUBJECT:CN=alice,O=Evil", "DNS:sub.alice.test", "DNS:alice.test.evil.test", "EMAIL:xalice@x.test",
                     "EMAIL:ALICE@x.test", "URI:spiffe://x.test/alice/sub"},
          \* alice's names in second place
          multi |-> {"CN=zed", "SUBJECT:CN=zed", "DNS:zed.test", "DNS:alice.test", "EMAIL:zed@x.test", "EMAIL:alice@x.test",
                     "URI:spiffe://x.test/zed", "URI:spiffe://x.test/alice"},
          nosub |-> {"DNS:nosub.test"},
          pkialice |-> {"CN=alice@x.test", "SUBJECT:CN=alice@x.test", "EMAIL:alice@x.test"},
          pkibob   |-> {"CN=bob@x.test", "SUBJECT:CN=bob@x.test", "EMAIL:bob@x.test"}]

\* root: who signed it; when: "now", "early" (until the clock moves), "late" (from then on), "never";
\* bad: it proves nothing; ocsp: what its OCSP responder or staple says.
C(root, id) == [root |-> root, id |-> id, when |-> "now", bad |-> FALSE, ocsp |-> "-"]
Certs == [alice   |-> C("ca1", "alice"), bob |-> C("ca1", "bob"), swap |-> C("ca1", "swap"), sub |-> C("ca1", "sub"),
          multi   |-> C("ca1", "multi"), nosub |-> C("ca1", "nosub"),
          short   |-> [C("ca1", "alice") EXCEPT !.when = "early"],
          future  |-> [C("ca1", "alice") EXCEPT !.when = "late"],
          expired |-> [C("ca1", "alice") EXCEPT !.when = "never"],
          srveku  |-> [C("ca1", "alice") EXCEPT !.bad = TRUE],
          wrongkey |-> [C("ca1", "alice") EXCEPT !.bad = TRUE],
          selfsigned |-> C("self", "alice"), fakeca |-> C("fake", "alice"), otherca |-> C("ca2", "alice"), sys |-> C("sys", "alice"),
          sysbob  |-> C("sys", "bob"),
          inter   |-> C("ca1", "alice"),
          internc |-> [C("ca1", "alice") EXCEPT !.bad = TRUE],
          notca   |-> [C("ca1", "alice") EXCEPT !.bad = TRUE],     \* signed by bob's certificate
          ocspgood |-> [C("ca1", "alice") EXCEPT !.ocsp = "good"],
          ocsprev  |-> [C("ca1", "alice") EXCEPT !.ocsp = "revoked"],
          ocspunk  |-> [C("ca1", "alice") EXCEPT !.ocsp = "unknown"],
          ocspdown |-> [C("ca1", "alice") EXCEPT !.ocsp = "down"],
          pkialice |-> C("pki", "pkialice"), pkibob |-> C("pki", "pkibob"), pki2alice |-> C("pki2", "pkialice")]

ACLs == << <<"nil">>, <<>>, <<"CN=alice">>, <<"SUBJECT:CN=alice">>, <<"DNS:alice.test">>, <<"EMAIL:alice@x.test">>,
           <<"URI:spiffe://x.test/alice">>, <<"alice.test", "alice@x.test", "alice", "spiffe://x.test/alice">>, <<"", "SUBJECT:", "DNS:", "EMAIL:", "URI:">>,
           <<"EMAIL:bob@x.test", "CN=alice">>, <<"EMAIL:alice@x.test", "CN=alice@x.test">>, <<"nil">> >>
Roots == << <<"ca1">>, <<"ca1", "pki">>, <<"pki">>, <<>>, <<"ca1">>, <<"pki", "pki2">> >>
NoPolicy == [on |-> FALSE, roots |-> <<>>, acl |-> <<>>]
Policy(r, a) == [on |-> TRUE, roots |-> Roots[r], acl |-> ACLs[a]]

Valid(c) == \/ c.when = "now" \/ (c.when = "early" /\ ~late) \/ (c.when = "late" /\ late)
Trusts(p, root) == IF Len(p.roots) = 0 THEN root = "sys" ELSE root \in SelToS(p.roots)
Allowed(p, id) == p.acl = <<"nil">> \/ Names[id] \cap SelToS(p.acl) # {}

Permits(p, cn) ==
  IF ~p.on THEN TRUE
  ELSE IF cn = "none" THEN FALSE
  ELSE LET c == Certs[cn] IN
       /\ ~c.bad /\ Valid(c)
       /\ Trusts(p, c.root)
       /\ cn \notin revoked
       /\ c.ocsp \in {"-", "good"}
       /\ Allowed(p, c.id)

-----------------------------------------------------------------------------
(* Configurations *)
Single == << [mode |-> "TCP", alpn |-> <<"x">>], [mode |-> "TLS", alpn |-> <<"x">>], [mode |-> "HTTP", alpn |-> Default],
             [mode |-> "HTTPS", alpn |-> Default], [mode |-> "LOCAL", alpn |-> Default], [mode |-> "CONSOLE", alpn |-> Default],
             [mode |-> "QUIC", alpn |-> <<"x">>], [mode |-> "TCP", alpn |-> <<>>] >>
\* pairs that share a name
Pairs == << << [mode |-> "TLS", alpn |-> <<"x">>], [mode |-> "TCP", alpn |-> <<"y">>] >>,
            << [mode |-> "HTTP", alpn |-> <<"http/1.1">>], [mode |-> "HTTP", alpn |-> <<"h3", "h2">>] >>,
            << [mode |-> "HTTP", alpn |-> <<"http/1.1", "h2">>], [mode |-> "LOCAL", alpn |-> <<"h3">>] >>,
            << [mode |-> "TCP", alpn |-> <<>>], [mode |-> "QUIC", alpn |-> <<"x">>] >>,
            << [mode |-> "LOCAL", alpn |-> <<"h3">>], [mode |-> "HTTP", alpn |-> <<"http/1.1">>] >> >>
B(k, name, p) == [names |-> <<name>>, mode |-> k.mode, alpn |-> k.alpn, pol |-> p]

NP == Len(Roots) * Len(ACLs)
Pol(i) == IF i = 0 THEN NoPolicy ELSE Policy(((i - 1) % Len(Roots)) + 1, ((i - 1) \div Len(Roots)) + 1)

Init == /\ revoked = {} /\ late = FALSE
        /\ sess = [t |-> "-"]
        /\ act = [op |-> "init"] /\ out = [res |-> "-"]
        /\ \/ \E k \in 1..Len(Single), i \in 1..NP:
                /\ (k * 7 + i * 13) % (Mod \div 60) = Rem % (Mod \div 60)
                /\ cfg = [def |-> "a.test", bs |-> <<B(Single[k], "a.test", Pol(i))>>]
           \/ \E k \in 1..Len(Single), i, j \in 0..NP:
                /\ i # j /\ (k * 7 + i * 13 + j * 1009) % Mod = Rem
                /\ cfg = [def |-> IF i % 2 = 0 THEN "b.test" ELSE "", bs |-> <<B(Single[k], "a.test", Pol(i)), B(Single[k], "b.test", Pol(j))>>]
           \/ \E k \in 1..Len(Pairs), i, j \in 0..NP:
                /\ i # j /\ (k * 7 + i * 13 + j * 1009 + 500) % Mod = Rem
                /\ cfg = [def |-> "a.test", bs |-> <<B(Pairs[k][1], "a.test", Pol(i)), B(Pairs[k][2], "a.test", Pol(j))>>]

-----------------------------------------------------------------------------
ALPNs == { <<>>, <<"x">>, <<"y">>, <<"h2">>, <<"http/1.1">>, <<"h3">>, <<"h3", "http/1.1">>, <<"h2", "http/1.1">>, <<"y", "x">> }

\* The backend that a hello selects and the protocol: only the connections that can do something.
Target(t, sni, alpn) ==
  LET q == t = "quic"
      sn == IF sni = "" THEN cfg.def ELSE sni
      i == IF q THEN QUICBackend(cfg.bs, sni, alpn) ELSE TCPBackend(cfg.bs, sn, alpn)
      p == IF i = 0 THEN NoProto ELSE Negotiate(Offer(cfg.bs[i], q), alpn, q)
  IN  IF i = 0 \/ p = NoProto \/ (p = "" /\ cfg.bs[i].mode = "QUIC") \/ (q /\ cfg.bs[i].mode \in HTTPish /\ p # "h3") THEN [be |-> 0, proto |-> ""] ELSE [be |-> i, proto |-> p]

\* Every kind of hello once for each thing that it can do.
Hellos(t) == LET all == {<<s, a>> : s \in {"a.test", "b.test", ""}, a \in ALPNs}
                 good == {h \in all : Target(t, h[1], h[2]).be # 0}
                 K(h) == <<h[1], Target(t, h[1], h[2]), Len(h[2]) > 0 /\ h[2][1] = "h3">>
             IN {CHOOSE h \in good : K(h) = k : k \in {K(g) : g \in good}}

Connect(t, h, c) ==
  LET g == Target(t, h[1], h[2])
      p == cfg.bs[g.be].pol
      ok == Permits(p, c)
  IN
  /\ sess.t = "-"
  /\ act' = [op |-> "connect", t |-> t, sni |-> h[1], alpn |-> h[2], cert |-> c]
  /\ out' = [res |-> IF ok THEN "ok" ELSE "refused", be |-> g.be, proto |-> g.proto, pol |-> p]
  /\ \/ sess' = sess
     \/ /\ ok /\ p.on /\ c \in {"alice", "short", "sys", "pkialice", "ocspgood", "inter"}
        /\ sess' = [t |-> t, be |-> g.be, cert |-> c]
  /\ UNCHANGED <<revoked, late>>

(* A client resumes a session. It presents the certificate of that session, if asked, or none; then
   it may also be refused, since the proxy may want a full handshake. *)
Resume(h, present) ==
  LET g == Target(sess.t, h[1], h[2])
      p == cfg.bs[g.be].pol
      ok == Permits(p, sess.cert)
  IN
  /\ sess.t # "-"
  /\ act' = [op |-> "resume", t |-> sess.t, sni |-> h[1], alpn |-> h[2], cert |-> IF present THEN sess.cert ELSE "none"]
  /\ out' = [res |-> IF ~ok THEN "refused" ELSE IF present \/ ~p.on THEN "ok" ELSE "any", be |-> g.be, proto |-> g.proto, pol |-> p]
  /\ UNCHANGED <<revoked, late, sess>>

Revoke(c) == /\ c \notin revoked
             /\ \E i \in 1..Len(cfg.bs): cfg.bs[i].pol.on /\ "pki" \in SelToS(cfg.bs[i].pol.roots)
             /\ act' = [op |-> "revoke", cert |-> c] /\ out' = [res |-> "-"]
             /\ revoked' = revoked \cup {c} /\ UNCHANGED <<late, sess>>

Tick == /\ ~late /\ late' = TRUE
        /\ act' = [op |-> "tick"] /\ out' = [res |-> "-"]
        /\ UNCHANGED <<revoked, sess>>

Drop == /\ sess.t # "-" /\ sess' = [t |-> "-"] /\ act' = [op |-> "drop"] /\ out' = [res |-> "-"] /\ UNCHANGED <<revoked, late>>

Next == /\ UNCHANGED cfg
        /\ \/ \E t \in {"tls12", "tls13", "quic"}: \E h \in Hellos(t), c \in DOMAIN Certs \cup {"none"}: Connect(t, h, c)
           \/ sess.t # "-" /\ \E h \in Hellos(sess.t), p \in BOOLEAN: Resume(h, p)
           \/ Revoke("pkialice")
           \/ Tick \/ Drop

-----------------------------------------------------------------------------
(* The property: what is served satisfies the policy of the backend that serves it. *)
Served == out'.res \in {"ok", "any"} /\ out'.pol.on
Who == IF act'.op = "resume" THEN sess.cert ELSE act'.cert
Authenticated == [][ Served => Who # "none" /\ ~Certs[Who].bad ]_vars
Trusted == [][ Served => LET r == Certs[Who].root IN r \in SelToS(out'.pol.roots) \/ (Len(out'.pol.roots) = 0 /\ r = "sys") ]_vars
Timely == [][ Served => LET w == Certs[Who].when IN w # "never" /\ (w = "early" => ~late) /\ (w = "late" => late) ]_vars
NotRevoked == [][ Served => Who \notin revoked /\ Certs[Who].ocsp \notin {"revoked", "unknown", "down"} ]_vars
Authorized == [][ Served => out'.pol.acl = <<"nil">> \/ \E n \in Names[Certs[Who].id]: n \in SelToS(out'.pol.acl) ]_vars

View == [cfg |-> cfg, revoked |-> revoked, late |-> late, sess |-> sess]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
