---------------------------- MODULE Reconfigure ----------------------------
(* Configuration changes while connections are open.

   The configuration is one of a few variants of what serves a.test. Connections are at some stage: "new" (nothing was
   sent), "hs" (the proxy waits for the client to finish the TLS handshake), "up", or "req" (an HTTP request waits
   for the backend's response). A configuration change closes those that the new one doesn't permit, and leaves
   the others alone. *)
EXTENDS Selection, TLC, Json

CONSTANTS Mod, Rem, NSlots, Races

VARIABLES vs, cur, slots, jr, act, out
vars == <<vs, cur, slots, jr, act, out>>

-----------------------------------------------------------------------------
\* Policies: "-" (no client authentication), "any" (every valid certificate), or the only allowed one
B(mode, alpn, up) == [names |-> <<"a.test">>, mode |-> mode, alpn |-> alpn, up |-> up, only |-> 0, deny |-> 0, pol |-> "-"]
XY == <<"x", "y">>
W == <<"http/1.1", "h2", "h3">>
Variants == <<
  << B("TLS", XY, "S1") >>,
  << B("TLS", XY, "S2") >>,
  << B("TCP", XY, "T1") >>,
  << [B("TLS", XY, "S1") EXCEPT !.deny = 2] >>,
  << [B("TLS", XY, "S1") EXCEPT !.only = 1] >>,
  << [B("TLS", XY, "S1") EXCEPT !.pol = "any"] >>,
  << [B("TLS", XY, "S1") EXCEPT !.pol = "alice"] >>,
  << [B("TCP", XY, "T1") EXCEPT !.pol = "bob"] >>,
  << [B("TCP", XY, "T2") EXCEPT !.pol = "nobody"] >>,
  << >>,
  << B("TLS", <<"x">>, "S1"), B("TCP", <<"y">>, "T1") >>,
  << B("TCP", <<"x">>, "T1"), [B("TLS", <<"y">>, "S1") EXCEPT !.pol = "alice", !.deny = 2] >>,
  << B("TLSPASSTHROUGH", XY, "S1") >>,
  << B("TLS", <<"z">>, "S2"), B("TLSPASSTHROUGH", XY, "S1") >>,
  << [B("TLSPASSTHROUGH", XY, "S1") EXCEPT !.deny = 2] >>,
  << B("HTTP", W, "H1") >>,
  << B("HTTP", W, "H2") >>,
  << [B("HTTP", W, "H1") EXCEPT !.deny = 1] >>,
  << [B("HTTP", W, "H1") EXCEPT !.pol = "alice"] >>,
  << B("HTTP", <<"http/1.1", "h3">>, "H1"), B("TLS", XY, "S1") >>,
  << B("TCP", XY, "T1"), [B("HTTP", <<"h3">>, "H2") EXCEPT !.pol = "any"] >>,
  << B("QUIC", XY, "Q1") >>,
  << [B("QUIC", XY, "Q1") EXCEPT !.pol = "bob"] >>,
  << B("LOCAL", W, "-") >>,
  << [B("LOCAL", W, "-") EXCEPT !.pol = "any"], B("TCP", XY, "T1") >>,
  << B("TLS", <<>>, "S1") >>,
  << B("TCP", <<>>, "T1"), [B("TCP", XY, "T2") EXCEPT !.only = 2] >> >>
NV == Len(Variants)

Kinds == [t : {"tcp"}, alpn : {<<>>, <<"x">>, <<"y">>, <<"y", "x">>, <<"http/1.1">>}, cert : {"none", "alice", "bob"}, addr : {1, 2}]
         \cup [t : {"quic"}, alpn : {<<"x">>, <<"y", "x">>, <<"h3">>}, cert : {"none", "alice", "bob"}, addr : {1, 2}]

-----------------------------------------------------------------------------
\* What a hello of kind k meets in variant v: the backend and the negotiated protocol.
Meet(v, k) ==
  LET bs == Variants[v]
      q == k.t = "quic"
      i == IF q THEN QUICBackend(bs, "a.test", k.alpn) ELSE TCPBackend(bs, "a.test", k.alpn)
      p == IF i = 0 THEN NoProto ELSE IF bs[i].mode = "TLSPASSTHROUGH" THEN "" ELSE Negotiate(Offer(bs[i], q), k.alpn, q)
  IN [be |-> i, proto |-> p]
Usable(v, k) == LET m == Meet(v, k) IN
  IF m.be = 0 \/ m.proto = NoProto THEN TRUE
  ELSE IF Variants[v][m.be].mode = "QUIC" THEN m.proto # ""
  ELSE (k.t = "quic" /\ Variants[v][m.be].mode \in HTTPish) => m.proto = "h3"

IPOk(b, addr) == b.deny # addr /\ b.only \in {0, addr}
CertOk(b, cert) == b.pol = "-" \/ (cert # "none" /\ b.pol \in {"any", cert})
(* What the configuration v means for the open connection c: "closed", "alive", or "any" when it has
   no protocol in common with its client any more, so that it couldn't be made again. *)
Of(c) == Variants[c.v][c.be]
Lookup(v, c) == TCPBackend(Variants[v], "a.test", IF c.proto = "" THEN c.k.alpn ELSE <<c.proto>>)
\* The certificate that the proxy has seen, or is going to see when the handshake finishes
Cert(c) == IF Of(c).pol = "-" THEN "none" ELSE c.k.cert
Permits(v, c) == LET i == Lookup(v, c) IN
                 /\ i # 0
                 /\ Variants[v][i].mode = Of(c).mode
                 /\ IPOk(Variants[v][i], c.k.addr)
                 /\ CertOk(Variants[v][i], Cert(c))
Verdict(v, c) == IF ~Permits(v, c) THEN "closed"
                 ELSE IF Meet(v, c.k) = [be |-> Lookup(v, c), proto |-> c.proto] THEN "alive" ELSE "any"

-----------------------------------------------------------------------------
Empty == [stage |-> "-"]
Init == /\ \E a, b, d \in 1..NV: /\ a # b /\ a # d /\ b < d
                                 /\ (a * 101 + b * 37 + d * 11 + ((a * b) % 7) + ((b * d) % 5)) % Mod = Rem
                                 /\ vs = <<a, b, d>>
        /\ cur = vs[1] /\ slots = [i \in 1..NSlots |-> Empty] /\ jr = FALSE
        /\ act = [op |-> "init"] /\ out = [res |-> "-"]

Hash(k) == Len(k.alpn) * 5 + (IF k.t = "quic" THEN 1 ELSE 0) + (CASE k.cert = "none" -> 0 [] k.cert = "alice" -> 2 [] OTHER -> 3) + k.addr * 7
           + (IF k.alpn = <<>> THEN 0 ELSE CASE k.alpn[1] = "x" -> 1 [] k.alpn[1] = "y" -> 2 [] k.alpn[1] = "h3" -> 3 [] OTHER -> 4)
Sampled(k) == NSlots > 1 \/ (Hash(k) + vs[1] + vs[2] * 3) % 3 = 0
Good(k) == IF ~Sampled(k) THEN FALSE ELSE \A i \in 1..Len(vs): Usable(vs[i], k)
Admits(v, k) == LET m == Meet(v, k) IN
                /\ m.be # 0 /\ m.proto # NoProto
                /\ IPOk(Variants[v][m.be], k.addr) /\ CertOk(Variants[v][m.be], k.cert)

Put(s, c) == slots' = [slots EXCEPT ![s] = c]
Open(k, stage) == [stage |-> stage, k |-> k, v |-> cur, be |-> Meet(cur, k).be, proto |-> Meet(cur, k).proto, moved |-> FALSE]
Ups(c) == {Of(c).up} \cup (IF c.moved /\ Lookup(cur, c) # 0 THEN {Variants[cur][Lookup(cur, c)].up} ELSE {})
Served(c) == [res |-> "up", ups |-> Ups(c), mode |-> Of(c).mode, proto |-> c.proto]
Refused == [res |-> "refused"]

\* A TCP connection, nothing sent
Connect(s, k) ==
  /\ slots[s] = Empty /\ k.t = "tcp" /\ Good(k)
  /\ act' = [op |-> "connect", s |-> s, k |-> k] /\ out' = [res |-> "ok"]
  /\ Put(s, [stage |-> "new", k |-> k]) /\ UNCHANGED cur

\* The client sends its hello, and stops there if the proxy terminates TLS.
Hello(s) ==
  LET k == slots[s].k
      m == Meet(cur, k)
      ok == m.be # 0 /\ m.proto # NoProto /\ IPOk(Variants[cur][m.be], k.addr)
      c == Open(k, IF Variants[cur][m.be].mode = "TLSPASSTHROUGH" THEN "up" ELSE "hs")
  IN
  /\ slots[s].stage = "new"
  /\ act' = [op |-> "hello", s |-> s]
  /\ IF ok THEN out' = [Served(c) EXCEPT !.res = c.stage] /\ Put(s, c)
           ELSE out' = Refused /\ Put(s, Empty)
  /\ UNCHANGED cur

\* The client finishes the handshake. A configuration that came in between may have made the proxy
\* give up on an HTTP connection, but it doesn't leave it hanging.
Finish(s) ==
  LET c == slots[s] IN
  /\ c.stage = "hs"
  /\ act' = [op |-> "finish", s |-> s]
  /\ IF ~CertOk(Of(c), Cert(c)) THEN out' = Refused /\ Put(s, Empty)
     ELSE IF c.moved /\ Of(c).mode \in HTTPish THEN out' = [Served(c) EXCEPT !.res = "any"] /\ Put(s, Empty)
     ELSE out' = Served(c) /\ Put(s, [c EXCEPT !.stage = "up"])
  /\ UNCHANGED cur

ConnectQUIC(s, k) ==
  LET c == Open(k, "up") IN
  /\ slots[s] = Empty /\ k.t = "quic" /\ Good(k)
  /\ act' = [op |-> "quic", s |-> s, k |-> k]
  /\ IF Admits(cur, k) THEN out' = Served(c) /\ Put(s, c) ELSE out' = Refused /\ Put(s, Empty)
  /\ UNCHANGED cur

\* Something more over an open connection
Use(s) == /\ slots[s].stage = "up"
          /\ act' = [op |-> "use", s |-> s, afterReject |-> jr] /\ out' = Served(slots[s])
          /\ UNCHANGED <<slots, cur>>

\* An HTTP request that the backend doesn't answer yet, and then does
Request(s) == /\ slots[s].stage = "up" /\ Of(slots[s]).mode = "HTTP"
              /\ act' = [op |-> "request", s |-> s] /\ out' = Served(slots[s])
              /\ Put(s, [slots[s] EXCEPT !.stage = "req"]) /\ UNCHANGED cur
\* After a configuration change, the connection may end with the response.
Respond(s) == /\ slots[s].stage = "req"
              /\ act' = [op |-> "respond", s |-> s] /\ out' = Served(slots[s])
              /\ Put(s, IF slots[s].moved THEN Empty ELSE [slots[s] EXCEPT !.stage = "up"]) /\ UNCHANGED cur

Close(s) == /\ slots[s] # Empty
            /\ act' = [op |-> "close", s |-> s] /\ out' = [res |-> "-"]
            /\ Put(s, Empty) /\ UNCHANGED cur

(* The configuration changes. An HTTP connection without a request in flight may end like one that
   was idle for too long. *)
Fate(v, c) == IF c.stage \in {"-", "new"} THEN c.stage
              ELSE IF Verdict(v, c) = "alive" /\ c.stage = "up" /\ Of(c).mode \in HTTPish THEN "any"
              ELSE Verdict(v, c)
After(f, c) == CASE f \in {"-", "new"} -> c
                 [] f = "alive" -> [c EXCEPT !.moved = TRUE]
                 [] OTHER -> Empty
\* A QUIC connection whose handshake was done with the old configuration can be one of a backend of
\* the new one that has the negotiated protocol.
Adopted(v, k) ==
  LET c == Open(k, "up")
      i == QUICBackend(Variants[v], "a.test", <<c.proto>>)
  IN k.t = "quic" /\ c.be # 0 /\ c.proto # NoProto /\ CertOk(Variants[cur][c.be], k.cert) /\ i # 0 /\ IPOk(Variants[v][i], k.addr) /\ CertOk(Variants[v][i], Cert(c))
\* Connections that are made while the configuration changes get the old or the new one, and what the
\* new one doesn't permit doesn't last.
RaceFate(v, k) ==
  IF ~Admits(v, k) THEN IF (Admits(cur, k) /\ Verdict(v, Open(k, "up")) # "closed") \/ Adopted(v, k) THEN "any" ELSE "closed"
  ELSE IF /\ Admits(cur, k) /\ Verdict(v, Open(k, "up")) = "alive"
          /\ Variants[v][Meet(v, k).be].mode \notin HTTPish THEN "alive"
  ELSE "any"
Reconfigure(v, race) ==
  /\ v # cur
  /\ act' = [op |-> "reconf", v |-> v, bs |-> Variants[v], race |-> race]
  /\ out' = [res |-> "ok", fates |-> [s \in 1..NSlots |-> Fate(v, slots[s])],
             racers |-> IF race THEN {[k |-> k, fate |-> RaceFate(v, k)] : k \in {k \in Kinds : Good(k)}} ELSE {}]
  /\ slots' = [s \in 1..NSlots |-> After(Fate(v, slots[s]), slots[s])]
  /\ cur' = v

Rejects == {"twobackends", "idp", "cidr", "ca", "backendca", "oidc", "pki", "mode", "nobackend"}
Reject(how) ==
  /\ act' = [op |-> "reject", how |-> how] /\ out' = [res |-> "rejected"]
  /\ UNCHANGED <<slots, cur>>

SetV == {vs[i] : i \in 1..Len(vs)}
Next == /\ UNCHANGED vs
        /\ \/ /\ jr' = FALSE
              /\ \/ \E s \in 1..NSlots: \/ \E k \in Kinds: Connect(s, k) \/ ConnectQUIC(s, k)
                                        \/ Hello(s) \/ Finish(s) \/ Use(s) \/ Request(s) \/ Respond(s) \/ Close(s)
                 \/ \E v \in SetV: Reconfigure(v, FALSE) \/ (Races /\ Reconfigure(v, TRUE))
           \/ ~jr /\ jr' = TRUE /\ \E how \in Rejects: Reject(how)

-----------------------------------------------------------------------------
(* The property *)
\* Every open connection is one that the configuration permits,
Permitted == \A s \in 1..NSlots: slots[s].stage \in {"hs", "up", "req"} =>
                (slots[s].stage = "hs" /\ slots[s].v = cur) \/ Permits(cur, slots[s])
\* one that is permitted and has something to lose isn't closed,
KeepWorking == [][ act'.op = "reconf" => \A s \in 1..NSlots:
                     /\ (slots[s].stage = "req" \/ (slots[s].stage = "up" /\ Of(slots[s]).mode \notin HTTPish)) /\ slots'[s] = Empty
                     => Verdict(act'.v, slots[s]) # "alive" ]_vars
\* new ones are admitted exactly as the current configuration says,
Governs == [][ (act'.op = "quic" => ((out'.res = "up") <=> Admits(cur, act'.k))) /\
               (act'.op = "hello" /\ out'.res = "up" => out'.ups = {Variants[cur][Meet(cur, slots[act'.s].k).be].up}) ]_vars
\* and a rejected configuration changes nothing.
RejectedIsNothing == [][ act'.op = "reject" => slots' = slots /\ cur' = cur ]_vars

View == [vs |-> vs, cur |-> cur, slots |-> slots, jr |-> jr, bs |-> IF act.op = "init" THEN Variants[cur] ELSE <<>>]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
