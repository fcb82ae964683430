------------------------------ MODULE Upstream ------------------------------
(* Which server a new connection or request goes to: rotation over the addresses of the backend or of a path override,
   failover when a server can't be reached, verification of the servers' certificates, and the connections to HTTP
   servers that are kept for the next request. *)
EXTENDS Naturals, Sequences, FiniteSets, Randomization, TLC, Json

VARIABLES cfg, st,   \* st: the state of each server
          nx, pool,  \* per group of addresses: whose turn it is, the server with a connection that can be used again
          stale,     \* that connection was closed by the server
          act, out
vars == <<cfg, st, nx, pool, stale, act, out>>

\* How a connection is forwarded. QUICt: a TCP client, QUICq: a QUIC client.
Kinds == {"TCP", "TLS", "HTTP", "HTTPS1", "HTTPS2", "HTTPS3", "QUICt", "QUICq"}
IsHTTP(k) == k \in {"HTTP", "HTTPS1", "HTTPS2", "HTTPS3"}
IsQUIC(k) == k \in {"HTTPS3", "QUICt", "QUICq"}
IsTLS(k) == k \notin {"TCP", "HTTP"}

Main == {1, 2, 3}
Over == {4, 5}
G == {"m", "o"}
KindOf(g) == IF g = "m" THEN cfg.k ELSE cfg.ok
Ins(g) == IF g = "m" THEN cfg.ins ELSE cfg.oins
Addrs(g) == IF g = "m" THEN cfg.addrs ELSE IF cfg.ok = "none" THEN <<>> ELSE cfg.oaddrs
Group(s) == IF s \in Main THEN "m" ELSE "o"

\* What a server that does TLS shows: good, a certificate for another name, from another CA, of the past, one that is only good for the
\* servers of the other group, from the proxy's own PKI, or one of these that was revoked, or one for clients only.
Certs == {"good", "name", "ca", "expired", "future", "other", "pki", "revoked", "clientonly"}
States(k, ins) == IF ~IsTLS(k) THEN {"good", "down"} ELSE IF ins THEN {"good", "down", "name", "ca", "expired", "other"} ELSE Certs \cup {"down"}

Trusted(s, g) == Ins(g) \/ st[s] = "good" \/ (st[s] = "pki" /\ g = "m")
\* Is there someone to talk to? With QUIC, only after the server's identity is known.
Reached(s, g) == IF IsQUIC(KindOf(g)) THEN st[s] # "down" /\ Trusted(s, g) ELSE st[s] # "down"

RECURSIVE Try(_, _, _)
Try(g, at, left) ==
  IF left = 0 THEN [s |-> 0, nx |-> at]
  ELSE LET s == Addrs(g)[at + 1]
           n == (at + 1) % Len(Addrs(g))
       IN IF Reached(s, g) THEN [s |-> s, nx |-> n] ELSE Try(g, n, left - 1)
Dial(g) == Try(g, nx[g], Len(Addrs(g)))

Now(S) == {x \in S: cfg = cfg}
Pick(S) == RandomSubset(1, Now(S))
AddrLists == { <<1>>, <<1, 2>>, <<2, 1>>, <<1, 2, 3>>, <<3, 1, 2>>, <<1, 2, 1, 3>>, <<1, 1, 2>> }

Init ==
  /\ \E k \in RandomSubset(5, Kinds), ad \in RandomSubset(2, AddrLists), ins \in RandomSubset(1, {1, 2, 3, 4}), ok \in RandomSubset(3, {"none", "HTTP", "HTTPS1", "HTTPS2", "HTTPS3"}),
        oad \in RandomSubset(1, { <<4>>, <<4, 5>>, <<5, 4, 5>> }), oins \in RandomSubset(1, {1, 2, 3}), pp \in RandomSubset(1, {"", "v1", "v2"}), opp \in RandomSubset(1, {"", "v1", "v2"}):
        cfg = [k |-> k, addrs |-> ad, ins |-> ins = 1, ok |-> IF IsHTTP(k) THEN ok ELSE "none", oaddrs |-> oad, oins |-> oins = 1,
               pp |-> IF IsQUIC(k) THEN "" ELSE pp, opp |-> IF ok = "HTTPS3" THEN "" ELSE opp]
  /\ st = [s \in Main \cup Over |-> "good"]
  /\ nx = [g \in G |-> 0] /\ pool = [g \in G |-> 0] /\ stale = [g \in G |-> FALSE]
  /\ act = [op |-> "init"] /\ out = [to |-> 0]

\* A server changes. kill: its connections end too.
Set(s, x, kill) ==
  /\ s \in {Addrs(Group(s))[j] : j \in 1..Len(Addrs(Group(s)))}
  /\ st' = [st EXCEPT ![s] = x]
  /\ LET k == kill \/ x = "down"
         hit == [g \in G |-> k /\ pool[g] = s]
     IN /\ pool' = [g \in G |-> IF hit[g] THEN 0 ELSE pool[g]]
        /\ stale' = [g \in G |-> stale[g] \/ hit[g]]
        /\ act' = [op |-> "set", s |-> s, st |-> x, kill |-> k] /\ out' = [to |-> 0]
  /\ UNCHANGED <<cfg, nx>>

\* One connection (not HTTP).
Conn ==
  LET d == Dial("m") IN
  /\ act' = [op |-> "conn"]
  /\ out' = [to |-> IF d.s # 0 /\ Trusted(d.s, "m") THEN d.s ELSE 0, sni |-> d.s]
  /\ nx' = [nx EXCEPT !["m"] = d.nx]
  /\ UNCHANGED <<cfg, st, pool, stale>>

\* Many at the same time, when all servers are good.
RECURSIVE Spread(_, _, _)
Spread(g, at, n) == IF n = 0 THEN <<>> ELSE << Addrs(g)[at + 1] >> \o Spread(g, (at + 1) % Len(Addrs(g)), n - 1)
Burst(n) ==
  /\ \A j \in 1..Len(Addrs("m")): st[Addrs("m")[j]] = "good"
  /\ act' = [op |-> "burst", n |-> n]
  /\ out' = [to |-> Spread("m", nx["m"], n)]
  /\ nx' = [nx EXCEPT !["m"] = (@ + n) % Len(Addrs("m"))]
  /\ UNCHANGED <<cfg, st, pool, stale>>

\* A request. keep: the server lets the connection be used again.
Req(g, keep) ==
  LET d == IF pool[g] # 0 THEN [s |-> pool[g], nx |-> nx[g]] ELSE Dial(g)
      to == IF d.s # 0 /\ (pool[g] # 0 \/ Trusted(d.s, g)) THEN d.s ELSE 0
  IN
  /\ act' = [op |-> "req", g |-> g, keep |-> keep]
  \* retry: the proxy may find out only now that the connection is gone.
  /\ out' = [to |-> to, new |-> pool[g] = 0, retry |-> stale[g], sni |-> d.s]
  /\ nx' = [nx EXCEPT ![g] = d.nx]
  /\ pool' = [pool EXCEPT ![g] = IF keep THEN to ELSE 0]
  /\ stale' = [stale EXCEPT ![g] = FALSE]
  /\ UNCHANGED <<cfg, st>>

Next ==
  \E what \in Pick(1..10), s \in Pick(Main \cup Over), bad \in Pick(1..8), kill \in Pick(BOOLEAN), n \in Pick(2..7), g \in Pick({"m", "o"}), keep \in Pick(1..3):
    LET gs == IF cfg.ok = "none" THEN "m" ELSE g
        srv == {Addrs(gs)[j] : j \in 1..Len(Addrs(gs))}
    IN \E t \in Pick(srv), x \in Pick(States(KindOf(gs), Ins(gs))):
       LET y == IF bad <= 2 THEN "good" ELSE IF bad = 3 THEN "down" ELSE x IN
       IF what <= 3 /\ st[t] # y THEN Set(t, y, kill)
       ELSE IF what = 4 /\ pool[gs] # 0 THEN Set(pool[gs], st[pool[gs]], TRUE)
       ELSE IF IsHTTP(cfg.k) THEN Req(gs, keep > 1 \/ KindOf(gs) \in {"HTTPS2", "HTTPS3"})
       ELSE IF what = 5 /\ \A j \in 1..Len(Addrs("m")): st[Addrs("m")[j]] = "good" THEN Burst(n)
       ELSE Conn

-----------------------------------------------------------------------------
\* Nothing is sent to a server that isn't what it must be.
Verified == [][ act'.op \in {"conn", "req"} /\ out'.to # 0 =>
                  LET g == Group(out'.to) IN (act'.op = "req" /\ ~out'.new) \/ ~IsTLS(KindOf(g)) \/ Ins(g) \/ st[out'.to] \in {"good", "pki"} ]_vars
\* A server that is good is found. (Without QUIC, one with a bad certificate can be found before it.)
Available == [][ act'.op = "conn" \/ (act'.op = "req" /\ out'.new) =>
                   LET g == IF act'.op = "req" THEN act'.g ELSE "m"
                       S == {Addrs(g)[j] : j \in 1..Len(Addrs(g))}
                   IN (\E s \in S: st[s] = "good") /\ (\A s \in S: st[s] \in {"good", "down"}) => out'.to # 0 ]_vars
\* The groups don't mix.
Apart == [][ act'.op = "req" /\ out'.to # 0 => Group(out'.to) = act'.g ]_vars

View == [cfg |-> cfg, st |-> st, nx |-> nx, pool |-> pool, stale |-> stale]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
