------------------------------ MODULE Routing ------------------------------
(* Which backend handles an incoming connection, and what it gets to see.

   The configuration is chosen in the initial state.  Each step is one client: a TLS or QUIC
   connection with some server name (or none) and some list of application protocols, or bytes that
   are not an acceptable ClientHello.  `out' says which backend must serve it, the protocol that is
   negotiated, or how it is refused. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Mod, Rem, NB      \* which of all configurations are explored; numbers of backends

VARIABLES cfg, served, act, out
vars == <<cfg, served, act, out>>

NameSets == << <<"a.test">>, <<"b.test">>, <<"a.test", "b.test">>, <<"b.test", "a.test">> >>
Default == <<"default">>
Kinds ==
  LET K(m, as) == [i \in 1..Len(as) |-> [mode |-> m, alpn |-> as[i]]] IN
       K("TCP",  << Default, <<>>, <<"x">>, <<"x", "h2">>, <<"h3", "x">> >>)
    \o K("TLS",  << Default, <<>>, <<"y">>, <<"h3", "h2", "x">> >>)
    \o K("TLSPASSTHROUGH", << Default, <<>>, <<"x">>, <<"h3", "y">> >>)
    \o K("HTTP", << Default, <<"http/1.1">>, <<"h2">>, <<"h3">>, <<>> >>)
    \o K("QUIC", << Default, <<"x">>, <<"x", "y">> >>)
Opts == [i \in 1..(Len(NameSets) * Len(Kinds)) |->
           LET k == Kinds[((i - 1) \div Len(NameSets)) + 1]
           IN  [names |-> NameSets[((i - 1) % Len(NameSets)) + 1], mode |-> k.mode, alpn |-> k.alpn]]
NO == Len(Opts)
Defs == <<"", "a.test", "b.test", "c.test">>

Protos(b) == IF b.alpn # Default THEN b.alpn
             ELSE IF b.mode \in {"HTTP", "QUIC"} THEN <<"h3", "h2", "http/1.1">> ELSE <<"h2", "http/1.1">>

ToS(s) == {s[i] : i \in 1..Len(s)}

(* A configuration is usable if no two backends list the same name with the same protocol, and a
   backend without protocols is the first one of its names. *)
ValidCfg(bs) ==
  \A i, j \in 1..Len(bs): i < j =>
     \A n \in ToS(bs[i].names) \cap ToS(bs[j].names):
        /\ ToS(Protos(bs[i])) \cap ToS(Protos(bs[j])) = {}
        /\ Len(Protos(bs[j])) > 0

Select(idx) == [i \in 1..Len(idx) |-> Opts[idx[i]]]
Hash(idx, d) == FoldLeft(LAMBDA a, x: (a * 131 + x) % 1000003, d, idx)

Idx == UNION {[1..n -> 1..NO] : n \in NB}

Init == /\ \E idx \in Idx, d \in 1..Len(Defs):
              /\ Hash(idx, d) % Mod = Rem
              /\ ValidCfg(Select(idx))
              /\ cfg = [backends |-> Select(idx), def |-> Defs[d]]
        /\ served = {}
        /\ act = [op |-> "init"]
        /\ out = [res |-> "none"]

-----------------------------------------------------------------------------
N == Len(cfg.backends)
B(i) == cfg.backends[i]
First(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
WithKey(sn, p) == {i \in 1..N : sn \in ToS(B(i).names) /\ p \in ToS(Protos(B(i)))}
WithName(sn) == {i \in 1..N : sn \in ToS(B(i).names)}

\* The protocols a backend negotiates over TCP and QUIC.
Offer(i, quic) == SelectSeq(Protos(B(i)), LAMBDA p: p # "h3" \/ (quic /\ B(i).mode \notin {"TCP", "TLS"}))

NoProto == "-"
\* TLS's choice: the server's preference among the common protocols.
Negotiate(server, client, quic) ==
  LET common == {k \in 1..Len(server) : server[k] \in ToS(client)} IN
  IF Len(server) = 0 \/ Len(client) = 0 THEN IF quic /\ Len(server) # 0 THEN NoProto ELSE ""
  ELSE IF common # {} THEN server[First(common)]
  ELSE IF "h2" \in ToS(server) /\ "http/1.1" \in ToS(client) THEN ""
  ELSE NoProto

\* The backend for a TCP connection.
TCPBackend(sn, alpn) ==
  LET ks == {k \in 1..Len(alpn) : WithKey(sn, alpn[k]) # {}} IN
  IF ks # {} THEN First(WithKey(sn, alpn[First(ks)])) ELSE First(WithName(sn))

Refused == [res |-> "refused", be |-> 0, proto |-> ""]

TCPOutcome(sni, alpn) ==
  LET sn == IF sni = "" THEN cfg.def ELSE sni
      i == IF sn = "" THEN 0 ELSE TCPBackend(sn, alpn)
      p == Negotiate(Offer(i, FALSE), alpn, FALSE)
  IN  IF i = 0 THEN Refused
      ELSE IF B(i).mode = "TLSPASSTHROUGH" THEN [res |-> "pass", be |-> i, proto |-> ""]
      ELSE IF alpn = <<"acme-tls/1">> /\ sni # "" THEN [res |-> "acme", be |-> 0, proto |-> "acme-tls/1"]
      ELSE IF p = NoProto THEN [res |-> "noalpn", be |-> 0, proto |-> ""]
      ELSE IF B(i).mode = "QUIC" /\ p = "" THEN [res |-> "badgw", be |-> 0, proto |-> ""]
      ELSE [res |-> "ok", be |-> i, proto |-> p]

\* Over QUIC only a protocol that the backend can negotiate over QUIC selects it.
QUICOutcome(sni, alpn) ==
  LET ok(k) == {i \in WithKey(sni, alpn[k]) : B(i).mode # "TLSPASSTHROUGH" /\ alpn[k] \in ToS(Offer(i, TRUE))}
      ks == {k \in 1..Len(alpn) : ok(k) # {}}
  IN  IF sni = "" \/ ks = {} THEN Refused
      ELSE LET i == First(ok(First(ks))) IN [res |-> "ok", be |-> i, proto |-> Negotiate(Offer(i, TRUE), alpn, TRUE)]

SNIs == {"a.test", "b.test", "c.test", "x.a.test", ""}
ALPNs == { <<>>, <<"h2">>, <<"http/1.1">>, <<"x">>, <<"y">>, <<"h3">>, <<"x", "h2">>, <<"h2", "x">>, <<"y", "x">>,
           <<"h3", "http/1.1">>, <<"h2", "http/1.1">>, <<"h3", "x">>, <<"acme-tls/1">>, <<"acme-tls/1", "x">> }
Frags == {"", "bytes", "two"}

TCPConnect(sni, alpn, frag) ==
  /\ act' = [op |-> "tcp", sni |-> sni, alpn |-> alpn, frag |-> frag]
  /\ out' = TCPOutcome(sni, alpn)
QUICConnect(sni, alpn) ==
  /\ act' = [op |-> "quic", sni |-> sni, alpn |-> alpn]
  /\ out' = QUICOutcome(sni, alpn)
\* Bytes that are not a ClientHello which a backend could be chosen for.
Odd(what, sni) ==
  /\ act' = [op |-> "odd", what |-> what, sni |-> sni]
  /\ out' = [res |-> "closed", be |-> 0, proto |-> ""]

Odds == {"http", "sslv2", "split", "oversize", "empty", "truncated", "notclienthello", "twonames", "badext"}

Next == /\ \/ \E s \in SNIs, a \in ALPNs: \/ QUICConnect(s, a)
                                          \/ \E f \in Frags: (f = "" \/ Len(a) = 1) /\ TCPConnect(s, a, f)
           \/ \E w \in Odds, s \in {"a.test", "b.test"}: Odd(w, s)
        /\ served' = {out'.be}
        /\ UNCHANGED cfg

-----------------------------------------------------------------------------
(* The property, stated without the selection functions. *)
Lists(i, sn, p) == sn \in ToS(B(i).names) /\ p \in ToS(Protos(B(i)))
OnlyListedNames ==
  [][ out'.be # 0 => LET sn == IF act'.sni = "" THEN cfg.def ELSE act'.sni IN
                     /\ sn # "" /\ sn \in ToS(B(out'.be).names)
                     /\ (act'.op = "quic" => act'.sni # "") ]_vars
FirstOffered ==
  [][ (act'.op = "tcp" /\ out'.be # 0) =>
        LET sn == IF act'.sni = "" THEN cfg.def ELSE act'.sni IN
        \/ \E k \in 1..Len(act'.alpn): /\ Lists(out'.be, sn, act'.alpn[k])
                                       /\ \A m \in 1..(k - 1), i \in 1..N: ~Lists(i, sn, act'.alpn[m])
        \/ /\ \A k \in 1..Len(act'.alpn), i \in 1..N: ~Lists(i, sn, act'.alpn[k])
           /\ \A i \in 1..(out'.be - 1): sn \notin ToS(B(i).names) ]_vars
UnknownRefused ==
  [][ (act'.op \in {"tcp", "quic"} /\ \A i \in 1..N: (IF act'.sni = "" THEN cfg.def ELSE act'.sni) \notin ToS(B(i).names))
        => out'.res = "refused" ]_vars
OwnProtocols == [][ out'.res = "ok" /\ out'.proto # "" =>
                      out'.proto \in ToS(Protos(B(out'.be))) /\ out'.proto \in ToS(act'.alpn) ]_vars

View == [cfg |-> cfg]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
