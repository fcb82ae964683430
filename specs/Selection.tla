------------------------------ MODULE Selection ------------------------------
(* How a client hello selects one of the backends bs (a sequence of records with names, mode and
   alpn), and the protocol that is negotiated.  Shared by the specifications that are about what
   happens after that; Routing is about the selection itself. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Default == <<"default">>
NoProto == "-"
SelToS(s) == {s[i] : i \in 1..Len(s)}
HTTPish == {"HTTP", "HTTPS", "LOCAL", "CONSOLE"}

Protos(b) == IF b.alpn # Default THEN b.alpn
             ELSE IF b.mode \in HTTPish \cup {"QUIC"} THEN <<"h3", "h2", "http/1.1">> ELSE <<"h2", "http/1.1">>

SelFirst(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
WithKey(bs, sn, p) == {i \in 1..Len(bs) : sn \in SelToS(bs[i].names) /\ p \in SelToS(Protos(bs[i]))}
WithName(bs, sn) == {i \in 1..Len(bs) : sn \in SelToS(bs[i].names)}
Offer(b, quic) == SelectSeq(Protos(b), LAMBDA p: p # "h3" \/ (quic /\ b.mode \notin {"TCP", "TLS"}))

Negotiate(server, client, quic) ==
  LET common == {k \in 1..Len(server) : server[k] \in SelToS(client)} IN
  IF Len(server) = 0 \/ Len(client) = 0 THEN IF quic /\ Len(server) # 0 THEN NoProto ELSE ""
  ELSE IF common # {} THEN server[SelFirst(common)]
  ELSE IF "h2" \in SelToS(server) /\ "http/1.1" \in SelToS(client) THEN ""
  ELSE NoProto

TCPBackend(bs, sn, alpn) ==
  LET ks == {k \in 1..Len(alpn) : WithKey(bs, sn, alpn[k]) # {}} IN
  IF sn = "" THEN 0
  ELSE IF ks # {} THEN SelFirst(WithKey(bs, sn, alpn[SelFirst(ks)])) ELSE SelFirst(WithName(bs, sn))

QUICBackend(bs, sn, alpn) ==
  LET ok(k) == {i \in WithKey(bs, sn, alpn[k]) : bs[i].mode # "TLSPASSTHROUGH" /\ alpn[k] \in SelToS(Offer(bs[i], TRUE))}
      ks == {k \in 1..Len(alpn) : ok(k) # {}}
  IN  IF sn = "" \/ ks = {} THEN 0 ELSE SelFirst(ok(SelFirst(ks)))
=============================================================================
