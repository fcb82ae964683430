------------------------------- MODULE Conns -------------------------------
(* The connections of a proxy: how many there can be, which of them the proxy keeps track of, and
   what a shutdown does to them.

   A connection occupies a place from the moment it reaches the proxy until it is gone, whatever
   stage it is in. A connection is refused when it is the maxOpen-th one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Randomization

CONSTANTS NSlots,   \* connections of the client
          NKinds,   \* kinds of connections of one behaviour
          Mod, Rem

VARIABLES kinds,    \* the kinds in use
          max,      \* maxOpen
          slots,    \* sequence of [k, st]; st "-" is a free slot
          phase,    \* up, down (shutting down), stopped
          act, out
vars == <<kinds, max, slots, phase, act, out>>

\* tcp, pass, tq: bytes to a TCP server, undecrypted, to a QUIC server. http, h2, local: requests.
\* quic, qq, h3: QUIC connections to a TCP backend, a QUIC backend, an HTTP backend.
TcpKinds == {"tcp", "pass", "tq", "http", "h2", "local"}
QuicKinds == {"quic", "qq", "h3"}
AllKinds == TcpKinds \cup QuicKinds
HttpTcp == {"http", "h2", "local"}
Reqs == {"http", "h2", "h3"}                    \* kinds whose requests can be held by the server
\* raw: nothing was sent. half: a part of the ClientHello. hs: all but the end of the handshake.
\* idle: in use, nothing happening. busy: with a request being served. lame: like busy, and the
\* connection ends with the request. fin: the client won't send any more.
Stages(k) == IF k \in QuicKinds THEN {"idle"} ELSE {"raw", "half", "idle"} \cup (IF k = "pass" THEN {} ELSE {"hs"})
Free == [k |-> "-", st |-> "-"]
Open == {i \in 1..NSlots: slots[i].st # "-"}
Tracked == Cardinality(Open)
FreeSlots == {i \in 1..NSlots: slots[i].st = "-"}
Full == Tracked + 1 >= max
Slot(k, st) == [k |-> k, st |-> st]

\* What the proxy waits for when it shuts down.
Blocks(s) == \/ s.st \in {"raw", "half"}
             \/ s.k \in HttpTcp /\ s.st \in {"hs", "busy", "lame"}
             \/ s.k = "tq" /\ s.st \in {"hs", "idle"}
AnyBlocks(ss) == \E i \in 1..NSlots: Blocks(ss[i])

Op(a, o) == /\ act' = a /\ out' = o
\* The slots change to ss. When the proxy is shutting down and nothing needs it any more, it stops.
Settle(ss) ==
  IF phase = "down" /\ ~AnyBlocks(ss)
  THEN /\ phase' = "stopped" /\ slots' = [i \in 1..NSlots |-> Free]
  ELSE /\ phase' = phase /\ slots' = ss
Set(i, s) == Settle([slots EXCEPT ![i] = s])
Same == UNCHANGED <<kinds, max>>

Init ==
  /\ LET all == SetToSeq({K \in SUBSET AllKinds: Cardinality(K) = NKinds})
     IN \E i \in 1..Len(all): i % Mod = Rem /\ kinds = all[i]
  /\ max \in 2..(NSlots + 2)
  /\ slots = [i \in 1..NSlots |-> Free]
  /\ phase = "up"
  /\ act = [op |-> "init"] /\ out = [res |-> "none"]

New == CHOOSE i \in FreeSlots: \A j \in FreeSlots: i <= j

OpenConn(k, st) ==
  /\ FreeSlots # {}
  /\ phase # "stopped"
  /\ IF phase = "down" THEN Op([op |-> "open", s |-> New, k |-> k, st |-> st], [res |-> "gone"]) /\ UNCHANGED <<slots, phase>>
     ELSE IF Full THEN Op([op |-> "open", s |-> New, k |-> k, st |-> st], [res |-> "refused"]) /\ UNCHANGED <<slots, phase>>
     ELSE Op([op |-> "open", s |-> New, k |-> k, st |-> st], [res |-> "ok"]) /\ Set(New, Slot(k, st))
  /\ Same

\* The client goes on with a connection that isn't established.
NextSt(s) == CASE s.st = "raw" -> {"half"}
               [] s.st = "half" -> IF s.k = "pass" THEN {"idle"} ELSE {"hs", "idle"}
               [] s.st = "hs" -> {"idle"}
               [] OTHER -> {}
\* Backends that serve requests take no new connections when they are shutting down. When nothing
\* else needs the proxy, it can stop before the connection gets anywhere.
Advance(i) ==
  /\ \E st \in NextSt(slots[i]):
       IF phase = "down" /\ slots[i].k \in HttpTcp /\ st # "half"
       THEN Op([op |-> "advance", s |-> i, st |-> st], [res |-> "refused"]) /\ Set(i, Free)
       ELSE LET ss == [slots EXCEPT ![i] = Slot(slots[i].k, st)]
            IN Op([op |-> "advance", s |-> i, st |-> st], [res |-> IF phase = "down" /\ ~AnyBlocks(ss) THEN "any" ELSE "ok"]) /\ Settle(ss)
  /\ Same

\* The client goes away, politely or not, or sends something that isn't a handshake.
Close(i, how) ==
  /\ slots[i].st # "-"
  /\ how = "garbage" => slots[i].st \in {"raw", "half", "hs"}
  /\ how = "rst" => slots[i].k \in TcpKinds
  /\ Op([op |-> "close", s |-> i, how |-> how], [res |-> "ok"])
  /\ Set(i, Free)
  /\ Same

\* The server closes the connection.
ServerClose(i) ==
  /\ slots[i].k \in {"tcp", "pass"} /\ slots[i].st \in {"idle", "fin"}
  /\ Op([op |-> "srvclose", s |-> i], [res |-> "closed"])
  /\ Set(i, Free)
  /\ Same

HalfClose(i) ==
  /\ slots[i].k \in {"tcp", "pass"} /\ slots[i].st = "idle"
  /\ Op([op |-> "fin", s |-> i], [res |-> "ok"])
  /\ Set(i, Slot(slots[i].k, "fin"))
  /\ Same

Request(i) ==
  /\ slots[i].k \in Reqs /\ slots[i].st = "idle"
  /\ Op([op |-> "req", s |-> i], [res |-> "ok"])
  /\ Set(i, Slot(slots[i].k, "busy"))
  /\ Same
Finish(i) ==
  /\ slots[i].st \in {"busy", "lame"}
  /\ Op([op |-> "finish", s |-> i], [res |-> IF slots[i].st = "lame" THEN "closed" ELSE "ok"])
  /\ Set(i, IF slots[i].st = "lame" THEN Free ELSE Slot(slots[i].k, "idle"))
  /\ Same

\* Connections that come to nothing leave no trace.
BadKinds == {"garbage", "noSNI", "unknown", "noProto", "down", "noCert", "denied", "truncated", "acme", "quicUnknown", "quicDown", "quicDenied", "silent"}
Bad(b) ==
  /\ phase = "up"
  /\ Op([op |-> "bad", b |-> b], [res |-> "refused"])
  /\ UNCHANGED <<slots, phase>> /\ Same

\* n connections at the same time: as many as there is room for are served.
Burst(n, k) ==
  /\ phase = "up"
  /\ Op([op |-> "burst", n |-> n, k |-> k], [res |-> "ok", ok |-> LET room == max - 1 - Tracked IN IF room < 0 THEN 0 ELSE IF n < room THEN n ELSE room])
  /\ UNCHANGED <<slots, phase>> /\ Same

\* Connections that come and go: there are never more than there is room for.
Churn(n) ==
  /\ phase = "up"
  /\ Op([op |-> "churn", n |-> n], [res |-> "ok", room |-> max - 1 - Tracked])
  /\ UNCHANGED <<slots, phase>> /\ Same

\* The limit changes. Connections that aren't in use and carry requests are closed gracefully.
Drain(s) == IF s.k \in HttpTcp /\ s.st = "idle" THEN Free ELSE IF s.k \in HttpTcp /\ s.st = "busy" THEN Slot(s.k, "lame") ELSE s
Reconf(m) ==
  /\ phase = "up" /\ m # max
  /\ \A i \in 1..NSlots: slots[i].k \notin QuicKinds /\ ~(slots[i].k \in HttpTcp /\ slots[i].st = "hs")
  /\ Op([op |-> "reconf", max |-> m], [res |-> "ok"])
  /\ slots' = [i \in 1..NSlots |-> Drain(slots[i])]
  /\ max' = m
  /\ UNCHANGED <<phase, kinds>>

Shutdown ==
  /\ phase = "up"
  /\ Op([op |-> "shutdown"], [res |-> "ok"])
  /\ LET ss == [i \in 1..NSlots |-> IF slots[i].k \in QuicKinds THEN Free ELSE Drain(slots[i])]
     IN IF AnyBlocks(ss) THEN phase' = "down" /\ slots' = ss
        ELSE phase' = "stopped" /\ slots' = [i \in 1..NSlots |-> Free]
  /\ Same

\* Shutdown's context ends, or the proxy is stopped.
Stop(how) ==
  /\ how = "cancel" => phase = "down"
  /\ how = "stop" => phase = "up"
  /\ phase # "stopped"
  /\ Op([op |-> how], [res |-> "ok"])
  /\ phase' = "stopped" /\ slots' = [i \in 1..NSlots |-> Free]
  /\ Same

\* While a shutdown waits for n connections, all of them end at the same time.
Rush(n, m) ==
  /\ phase = "up" /\ Tracked = 0
  /\ Op([op |-> "rush", n |-> n, m |-> m], [res |-> "ok"])
  /\ phase' = "stopped"
  /\ UNCHANGED slots /\ Same

Next ==
  \/ \E k \in kinds: \E st \in Stages(k): OpenConn(k, st)
  \/ \E i \in 1..NSlots: Advance(i) \/ ServerClose(i) \/ HalfClose(i) \/ Request(i) \/ Finish(i)
  \/ \E i \in 1..NSlots, how \in {"close", "rst", "garbage"}: Close(i, how)
  \/ \E b \in BadKinds: Bad(b)
  \/ \E k \in kinds: Burst(NSlots + 3, k)
  \/ Churn(3)
  \/ \E m \in 2..(NSlots + 2): Reconf(m)
  \/ Shutdown \/ Stop("cancel") \/ Stop("stop")

\* For simulation: behaviours that don't end at once.
Now(S) == {x \in S: max = max}
Pick(S) == RandomSubset(1, Now(S))
NextSim ==
  \E c \in Pick(1..40):
    IF phase = "up" /\ c = 1 THEN Shutdown
    ELSE IF phase = "up" /\ c <= 4 THEN \E b \in Pick(BadKinds): Bad(b)
    ELSE IF phase = "up" /\ c <= 6 THEN \E k \in Pick(kinds): Burst(NSlots + 3, k)
    ELSE IF phase = "up" /\ c = 7 THEN Churn(3)
    ELSE IF c <= 20 \/ Open = {} THEN \E k \in Pick(kinds): \E st \in Pick(Stages(k)): IF FreeSlots # {} /\ phase # "stopped" THEN OpenConn(k, st) ELSE Shutdown \/ Reconf(max) \/ Churn(2)
    ELSE \/ \E i \in 1..NSlots: Advance(i) \/ HalfClose(i) \/ Request(i) \/ Finish(i)
         \/ \E i \in 1..NSlots, how \in Pick({"close", "rst", "garbage"}): (Cardinality(Now({1})) = 1 /\ Close(i, how)) \/ ServerClose(i)
         \/ \E m \in Pick(2..(NSlots + 2)): Reconf(m)

NextRush == (\E n \in 20..40: Rush(n, 100)) \/ (phase = "stopped" /\ Op([op |-> "end"], [res |-> "ok"]) /\ UNCHANGED <<slots, phase>> /\ Same)

-----------------------------------------------------------------------------
\* There are never as many connections as maxOpen, unless the limit was lowered under them.
Bounded == [][ Tracked' > Tracked => Tracked' < max' ]_vars
\* Connections that come to nothing don't change what the others have.
NoTrace == [][ act'.op \in {"bad", "burst", "churn"} => slots' = slots /\ phase' = phase ]_vars
\* A shutdown ends requests that are being served only when its time is up.
Graceful == [][ \A i \in 1..NSlots: slots[i].st \in {"busy", "lame"} /\ slots[i].k \in HttpTcp /\ slots'[i].st = "-" =>
                  (act'.op \in {"finish", "close"} /\ act'.s = i) \/ act'.op \in {"cancel", "stop"} ]_vars
\* A shutdown isn't left pending when there is nothing to wait for, and nothing survives it.
Ends == /\ phase = "down" => AnyBlocks(slots)
        /\ phase = "stopped" => Tracked = 0

View == [kinds |-> kinds, max |-> max, slots |-> slots, phase |-> phase]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
