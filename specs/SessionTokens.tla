--------------------------- MODULE SessionTokens ---------------------------
(* Session ids and continuation (URL) tokens, property P13.                   *)
(*                                                                            *)
(* A browser holds one session cookie per host (the cookie has no domain).    *)
(* The proxy hands out signed tokens that carry a URL, extra claims and the   *)
(* session id of the browser and host that got it.                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Browsers, Hosts, MaxTok, MaxSid,
          Forged        \* number of session ids that were not made by the proxy (negative numbers)

VARIABLES jar,    \* browser -> host -> session id: 0 none, 1.. made by the proxy, negative: planted
          sids,   \* number of session ids made so far
          toks,   \* sequence of [sid]
          act, out
vars == <<jar, sids, toks, act, out>>

Sid == (0 - Forged)..MaxSid

TypeOK == /\ jar \in [Browsers -> [Hosts -> Sid]]
          /\ sids \in 0..MaxSid
          /\ toks \in Seq([sid: Sid \ {0}])

Init == /\ jar = [b \in Browsers |-> [h \in Hosts |-> 0]]
        /\ sids = 0 /\ toks = <<>>
        /\ act = [op |-> "init"] /\ out = [ok |-> FALSE, sid |-> 0]

(* The session id that a request of b to h has after the proxy looked at it. *)
SidOf(b, h) == IF jar[b][h] # 0 THEN jar[b][h] ELSE sids + 1
Touch(b, h) == /\ jar' = [jar EXCEPT ![b][h] = SidOf(b, h)]
               /\ sids' = IF jar[b][h] # 0 THEN sids ELSE sids + 1

Issue(b, h) ==
  /\ Len(toks) < MaxTok /\ (jar[b][h] = 0 => sids < MaxSid)
  /\ Touch(b, h)
  /\ toks' = Append(toks, [sid |-> SidOf(b, h)])
  /\ act' = [op |-> "issue", b |-> b, h |-> h]
  /\ out' = [ok |-> TRUE, sid |-> SidOf(b, h)]

(* How the token was tampered with on its way. nourl and nosid are tokens which the proxy really signed, for  *)
(* another purpose: without a URL (but with the session id of this very request), or without a session id.   *)
Mutations == {"none", "sig", "payload", "alg", "other", "trunc", "empty"}

Use(b, h, k, m) ==
  /\ act' = [op |-> "use", b |-> b, h |-> h, k |-> k, m |-> m]
  /\ LET ok == m = "none" /\ toks[k].sid = jar[b][h] IN out' = [ok |-> ok, sid |-> jar[b][h]]
  /\ UNCHANGED <<jar, sids, toks>>

Other(b, h, m) ==
  /\ act' = [op |-> "use", b |-> b, h |-> h, k |-> 0, m |-> m]
  /\ out' = [ok |-> FALSE, sid |-> jar[b][h]]
  /\ UNCHANGED <<jar, sids, toks>>

Clear(b, h) ==
  /\ jar[b][h] # 0
  /\ jar' = [jar EXCEPT ![b][h] = 0]
  /\ act' = [op |-> "clear", b |-> b, h |-> h] /\ out' = [ok |-> TRUE, sid |-> 0]
  /\ UNCHANGED <<sids, toks>>

(* A cookie gets from one jar to another (stolen), or is planted. *)
Plant(b, h, s) ==
  /\ s # 0 /\ s # jar[b][h] /\ s <= sids
  /\ jar' = [jar EXCEPT ![b][h] = s]
  /\ act' = [op |-> "plant", b |-> b, h |-> h, sid |-> s] /\ out' = [ok |-> TRUE, sid |-> s]
  /\ UNCHANGED <<sids, toks>>

Next == \E b \in Browsers, h \in Hosts:
          \/ Issue(b, h)
          \/ \E k \in 1..Len(toks), m \in Mutations: Use(b, h, k, m)
          \/ \E m \in {"nourl", "nosid", "garbage"}: Other(b, h, m)
          \/ Clear(b, h)
          \/ \E s \in Sid: Plant(b, h, s)

-----------------------------------------------------------------------------
\* Accepted only in the session it was issued to.
Bound == [][ (act'.op = "use" /\ out'.ok) => /\ act'.k \in 1..Len(toks) /\ toks[act'.k].sid = jar[act'.b][act'.h] ]_vars
\* A session never changes under a browser that has one.
Stable == [][ \A b \in Browsers, h \in Hosts: (jar[b][h] # 0 /\ act'.op \in {"issue", "use"}) => jar'[b][h] = jar[b][h] ]_vars
\* Session ids made by the proxy are not handed out twice, nor to two (browser, host) pairs.
Fresh == [][ (act'.op = "issue" /\ jar[act'.b][act'.h] = 0) =>
               \A b \in Browsers, h \in Hosts: jar[b][h] # out'.sid ]_vars

View == [jar |-> jar, sids |-> sids, toks |-> toks]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
