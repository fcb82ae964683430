------------------------------ MODULE TokenKeys ------------------------------
(* The token manager: signing keys, their rotation and the tokens they sign  *)
(* (property P12). Time is counted in hours.                                 *)
(*                                                                           *)
(* Keys come in sets of one key per type. Every hour the manager renews the  *)
(* set when the newest one is older than a day, and retires keys older than  *)
(* a week. A retired key must not be one that signed in the last 20 hours.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Runs,      \* lengths of the periods for which the proxy runs
          Fails,     \* lengths of the periods in which the disk refuses writes
          Downs,     \* lengths of the periods for which the proxy is down
          MaxTokens, MaxNow, Depth,
          Policy     \* "overlap": a key is retired only once a younger key has been signing for a day;
                     \* "plain": retired as soon as it is a week old (not good enough, see DESIGN.md)

Week == 168
Types == {"EC", "RSA", "Ed"}
Lifetimes == {1, 20}

VARIABLES now, mem, disk, nkeys,
          tokens,    \* sequence of [key, type, at, exp]
          dirty,     \* hours since a write was last refused, capped (the daily renewal is suspended then)
          act, out
vars == <<now, mem, disk, nkeys, tokens, dirty, act, out>>

Key(t, n, born) == [t |-> t, n |-> n, born |-> born]
NewSet(n, h) == <<Key("EC", n, h), Key("RSA", n, h), Key("Ed", n, h)>>

\* Is there a key that is younger than k and has been around for a day?
Superseded(ks, k, h) == \E i \in 1..Len(ks): ks[i].born > k.born /\ ks[i].born + 24 <= h

Retire(ks, h) ==
  LET k == ks[1] IN
  IF k.born + Week <= h /\ (Policy = "overlap" => Superseded(ks, k, h)) THEN Tail(ks) ELSE ks

Renew(ks, n, h) ==
  IF ks = <<>> THEN NewSet(n, h)
  ELSE IF Last(ks).born + 24 <= h THEN ks \o NewSet(n, h) ELSE ks

\* One rotation at hour h, from what is on the disk.
Rotate(ks, n, h) == Retire(Renew(ks, n, h), h)

\* The keys after hours h+1 .. h+k, one rotation each.
RunK(ks, n, h, k) == FoldLeft(LAMBDA acc, i: Rotate(acc, n + i - 1, h + i), ks, [i \in 1..k |-> i])

Init == /\ now = 0 /\ nkeys = 1
        /\ mem = NewSet(0, 0) /\ disk = NewSet(0, 0)
        /\ tokens = <<>> /\ dirty = 0
        /\ act = [op |-> "init"] /\ out = [res |-> "none"]

Run(k) ==
  /\ now + k <= MaxNow
  /\ now' = now + k
  /\ disk' = RunK(disk, nkeys, now, k)
  /\ mem' = disk'
  /\ nkeys' = nkeys + k
  /\ dirty' = 0
  /\ act' = [op |-> "run", h |-> k] /\ UNCHANGED tokens

\* The disk refuses writes: every hour a rotation is computed from the old content and lost, except in memory.
Fail(k) ==
  /\ now + k <= MaxNow
  /\ now' = now + k
  /\ mem' = LET r == Rotate(disk, nkeys + k - 1, now + k) IN r
  /\ nkeys' = nkeys + k
  /\ dirty' = 1
  /\ act' = [op |-> "fail", h |-> k] /\ UNCHANGED <<tokens, disk>>

\* The proxy is stopped (or crashes) and starts again after k hours.
Down(k) ==
  /\ now + k <= MaxNow
  /\ now' = now + k
  /\ disk' = Rotate(disk, nkeys, now + k)
  /\ mem' = disk'
  /\ nkeys' = nkeys + 1
  /\ dirty' = 0
  /\ act' = [op |-> "down", h |-> k] /\ UNCHANGED tokens

\* The most recent key that is two hours old, or else the oldest.
Signer(t) ==
  LET I == {i \in 1..Len(mem): mem[i].t = t}
      J == {i \in I: mem[i].born + 2 <= now}
      best == IF J # {} THEN CHOOSE i \in J: \A j \in J: j <= i ELSE CHOOSE i \in I: \A j \in I: i <= j
  IN mem[best]

Issue(t, l) ==
  /\ Len(tokens) < MaxTokens
  /\ tokens' = Append(tokens, [key |-> Signer(t).n, t |-> t, at |-> now, exp |-> now + l])
  /\ act' = [op |-> "issue", t |-> t, life |-> l]
  /\ UNCHANGED <<now, mem, disk, nkeys, dirty>>

\* Everything an adversary might present.
Forge ==
  /\ act' = [op |-> "forge"]
  /\ UNCHANGED <<now, mem, disk, nkeys, tokens, dirty>>

Alive(tk) == now' < tk.exp
Next == /\ \/ \E k \in Runs: Run(k)
           \/ \E k \in Fails: Fail(k)
           \/ \E k \in Downs: Down(k)
           \/ \E t \in Types, l \in Lifetimes: Issue(t, l)
           \/ Forge
        /\ out' = [alive |-> [i \in 1..Len(tokens') |-> Alive(tokens'[i])],
                   renewed |-> dirty' = 0]
-----------------------------------------------------------------------------
\* Every unexpired token can be verified, here and with the keys that were published when it was issued.
AllVerifiable == \A i \in 1..Len(tokens): now < tokens[i].exp =>
                    \E j \in 1..Len(mem): mem[j].t = tokens[i].t /\ mem[j].n = tokens[i].key
Renewed == dirty = 0 => Last(mem).born + 24 > now
OneOfEach == \A t \in Types: \E j \in 1..Len(mem): mem[j].t = t
Sorted(s) == \A i \in 1..(Len(s) - 1): s[i].born <= s[i + 1].born
MemSorted == Sorted(mem) /\ Sorted(disk)

Rel(ks) == [i \in 1..Len(ks) |-> <<ks[i].t, IF now - ks[i].born > 250 THEN 250 ELSE now - ks[i].born>>]
Bound == TLCGet("level") <= Depth
View == [now |-> now, keys |-> mem, disk |-> disk, tokens |-> tokens]
\* Only differences of times matter, and expired tokens do not.
MCView == <<Rel(mem), Rel(disk), [i \in 1..Len(tokens) |-> IF now < tokens[i].exp
               THEN <<tokens[i].t, tokens[i].exp - now, \E j \in 1..Len(mem): mem[j].n = tokens[i].key,
                      \E j \in 1..Len(disk): disk[j].n = tokens[i].key>> ELSE <<>>]>>
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
