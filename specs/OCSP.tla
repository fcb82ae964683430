-------------------------------- MODULE OCSP --------------------------------
(* Certificate status by OCSP (property P21): stapled, fetched and cached     *)
(* responses, expiry, and restarts.                                           *)
(*                                                                            *)
(* A responder's answer to one request is a parameter of the action. A tick   *)
(* is an hour; answers are good for two and a half. The cache is written out  *)
(* at each tick.                                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, Randomization

CONSTANTS Families, StapleKinds, Sim

(* L1 and L3 and the two-responder L2 are end entity certificates, J is I without a responder (same name and key), *)
(* R the root, and S stands alone.                                                                                 *)
Chains(f) == CASE f = "L1" -> << <<"L1", "I", "R">> >>
               [] f = "L2" -> << <<"L2", "I", "R">> >>
               [] f = "L3" -> << <<"L3", "I", "R">> >>
               [] f = "L1J" -> << <<"L1", "J", "R">> >>
               [] f = "X1" -> << <<"L1", "I", "R">>, <<"L1", "J", "R">> >>
               [] f = "X3" -> << <<"L3", "I", "R">>, <<"L3", "J", "R">> >>
               [] f = "S" -> << <<"S">> >>
               [] f = "none" -> << >>
Servers(c) == CASE c \in {"L1", "I", "S"} -> 1 [] c = "L2" -> 2 [] OTHER -> 0
Cached == {"L1", "L2", "I", "S"}

VARIABLES cache,  \* Cached -> [st, age]; st "none" if there is no entry; age 3: not current
          saved,  \* what a restart will find
          act, out
vars == <<cache, saved, act, out>>

None == [st |-> "none", age |-> 3]
Init == /\ cache = [c \in Cached |-> None] /\ saved = cache
        /\ act = [op |-> "init"] /\ out = [res |-> "none"]

(* What an answer is worth. "delegate" is signed by a certificate that the issuer made for that, "peer" by one it made for *)
(* something else, "self" with the key of the certificate itself, "foreign" and "wrongsig" by somebody else, "other" is    *)
(* about another certificate. "nonext" has no next update.                                                               *)
Usable == {"good", "revoked", "unknown", "nonext", "delegate", "delrevoked"}
Useless == {"other", "wrongsig", "foreign", "peer", "self", "expdelegate", "expired", "future", "tampered", "trylater", "garbage", "down"}
Kinds == Usable \cup Useless
Status(k) == CASE k \in {"good", "nonext", "delegate"} -> "good" [] k \in {"revoked", "delrevoked"} -> "revoked"
               [] k = "unknown" -> "unknown" [] OTHER -> "error"
Entry(k) == [st |-> Status(k), age |-> IF k = "nonext" THEN 3 ELSE 0]
Current(e, margin) == e.st # "none" /\ e.age + margin < 3

(* Looks up certificate c; a is the answers of its responders, asked in turn until one says good or revoked. *)
Lookup(cc, c, a, margin) ==
  IF Current(cc[c], margin) THEN [cache |-> cc, st |-> cc[c].st]
  ELSE LET k == IF Servers(c) = 2 /\ Status(a[1]) \notin {"good", "revoked"} THEN a[2] ELSE a[1] IN
       [cache |-> IF k \in Usable THEN [cc EXCEPT ![c] = Entry(k)] ELSE cc, st |-> Status(k)]

Answers(c, leaf, leaf2, int) == IF c = "I" THEN <<int, int>> ELSE <<leaf, leaf2>>

(* One chain: all of its certificates, until one isn't good. *)
WalkChain(cc, chain, l, l2, i) ==
  FoldLeft(LAMBDA s, c: IF ~s.ok \/ Servers(c) = 0 THEN s
                        ELSE LET r == Lookup(s.cache, c, Answers(c, l, l2, i), 0) IN [cache |-> r.cache, ok |-> r.st = "good"],
           [cache |-> cc, ok |-> TRUE], chain)
Walk(cc, chains, l, l2, i) ==
  FoldLeft(LAMBDA s, ch: IF s.ok THEN s ELSE WalkChain(s.cache, ch, l, l2, i), [cache |-> cc, ok |-> FALSE], chains)

Leaf(f) == Chains(f)[1][1]
Verify(f, sk, l, l2, i) ==
  LET long == f # "none" /\ Len(Chains(f)[1]) > 1
      takes == long /\ Leaf(f) \in Cached /\ Status(sk) = "good" /\ sk # "nonext"
      trick == takes /\ cache[Leaf(f)].st = "revoked"
      c0 == IF takes THEN [cache EXCEPT ![Leaf(f)] = Entry(sk)] ELSE cache
      w == IF f = "none" THEN [cache |-> cache, ok |-> TRUE] ELSE Walk(c0, Chains(f), l, l2, i)
  IN
  \* whether a good answer can follow after an answer that said revoked has expired is left open
  /\ trick => cache[Leaf(f)].age < 3
  /\ act' = [op |-> "verify", f |-> f, staple |-> sk, leaf |-> l, leaf2 |-> l2, int |-> i]
  /\ out' = [res |-> IF trick \/ ~w.ok THEN "reject" ELSE "ok"]
  /\ cache' = IF trick THEN cache ELSE w.cache
  /\ UNCHANGED saved

(* The answer that the proxy staples to its own certificate; it should be good for another hour. *)
Response(c, l, l2) ==
  LET r == Lookup(cache, c, <<l, l2>>, 1) IN
  /\ act' = [op |-> "response", c |-> c, leaf |-> l, leaf2 |-> l2]
  /\ IF c \in Cached THEN out' = [res |-> r.st] /\ cache' = r.cache ELSE out' = [res |-> "error"] /\ UNCHANGED cache
  /\ UNCHANGED saved

Older(m) == [c \in Cached |-> [m[c] EXCEPT !.age = IF @ < 3 THEN @ + 1 ELSE 3]]
Alive(m) == [c \in Cached |-> IF m[c].age < 3 THEN m[c] ELSE None]
Tick(f) ==
  /\ act' = [op |-> "tick", f |-> f] /\ out' = [res |-> "none"]
  /\ cache' = Older(cache)
  /\ saved' = Alive(IF f = "ok" THEN Older(cache) ELSE Older(saved))

Restart ==
  /\ act' = [op |-> "restart"] /\ out' = [res |-> "none"]
  /\ cache' = saved /\ UNCHANGED saved

(* Very many certificates: the cache doesn't keep them all. (Then somebody removes the file.) *)
Flood == /\ Sim /\ act.op = "restart" /\ act' = [op |-> "flood"] /\ out' = [res |-> "bounded"]
         /\ cache' = [c \in Cached |-> None] /\ saved' = cache'

Few(S) == IF Sim THEN RandomSubset(IF act.op = "init" THEN 1 ELSE 1, S) ELSE S
Mostly(S) == IF Sim THEN {"good"} \cup RandomSubset(IF act.op = "init" THEN 1 ELSE 1, S) ELSE S
Rarely == ~Sim \/ RandomElement(IF act.op = "init" THEN {1, 2, 3, 4} ELSE 1..4) = 1
(* At most one thing is out of the ordinary (unless simulating). *)
One(s, l, l2, i) == Sim \/ Cardinality({x \in {<<1, l>>, <<2, l2>>, <<3, i>>}: x[2] # "good"})
                           + (IF s \in {"none", "good", "revoked", "peer"} THEN 0 ELSE 1) <= 1

Next == \/ \E f \in Few(Families), sk \in IF Sim THEN {"none"} \cup Few(StapleKinds) ELSE StapleKinds, l, i \in Mostly(Kinds):
             \E l2 \in IF f = "L2" THEN Mostly(Kinds) ELSE {l}:
               /\ One(sk, l, IF f = "L2" THEN l2 ELSE "good", i)
               /\ f \in {"L3", "X3", "none"} => l = "good" /\ l2 = "good"
               /\ f \in {"L1J", "S", "none"} => i = "good"
               /\ f = "S" => l \notin {"self", "peer", "delegate", "delrevoked", "expdelegate"}
               /\ Verify(f, sk, l, l2, i)
        \/ \E c \in Few(UNION {ToSet(Chains(f)[1]): f \in Families \ {"S", "none"}} \cap {"L1", "L2", "L3"}), l \in Mostly(Kinds):
             \E l2 \in IF c = "L2" THEN Mostly(Kinds) ELSE {l}: One("none", l, IF c = "L2" THEN l2 ELSE "good", "good") /\ Response(c, l, l2)
        \/ Rarely /\ \E f \in {"ok", "fail"}: Tick(f)
        \/ Rarely /\ Restart
        \/ Rarely /\ Flood

-----------------------------------------------------------------------------
TypeOK == \A c \in Cached: (cache[c].st = "none" => cache[c].age = 3) /\ cache[c].st # "error"
(* The property: an accepted chain has only certificates whose current answer is good. *)
Accepted == [][ (act'.op = "verify" /\ out'.res = "ok" /\ act'.f # "none") =>
                  \E n \in 1..Len(Chains(act'.f)): \A c \in ToSet(Chains(act'.f)[n]):
                     Servers(c) = 0 \/ cache'[c].st = "good" ]_vars
RevokedRejects == [][ (act'.op = "verify" /\ act'.f \in {"L1", "L2", "S", "L1J"} /\ Current(cache[Leaf(act'.f)], 0)
                       /\ cache[Leaf(act'.f)].st # "good" /\ (act'.staple \in Useless \cup {"none"} \/ cache[Leaf(act'.f)].st = "revoked"))
                      => out'.res = "reject" ]_vars
NothingComesBack == [][ act'.op = "restart" => \A c \in Cached: Current(cache'[c], 0) => cache'[c].st # "none" ]_vars

View == [cache |-> cache, saved |-> saved]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
