--------------------------------- MODULE SAML ---------------------------------
(* Login through a SAML identity provider (property P16).                    *)
(*                                                                           *)
(* The provider issues requests, and responses come back from anywhere. One  *)
(* tick is 140 s: a request can be answered at age 2, and not at age 3 (the  *)
(* limit is 5 minutes). A response is described by the way it differs from a *)
(* perfect one.                                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLogins, MaxAge,
          Faults    \* "all" or "few"
Lifetime == 2

VARIABLES logins,  \* sequence of [url, age, st]
          act, out
vars == <<logins, act, out>>

Login == [url: {"u1", "u2"}, age: 0..MaxAge, st: {"pending", "burnt", "used"}]
TypeOK == logins \in Seq(Login) /\ Len(logins) <= MaxLogins

\* Correct responses: must log the user in.
Fine == {"none", "cert2", "window"}
\* Correctly signed assertions with something else around or inside: either refused, or read exactly as signed.
Odd == {"comment", "cdata", "evilAfter", "evilExtra", "evilStatus", "secondAudience", "respSignedToo"}
\* Never good for a login.
Bad == {"wrongKey", "selfSigned", "unsigned", "tamperName", "tamperTo", "tamperAttr", "evilFirst", "evilOuter", "evilSigMoved",
        "evilIdRef", "recipient", "noRecipient", "audience", "noAudience", "expired", "notYet", "noWindow", "noName",
        "emptyName", "noTo", "get", "garbage", "notxml", "noAssertion", "truncated", "certOfOther", "sigOther"}
FewBad == {"wrongKey", "tamperTo", "evilFirst", "expired"}
BadSet == IF Faults = "all" THEN Bad ELSE FewBad
OddSet == IF Faults = "all" THEN Odd ELSE {"evilAfter"}

Init == logins = <<>> /\ act = [op |-> "init"] /\ out = [res |-> "none"]

Begin(u) ==
  /\ Len(logins) < MaxLogins
  /\ logins' = Append(logins, [url |-> u, age |-> 0, st |-> "pending"])
  /\ act' = [op |-> "begin", url |-> u]
  /\ out' = [res |-> "redirect", n |-> Len(logins) + 1]

Answerable(s) == s # 0 /\ logins[s].age <= Lifetime /\ logins[s].st = "pending"

(* A response to login s (0: a request that was never issued), for user w. *)
Respond(s, f, w) ==
  LET can == Answerable(s)
      res == IF ~can \/ f \in Bad THEN "refused" ELSE IF f \in Fine THEN "login" ELSE "either"
  IN
  /\ s # 0 => logins[s].st # "burnt"   \* whether a state survives a bad answer is unspecified
  /\ act' = [op |-> "respond", s |-> s, fault |-> f, user |-> w]
  /\ logins' = IF s = 0 \/ ~can THEN logins
               ELSE [logins EXCEPT ![s].st = IF res = "login" THEN "used" ELSE "burnt"]
  /\ out' = [res |-> res, n |-> s]

(* The same bytes that were accepted once are posted again. *)
Replay(s) ==
  /\ logins[s].st = "used"
  /\ act' = [op |-> "replay", s |-> s]
  /\ out' = [res |-> "refused", n |-> s]
  /\ UNCHANGED logins

Tick ==
  /\ \E k \in 1..Len(logins): logins[k].age < MaxAge
  /\ logins' = [k \in 1..Len(logins) |-> [logins[k] EXCEPT !.age = IF @ < MaxAge THEN @ + 1 ELSE @]]
  /\ act' = [op |-> "tick"] /\ out' = [res |-> "none"]

Next == \/ \E u \in {"u1", "u2"}: Begin(u)
        \/ \E s \in 0..Len(logins), f \in Fine \cup OddSet \cup BadSet, w \in {"alice", "bob"}: Respond(s, f, w)
        \/ \E s \in 1..Len(logins): Replay(s)
        \/ Tick
-----------------------------------------------------------------------------
LoginSound == [][ out'.res \in {"login", "either"} =>
                    /\ act'.op = "respond" /\ act'.fault \notin Bad
                    /\ act'.s # 0 /\ logins[act'.s].st = "pending" /\ logins[act'.s].age <= Lifetime
                    /\ logins'[act'.s].st # "pending" ]_vars
UsedStays == [][ \A k \in 1..Len(logins): logins[k].st = "used" => logins'[k].st = "used" ]_vars

View == [logins |-> logins, jt |-> act.op = "tick"]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
