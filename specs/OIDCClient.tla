----------------------------- MODULE OIDCClient -----------------------------
(* Login through an OpenID Connect provider (property P14).                  *)
(*                                                                           *)
(* Browsers start logins and come back with callbacks. Each login has its    *)
(* own state (which is also its nonce and is kept in a cookie of the         *)
(* browser) and PKCE verifier. One tick is 140 s: logins are valid at age 2  *)
(* (280 s) and expired at age 3 (420 s); the limit is 5 minutes.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLogins, MaxAge, Answers, \* "few" or "all" provider answers
          HDs                         \* hosted domain settings to explore
Lifetime == 2
Browsers == {"b1", "b2"}

VARIABLES logins,  \* sequence of [browser, url, age, st]
          cookie,  \* browser -> index of the login whose nonce the browser holds, 0 if none
          hd,      \* configured hosted domain: "" (none), "*" (any), or a domain
          mode,    \* the provider returns an ID token, or user info
          act, out
vars == <<logins, cookie, hd, mode, act, out>>

Login == [browser: Browsers, url: {"u1", "u2"}, age: 0..MaxAge, st: {"pending", "burnt", "used"}]
TypeOK == /\ logins \in Seq(Login) /\ Len(logins) <= MaxLogins
          /\ cookie \in [Browsers -> 0..MaxLogins]
          /\ \A b \in Browsers: cookie[b] <= Len(logins)

Init == /\ logins = <<>> /\ cookie = [b \in Browsers |-> 0]
        /\ hd \in HDs /\ mode \in {"idtoken", "userinfo"}
        /\ act = [op |-> "init"] /\ out = [res |-> "none"]

\* u1 belongs to b1 and u2 to b2 in the good case, but any browser can ask for any url.
Begin(b, u) ==
  /\ Len(logins) < MaxLogins
  /\ logins' = Append(logins, [browser |-> b, url |-> u, age |-> 0, st |-> "pending"])
  /\ cookie' = [cookie EXCEPT ![b] = Len(logins) + 1]
  /\ act' = [op |-> "begin", browser |-> b, url |-> u]
  /\ out' = [res |-> "redirect", n |-> Len(logins) + 1]
  /\ UNCHANGED <<hd, mode>>

(* What the provider answers. kind: "token" is a normal answer, "error" an OAuth error, "garbage" is not JSON,
   "empty" lacks any user information. nonce: the login whose nonce the ID token carries (0: none).
   verified: "true", "false" or "absent". hd: the hosted domain claim. email: present? *)
Good(s) == [kind |-> "token", nonce |-> s, verified |-> "true", hd |-> "example.com", email |-> TRUE]

AnswersFor(s) ==
  LET g == Good(s) IN
  {g} \cup
  (IF Answers = "all"
   THEN {[g EXCEPT !.nonce = k]: k \in 1..Len(logins)}
        \cup {[g EXCEPT !.verified = v, !.hd = h, !.email = e]:
                v \in {"true", "false", "absent"}, h \in {"", "example.com", "example.com.evil.net", "*"}, e \in BOOLEAN}
        \cup {[g EXCEPT !.kind = k]: k \in {"error", "garbage", "empty", "down"}}
   ELSE {[g EXCEPT !.nonce = k]: k \in 1..Len(logins)} \cup {[g EXCEPT !.verified = "false"], [g EXCEPT !.kind = "error"]})

HDOk(h) == hd = "" \/ (hd = "*" /\ h # "") \/ (hd # "*" /\ h = hd)

AnswerOK(a, s) ==
  /\ a.kind = "token" /\ a.email /\ a.verified # "false" /\ HDOk(a.hd)
  /\ mode = "userinfo" \/ a.nonce = s

(* Browser b calls back with the state of login s (0: a state that was never issued). *)
Callback(b, s, a) ==
  LET known == s # 0 /\ logins[s].age <= Lifetime
      match == known /\ logins[s].st = "pending" /\ cookie[b] = s
      ok == match /\ AnswerOK(a, s)
  IN
  /\ s # 0 => ~(logins[s].st = "burnt" /\ cookie[b] = s)  \* unspecified: a state that failed once may be dead or not
  /\ act' = [op |-> "callback", browser |-> b, s |-> s, ans |-> a]
  /\ logins' = IF s = 0 THEN logins
               ELSE [logins EXCEPT ![s].st = IF ok THEN "used" ELSE IF @ = "used" THEN "used" ELSE "burnt"]
  /\ cookie' = [cookie EXCEPT ![b] = 0]
  /\ out' = IF ok THEN [res |-> "login", url |-> logins[s].url, asked |-> TRUE, n |-> s]
            ELSE [res |-> "refused", asked |-> match, n |-> s]
  /\ UNCHANGED <<hd, mode>>

(* The browser gets hold of a cookie again, e.g. from its history: a replay with the old nonce. *)
Restore(b, k) ==
  /\ k \in 1..Len(logins) /\ logins[k].browser = b /\ cookie[b] # k
  /\ cookie' = [cookie EXCEPT ![b] = k]
  /\ act' = [op |-> "restore", browser |-> b, k |-> k]
  /\ out' = [res |-> "none"]
  /\ UNCHANGED <<logins, hd, mode>>

Tick ==
  /\ \E k \in 1..Len(logins): logins[k].age < MaxAge
  /\ logins' = [k \in 1..Len(logins) |-> [logins[k] EXCEPT !.age = IF @ < MaxAge THEN @ + 1 ELSE @]]
  /\ act' = [op |-> "tick"] /\ out' = [res |-> "none"]
  /\ UNCHANGED <<cookie, hd, mode>>

Next == \/ \E b \in Browsers, u \in {"u1", "u2"}: (u = "u1" \/ b = "b2") /\ Begin(b, u)
        \/ \E b \in Browsers, s \in 0..Len(logins): \E a \in AnswersFor(s): Callback(b, s, a)
        \/ \E b \in Browsers, k \in 1..Len(logins): Restore(b, k)
        \/ Tick

-----------------------------------------------------------------------------
\* A login happens only in the browser that began it, in time, and only once.
LoginSound ==
  [][ out'.res = "login" =>
        /\ logins[act'.s].browser = act'.browser
        /\ logins[act'.s].st = "pending" /\ logins'[act'.s].st = "used"
        /\ logins[act'.s].age <= Lifetime
        /\ act'.ans.verified # "false"
        /\ mode = "idtoken" => act'.ans.nonce = act'.s ]_vars
UsedStays == [][ \A k \in 1..Len(logins): logins[k].st = "used" => logins'[k].st = "used" ]_vars
CookieSound == \A b \in Browsers: cookie[b] # 0 => logins[cookie[b]].browser = b

View == [logins |-> logins, cookie |-> cookie, hd |-> hd, mode |-> mode, jt |-> act.op = "tick"]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
