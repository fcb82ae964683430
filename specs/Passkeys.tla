------------------------------ MODULE Passkeys ------------------------------
(* Passkey registration, login and key management (property P17).             *)
(* Browsers are named after the user who normally sits in front of them; the  *)
(* underlying identity provider always knows that user in that browser, but   *)
(* anybody's passkey can be used in any browser.                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Users, Askers, Allowed, MaxKeys, MaxChals, MaxVer, MaxDays,
          Sim  \* when simulating, try a few of the many things that get refused

VARIABLES keys,   \* sequence of [owner, live]
          rec,    \* rec[u]: version of the identity stored for u, 0 if u never registered
          old,    \* users whose stored identity is older than the refresh interval
          other,  \* other[b]: version of the login with the underlying provider in browser b, 0 if none
          sess,   \* sess[b]: passkey login of browser b: [k, sv, age, here], k = 0 if none
          chals,  \* sequence of [kind, b, ver, age, st]
          pend,   \* pend[b]: age of the login request that browser b was sent off with, 9 if there is none
          nv,     \* versions used so far
          days, act, out
vars == <<keys, rec, old, other, sess, chals, pend, nv, days, act, out>>

KeyIds == 1..Len(keys)
ChalIds == 1..Len(chals)
NoSess == [k |-> 0, sv |-> 0, age |-> 0, here |-> FALSE]
Live(u) == {k \in KeyIds: keys[k].owner = u /\ keys[k].live}
Faults == {"none", "fail", "crash", "late"}

Init == /\ keys = <<>> /\ rec = [u \in Users |-> 0] /\ old = {}
        /\ other = [u \in Users |-> 0] /\ sess = [u \in Users |-> NoSess]
        /\ chals = <<>> /\ pend = [u \in Users |-> 9] /\ nv = 0 /\ days = 0
        /\ act = [op |-> "init"] /\ out = [res |-> "none"]

(* Ticks are three minutes long; challenges last for five minutes, and a login is recent for ten. *)
ChalAge == 2
SessAge == 4

OtherLogin(b) ==
  /\ nv < MaxVer /\ nv' = nv + 1
  /\ other' = [other EXCEPT ![b] = nv + 1]
  /\ act' = [op |-> "otherlogin", b |-> b] /\ out' = [res |-> "none"]
  /\ UNCHANGED <<keys, rec, old, sess, chals, pend, days>>

NewChal(kind, b, ver) == chals' = Append(chals, [kind |-> kind, b |-> b, ver |-> ver, age |-> 0, st |-> "new"])
Spoil(c, good) == chals' = [chals EXCEPT ![c].st = IF good THEN "used" ELSE "tainted"]
(* After a crash all outstanding challenges are unknown. *)
Forget(cs) == [i \in 1..Len(cs) |-> [cs[i] EXCEPT !.age = ChalAge]]
LostPend == [u \in Users |-> IF pend[u] < 9 THEN ChalAge ELSE 9]
Fresh(c) == chals[c].age < ChalAge /\ chals[c].st = "new"
(* Challenges on which an attempt failed may or may not be usable again. *)
Usable(c) == chals[c].st # "tainted"

-----------------------------------------------------------------------------
(* First registration of a user who just logged in with the underlying provider. *)
RegOptions(b, form) ==
  LET ok == form = "good" /\ other[b] # 0 IN
  /\ ok => Len(chals) < MaxChals
  /\ act' = [op |-> "regoptions", b |-> b, form |-> form]
  /\ out' = [res |-> IF ok THEN "ok" ELSE "refused", exclude |-> IF ok THEN Live(b) ELSE {}]
  /\ IF ok THEN NewChal("reg", b, other[b]) ELSE UNCHANGED chals
  /\ UNCHANGED <<keys, rec, old, other, sess, nv, pend, days>>

RegForms == {"good", "type", "origin", "rpid", "noup", "nouv", "nocred", "garbage", "forged", "get", "nocsrf", "notoken"}

Register(b, c, form, here, fault) ==
  LET valid == /\ form = "good" /\ other[b] # 0 /\ b \in Allowed
               /\ chals[c].kind = "reg" /\ chals[c].b = b /\ chals[c].ver = other[b] /\ Fresh(c)
               /\ Live(b) = {}
      done == valid /\ fault \in {"none", "late"}
      crash == valid /\ fault \in {"crash", "late"}
      ok == valid /\ fault = "none"
  IN
  /\ Usable(c)
  /\ fault # "none" => valid
  /\ valid => Len(keys) < MaxKeys /\ nv < MaxVer
  /\ act' = [op |-> "register", b |-> b, c |-> c, form |-> form, here |-> here, fault |-> fault]
  /\ out' = [res |-> IF crash THEN "crash" ELSE IF ok THEN "ok" ELSE "refused", user |-> b, ver |-> other[b]]
  /\ keys' = IF done THEN Append(keys, [owner |-> b, live |-> TRUE]) ELSE keys
  /\ rec' = IF done /\ rec[b] = 0 THEN [rec EXCEPT ![b] = other[b]] ELSE rec
  /\ nv' = IF ok THEN nv + 1 ELSE nv
  /\ sess' = IF ok THEN [sess EXCEPT ![b] = [k |-> Len(keys) + 1, sv |-> nv + 1, age |-> 0, here |-> here]] ELSE sess
  /\ IF crash THEN chals' = Forget(chals) ELSE IF form \in {"get", "nocsrf", "notoken"} THEN UNCHANGED chals ELSE Spoil(c, ok)
  /\ pend' = IF crash THEN LostPend ELSE pend
  /\ UNCHANGED <<old, other, days>>

-----------------------------------------------------------------------------
LoginOptions(b, id, form) ==
  LET ok == form = "good" IN
  /\ ok => Len(chals) < MaxChals
  /\ act' = [op |-> "loginoptions", b |-> b, id |-> id, form |-> form]
  /\ out' = [res |-> IF ok THEN "ok" ELSE "refused", allowed |-> IF ok /\ id \in Users THEN Live(id) ELSE {}]
  /\ IF ok THEN NewChal("get", b, 0) ELSE UNCHANGED chals
  /\ UNCHANGED <<keys, rec, old, other, sess, nv, pend, days>>

LoginForms == {"good", "type", "rpid", "noup", "nouv", "sig", "tamper", "cdtamper", "garbage", "forged", "get", "nocsrf", "notoken"}
Handles == {"own", "loginid", "none", "foreign", "foreignid"}

Login(b, c, k, form, h, here, fault) ==
  LET u == keys[k].owner
      valid == form = "good" /\ h \in {"own", "loginid"} /\ chals[c].kind = "get" /\ Fresh(c) /\ keys[k].live
      done == valid /\ fault \in {"none", "late"}
      crash == valid /\ fault \in {"crash", "late"}
      refresh == done /\ b = u /\ other[b] # 0
      stale == u \in old /\ ~refresh
      ok == valid /\ fault = "none" /\ ~stale
  IN
  \* a registration challenge says so in the signed client data; whether it could be used to log in is left open
  /\ Usable(c) /\ chals[c].kind = "get"
  /\ fault # "none" => valid
  /\ ok => nv < MaxVer
  /\ act' = [op |-> "login", b |-> b, c |-> c, k |-> k, form |-> form, h |-> h, here |-> here, fault |-> fault]
  /\ out' = [res |-> IF crash THEN "crash" ELSE IF ok THEN "ok" ELSE IF valid /\ fault = "none" THEN "refresh" ELSE "refused",
             user |-> u, ver |-> IF refresh THEN other[b] ELSE rec[u]]
  /\ rec' = IF refresh THEN [rec EXCEPT ![u] = other[b]] ELSE rec
  /\ old' = IF refresh THEN old \ {u} ELSE old
  /\ nv' = IF ok THEN nv + 1 ELSE nv
  /\ sess' = IF ok THEN [sess EXCEPT ![b] = [k |-> k, sv |-> nv + 1, age |-> 0, here |-> here]] ELSE sess
  /\ IF crash THEN chals' = Forget(chals)
     ELSE IF form \in {"get", "nocsrf", "notoken"} THEN UNCHANGED chals ELSE Spoil(c, valid /\ fault = "none")
  /\ pend' = IF crash THEN LostPend ELSE pend
  /\ UNCHANGED <<keys, other, days>>

-----------------------------------------------------------------------------
Recent(b) == sess[b].k # 0 /\ sess[b].here /\ sess[b].age < SessAge
Owner(b) == keys[sess[b].k].owner

ManageOptions(b, form) ==
  LET ok == form = "good" /\ Recent(b) IN
  /\ ok => Len(chals) < MaxChals
  /\ act' = [op |-> "manageoptions", b |-> b, form |-> form]
  /\ out' = [res |-> IF ok THEN "ok" ELSE "refused", exclude |-> IF ok THEN Live(Owner(b)) ELSE {}]
  /\ IF ok THEN NewChal("mreg", b, sess[b].sv) ELSE UNCHANGED chals
  /\ UNCHANGED <<keys, rec, old, other, sess, nv, pend, days>>

ManageAdd(b, c, form, fault) ==
  LET valid == /\ form = "good" /\ Recent(b)
               /\ chals[c].kind = "mreg" /\ chals[c].b = b /\ chals[c].ver = sess[b].sv /\ Fresh(c)
      done == valid /\ fault \in {"none", "late"}
      crash == valid /\ fault \in {"crash", "late"}
      ok == valid /\ fault = "none"
  IN
  /\ Usable(c) /\ form # "notoken"
  /\ fault # "none" => valid
  /\ valid => Len(keys) < MaxKeys
  /\ act' = [op |-> "manageadd", b |-> b, c |-> c, form |-> form, fault |-> fault]
  /\ out' = [res |-> IF crash THEN "crash" ELSE IF ok THEN "ok" ELSE "refused"]
  /\ keys' = IF done THEN Append(keys, [owner |-> Owner(b), live |-> TRUE]) ELSE keys
  /\ IF crash THEN chals' = Forget(chals) ELSE IF form \in {"get", "nocsrf"} \/ ~Recent(b) THEN UNCHANGED chals ELSE Spoil(c, ok)
  /\ pend' = IF crash THEN LostPend ELSE pend
  /\ UNCHANGED <<rec, old, other, sess, nv, days>>

Delete(b, k, form, fault) ==
  LET valid == form = "good" /\ Recent(b) /\ sess[b].k # k
      own == valid /\ keys[k].owner = Owner(b) /\ keys[k].live
      done == own /\ fault \in {"none", "late"}
      crash == valid /\ fault \in {"crash", "late"}
  IN
  /\ fault # "none" => own
  /\ act' = [op |-> "delete", b |-> b, k |-> k, form |-> form, fault |-> fault]
  \* deleting what one doesn't have changes nothing, whatever the answer
  /\ out' = [res |-> IF crash THEN "crash" ELSE IF own /\ fault = "none" THEN "ok" ELSE IF valid /\ fault = "none" THEN "any" ELSE "refused"]
  /\ keys' = IF done THEN [keys EXCEPT ![k].live = FALSE] ELSE keys
  /\ chals' = IF crash THEN Forget(chals) ELSE chals
  /\ pend' = IF crash THEN LostPend ELSE pend
  /\ UNCHANGED <<rec, old, other, sess, nv, days>>

List(b) ==
  /\ act' = [op |-> "list", b |-> b]
  /\ out' = [res |-> IF Recent(b) THEN "ok" ELSE "refused", shown |-> IF Recent(b) THEN Live(Owner(b)) ELSE {}]
  /\ UNCHANGED <<keys, rec, old, other, sess, chals, nv, pend, days>>

Odd(b, what, k) ==
  /\ Recent(b)
  /\ act' = [op |-> "odd", b |-> b, what |-> what, k |-> k] /\ out' = [res |-> "refused"]
  /\ UNCHANGED <<keys, rec, old, other, sess, chals, nv, pend, days>>

-----------------------------------------------------------------------------
(* The proxy sends a browser to the login page, and the browser gets there. *)
Ask(b) == /\ b \in Askers
          /\ pend' = [pend EXCEPT ![b] = 0]
          /\ act' = [op |-> "ask", b |-> b] /\ out' = [res |-> "ok"]
          /\ UNCHANGED <<keys, rec, old, other, sess, chals, nv, days>>
Follow(b) == /\ pend[b] # 9
             /\ pend' = [pend EXCEPT ![b] = IF @ < ChalAge THEN ChalAge + 1 ELSE @]
             /\ act' = [op |-> "follow", b |-> b] /\ out' = [res |-> IF pend[b] < ChalAge THEN "ok" ELSE "refused"]
             /\ UNCHANGED <<keys, rec, old, other, sess, chals, nv, days>>

Tick == /\ \/ \E c \in ChalIds: chals[c].age < ChalAge
           \/ \E b \in Users: pend[b] < ChalAge
           \/ \E b \in Users: sess[b].k # 0 /\ sess[b].age < SessAge
        /\ chals' = [c \in ChalIds |-> [chals[c] EXCEPT !.age = IF @ < ChalAge THEN @ + 1 ELSE @]]
        /\ sess' = [b \in Users |-> [sess[b] EXCEPT !.age = IF sess[b].k # 0 /\ @ < SessAge THEN @ + 1 ELSE @]]
        /\ pend' = [b \in Users |-> IF pend[b] < ChalAge THEN pend[b] + 1 ELSE pend[b]]
        /\ act' = [op |-> "tick"] /\ out' = [res |-> "none"]
        /\ UNCHANGED <<keys, rec, old, other, nv, days>>

Day == /\ days < MaxDays /\ days' = days + 1
       /\ \E u \in Users: rec[u] # 0
       /\ old' = {u \in Users: rec[u] # 0}
       /\ other' = [u \in Users |-> 0] /\ sess' = [u \in Users |-> NoSess]
       /\ chals' = Forget(chals)
       /\ act' = [op |-> "day"] /\ out' = [res |-> "none"]
       /\ pend' = LostPend
       /\ UNCHANGED <<keys, rec, nv>>

Restart == /\ chals' = Forget(chals)
           /\ pend' = LostPend
           /\ act' = [op |-> "restart"] /\ out' = [res |-> "none"]
           /\ UNCHANGED <<keys, rec, old, other, sess, nv, days>>

One(S, T) == Cardinality({i \in DOMAIN S: S[i] # T[i]}) <= 1

Few(S) == IF Sim /\ S # {} THEN RandomSubset(1, {x \in S: nv >= 0}) ELSE S
Rarely == ~Sim \/ RandomElement({nv * 8 + i: i \in 0..7}) = nv * 8  \* depends on the state, or TLC would evaluate it only once
Good(S) == {"good"} \cup (IF Rarely THEN Few(S \ {"good"}) ELSE {})
FewFaults == {"none"} \cup (IF Rarely THEN Few(Faults \ {"none"}) ELSE {})
Tried(ks, b) == LET cs == {c \in ChalIds: chals[c].kind \in ks} IN
                IF ~Sim THEN cs ELSE Few({c \in cs: Fresh(c) /\ chals[c].b = b}) \cup Few(cs)
RegKinds == IF Sim THEN {"reg", "mreg"} ELSE {"reg", "mreg", "get"}

Next == \/ \E b \in Users: \/ (other[b] = 0 \/ Rarely) /\ OtherLogin(b)
                           \/ (Recent(b) \/ Rarely) /\ List(b)
                           \/ Rarely /\ (Ask(b) \/ Follow(b))
                           \/ \E f \in Good({"get", "nocsrf", "notoken"}): (Rarely \/ other[b] # 0) /\ RegOptions(b, f)
                           \/ \E f \in Good({"get", "nocsrf"}): (Recent(b) \/ Rarely) /\ ManageOptions(b, f)
                           \/ \E f \in Good({"get", "nocsrf", "notoken"}), id \in Few(Users \cup {"", "nobody"}): LoginOptions(b, id, f)
        \/ \E b \in Users: \E c \in Tried(RegKinds, b), f \in Good(RegForms), h \in BOOLEAN, x \in FewFaults:
             One(<<f, x>>, <<"good", "none">>) /\ (h \/ (f = "good" /\ x = "none")) /\ Register(b, c, f, h, x)
        \/ \E b \in Users: \E c \in Tried(RegKinds, b), f \in Good(RegForms), x \in FewFaults:
             One(<<f, x>>, <<"good", "none">>) /\ ManageAdd(b, c, f, x)
        \/ \E b \in Users: \E c \in Tried({"get"}, b), k \in Few(KeyIds), f \in Good(LoginForms), h \in {"own"} \cup Few(Handles \ {"own"}), e \in BOOLEAN, x \in FewFaults:
             One(<<f, x, h, e>>, <<"good", "none", "own", TRUE>>) /\ Login(b, c, k, f, h, e, x)
        \/ \E b \in Users, k \in Few(KeyIds), f \in Good({"get", "nocsrf"}), x \in FewFaults:
             One(<<f, x>>, <<"good", "none">>) /\ Delete(b, k, f, x)
        \/ \E b \in Users, w \in Few({"nosess", "nohash", "otherhost", "badid"}), k \in Few(KeyIds): Odd(b, w, k)
        \/ Tick
        \/ Rarely /\ (Day \/ Restart)

-----------------------------------------------------------------------------
(* The property. *)
OwnerOnly == [][ /\ \A k \in KeyIds: (keys[k].live /\ ~keys'[k].live) =>
                      /\ act'.op = "delete" /\ Recent(act'.b) /\ Owner(act'.b) = keys[k].owner /\ sess[act'.b].k # k
                 /\ Len(keys') > Len(keys) =>
                      \/ act'.op = "register" /\ other[act'.b] # 0 /\ act'.b \in Allowed /\ keys'[Len(keys')].owner = act'.b
                      \/ act'.op = "manageadd" /\ Recent(act'.b) /\ keys'[Len(keys')].owner = Owner(act'.b) ]_vars
RefusedChangesNothing == [][ out'.res = "refused" => UNCHANGED <<keys, rec, sess, old>> ]_vars
LoginByKey == [][ \A b \in Users: (sess'[b].k # 0 /\ sess'[b].sv # sess[b].sv) =>
                    /\ keys'[sess'[b].k].live
                    /\ act'.op = "login" => chals[act'.c].kind = "get" /\ chals[act'.c].age < ChalAge /\ chals[act'.c].st = "new" ]_vars
ChallengesOnce == [][ \A c \in ChalIds: ((chals[c].st # "new" \/ chals[c].age >= ChalAge) /\ "c" \in DOMAIN act' /\ act'.c = c)
                        => out'.res = "refused" ]_vars
Identity == [][ \A u \in Users: rec'[u] # rec[u] => rec'[u] = other[u] ]_vars

View == [keys |-> keys, rec |-> rec, old |-> old, other |-> other, sess |-> sess, chals |-> chals, pend |-> pend, nv |-> nv, days |-> days]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
