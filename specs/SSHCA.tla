------------------------------- MODULE SSHCA -------------------------------
(* The SSH certificate authority (property P20): which requests get a         *)
(* certificate, what is in it and for how long it is valid.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCerts, MaxAge,  \* in ticks of four minutes
          Users, Keys

VARIABLES ca,     \* for each of the two authorities: [key: identity of its signing key, up]
          certs,  \* sequence of [ca, user, key, age]
          fresh,  \* next key identity
          act, out
vars == <<ca, certs, fresh, act, out>>

CAs == {1, 2}
Ids == 1..Len(certs)
Init == /\ ca = [c \in CAs |-> [key |-> 0, up |-> FALSE]]
        /\ certs = <<>> /\ fresh = 1
        /\ act = [op |-> "init"] /\ out = [res |-> "none"]

Methods == {"POST", "GET", "PUT"}
CSRF == {"1", "none", "0"}
CTypes == {"text", "none", "other"}
Bodies == {"key", "comment", "options", "two", "cert", "private", "garbage", "empty", "huge"}
Claims == {"none", "noemail", "emptyemail", "listemail"}    \* of requests without a usable identity
HasKey == {"key", "comment", "options", "two"}

(* The authority is (re)started; its key is created the first time, unless it cannot be saved. *)
Start(c, kt, fail) ==
  /\ LET new == ca[c].key = 0 IN
     IF new /\ fail THEN /\ out' = [res |-> "error"] /\ ca' = [ca EXCEPT ![c].up = FALSE] /\ UNCHANGED fresh
     ELSE /\ ca' = [ca EXCEPT ![c] = [key |-> IF new THEN fresh ELSE @.key, up |-> TRUE]]
          /\ fresh' = IF new THEN fresh + 1 ELSE fresh
          /\ out' = [res |-> "ok", key |-> ca'[c].key]
  /\ act' = [op |-> "start", ca |-> c, kt |-> kt, fail |-> fail]
  /\ UNCHANGED certs

Request(c, u, m, x, ct, b, k) ==
  LET ok == u \in Users /\ m = "POST" /\ x = "1" /\ ct = "text" /\ b \in HasKey IN
  /\ ca[c].up
  /\ ok => Len(certs) < MaxCerts
  /\ act' = [op |-> "request", ca |-> c, u |-> u, m |-> m, x |-> x, ct |-> ct, b |-> b, k |-> k]
  /\ out' = [res |-> IF ok THEN "ok" ELSE "refused"]
  /\ certs' = IF ok THEN Append(certs, [ca |-> c, user |-> u, key |-> k, age |-> 0]) ELSE certs
  /\ UNCHANGED <<ca, fresh>>

(* What an SSH server that trusts authority c says about certificate i, used with key k as u. *)
Use(c, i, u, k) ==
  /\ ca[c].up
  /\ act' = [op |-> "use", ca |-> c, cert |-> i, u |-> u, k |-> k]
  /\ out' = [res |-> IF certs[i].ca = c /\ certs[i].user = u /\ certs[i].key = k /\ certs[i].age <= 2
                     THEN "ok" ELSE "refused"]
  /\ UNCHANGED <<ca, certs, fresh>>

Tick == /\ \E i \in Ids: certs[i].age < MaxAge
        /\ certs' = [i \in Ids |-> [certs[i] EXCEPT !.age = IF @ < MaxAge THEN @ + 1 ELSE @]]
        /\ act' = [op |-> "tick"] /\ out' = [res |-> "none"]
        /\ UNCHANGED <<ca, fresh>>

One(m, x, ct, b) == Cardinality({i \in 1..4: <<m, x, ct, b>>[i] # <<"POST", "1", "text", "key">>[i]}) <= 1
Next == \/ \E c \in CAs, kt \in {"ed25519", "ecdsa-p256"}, f \in BOOLEAN: Start(c, kt, f)
        \/ \E c \in CAs, u \in Users \cup Claims, m \in Methods, x \in CSRF, ct \in CTypes, b \in Bodies, k \in Keys:
             One(m, x, ct, b) /\ Request(c, u, m, x, ct, b, k)
        \/ \E c \in CAs, i \in Ids, u \in Users, k \in Keys: Use(c, i, u, k)
        \/ Tick

-----------------------------------------------------------------------------
KeyStays == [][ \A c \in CAs: ca[c].key # 0 => ca'[c].key = ca[c].key ]_vars
OwnEmail == [][ Len(certs') > Len(certs) => certs'[Len(certs')].user = act'.u /\ act'.m = "POST" /\ act'.x = "1" ]_vars
Expires == [][ (act'.op = "use" /\ out'.res = "ok") => certs[act'.cert].age * 4 < 11 ]_vars

View == [ca |-> ca, certs |-> certs]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
