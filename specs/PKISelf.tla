------------------------------ MODULE PKISelf ------------------------------
(* Certificate self-service (property P19): who can get, see, download and    *)
(* revoke which certificates through the management endpoint.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCerts, Users  \* "none" is a request without an authenticated user

VARIABLES certs,  \* sequence of [owner, rev, exp]; owner "server" if it was issued to nobody (by the proxy)
          act, out
vars == <<certs, act, out>>

Ids == 1..Len(certs)
Init == /\ certs = <<[owner |-> "server", rev |-> FALSE, exp |-> FALSE]>>
        /\ act = [op |-> "init"] /\ out = [res |-> "none"]

(* How a request that changes the state may be defective. *)
Forms == {"good", "get", "put", "nocsrf", "csrf0", "ctype"}
CSRs == {"plain", "label", "spoof", "dns", "badsig", "notpem", "empty"}

Request(u, form, csr) ==
  LET ok == u # "none" /\ form = "good" /\ csr \in {"plain", "label", "spoof", "dns"} IN
  /\ ok => Len(certs) < MaxCerts
  /\ act' = [op |-> "request", u |-> u, form |-> form, csr |-> csr]
  /\ out' = [res |-> IF ok THEN "ok" ELSE "refused"]
  /\ certs' = IF ok THEN Append(certs, [owner |-> u, rev |-> FALSE, exp |-> FALSE]) ELSE certs

Revoke(u, adm, form, k) ==
  LET c == certs[k]
      may == u # "none" /\ (c.owner = u \/ (u = "admin" /\ adm))
      ok == may /\ form \in {"good", "ctype"} /\ ~c.rev /\ ~c.exp
  IN
  /\ act' = [op |-> "revoke", u |-> u, adm |-> adm, form |-> form, k |-> k]
  /\ out' = [res |-> IF ok THEN "ok" ELSE "refused"]
  /\ certs' = IF ok THEN [certs EXCEPT ![k].rev = TRUE] ELSE certs

RevokeUnknown(u, adm, sn) ==
  /\ act' = [op |-> "revokeunknown", u |-> u, adm |-> adm, sn |-> sn]
  /\ out' = [res |-> "refused"] /\ UNCHANGED certs

Status(k) == IF certs[k].rev THEN "revoked" ELSE IF certs[k].exp THEN "expired" ELSE "valid"
List(u, adm, owner, status, form) ==
  /\ act' = [op |-> "list", u |-> u, adm |-> adm, owner |-> owner, status |-> status]
  /\ out' = [res |-> IF u = "none" THEN "refused" ELSE "ok",
             shown |-> {k \in Ids: u # "none" /\ (owner = "all" \/ certs[k].owner = u)
                                   /\ (status = "all" \/ Status(k) = (IF status = "" THEN "valid" ELSE status))}]
  /\ UNCHANGED certs

Download(u, k, form) ==
  /\ act' = [op |-> "download", u |-> u, k |-> k, form |-> form]
  /\ out' = [res |-> IF u # "none" /\ form = "get" /\ ~certs[k].rev THEN "ok" ELSE "refused"]
  /\ UNCHANGED certs

Odd(u, what) ==
  /\ act' = [op |-> "odd", u |-> u, what |-> what] /\ out' = [res |-> "refused"]
  /\ UNCHANGED certs

Expire == /\ \E k \in Ids: ~certs[k].exp
          /\ certs' = [k \in Ids |-> [certs[k] EXCEPT !.exp = TRUE]]
          /\ act' = [op |-> "expire"] /\ out' = [res |-> "none"]

Next == \/ \E u \in Users:
             \/ \E f \in Forms, c \in CSRs: (f = "good" \/ c = "plain") /\ Request(u, f, c)
             \/ \E a \in BOOLEAN, k \in Ids, f \in Forms: Revoke(u, a, f, k)
             \/ \E a \in BOOLEAN, sn \in {"", "unknown", "prefix", "upper", "nocolon"}: RevokeUnknown(u, a, sn)
             \/ \E a \in BOOLEAN, o \in {"", "me", "all"}, s \in {"", "valid", "revoked", "expired", "all"}: List(u, a, o, s, "get")
             \/ \E k \in Ids, f \in {"get", "post"}: Download(u, k, f)
             \/ \E w \in {"mode", "file", "dotdot"}: Odd(u, w)
        \/ Expire

-----------------------------------------------------------------------------
OwnerOnly == [][ \A k \in Ids: (certs'[k].rev /\ ~certs[k].rev) =>
                   \/ certs[k].owner = act'.u
                   \/ act'.u = "admin" /\ act'.adm ]_vars
NoneDoesNothing == [][ ("u" \in DOMAIN act' /\ act'.u = "none") => certs' = certs /\ out'.res = "refused" ]_vars
OwnCerts == [][ Len(certs') > Len(certs) => certs'[Len(certs')].owner = act'.u ]_vars
GetChangesNothing == [][ ("form" \in DOMAIN act' /\ act'.form \in {"get", "put", "nocsrf", "csrf0"}) => certs' = certs ]_vars

View == [certs |-> certs]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
