-------------------------------- MODULE PKI --------------------------------
(* The certificate authority (property P18): issuing, revoking, CRLs and      *)
(* OCSP, with failed writes, crashes and restarts.                            *)
(*                                                                            *)
(* Time: one short tick is 25 minutes (a CRL is good for an hour: ages 0 to 2 *)
(* are current), a long one 6 days (the delegate certificate has been         *)
(* replaced by then), and an epoch 6 years (ends with a restart; a            *)
(* certificate lives 10 years).                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCerts, MaxEpochs,
          Kinds      \* kinds of certificate requests

VARIABLES certs,  \* sequence of [rev: revoked?, ep: epochs since it was issued]
          crl,    \* the last CRL that was served: [n: number of certs known then, revs: set, age] (age 9: none)
          epochs, act, out
vars == <<certs, crl, epochs, act, out>>

Ids == 1..Len(certs)
Revoked == {k \in Ids: certs[k].rev}
Alive(k) == certs[k].ep < 2   \* not expired

TypeOK == /\ certs \in Seq([rev: BOOLEAN, ep: 0..2]) /\ Len(certs) <= MaxCerts
          /\ crl.revs \subseteq Ids

Init == /\ certs = <<>> /\ crl = [revs |-> {}, age |-> 9] /\ epochs = 0
        /\ act = [op |-> "init"] /\ out = [res |-> "none"]

(* f: what goes wrong. "ok" nothing, "fail" the state cannot be written, "crash" the process dies before the state *)
(* is written (and is restarted), "late" it dies right after that, before it could answer.                          *)
Faults == {"ok", "fail", "crash", "late"}
Takes(f) == f \in {"ok", "late"}

Issue(kind, f) ==
  /\ Len(certs) < MaxCerts
  /\ act' = [op |-> "issue", kind |-> kind, f |-> f]
  /\ out' = [res |-> IF kind = "badsig" \/ f # "ok" THEN "error" ELSE "cert"]
  /\ certs' = IF Takes(f) /\ kind # "badsig" THEN Append(certs, [rev |-> FALSE, ep |-> 0]) ELSE certs
  /\ UNCHANGED <<crl, epochs>>

Revoke(k, f) ==
  /\ act' = [op |-> "revoke", k |-> k, f |-> f]
  /\ out' = [res |-> IF f = "ok" THEN "ok" ELSE "error"]
  /\ certs' = IF Takes(f) THEN [certs EXCEPT ![k].rev = TRUE] ELSE certs
  /\ UNCHANGED <<crl, epochs>>

(* A serial number that this CA never issued. *)
RevokeUnknown ==
  /\ act' = [op |-> "revokeunknown"] /\ out' = [res |-> "error"]
  /\ UNCHANGED <<certs, crl, epochs>>

(* The CRL must list the revoked unexpired certificates, may list revoked expired ones, and nothing else. *)
CRL(f) ==
  /\ act' = [op |-> "crl", f |-> f]
  /\ out' = IF f \in {"ok", "fail"}
            THEN [res |-> IF f = "ok" THEN "crl" ELSE "crl or error", must |-> {k \in Revoked: Alive(k)}, may |-> Revoked]
            ELSE [res |-> "none"]
  /\ crl' = IF f = "ok" THEN [revs |-> Revoked, age |-> IF crl.age <= 2 /\ crl.revs = Revoked THEN crl.age ELSE 0] ELSE crl
  /\ UNCHANGED <<certs, epochs>>

Status(k) == IF certs[k].rev THEN "revoked" ELSE "good"
(* via: how the request is made; hash: the hash algorithm; who: "issuer" is the right issuer *)
OCSP(k, who, f) ==
  /\ act' = [op |-> "ocsp", k |-> k, who |-> who, f |-> f]
  /\ out' = IF f = "ok" THEN [res |-> IF who # "issuer" THEN "unknown" ELSE IF k = 0 THEN "revoked" ELSE Status(k)]
            ELSE [res |-> "any"]
  /\ UNCHANGED <<certs, crl, epochs>>

Time(d) ==
  /\ act' = [op |-> "time", d |-> d] /\ out' = [res |-> "none"]
  /\ d = "epoch" => epochs < MaxEpochs
  /\ epochs' = IF d = "epoch" THEN epochs + 1 ELSE epochs
  /\ certs' = [k \in Ids |-> [certs[k] EXCEPT !.ep = IF d = "epoch" /\ @ < 2 THEN @ + 1 ELSE @]]
  /\ crl' = [crl EXCEPT !.age = IF @ = 9 THEN 9 ELSE IF d = "short" THEN (IF @ < 4 THEN @ + 1 ELSE 4) ELSE 4]

Restart ==
  /\ act' = [op |-> "restart"] /\ out' = [res |-> "none"]
  /\ UNCHANGED <<certs, crl, epochs>>

(* A second instance opens the same files: what it sees is what was recorded. *)
Peek ==
  /\ act' = [op |-> "peek"] /\ out' = [res |-> "none", all |-> [k \in Ids |-> Status(k)]]
  /\ UNCHANGED <<certs, crl, epochs>>

Next == \/ \E kind \in Kinds, f \in Faults: (kind = "badsig" => f = "ok") /\ Issue(kind, f)
        \/ \E k \in Ids, f \in Faults: Revoke(k, f)
        \/ RevokeUnknown
        \/ \E f \in Faults: CRL(f)
        \/ \E k \in 0..Len(certs), w \in {"issuer", "othername", "otherkey"}: OCSP(k, w, "ok")
        \/ OCSP(0, "issuer", "fail")
        \/ \E d \in {"short", "long", "epoch"}: Time(d)
        \/ Restart \/ Peek

-----------------------------------------------------------------------------
RevokedForever == [][ \A k \in Ids: certs[k].rev => certs'[k].rev ]_vars
OnlyRevoke == [][ \A k \in Ids: certs[k].rev # certs'[k].rev => act'.op = "revoke" /\ act'.k = k ]_vars
CRLComplete == [][ (act'.op = "crl" /\ out'.res = "crl") => {k \in Revoked: Alive(k)} \subseteq crl'.revs ]_vars

View == [certs |-> certs, crl |-> crl, epochs |-> epochs]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
