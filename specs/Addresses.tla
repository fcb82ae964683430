----------------------------- MODULE Addresses -----------------------------
(* Client addresses: which clients the address rules of a backend admit, and which address the
   backends are told, with PROXY protocol headers on either side.

   The configuration (mode, allow and deny lists, trusted senders of PROXY headers, PROXY protocol
   versions used towards the backend and its path override) is chosen in the initial state. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Mod, Rem, MaxConns

VARIABLES cfg, conns, act, out
vars == <<cfg, conns, act, out>>

\* Addresses: sockets s1..s3 (127.x), and addresses that only appear in headers.
Sockets == {"s1", "s2", "s3"}
HdrAddrs == {"h1", "h2", "h6", "m1"}
\* Members of the networks used in the lists. m1 is h1 written as an IPv4-mapped IPv6 address.
Net(n) == CASE n = "127.0.0.1/32"  -> {"s1"}
            [] n = "127.0.0.2/32"  -> {"s2"}
            [] n = "127.0.0.0/8"   -> {"s1", "s2", "s3"}
            [] n = "127.0.0.0/30"  -> {"s1", "s2"}
            [] n = "10.1.0.0/16"   -> {"h1", "m1"}
            [] n = "10.0.0.0/8"    -> {"h1", "h2", "m1"}
            [] n = "10.1.1.1/32"   -> {"h1", "m1"}
            [] n = "0.0.0.0/0"     -> {"s1", "s2", "s3", "h1", "h2", "m1"}
            [] n = "2001:db8::/32" -> {"h6"}
            [] n = "::/0"          -> {"h6"}
In(a, l) == \E i \in 1..Len(l): a \in Net(l[i])
None == <<"none">>   \* the option is not set

Modes == <<"TCP", "TLS", "TLSPASSTHROUGH", "HTTP", "HTTPS", "QUIC", "CONSOLE">>
Denies == << None, None, <<"127.0.0.2/32">>, <<"10.1.0.0/16">>, <<"2001:db8::/32", "127.0.0.2/32">>, <<"0.0.0.0/0">>, <<"::/0">> >>
Allows == << None, None, <<>>, <<"127.0.0.0/8">>, <<"10.0.0.0/8", "127.0.0.1/32">>, <<"10.1.1.1/32", "2001:db8::/32">>, <<"127.0.0.0/8", "10.0.0.0/8", "::/0">> >>
Trusts == << <<>>, <<"127.0.0.1/32">>, <<"127.0.0.0/30">> >>
PPs == << "", "v1", "v2" >>

Init == /\ \E m \in 1..Len(Modes), d \in 1..Len(Denies), a \in 1..Len(Allows), t \in 1..Len(Trusts), p \in 1..3, o \in 1..3:
              /\ (m + 11 * d + 131 * a + 977 * t + 2903 * p + 7919 * o) % Mod = Rem
              /\ (Modes[m] \in {"QUIC", "CONSOLE"} => p = 1)
              /\ (Modes[m] \notin {"HTTP", "HTTPS"} => o = 1)
              /\ cfg = [mode |-> Modes[m], deny |-> Denies[d], allow |-> Allows[a], trust |-> Trusts[t], pp |-> PPs[p], opp |-> PPs[o]]
        /\ conns = <<>>
        /\ act = [op |-> "init"]
        /\ out = [res |-> "none"]

IsHTTP == cfg.mode \in {"HTTP", "HTTPS"}
Trusted(s) == In(s, cfg.trust)

\* What a PROXY header makes of the client's address; "bad": the connection is closed.
Hdrs == {"none", "local", "unknown", "badv1", "badv2", "twice"} \cup {v \o a : v \in {"v1", "v2"}, a \in {"h1", "h2", "h6"}} \cup {"v2m1"}
HdrAddr(h) == CASE h \in {"v1h1", "v2h1"} -> "h1" [] h \in {"v1h2", "v2h2"} -> "h2"
                [] h \in {"v1h6", "v2h6"} -> "h6" [] h = "v2m1" -> "m1" [] OTHER -> "-"
Address(s, h) ==
  IF h = "none" THEN s
  ELSE IF ~Trusted(s) THEN "bad"      \* the header's bytes are not a ClientHello
  ELSE IF h \in {"local", "unknown"} THEN s
  ELSE IF h \in {"badv1", "badv2", "twice"} THEN "bad"
  ELSE HdrAddr(h)

Admitted(a) == /\ (cfg.deny # None => ~In(a, cfg.deny))
               /\ (cfg.allow # None => In(a, cfg.allow))

\* What the backend is told: [v |-> version, a |-> address], v = "" when there is no header.
Told(pp, a, quic) == [v |-> pp, a |-> IF pp = "" \/ (quic /\ pp = "v1") THEN "-" ELSE a]

Open(t, s, h) ==
  LET a == Address(s, h)
      res == IF a = "bad" THEN "closed" ELSE IF Admitted(a) THEN "ok" ELSE "denied"
  IN
  /\ (t = "quic" => h = "none")
  /\ IsHTTP => Len(conns) < MaxConns
  /\ act' = [op |-> "open", t |-> t, s |-> s, h |-> h]
  /\ out' = [res |-> res, a |-> a, told |-> IF res = "ok" THEN Told(cfg.pp, a, t = "quic") ELSE [v |-> "", a |-> "-"]]
  /\ conns' = IF res = "ok" /\ IsHTTP THEN Append(conns, [t |-> t, a |-> a]) ELSE conns

Request(k, path) ==
  LET c == conns[k] IN
  /\ act' = [op |-> "request", k |-> k, path |-> path]
  /\ out' = [res |-> "ok", a |-> c.a, told |-> Told(IF path = "/o/" THEN cfg.opp ELSE cfg.pp, c.a, c.t = "quic")]
  /\ UNCHANGED conns

Close(k) == /\ act' = [op |-> "close", k |-> k] /\ out' = [res |-> "none"]
            /\ conns' = RemoveAt(conns, k)

Next == /\ \/ \E s \in Sockets, h \in Hdrs: Open("tcp", s, h)
           \/ \E s \in Sockets: cfg.mode # "TLSPASSTHROUGH" /\ Open("quic", s, "none")
           \/ \E k \in 1..Len(conns): Close(k) \/ \E p \in {"/", "/o/"}: Request(k, p)
        /\ UNCHANGED cfg

-----------------------------------------------------------------------------
\* A denied or not allowed address is never served, and the header counts only from trusted peers.
NeverServed == [][ (act'.op = "open" /\ out'.res = "ok") =>
                     /\ (cfg.deny # None => ~In(out'.a, cfg.deny))
                     /\ (cfg.allow # None => In(out'.a, cfg.allow))
                     /\ (out'.a \in Sockets => out'.a = act'.s)
                     /\ (out'.a \notin Sockets => In(act'.s, cfg.trust)) ]_vars
OnlyTrue == [][ (act'.op \in {"open", "request"} /\ out'.res = "ok" /\ out'.told.a # "-") => out'.told.a = out'.a ]_vars

View == [cfg |-> cfg, conns |-> conns]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
