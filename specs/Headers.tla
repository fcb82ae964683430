------------------------------ MODULE Headers ------------------------------
(* What an HTTP backend is told about a request: identity headers, configured headers, and cookies.
   Values that only the harness knows are written @name: @client the client's address, and so on.
   The configuration is chosen in the initial state; every request is independent of the others
   except for the connections that it shares with them. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Mod, Rem

VARIABLES cfg, act, out
vars == <<cfg, act, out>>

Modes == <<"HTTP", "HTTPS">>
\* SSO: is it on, for which paths, is the user id header set.
SSOs == << [on |-> FALSE, paths |-> <<>>, uid |-> FALSE], [on |-> TRUE, paths |-> <<>>, uid |-> FALSE], [on |-> TRUE, paths |-> <<>>, uid |-> TRUE],
           [on |-> TRUE, paths |-> <<"/secret/">>, uid |-> FALSE], [on |-> TRUE, paths |-> <<"/secret/">>, uid |-> TRUE] >>
\* Client certificates: are they required, which fields go in the X-Forwarded-Client-Cert header.
CAs == << [on |-> FALSE, f |-> <<>>], [on |-> TRUE, f |-> <<>>], [on |-> TRUE, f |-> <<"hash", "subject", "dns">>],
          [on |-> TRUE, f |-> <<"uri", "cert", "Subject">>], [on |-> TRUE, f |-> <<"chain">>] >>
H(n, v) == [n |-> n, v |-> v]
\* Headers to add: name, template.
FHs == << <<>>,
          << H("X-Who", "${JWT:email}"), H("x-name", "n=${JWT:name}"), H("X-Static", "static"), H("X-Gone", "${NOPE}"), H("x-tlsproxy-user-id", "${JWT:email}") >>,
          << H("X-Addr", "${REMOTE_ADDR}"), H("X-Ip", "${REMOTE_IP}"), H("X-Local", "${LOCAL_ADDR} ${LOCAL_IP}"), H("X-Net", "${NETWORK}"), H("X-Sn", "$SERVER_NAME") >>,
          << H("host", "inner.test"), H("X-Who", "${JWT:nothing}"), H("X-Static", "${REMOTE_IP}-${JWT:email}") >> >>
\* Headers of the path override /o/: inherited, or its own.
OFHs == << <<"inherit">>, <<>>, << H("X-Who", "o:${JWT:email}"), H("X-Over", "1") >> >>

Init == /\ \E m \in 1..2, s \in 1..5, c \in 1..5, f \in 1..4, o \in 1..3:
              /\ (m + 7 * s + 61 * c + 307 * f + 1013 * o) % Mod = Rem
              /\ cfg = [mode |-> Modes[m], sso |-> SSOs[s], ca |-> CAs[c], fh |-> FHs[f], ofh |-> OFHs[o]]
        /\ act = [op |-> "init"]
        /\ out = [k |-> "none"]

Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Covered(path) == cfg.sso.on /\ (cfg.sso.paths = <<>> \/ \E i \in 1..Len(cfg.sso.paths): Prefix(cfg.sso.paths[i], path))

\* Headers that a client may forge: all of these at once, or none.
Forged == {"X-Forwarded-Client-Cert", "X-Forwarded-For", "X-Tlsproxy-User-Id", "X-Who", "X-Name", "X-Static", "X-Gone", "X-Addr", "X-Ip", "X-Local", "X-Net", "X-Sn", "X-Over"}
Canon(n) == CASE n = "x-name" -> "X-Name" [] n = "x-tlsproxy-user-id" -> "X-Tlsproxy-User-Id" [] n = "host" -> "Host" [] OTHER -> n

\* What a template becomes: "" when nothing is left.
Expand(v, user) ==
  CASE v = "${JWT:email}" -> IF user THEN "@email" ELSE ""
    [] v = "n=${JWT:name}" -> IF user THEN "n=@name" ELSE "n="
    [] v = "static" -> "static"
    [] v \in {"${NOPE}", "${JWT:nothing}"} -> ""
    [] v = "${REMOTE_ADDR}" -> "@client" [] v = "${REMOTE_IP}" -> "@clientip" [] v = "${LOCAL_ADDR} ${LOCAL_IP}" -> "@local @localip"
    [] v = "${NETWORK}" -> "@net" [] v = "$SERVER_NAME" -> "@sn" [] v = "inner.test" -> "inner.test"
    [] v = "${REMOTE_IP}-${JWT:email}" -> IF user THEN "@clientip-@email" ELSE "@clientip-"
    [] v = "o:${JWT:email}" -> IF user THEN "o:@email" ELSE "o:" [] v = "1" -> "1"

Templates(path) == IF Prefix("/o/", path) /\ cfg.ofh # <<"inherit">> THEN cfg.ofh ELSE cfg.fh

\* The values of header n that the backend must see. forged: what the client sent.
Seen(n, path, user, forged) ==
  LET t == Templates(path)
      Is == {i \in 1..Len(t): Canon(t[i].n) = n}
  IN CASE n = "X-Forwarded-Client-Cert" -> IF cfg.ca.on /\ cfg.ca.f # <<>> THEN <<"@xfcc">> ELSE <<>>
       [] n = "X-Forwarded-For" -> <<"@clientip">>
       [] n = "Host" -> IF Is # {} THEN <<"inner.test">> ELSE <<"@sn">>
       [] Is # {} -> LET v == Expand(t[CHOOSE i \in Is: TRUE].v, user) IN IF v = "" THEN <<>> ELSE <<v>>
       [] n = "X-Tlsproxy-User-Id" -> IF user /\ cfg.sso.uid THEN <<"@email">> ELSE <<>>
       [] OTHER -> forged

\* Cookie arrangements: Cookie header lines of name=value. AUTH stands for the login cookie.
C(n, v) == [n |-> n, v |-> v]
Auth == C("TLSPROXYAUTH", "@tok")
Jars == << << <<Auth>> >>,
           << << C("a", "1"), Auth, C("b", "2"), C("TLSPROXYSID", "s1"), C("TLSPROXYIDTOKEN", "id") >> >>,
           << << C("TLSPROXYSID", "s1"), C("x", "1") >>, << Auth, C("y", "2") >> >>,
           << << Auth, C("TLSPROXYAUTH", "junk"), C("z", "3") >> >>,
           << << C("tlsproxyauth", "1"), Auth >>, << C("z", "3"), C("z", "4"), C("TLSPROXYSID", "s2"), C("XTLSPROXYSID", "s3"), C("TLSPROXYSID", "s4") >> >> >>
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Flat(Tail(l))
Kept(c) == ~cfg.sso.on \/ c.n \notin {"TLSPROXYAUTH", "TLSPROXYSID"}

\* Connection header of an HTTP/1.1 request.
Conns == {"", "keep-alive", "upgrade", "names", "upnames", "other"}

Request(p, path, forge, login, cert, jar, conn) ==
  /\ (conn # "" => p = "h1")
  /\ (conn \in {"names", "upnames"} => forge # "dup")
  /\ (cert = "bob" => cfg.ca.on)
  /\ (login => cfg.sso.on)
  /\ act' = [op |-> "req", p |-> p, path |-> path, forge |-> forge, login |-> login, cert |-> IF cfg.ca.on THEN cert ELSE "-", jar |-> Jars[jar], j |-> jar, conn |-> conn]
  /\ LET forged == CASE forge = "no" -> <<>> [] forge = "dup" -> <<"evil", "evil2">> [] OTHER -> <<"evil">>
         known == login
     IN out' = IF Covered(path) /\ ~known THEN [k |-> "login"]
               ELSE [k |-> "backend", to |-> IF Prefix("/o/", path) THEN "O" ELSE "B",
                     hdr |-> [n \in Forged \cup {"Host", "X-Other"} |->
                                \* a hop-by-hop header ends here
                                IF n = "X-Other" /\ conn = "other" THEN <<>>
                                ELSE IF conn \in {"names", "upnames"} /\ Seen(n, path, known, <<"-">>) = <<"-">> /\ n \in {"X-Who", "X-Static", "X-Tlsproxy-User-Id", "X-Addr"} THEN <<>>
                                ELSE Seen(n, path, known, IF n = "X-Other" THEN <<"other">> ELSE forged)],
                     cookies |-> SelectSeq(Flat(Jars[jar]), Kept)]
  /\ UNCHANGED cfg

Next == \E p \in {"h1", "h2", "h3"}, path \in {"/secret/x", "/pub", "/o/x"}, forge \in {"no", "one", "dup"}, login \in BOOLEAN,
           cert \in {"alice", "bob"}, jar \in 1..Len(Jars), conn \in Conns: Request(p, path, forge, login, cert, jar, conn)

-----------------------------------------------------------------------------
\* No identity header carries what the client sent.
NotForged == [][ out'.k = "backend" => \A n \in {"X-Forwarded-Client-Cert", "X-Forwarded-For", "X-Tlsproxy-User-Id"}:
                    \A i \in 1..Len(out'.hdr[n]): out'.hdr[n][i] \notin {"evil", "evil2"} ]_vars
\* With SSO, the proxy's own cookies stay with it.
NotLeaked == [][ (out'.k = "backend" /\ cfg.sso.on) => \A i \in 1..Len(out'.cookies): out'.cookies[i].n \notin {"TLSPROXYAUTH", "TLSPROXYSID"} ]_vars
\* Configured headers are always there unless they expand to nothing.
Configured == [][ (out'.k = "backend") => \A i \in 1..Len(Templates(act'.path)):
                    LET t == Templates(act'.path)[i] IN Canon(t.n) # "Host" /\ Expand(t.v, act'.login) # "" => out'.hdr[Canon(t.n)] = <<Expand(t.v, act'.login)>> ]_vars

View == [cfg |-> cfg]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
