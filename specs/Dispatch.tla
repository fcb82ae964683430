------------------------------ MODULE Dispatch ------------------------------
(* Where an HTTP request goes, by the backend that its connection belongs to, its host and its path, and what
   the handler that gets it sees of it; what the client sees of the answer.
   The configuration is chosen in the initial state. Each step is one request, on a connection that is shared with the
   other requests of the same protocol and server name. *)
EXTENDS Naturals, Sequences, FiniteSets, Randomization, TLC, Json

CONSTANTS Mod, Rem

VARIABLES cfg, act, out
vars == <<cfg, act, out>>

-----------------------------------------------------------------------------
(* Paths. A target is a list of tokens; raw is what is sent between two slashes, dec is what it stands for. *)
T(raw, dec) == [raw |-> raw, dec |-> dec]
W(s) == T(s, <<s>>)

RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l).dec \o Flat(Tail(l))
RECURSIVE Join(_)
Join(l) == IF l = <<>> THEN "" ELSE "/" \o Head(l) \o Join(Tail(l))
RECURSIVE Raws(_)
Raws(l) == IF l = <<>> THEN "" ELSE "/" \o Head(l).raw \o Raws(Tail(l))

\* The segments of the path after resolving ".", ".." and empty segments.
RECURSIVE Resolve(_, _)
Resolve(segs, acc) ==
  IF segs = <<>> THEN acc
  ELSE LET s == Head(segs) IN
       CASE s \in {"", "."} -> Resolve(Tail(segs), acc)
         [] s = ".." -> Resolve(Tail(segs), IF acc = <<>> THEN <<>> ELSE SubSeq(acc, 1, Len(acc) - 1))
         [] OTHER -> Resolve(Tail(segs), Append(acc, s))

Path(toks) == IF toks = <<>> THEN "/" ELSE Join(Flat(toks))
CleanSegs(segs) ==
  LET r == Resolve(segs, <<>>)
  IN IF r = <<>> THEN "/" ELSE Join(r) \o (IF segs[Len(segs)] = "" THEN "/" ELSE "")
Clean(toks) == IF toks = <<>> THEN "/" ELSE CleanSegs(Flat(toks))
\* The same without decoding anything.
RawClean(toks) == toks = <<>> \/ CleanSegs([i \in 1..Len(toks) |-> toks[i].raw]) = Raws(toks)

Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

-----------------------------------------------------------------------------
(* Configurations. *)
PO2(paths, to, san, mode, bp) == [paths |-> paths, to |-> to, san |-> san, mode |-> mode, bp |-> bp]
PO(paths, to, san) == PO2(paths, to, san, "-", "-")
\* to: X and Y are servers, D a directory, N nothing, L the proxy itself.
Overrides == << <<>>,
   << PO(<<"/api/">>, "X", "-") >>,
   << PO(<<"/api/v2/", "/img/">>, "Y", "no"), PO(<<"/api/">>, "X", "-") >>,
   << PO(<<"/api/">>, "X", "yes"), PO(<<"/api/v2/">>, "Y", "no"), PO2(<<"/pki/ca/", "/x/">>, "L", "-", "HTTPS", "-") >>,
   << PO2(<<"/api/">>, "X", "-", "HTTPS", "h3"), PO2(<<"/img/">>, "Y", "-", "HTTP", "h2"), PO2(<<"/x/">>, "L", "no", "HTTPS", "h2") >>,
   << PO2(<<"/api/">>, "X", "no", "HTTPS", ""), PO2(<<"/img/">>, "Y", "no", "HTTP", "http/1.1") >>,
   << PO(<<"/img/", "/a b/">>, "D", "-"), PO(<<"/api/">>, "X", "no"), PO(<<"/sub/x/">>, "N", "-") >>,
   << PO(<<"/api/">>, "D", "-"), PO(<<"/">>, "X", "-") >>,
   << PO(<<"/">>, "D", "-"), PO(<<"/api/">>, "X", "-") >> >>

\* Local endpoints: host, path, does it match every path below it, name.
L(h, p, pre, id) == [h |-> h, p |-> p, pre |-> pre, id |-> id]
MainHandlers(on) ==
  (IF "jwks" \in on THEN << L("", "/api/jwks", FALSE, "jwks") >> ELSE <<>>) \o
  (IF "pki" \in on THEN << L("a", "/pki/ca", FALSE, "ca"), L("a", "/pki/ocsp/crl", FALSE, "crl"), L("a", "/pki/ocsp", TRUE, "ocsp") >> ELSE <<>>) \o
  (IF "ws" \in on THEN << L("a", "/ws", FALSE, "ws"), L("a2", "/ws/", FALSE, "ws"), L("a2", "/img/x", FALSE, "ws"), L("a", "/sub/", FALSE, "ws"),
                          L("a", "/api/jwks", FALSE, "ws") >> ELSE <<>>)

Init ==
  \* base: addresses, a directory, or nothing. san: sanitizePath not set, true, false. bp: backendProto not set or its value.
  /\ \E m \in {"HTTP", "HTTPS"}, base \in {"B", "D0", "N"}, san \in {"-", "yes", "no"}, bp \in {"-", "", "http/1.1", "h2", "h3"}, ov \in 1..Len(Overrides),
        on \in {{}, {"jwks"}, {"pki", "ws"}, {"jwks", "pki", "ws"}}, quic \in BOOLEAN:
        /\ bp = "h3" => m = "HTTPS" /\ quic
        /\ (\E i \in 1..Len(Overrides[ov]): Overrides[ov][i].bp = "h3") => quic
        /\ cfg = [mode |-> m, base |-> base, san |-> san, bp |-> bp, ov |-> Overrides[ov], h |-> MainHandlers(on), quic |-> quic]
  /\ act = [op |-> "init"]
  /\ out = [k |-> "none"]

\* The backend of a connection, by the server name that was asked for.
Be(sni) == CASE sni \in {"a", "a2"} -> [names |-> {"a", "a2"}, mode |-> cfg.mode, base |-> cfg.base, san |-> cfg.san, ov |-> cfg.ov, h |-> cfg.h, bp |-> cfg.bp]
             [] sni = "b" -> [names |-> {"b"}, mode |-> "HTTP", base |-> "Z", san |-> "-", ov |-> <<>>, h |-> <<>>, bp |-> "-"]
             [] sni = "l" -> [names |-> {"l"}, mode |-> "LOCAL", base |-> "D2", san |-> "-", ov |-> <<>>, h |-> << L("l", "/pki/ca", FALSE, "ca"), L("", "/jwks", FALSE, "jwks") >>, bp |-> "-"]
             [] sni = "c" -> [names |-> {"c"}, mode |-> "CONSOLE", base |-> "N", san |-> "-", ov |-> <<>>,
                              h |-> << L("", "/", FALSE, "metrics"), L("", "/favicon.ico", FALSE, "icon") >>, bp |-> "-"]

Dirs == {"D", "D0", "D2"}

\* A host, without the port. up: with capital letters.
HostOf(h) == CASE h \in {"a", "a:443", "a:8443"} -> "a" [] h = "a2:443" -> "a2" [] OTHER -> h

-----------------------------------------------------------------------------
\* The local endpoint for a host and path: those of the host first, then the longest.
Matches(h, host, p) == (h.h = "" \/ h.h = host) /\ (h.p = p \/ (h.pre /\ Prefix(h.p \o "/", p)))
Better(x, y) == IF x.h # "" /\ y.h = "" THEN TRUE ELSE IF x.h = "" /\ y.h # "" THEN FALSE ELSE Len(x.p) >= Len(y.p)
Local(hs, host, p) ==
  LET m == {i \in 1..Len(hs): Matches(hs[i], host, p)}
  IN IF m = {} THEN <<>> ELSE << hs[CHOOSE i \in m: \A j \in m: Better(hs[i], hs[j])] >>
SlashLocal(hs, host, p) == \E i \in 1..Len(hs): (hs[i].h = "" \/ hs[i].h = host) /\ hs[i].p = p \o "/"

\* The first override, in order, that has something to say about path p: <<override, prefix>>.
RECURSIVE Overriding(_, _)
Overriding(ov, p) ==
  IF ov = <<>> THEN <<>>
  ELSE LET ps == Head(ov).paths
           ok == {i \in 1..Len(ps): Prefix(ps[i], p) \/ p \o "/" = ps[i]}
       IN IF ok = {} THEN Overriding(Tail(ov), p)
          ELSE LET i == CHOOSE i \in ok: \A j \in ok: i <= j IN << Head(ov), ps[i] >>

Redirect(p) == [k |-> "redirect", path |-> p]
LocalOut(h) == [k |-> "local", id |-> h.id]
Static(d, prefix) == IF d = "N" THEN [k |-> "notfound"] ELSE [k |-> "static", d |-> d, prefix |-> prefix]

\* What a server sees of the request for tokens toks.
Forward(to, san, toks, p) ==
  IF san = "no" \/ Clean(toks) = Path(toks)
  THEN [k |-> "backend", to |-> to, exact |-> TRUE, path |-> IF toks = <<>> THEN "/" ELSE Raws(toks)]
  ELSE [k |-> "backend", to |-> to, exact |-> FALSE, path |-> Clean(toks)]

\* loop: the Via header says that the request has been here already.
Dispatch(b, host, toks, loop) ==
  LET p == Clean(toks)
      h == Local(b.h, host, p)
      o == Overriding(b.ov, p)
  IN IF h # <<>> THEN IF p = Path(toks) THEN {LocalOut(h[1])}
                      \* An OCSP request is in the last segment, where it can have (escaped) slashes.
                      ELSE IF h[1].pre THEN IF RawClean(toks) THEN {LocalOut(h[1])} ELSE {LocalOut(h[1]), Redirect(p)}
                      ELSE {Redirect(p)}
     ELSE IF SlashLocal(b.h, host, p) THEN {Redirect(p \o "/")}
     ELSE IF b.mode \in {"LOCAL", "CONSOLE"} THEN {Static(b.base, "/")}
     ELSE IF host \notin b.names THEN {[k |-> "421"]}
     ELSE IF o # <<>> /\ o[2] = p \o "/" THEN {Redirect(p \o "/")}
     ELSE IF o # <<>> /\ o[1].to \in Dirs \cup {"N"} THEN {Static(o[1].to, o[2])}
     ELSE IF o = <<>> /\ b.base \in Dirs \cup {"N"} THEN {Static(b.base, "/")}
     ELSE IF loop \/ (o # <<>> /\ o[1].to = "L") THEN {[k |-> "508"]}
     ELSE IF o # <<>> THEN {Forward(o[1].to, IF o[1].san = "-" THEN b.san ELSE o[1].san, toks, p)}
     ELSE {Forward(b.base, b.san, toks, p)}

\* A host in capital letters is either that host, or no host.
Outs(b, host, toks, loop) ==
  IF host = "A" THEN IF b.mode \in {"LOCAL", "CONSOLE"} THEN Dispatch(b, "a", toks, loop) \cup Dispatch(b, "A", toks, loop)
                     ELSE Dispatch(b, "a", toks, loop) \cup {[k |-> "421"]}
                          \* endpoints without a host answer on all of them
                          \cup {o \in Dispatch(b, "A", toks, loop): o.k \in {"local", "redirect"}}
  ELSE Dispatch(b, host, toks, loop)

\* The protocol used with a server.
BackProto(p, upg, b, toks) ==
  LET o == Overriding(b.ov, Clean(toks))
      bp == IF o # <<>> /\ o[1].bp # "-" THEN o[1].bp ELSE b.bp
      mode == IF o # <<>> /\ o[1].mode # "-" THEN o[1].mode ELSE b.mode
      r == IF upg \/ bp = "-" THEN "http/1.1"
           ELSE IF bp = "" THEN (CASE p = "h1" -> "http/1.1" [] p = "h2" -> "h2" [] p = "h3" -> "h3")
           ELSE bp
  \* HTTP/3 without TLS doesn't exist.
  IN IF r = "h3" /\ mode = "HTTP" THEN "undefined" ELSE r

-----------------------------------------------------------------------------
(* Requests. *)
Bases == { <<>>, <<"x">>, <<"index.html">>, <<"api">>, <<"api", "v2">>, <<"api", "v2", "x">>, <<"api", "x">>, <<"api", "jwks">>, <<"apix">>, <<"api", "v">>, <<"img">>, <<"img", "x">>,
           <<"a b">>, <<"a b", "x">>, <<"pki">>, <<"pki", "ca">>, <<"pki", "ca", "x">>, <<"pki", "ocsp">>, <<"pki", "ocsp", "crl">>, <<"pki", "ocsp", "MAo=">>, <<"pki", "ocspx">>,
           <<"ws">>, <<"wsx">>, <<"sub">>, <<"sub", "x">>, <<"sub", "x", "x">>, <<"jwks">>, <<"favicon.ico">> }
\* Ways to write a segment.
Spell == {"plain", "pct", "pctall"}
Enc(s, how) ==
  CASE s = "a b" -> T("a%20b", <<"a b">>)
    [] s = "api" /\ how = "pct" -> T("%61pi", <<"api">>)
    [] s = "api" /\ how = "pctall" -> T("%61%70%69", <<"api">>)
    [] s = "ocsp" /\ how = "pct" -> T("%6Fcsp", <<"ocsp">>)
    [] s = "img" /\ how = "pctall" -> T("%69mg", <<"img">>)
    [] s = "jwks" /\ how = "pct" -> T("jwk%73", <<"jwks">>)
    [] s = "ca" /\ how = "pct" -> T("c%61", <<"ca">>)
    [] s = "x" /\ how = "pct" -> T("%78", <<"x">>)
    [] OTHER -> W(s)
\* Things that can be inserted anywhere.
Noise == { <<>>, << W("") >>, << W("."), W("") >>, << W("x"), W("..") >>, << W("..") >>, << T("%2e%2E", <<"..">>) >>, << W("x"), T(".%2e", <<"..">>) >>, << T("%2E", <<".">>) >>,
           << T("api%2F..", <<"api", "..">>) >>, << T("..%2f..", <<"..", "..">>) >>, << T("%2F", <<"", "">>) >>, << T("api%2Fv2", <<"api", "v2">>), W(".."), W("..") >>,
           << W("y"), W("."), W(".."), W("") >>, << W("...") >>, << T("%5C..", <<"\\..">>) >>, << T("..;", <<"..;">>) >>, << T("y%00", <<"y?">>), W("..") >> }
Ends == { <<>>, <<>>, << W("") >>, << W("x") >>, << W("x"), W("") >>, << W("..") >>, << W(".") >>, << T("%2e", <<".">>) >>, << T("x%2F", <<"x", "">>) >>, << W("x"), W("y;p=1,2") >>,
          << T("%C3%A9+%25%3F%23", <<"e+%?#">>) >>, << T("AA%2F%2FBB", <<"AA", "", "BB">>) >>, << W("..."), W("~:@!$&'()*") >> }

\* A set that is not the same for ever (TLC would choose from it once and for all).
Now(S) == {x \in S: cfg = cfg}
Pick(S) == RandomSubset(1, Now(S))

Insert(base, i, noise) == SubSeq(base, 1, i) \o noise \o SubSeq(base, i + 1, Len(base))

Methods == {"GET", "GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "PROPFIND"}
Bodies == {"none", "len", "chunked", "empty"}
\* What of the body arrives: a body of unknown length only with the methods that expect a body.
BodySeen(m, bd) == CASE bd \in {"none", "empty"} -> "" [] bd = "len" -> "body" [] m \in {"POST", "PUT", "PATCH"} -> "body" [] OTHER -> "any"

Queries == {"", "?", "?q=1", "?a=1;b=2&c=%2F..%2F&d=/../&&=", "?q=%zz&x=%00", "?https://evil.test/"}
Vias == {"none", "other", "me", "mid", "last", "line2", "near"}
Resps == {"200", "200", "204", "304", "301", "404", "421", "500", "hsts", "alt", "multi", "big", "gzip", "trailer", "cut", "none", "quit"}
\* cut: the server gives up in the middle of the answer, and the client must be able to tell. none: before it. quit: the client does.
\* Headers that the proxy adds to a server's answer.
Hsts(resp) == IF resp = "hsts" THEN "own" ELSE IF resp = "421" THEN "none" ELSE "set"
AltSvc(p, resp) == IF resp = "alt" THEN "own" ELSE IF cfg.quic /\ p # "h3" /\ resp \notin {"404", "421", "500"} THEN "set" ELSE "none"

Request(p, sni, host, toks, q, m, bd, via, resp, form, upg) ==
  LET loop == via \in {"me", "mid", "last", "line2"}
      b == Be(sni)
      bp == BackProto(p, upg, b, toks)
      os == Outs(b, HostOf(host), toks, loop)
  IN
  /\ p = "h3" => cfg.quic
  /\ ~upg \/ p = "h1"
  /\ form = "abs" => p = "h1"
  /\ bd = "empty" => p = "h1"
  /\ act' = [op |-> "req", p |-> p, sni |-> sni, host |-> host, target |-> (IF toks = <<>> THEN "/" ELSE Raws(toks)) \o q, q |-> q, m |-> m, bd |-> bd,
             via |-> via, resp |-> resp, form |-> form, upg |-> upg]
  /\ out' = [any |-> [x \in {1} |-> os][1], body |-> BodySeen(m, bd), proto |-> bp, hsts |-> Hsts(resp), alt |-> AltSvc(p, resp)]
  /\ UNCHANGED cfg

Next ==
  \E p \in Pick({"h1", "h1", "h2", "h3"}), s1 \in Pick(1..10), h1 \in Pick(1..12), base \in Pick(Bases), n1 \in Pick(Noise), n2 \in Pick(Noise), i1 \in Pick(0..3), i2 \in Pick(0..3),
     noisy \in Pick(0..3), end \in Pick(Ends), sp \in Pick(Spell), q \in Pick(Queries), m \in Pick(Methods), bd \in Pick(Bodies), via \in Pick(1..12), resp \in Pick(Resps),
     form \in Pick(1..6), upg \in Pick(1..8):
    LET sni == <<"a", "a", "a", "a", "a", "a2", "a2", "b", "l", "c">>[s1]
        host == IF h1 <= 6 THEN sni ELSE <<"a", "a2", "b", "A", "a:443", "nope">>[h1 - 6]
        toks0 == [i \in 1..Len(base) |-> Enc(base[i], sp)]
        j1 == IF i1 > Len(base) THEN Len(base) ELSE i1
        toks1 == IF noisy >= 1 THEN Insert(toks0, j1, n1) ELSE toks0
        toks2 == IF noisy >= 3 THEN Insert(toks1, IF i2 > Len(toks1) THEN Len(toks1) ELSE i2, n2) ELSE toks1
        toks == toks2 \o end
        pp == IF p = "h3" /\ ~cfg.quic THEN "h2" ELSE p
    IN Request(pp, sni, host, toks, q, m, IF bd = "empty" /\ pp # "h1" THEN "none" ELSE bd,
               IF via > 7 THEN "none" ELSE <<"none", "other", "me", "mid", "last", "line2", "near">>[via], resp,
               IF form = 1 /\ pp = "h1" THEN "abs" ELSE "origin", upg = 1 /\ pp = "h1")

\* All paths, for some configurations.
InitPaths ==
  /\ \E san \in 1..3, ov \in 1..Len(Overrides):
        /\ (san + 3 * ov) % Mod = Rem
        /\ cfg = [mode |-> "HTTP", base |-> "B", san |-> <<"-", "yes", "no">>[san], bp |-> "-", ov |-> Overrides[ov], h |-> MainHandlers({"jwks", "pki", "ws"}), quic |-> TRUE]
  /\ act = [op |-> "init"]
  /\ out = [k |-> "none"]
NextPaths ==
  \E base \in Bases, n \in Noise, i \in 0..3, end \in Ends, sp \in {"plain", "pct"}, h \in {"a", "a2"}:
    /\ i <= Len(base) /\ (n = <<>> => i = 0)
    /\ (sp = "pct" => h = "a" /\ [j \in 1..Len(base) |-> Enc(base[j], "pct")] # [j \in 1..Len(base) |-> Enc(base[j], "plain")])
    /\ Request("h1", "a", h, Insert([j \in 1..Len(base) |-> Enc(base[j], sp)], i, n) \o end, "?q=1", "GET", "none", "none", "200", "origin", FALSE)

-----------------------------------------------------------------------------
Kinds == {o.k : o \in out'.any}
\* Misdirected requests, loops and requests for local endpoints never reach a server.
Contained == [][ LET b == Be(act'.sni) IN
                 ("backend" \in Kinds => b.mode \in {"HTTP", "HTTPS"} /\ (HostOf(act'.host) \in b.names \cup {"A"}) /\ act'.via \notin {"me", "mid", "last", "line2"}) ]_vars
\* With sanitizePath a server never sees an unclean path.
Has(s, x) == \E i \in 1..Len(s): i + Len(x) <= Len(s) + 1 /\ SubSeq(s, i, i + Len(x) - 1) = x
Unclean(s) == Has(s, "//") \/ Has(s, "/./") \/ Has(s, "/../")
Sanitized == [][ \A o \in out'.any: o.k = "backend" /\ Unclean(o.path) =>
                   \/ cfg.san = "no" \/ \E i \in 1..Len(cfg.ov): cfg.ov[i].san = "no" /\ cfg.ov[i].to = o.to ]_vars
\* Every request has an outcome.
Total == [][ out'.any # {} ]_vars

View == [cfg |-> cfg]
Emit == PrintT("EDGE " \o ToJson([f |-> View, a |-> act', o |-> out', t |-> View', l |-> TLCGet("level")]))
=============================================================================
