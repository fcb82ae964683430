------------------------------- MODULE Static -------------------------------
(* What a request for a static file gets: the tree of files, hidden names, directories and their index, links, things
   that are not files, changes to the tree, and what a client that has an older copy is told. *)
EXTENDS Naturals, Sequences, FiniteSets, Randomization, TLC, Json

CONSTANTS Mod, Rem

VARIABLES cfg,   \* where the document root is
          a, i,  \* what the names a and d/index.html are at present
          edn,   \* edition: how often the files that can change have changed
          seen,  \* the copies that a client has: path -> <<file, edition>>
          act, out
vars == <<cfg, a, i, edn, seen, act, out>>

-----------------------------------------------------------------------------
(* Targets: lists of tokens; raw is what is sent between two slashes, dec is what it stands for. *)
T(raw, dec) == [raw |-> raw, dec |-> dec]
W(s) == T(s, <<s>>)

RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l).dec \o Flat(Tail(l))
RECURSIVE Join(_)
Join(l) == IF l = <<>> THEN "" ELSE "/" \o Head(l) \o Join(Tail(l))
RECURSIVE Raws(_)
Raws(l) == IF l = <<>> THEN "" ELSE "/" \o Head(l).raw \o Raws(Tail(l))
RECURSIVE Resolve(_, _)
Resolve(segs, acc) ==
  IF segs = <<>> THEN acc
  ELSE LET s == Head(segs) IN
       CASE s \in {"", "."} -> Resolve(Tail(segs), acc)
         [] s = ".." -> Resolve(Tail(segs), IF acc = <<>> THEN <<>> ELSE SubSeq(acc, 1, Len(acc) - 1))
         [] OTHER -> Resolve(Tail(segs), Append(acc, s))
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

\* A path: the names, and whether it ends with a slash.
Names(segs) == Resolve(segs, <<>>)
Ends(segs) == segs = <<>> \/ segs[Len(segs)] = ""
Str(names, slash) == IF names = <<>> THEN "/" ELSE Join(names) \o (IF slash THEN "/" ELSE "")
Path(segs) == IF segs = <<>> THEN "/" ELSE Join(segs)

-----------------------------------------------------------------------------
(* The tree. A file is known by its name; the content of a file that can change is that of its latest edition. *)
Files == { <<"index.html">>, <<"n.txt">>, <<"e">>, <<"c d?%;.txt">>, <<"d2", "s.txt">>, <<"d2", ".h">>, <<"d2", ".w", "c">>, <<"x", "n.txt">>, <<"x", "x", "n.txt">>,
           <<".h">>, <<".git", "c">>, <<".well-known", "n.txt">>, <<"...">>, <<"..h">>, <<"b\\s">>, <<"d", "f.txt">>, <<"d", "h.html">>, <<"index.html.d", "index.html", "f.txt">>,
           <<"t.">>, <<"x y", "index.html">> }
Dirs == { <<>> } \cup UNION { { SubSeq(f, 1, n) : n \in 1..(Len(f) - 1) } : f \in Files }

KindsA == {"none", "file", "dir", "idir", "lfile", "ldir", "lroot", "lhid", "lout", "loutdir", "dangling", "loop", "fifo", "sock"}
KindsI == {"none", "file", "dir", "lfile", "lout", "fifo", "dangling"}

FileAt(id) == [k |-> "file", id |-> id]
DirAt(p) == [k |-> "dir", at |-> p]
None == [k |-> "none"]
Special == [k |-> "special"]

Hid(s) == (Len(s) > 0 /\ SubSeq(s, 1, 1) = ".") \/ (\E j \in 1..Len(s): SubSeq(s, j, j) = "\\")

RECURSIVE Node(_)
Node(p) ==
  IF p = <<>> THEN DirAt(<<>>)
  ELSE IF p[1] = "a" THEN
    LET rest == Tail(p)
    IN CASE a = "file" -> IF rest = <<>> THEN FileAt("/a") ELSE None
         [] a \in {"dir", "idir"} -> IF rest = <<>> THEN DirAt(p) ELSE IF rest = <<"f.txt">> THEN FileAt("/a/f.txt")
                                     ELSE IF rest = <<"index.html">> /\ a = "idir" THEN FileAt("/a/index.html") ELSE None
         [] a = "lfile" -> IF rest = <<>> THEN FileAt("/n.txt") ELSE None
         [] a = "ldir" -> IF rest = <<>> THEN DirAt(p) ELSE Node(<<"d">> \o rest)
         [] a = "lroot" -> IF rest = <<>> THEN DirAt(p) ELSE Node(rest)
         [] a = "lhid" -> IF rest = <<>> THEN FileAt("/.h") ELSE None
         [] a = "lout" -> IF rest = <<>> THEN FileAt("out:/secret") ELSE None
         [] a = "loutdir" -> IF rest = <<>> THEN DirAt(p) ELSE IF rest = <<"f.txt">> THEN FileAt("out:/dir/f.txt") ELSE IF rest = <<"index.html">> THEN FileAt("out:/dir/index.html") ELSE None
         [] a \in {"fifo", "sock"} -> IF rest = <<>> THEN Special ELSE None
         [] OTHER -> None
  ELSE IF p = <<"d", "index.html">> THEN
         CASE i = "file" -> FileAt("/d/index.html")
           [] i = "dir" -> DirAt(p)
           [] i = "lfile" -> FileAt("/n.txt")
           [] i = "lout" -> FileAt("out:/secret")
           [] i = "fifo" -> Special
           [] OTHER -> None
  ELSE IF p \in Files THEN FileAt(Join(p))
  ELSE IF p \in Dirs THEN DirAt(p)
  ELSE None

-----------------------------------------------------------------------------
(* Where the document root is: that of a backend, or of a path override, whose prefix isn't part of the name. *)
At(m, p) == [mode |-> m, prefix |-> p]
PlaceSeq == << At("LOCAL", <<>>), At("HTTP", <<"x">>), At("HTTPS", <<".well-known">>), At("HTTP", <<"">>), At("HTTP", <<"x y">>), At("HTTPS", <<>>),
               At("HTTPS", <<"x">>), At("HTTP", <<".well-known">>), At("HTTP", <<"x", "y">>), At("HTTPS", <<"x y">>), At("HTTP", <<>>), At("HTTPS", <<"x", "y">>) >> \* <<"">>: "/"
Places == { PlaceSeq[l] : l \in 1..Len(PlaceSeq) }

Err == [k |-> "err"]
Redirect(p) == [k |-> "redirect", path |-> p]
Serve(id) == [k |-> "file", id |-> id]

Get(segs, m) ==
  LET names == Names(segs)
      slash == Ends(segs)
      pre == IF cfg.prefix = <<"">> THEN <<>> ELSE cfg.prefix
      under == Prefix(pre, names) /\ (Len(names) > Len(pre) \/ slash \/ names = <<>>)
      rel == SubSeq(names, Len(pre) + 1, Len(names))
      n == Node(rel)
      idx == Node(rel \o <<"index.html">>)
  IN IF ~under THEN IF Prefix(pre, names) /\ ~slash /\ Len(names) = Len(pre) THEN Redirect(Str(names, TRUE)) ELSE Err
     ELSE IF m \notin {"GET", "HEAD"} THEN [k |-> "method"]
     ELSE IF Str(names, slash) # Path(segs) THEN Redirect(Str(names, slash))
     ELSE IF \E j \in 1..Len(rel): Hid(rel[j]) THEN Err
     ELSE IF n.k = "dir" /\ ~slash THEN Redirect(Str(names, TRUE))
     ELSE IF n.k = "dir" THEN IF idx.k = "file" THEN Serve(idx.id) ELSE Err
     ELSE IF n.k = "file" THEN IF slash THEN Redirect(Str(names, FALSE)) ELSE Serve(n.id)
     ELSE IF n.k = "special" /\ slash THEN Redirect(Str(names, FALSE))
     ELSE Err

-----------------------------------------------------------------------------
Small == { W("a"), W("d"), W("d2"), W("x"), W("e"), W("n.txt"), W("s.txt"), W("f.txt"), W("index.html") }
Odd == { W(""), W("."), W(".."), T("%2e%2E", <<"..">>), T("%2E", <<".">>), T(".%2e", <<"..">>), W(".h"), T("%2eh", <<".h">>), W(".git"), T("%2Egit", <<".git">>), W(".w"), W("c"), W(".well-known"),
         T("..%2fsecret", <<"..", "secret">>), T("..%2F..%2fsecret", <<"..", "..", "secret">>), T("%2f", <<"", "">>), T("b%5cs", <<"b\\s">>), T("..%5csecret", <<"..\\secret">>), W("..."), W("..h"),
         T("%2e%2eh", <<"..h">>), T("d2%2fs.txt", <<"d2", "s.txt">>), T("d2%2f.h", <<"d2", ".h">>), T("d%2findex.html", <<"d", "index.html">>), T("%00", <<"?0">>), T("n.txt%00", <<"n.txt?0">>),
         T("n.txt%00.png", <<"n.txt?0.png">>), T("%ff", <<"?ff">>), W("root-secret"), W("secret"), W("N.TXT"), W("n.txt."), W("n.txt::$DATA"), W("n.txt;x"), W("INDEX.HTML"), W("h.html"), W("t."),
         T("c%20d%3F%25;.txt", <<"c d?%;.txt">>), T("c+d%3F%25;.txt", <<"c+d?%;.txt">>), T("n%252etxt", <<"n%2etxt">>), T("%252e%252e", <<"%2e%2e">>), T("x%20y", <<"x y">>), W("y"), W("index.html.d"),
         T("~root", <<"~root">>), T("%2e%2e%2f", <<"..", "">>), T("d%2f..%2f..%2froot.txt", <<"d", "..", "..", "root.txt">>), T("%6e.txt", <<"n.txt">>), T("in%64ex.html", <<"index.html">>), T("%61", <<"a">>) }
Tok == Small \cup Odd

Queries == {"", "?", "?q=1", "?../../secret", "?a=%2F&b=//evil.test/"}
Methods == {"GET", "GET", "GET", "HEAD", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "PROPFIND", "MKCOL"}
Ranges == {"", "", "", "bytes=2-5", "bytes=-3", "bytes=9999999-", "bytes=0-"}

Req(p, m, q, toks, rng, cond, track) ==
  LET segs == Flat(toks)
      o == Get(segs, m)
      t == IF toks = <<>> THEN "/" ELSE Raws(toks)
      \* What the client has of it.
      old == IF cond /\ t \in DOMAIN seen THEN seen[t] ELSE <<>>
      now == IF o.k = "file" THEN <<o.id, edn[o.id]>> ELSE <<>>
  IN
  /\ act' = [op |-> "req", p |-> p, m |-> m, target |-> t, q |-> q, rng |-> rng, cond |-> old # <<>>]
  \* not modified only if it is what the client has.
  /\ out' = IF o.k = "file" THEN [k |-> "file", id |-> o.id, nm |-> old # <<>> /\ old = now] ELSE o
  /\ seen' = IF o.k = "file" /\ m = "GET" /\ rng = "" /\ track THEN [z \in DOMAIN seen \cup {t} |-> IF z = t THEN now ELSE seen[z]] ELSE seen
  /\ UNCHANGED <<cfg, a, i, edn>>

\* The tree changes: what is new there, and what it links to, has a new content.
Fresh(ids) == edn' = [f \in DOMAIN edn |-> IF f \in ids THEN edn[f] + 1 ELSE edn[f]]
OutIds == {"out:/secret", "out:/dir/f.txt", "out:/dir/index.html"}
AIds == {"/a", "/a/f.txt", "/a/index.html"}
DIds == {"/d/index.html", "/d/f.txt", "/d/h.html"}
AllIds == { Join(f) : f \in Files } \cup OutIds \cup AIds \cup DIds
PutA(k) ==
  /\ k # a
  /\ a' = k
  /\ Fresh(AIds \cup OutIds \cup DIds \cup (IF k \in {"lfile", "lroot", "lhid"} THEN {"/n.txt", "/.h", "/index.html", "/e", "/d2/s.txt", "/x/n.txt", "/x/x/n.txt", "/x y/index.html", "/c d?%;.txt", "/t."} ELSE {}))
  /\ act' = [op |-> "put", what |-> "a", kind |-> k, ids |-> {f \in AllIds : edn'[f] # edn[f]}] /\ out' = [k |-> "ok"]
  /\ UNCHANGED <<cfg, i, seen>>
PutI(k) ==
  /\ k # i
  /\ i' = k
  /\ Fresh({"/d/index.html", "out:/secret", "/n.txt"})
  /\ act' = [op |-> "put", what |-> "d/index.html", kind |-> k, ids |-> {f \in AllIds : edn'[f] # edn[f]}] /\ out' = [k |-> "ok"]
  /\ UNCHANGED <<cfg, a, seen>>
\* A file is edited, or replaced with another (rename).
Edit(f, how) ==
  /\ f \in AllIds
  /\ Fresh({f})
  /\ act' = [op |-> "edit", id |-> f, how |-> how] /\ out' = [k |-> "ok"]
  /\ UNCHANGED <<cfg, a, i, seen>>

NoSeen == [z \in {} |-> <<>>]
Start ==
  /\ a = "file" /\ i = "file"
  /\ edn = [f \in AllIds |-> 0]
  /\ seen = NoSeen
  /\ act = [op |-> "init"] /\ out = [k |-> "ok"]

-----------------------------------------------------------------------------
(* All targets of up to two tokens and an end, and all kinds of things. *)
InitOne == cfg \in Places /\ Start
InitSel == (\E l \in 1..Len(PlaceSeq): l % Mod = Rem /\ cfg = PlaceSeq[l]) /\ Start
Pre == [j \in 1..Len(cfg.prefix) |-> IF cfg.prefix[j] = "x y" THEN T("x%20y", <<"x y">>) ELSE IF cfg.prefix[j] = "x" THEN T("%78", <<"x">>) ELSE W(cfg.prefix[j])]
PreToks == IF cfg.prefix = <<"">> THEN <<>> ELSE Pre
Touches(toks) == \E j \in 1..Len(toks): toks[j] \in {W("a"), W("d"), T("%61", <<"a">>), T("d%2findex.html", <<"d", "index.html">>)}
NextAll ==
  \/ /\ i = "file" /\ \E k \in KindsA: k # a /\ a' = k /\ act' = [op |-> "put", what |-> "a", kind |-> k, ids |-> {}] /\ out' = [k |-> "ok"] /\ UNCHANGED <<cfg, i, edn, seen>>
  \/ /\ a \in {"file", "ldir"} /\ \E k \in KindsI: k # i /\ i' = k /\ act' = [op |-> "put", what |-> "d/index.html", kind |-> k, ids |-> {}] /\ out' = [k |-> "ok"] /\ UNCHANGED <<cfg, a, edn, seen>>
  \/ \E toks \in { <<>> } \cup { <<x>> : x \in Tok } \cup { <<x, y>> : x, y \in Tok }, pre \in BOOLEAN, slash \in BOOLEAN:
       /\ pre \/ PreToks # <<>>
       /\ slash => Len(toks) \in {1, 2} /\ (Len(toks) = 2 => toks[1] \in Small \cup {W("..")})
       /\ (a = "file" /\ i = "file") \/ (Touches(toks) /\ pre /\ \A j \in 1..Len(toks): toks[j] \in Small \cup {W(".."), W("h.html"), T("%61", <<"a">>), T("d%2findex.html", <<"d", "index.html">>)})
       /\ Req("h1", "GET", "", (IF pre THEN PreToks ELSE <<>>) \o toks \o (IF slash THEN << W("") >> ELSE <<>>), "", FALSE, FALSE)

\* Random requests and changes.
Now(S) == {x \in S: cfg = cfg}
Pick(S) == RandomSubset(1, Now(S))
InitRnd == \E c \in RandomSubset(4, Places): cfg = c /\ Start
NextRnd ==
  \E what \in Pick(1..10), ka \in Pick(KindsA), ki \in Pick(KindsI), f \in Pick(AllIds \cup {"/index.html", "/d/index.html"}), g \in Pick({"/index.html", "/n.txt", "/d/index.html", "/d/f.txt", "/a", "/a/index.html"}),
     how \in Pick({"write", "rename"}), p \in Pick({"h1", "h1", "h2", "h3"}), m \in Pick(Methods), q \in Pick(Queries), n \in Pick(0..4), few \in Pick(0..2),
     t1 \in Pick(Tok), t2 \in Pick(Tok), t3 \in Pick(Tok), t4 \in Pick(Tok), s1 \in Pick(Small), s2 \in Pick(Small), slash \in Pick(0..2), rng \in Pick(Ranges), cond \in Pick(BOOLEAN),
     pre \in Pick(1..8), path \in Pick({ <<>>, <<W("d")>>, <<W("a")>>, <<W("n.txt")>>, <<W("d"), W("f.txt")>>, <<W("a"), W("f.txt")>>, <<W("d"), W("index.html")>>, <<W("e")>> }), pop \in Pick(0..2):
    IF what = 1 THEN IF ka # a THEN PutA(ka) ELSE PutA(CHOOSE k \in KindsA: k # a)
    ELSE IF what = 2 THEN IF ki # i THEN PutI(ki) ELSE PutI(CHOOSE k \in KindsI: k # i)
    ELSE IF what = 3 THEN Edit(f, how)
    ELSE IF what = 4 THEN Edit(g, how)
    ELSE LET body == IF pop > 0 THEN path ELSE IF few = 0 THEN <<s1, s2>> ELSE SubSeq(<<t1, t2, t3, t4>>, 1, n)
             toks == (IF pre > 1 THEN PreToks ELSE <<>>) \o body \o (IF slash = 0 \/ (pop > 0 /\ path \in {<<>>, <<W("d")>>}) THEN << W("") >> ELSE <<>>)
             c == cond /\ pop > 0
         IN Req(p, IF c THEN "GET" ELSE m, IF c THEN "" ELSE q, toks, IF c THEN "" ELSE rng, c, TRUE)

-----------------------------------------------------------------------------
\* A file with a hidden name is never served, unless something visible is a link to it; nor one outside the root.
HiddenFiles == { Join(f) : f \in {g \in Files : \E j \in 1..Len(g): Hid(g[j])} }
Contained == [][ out'.k = "file" => /\ (out'.id \in HiddenFiles => a = "lhid")
                                    /\ (out'.id \in OutIds => a \in {"lout", "loutdir"} \/ i = "lout") ]_vars
ReadOnly == [][ out'.k = "file" => act'.m \in {"GET", "HEAD"} ]_vars
\* A redirect never leads to itself.
Progress == [][ out'.k = "redirect" => out'.path # act'.target ]_vars

View == [cfg |-> cfg, a |-> a, i |-> i, seen |-> seen, ed |-> edn]
ViewAll == [cfg |-> cfg, a |-> a, i |-> i]
Emit == PrintT("EDGE " \o ToJson([f |-> ViewAll, a |-> act', o |-> out', t |-> ViewAll', l |-> TLCGet("level")]))
=============================================================================
