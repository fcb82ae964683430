from vlib import main, make_walks, build_test

CFG = """
CONSTANTS MaxTok = %d
          CMs = {%s}
          Hosts = {%s}
          Muts = {%s}
INIT Init
NEXT Next
INVARIANTS InPlace
PROPERTIES Roles Derived
CHECK_DEADLOCK FALSE
"""
ALLC = '"A", "B", "C", "D"'
ALLM = ", ".join('"%s"' % m for m in "none iss aud proxyauth noproxyauth provider noprovider nosub emptysub expired basic short".split())
ALLH = '"www.com", "login.com", "idn.com", "www.org"'

def cover(e):
    a, f = e.a, e.f
    def tok(k): return [f["toks"][k - 1][x] for x in ("kind", "c", "u", "s", "h")] + [f["toks"][k - 1]["age"] > 2] if k else None
    if a["op"] == "present":
        return [f["jt"], a["op"], a["c"], a["h"], a["as"], a["m"], tok(a["k"])]
    if a["op"] == "presentid":
        k, l = tok(a["k"]), tok(a["a"])
        return [f["jt"], a["op"], a["c"], a["h"], k[1], k[4:], k[2] == l[2], k[3] == l[3]]
    if a["op"] == "visit":
        return [f["jt"], a, {h: tok(k) for h, k in f["id"].items() if h == a["h"]}, {d: tok(k) for d, k in f["auth"].items()}, e.o]
    return [a, len(f["toks"])]

def run(c):
    b = build_test("proxy/internal/cookiemanager", ["tmlib.go", "cookies.go"], c.scratch)
    c.assumptions = ["the clock is moved by the harness in steps of 7 hours", "the browser is net/http/cookiejar",
                     "a login token presented as an ID token cookie is left unspecified"]
    for n, cs, hs, ms in ((2, '"A", "B"', '"www.com", "login.com"', ALLM), (2, '"A", "C", "D"', '"idn.com", "www.org"', ALLM),
                          (3, '"A"', '"www.com"', '"none"')):
        e = c.edges("Cookies", CFG % (n, cs, hs, ms) + "VIEW View\nACTION_CONSTRAINT Emit\n")
        walks, info = make_walks(e, c.seed, max_len=40, cover=c.q(cover, None))
        c.notes.setdefault("walks", []).append(info)
        c.replay(b, "TestVerifCookies", walks, label="_%d%d" % (n, len(cs)))
    c.replay(b, "TestVerifCookies", c.simulate("Cookies", CFG % (6, ALLC, ALLH, ALLM), c.q(400, 8000), 50), label="_sim")

if __name__ == "__main__":
    main("P11", run)
