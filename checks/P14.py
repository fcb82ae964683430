from vlib import main, make_walks, build_test

CFG = """
CONSTANTS MaxLogins = %d
          MaxAge = 3
          Answers = "%s"
          HDs = {%s}
INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK CookieSound
PROPERTIES LoginSound UsedStays
CHECK_DEADLOCK FALSE
%s
"""

def cover(e):
    f = e.f
    if e.a["op"] == "callback":
        s = e.a["s"]
        L = f["logins"]
        other = [(l["age"] <= 2, l["st"]) for n, l in enumerate(L) if n + 1 != s]
        a = e.a["ans"]
        ck = f["cookie"][e.a["browser"]]
        return ["cb", f["jt"], L[s - 1] if s else 0, "mine" if ck == s else "other" if ck else "none", f["mode"], f["hd"],
                dict(a, nonce="same" if a["nonce"] == s else other), e.o["res"]]
    return [e.a, f["cookie"], len(f["logins"])]

def run(c):
    b = build_test("proxy/internal/oidc", ["tmlib.go", "oidc_client.go"], c.scratch)
    c.assumptions = ["clock moved by the harness; one tick is 140 s of the 5 minute limit",
                     "a state whose callback failed once is left unspecified for its own browser"]
    for ml, ans, hds in ((1, "all", '"", "*", "example.com"'), (2, "few", '""')):
        e = c.edges("OIDCClient", CFG % (ml, ans, hds, "ACTION_CONSTRAINT Emit"))
        walks, info = make_walks(e, c.seed, max_len=50, cover=c.q(cover, None))
        c.notes.setdefault("walks", []).append(info)
        c.replay(b, "TestVerifOIDCClient", walks, label="_%d%s" % (ml, ans))
    if c.thorough:
        c.replay(b, "TestVerifOIDCClient", c.simulate("OIDCClient", CFG % (5, "all", '"", "*", "example.com"', ""), 8000, 25),
                 label="_sim")

if __name__ == "__main__":
    main("P14", run)
