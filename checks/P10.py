from vlib import main, make_walks, build_test

CFG = """
CONSTANTS Mod = %d
          Rem = %d
          MaxTok = %d
          Wide = %d
INIT Init
NEXT Next
PROPERTIES OnlyAuthorized TrueIdentity
CHECK_DEADLOCK FALSE
"""

def cover(e):
    a, f = e.a, e.f
    if a["op"] != "req":
        return [a, [t["kind"] for t in f["toks"]]]
    def tok(k):
        if not k: return 0
        t = f["toks"][k - 1]
        return [t["kind"], t["prov"], t["host"], t["hh"]["h"] == a["h"], t["hh"]["port"] == a["port"], f["now"] - t["iat"] > 60, f["now"] > t["exp"], t["user"]]
    return [a["h"], a["hh"], a["port"], a["t"], a["meth"], a["skip"], a["m"], e.o] if a["t"] not in ("/secret/x", "/public") else [a["h"], a["hh"], a["meth"], a["t"], a["m"], tok(a["ck"]), tok(a["bk"]), bool(a["ik"]), e.o, f["jt"]]

def run(c):
    b = build_test("proxy", ["proxylib.go", "ssolib.go", "httplib.go", "sso.go"], c.scratch, external=True)
    c.assumptions = ["the identity provider is honest and reached over plain HTTP on the loopback interface",
                     "request targets come from a table of spellings of a few paths"]
    e = c.edges("SSO", CFG % (120, (c.seed * 37) % 120, 1, 0) + "VIEW View\nACTION_CONSTRAINT Emit\n")
    walks, info = make_walks(e, c.seed, max_len=150, cover=cover)
    c.notes["walks"] = info
    c.replay(b, "TestVerifSSO", walks, label="edges", timeout=800)
    mod = c.q(12, 1)
    c.replay(b, "TestVerifSSO", c.simulate("SSO", CFG % (mod, c.seed % mod, 4, 1), c.q(160, 4000), 60), label="sim", timeout=800)

if __name__ == "__main__":
    main("P10", run)
