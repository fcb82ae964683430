from vlib import main, make_walks, build_test

CFG = """
CONSTANTS MaxLogins = %d
          MaxAge = 3
          Faults = "%s"
INIT Init
NEXT Next
VIEW View
INVARIANT TypeOK
PROPERTIES LoginSound UsedStays
CHECK_DEADLOCK FALSE
%s
"""

def cover(e):
    a = e.a
    if a["op"] == "respond":
        s, L = a["s"], e.f["logins"]
        return [a["fault"], e.f["jt"], L[s - 1] if s else 0, [(l["age"] <= 2, l["st"]) for n, l in enumerate(L) if n + 1 != s]]
    return [a, e.f]

def run(c):
    b = build_test("proxy/internal/saml", ["tmlib.go", "saml.go"], c.scratch)
    c.assumptions = ["clock moved by the harness; one tick is 140 s of the 5 minute limit",
                     "a request whose answer was refused is left unspecified afterwards",
                     "RSA-SHA256 signatures with exclusive canonicalization"]
    for ml, faults in ((1, "all"), (2, "few")) if not c.thorough else ((2, "all"), (3, "few")):
        e = c.edges("SAML", CFG % (ml, faults, "ACTION_CONSTRAINT Emit"))
        walks, info = make_walks(e, c.seed, max_len=40, cover=None if ml == 1 else cover)
        c.notes.setdefault("walks", []).append(info)
        c.replay(b, "TestVerifSAML", walks, label="_%d%s" % (ml, faults))
    if c.thorough:
        c.replay(b, "TestVerifSAML", c.simulate("SAML", CFG % (5, "all", ""), 4000, 20), label="_sim")

if __name__ == "__main__":
    main("P16", run)
