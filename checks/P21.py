from vlib import main, make_walks, build_test

CFG = """
CONSTANTS Families = {%s}
          StapleKinds = {%s}
          Sim = %s
INIT Init
NEXT Next
INVARIANT TypeOK
PROPERTIES Accepted RevokedRejects NothingComesBack
CHECK_DEADLOCK FALSE
"""
USABLE = ["good", "revoked", "unknown", "nonext", "delegate", "delrevoked"]
USELESS = ["other", "wrongsig", "foreign", "peer", "self", "expdelegate", "expired", "future", "tampered", "trylater", "garbage"]
q = lambda l: ", ".join('"%s"' % x for x in l)

def cover(e):
    a, f = e.a, e.f
    if a["op"] == "verify":
        return [a, {k: ((v["st"], v["age"] > 2) if a["f"][-1] in k or k == "I" else 0) for k, v in f["cache"].items()}, e.o["res"]]
    if a["op"] == "response":
        return [a, f["cache"].get(a["c"])]
    return [a, f]

def run(c):
    b = build_test("proxy/internal/ocspcache", ["tmlib.go", "ocsp.go"], c.scratch)
    c.assumptions = ["an OCSP URL that cannot be parsed is left unspecified, and so is a good staple after a revoked answer has expired",
                     "the clock moves in hours; responders are local HTTP servers"]
    for fam in (["L1"], ["L2"], ["L3", "X3"], ["S", "none"]):
        e = c.edges("OCSP", CFG % (q(fam), q(["none"] + (USABLE + USELESS if fam == ["L1"] else c.q([], ["good", "revoked", "peer"]))), "FALSE")
                    + "VIEW View\nACTION_CONSTRAINT Emit\n")
        walks, info = make_walks(e, c.seed, max_len=60, cover=c.q(cover, None))
        c.notes.setdefault("walks", []).append(info)
        c.replay(b, "TestVerifOCSP", walks, label="_" + fam[0])
    c.replay(b, "TestVerifOCSP", c.simulate("OCSP", CFG % (q(["L1", "L2", "L3", "L1J", "X1", "X3", "S"]), q(["good"] + USABLE + USELESS), "TRUE"),
                                           c.q(200, 5000), 60), label="_sim")

if __name__ == "__main__":
    main("P21", run)
