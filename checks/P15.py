from vlib import main, make_walks, build_test

CFG = """
CONSTANTS MaxCodes = %d
          MaxAge = 3
          GoodReqs = "%s"
INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK CodesSound TokOnlyAfterExchange
PROPERTIES ExchangeSound SingleUse InfoSound
CHECK_DEADLOCK FALSE
%s
"""

def cover(e):
    """A request, its outcome, and the state of the code it is about."""
    codes = e.f["codes"]
    k = e.a.get("k", 0)
    if k and e.o["res"] != "error":
        return [e.f["jt"], e.a, e.o, codes[k - 1], sorted(c["code"] + c["tok"] for c in codes)]
    return [e.f["jt"], e.a, e.o, codes[k - 1] if k else 0]

def cover1(e):
    return cover(e) if e.f["jt"] else [e.a, e.f]

def run(c):
    b = build_test("proxy/internal/oidc", ["tmlib.go", "oidc_server.go"], c.scratch)
    c.assumptions = ["clock moved by the harness (patched time package); one tick is 50 s of the 120 s lifetime"]
    # every request in every state of one code, and every request class with two codes around
    for mc, reqs, cov in ((1, "all", c.q(cover1, None)), (c.q(2, 3), "few", cover)):
        e = c.edges("OIDCServer", CFG % (mc, reqs, "ACTION_CONSTRAINT Emit"))
        walks, info = make_walks(e, c.seed, max_len=60, cover=cov)
        c.notes.setdefault("walks", []).append(info)
        c.replay(b, "TestVerifOIDCServer", walks, label="_%d" % mc)

if __name__ == "__main__":
    main("P15", run)
