from vlib import main, make_walks, build_test

CFG = """
CONSTANTS Users = {%s}
          Askers = {%s}
          Allowed = {"alice", "bob"}
          MaxKeys = %d
          MaxChals = %d
          MaxVer = %d
          MaxDays = %d
          Sim = %s
INIT Init
NEXT Next
PROPERTIES OwnerOnly RefusedChangesNothing LoginByKey ChallengesOnce Identity
CHECK_DEADLOCK FALSE
"""
ALL = '"alice", "bob", "mallory"'

def cover(e):
    """Everything that matters for what can happen next, but not the exact ages and versions."""
    f, a = e.f, e.a
    st = lambda u: [f["other"][u] != 0, f["rec"][u] == f["other"][u], f["rec"][u] != 0, f["sess"][u]["k"], f["sess"][u]["here"],
                    f["sess"][u]["age"] < 4, u in f["old"]]
    ch = lambda c: [c["kind"], c["b"], c["age"] < 2, c["st"], c["ver"] == (f["other"] if c["kind"] == "reg" else {u: s["sv"] for u, s in f["sess"].items()})[c["b"]]]
    k = [f["keys"], [st(u) for u in sorted(f["rec"])] if "b" in a else 0]
    if "c" in a:
        k.append(ch(f["chals"][a["c"] - 1]))
    return [a, k]

def run(c):
    b = build_test("proxy/internal/passkeys", ["tmlib.go", "passkeys.go"], c.scratch, timers=False)
    c.assumptions = ["requests to the key management page are given the claims of the browser's login cookie (the SSO layer is property P10)",
                     "whether a challenge can be used again after a failed attempt is left open"]
    e = c.edges("Passkeys", CFG % ('"alice", "mallory"', "", 1, c.q(1, 2), 2, 1, "FALSE") + "VIEW View\nACTION_CONSTRAINT Emit\n")
    walks, info = make_walks(e, c.seed, max_len=60, cover=c.q(cover, None))
    c.notes["walks"] = info
    c.replay(b, "TestVerifPasskeys", walks)
    c.replay(b, "TestVerifPasskeys", c.simulate("Passkeys", CFG % (ALL, ALL, 8, 30, 30, 2, "TRUE"), c.q(600, 6000), 80), label="_sim")

if __name__ == "__main__":
    main("P17", run)
