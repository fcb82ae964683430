from vlib import main, make_walks, build_test

CFG = """
CONSTANTS Browsers = {"b1", "b2"}
          Hosts = {"h1", "h2"}
          MaxTok = %d
          MaxSid = %d
          Forged = %d
INIT Init
NEXT Next
INVARIANTS TypeOK
PROPERTIES Bound Stable Fresh
CHECK_DEADLOCK FALSE
"""

def cover(e):
    a, f = e.a, e.f
    j = f["jar"]
    cur = j[a["b"]][a["h"]]
    def c(x): return (x > 0) - (x < 0)
    if a["op"] == "use":
        k = a["k"]
        s = f["toks"][k - 1]["sid"] if k else None
        where = sorted((b != a["b"], h != a["h"]) for b in j for h in j[b] if s and j[b][h] == s)
        return ["use", a["m"], c(cur), s == cur, s and c(s), where, len(f["toks"])]
    return [a["op"], a["b"], a["h"], a.get("sid"), c(cur), f["sids"], len(f["toks"])]

def run(c):
    b = build_test("proxy/internal/cookiemanager", ["tmlib.go", "urltoken.go"], c.scratch)
    c.assumptions = ["well-formed session cookie values", "URLs and extra claims are drawn from a fixed list by the harness"]
    e = c.edges("SessionTokens", CFG % (2, 2, 1) + "VIEW View\nACTION_CONSTRAINT Emit\n")
    walks, info = make_walks(e, c.seed, max_len=40, cover=c.q(cover, None))
    c.notes["walks"] = info
    c.replay(b, "TestVerifURLToken", walks)
    c.replay(b, "TestVerifURLToken", c.simulate("SessionTokens", CFG % (6, 8, 3), c.q(400, 8000), 40), label="_sim")

if __name__ == "__main__":
    main("P13", run)
