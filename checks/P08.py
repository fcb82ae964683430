from vlib import main, make_walks, build_test

CFG = """
CONSTANTS Mod = %d
          Rem = %d
INIT Init
NEXT Next
PROPERTIES NotForged NotLeaked Configured
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Emit
"""

def run(c):
    b = build_test("proxy", ["proxylib.go", "ssolib.go", "httplib.go", "headers.go"], c.scratch, clock=False, external=True)
    c.assumptions = ["a login is tried with a valid or an invalid cookie; other credentials are P10's"]
    mod = c.q(31, 3)
    e = c.edges("Headers", CFG % (mod, c.seed % mod))
    walks, info = make_walks(e, c.seed, max_len=150)
    c.notes["walks"] = info
    c.replay(b, "TestVerifHeaders", walks, timeout=800)

if __name__ == "__main__":
    main("P08", run)
