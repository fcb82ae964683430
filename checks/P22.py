from vlib import main, make_walks, build_test

CFG = """
CONSTANTS Mod = %d
          Rem = %d
INIT %s
NEXT %s
PROPERTIES Contained ReadOnly Progress
CHECK_DEADLOCK FALSE
VIEW %s
ACTION_CONSTRAINT Emit
"""

def run(c):
    b = build_test("proxy", ["proxylib.go", "ssolib.go", "httplib.go", "static.go"], c.scratch, clock=False, external=True)
    c.assumptions = ["all targets of up to two tokens, and the changes of two names of the tree, are enumerated for a sample of the places of the document root; longer targets, conditional and range requests, and histories of changes are sampled by TLC"]
    mod = c.q(4, 1)
    e = c.edges("Static", CFG % (mod, c.seed % mod, "InitSel", "NextAll", "ViewAll"))
    walks, info = make_walks(e, c.seed, max_len=600)
    c.notes["walks"] = info
    c.replay(b, "TestVerifStatic", walks, timeout=800)
    walks = c.simulate("Static", CFG % (1, 0, "InitRnd", "NextRnd", "View"), num=c.q(64, 500), depth=c.q(250, 400))
    c.replay(b, "TestVerifStatic", walks, timeout=800)

if __name__ == "__main__":
    main("P22", run)
