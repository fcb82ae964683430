from vlib import main, make_walks, build_test

CFG = """
CONSTANTS Mod = %d
          Rem = %d
INIT %s
NEXT %s
PROPERTIES Contained Sanitized Total
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Emit
"""

def run(c):
    b = build_test("proxy", ["proxylib.go", "ssolib.go", "httplib.go", "dispatch.go"], c.scratch, clock=False, external=True)
    c.assumptions = ["all paths of the vocabulary are enumerated for a sample of configurations; the combinations with protocols, hosts, methods, bodies and answers are sampled by TLC"]
    mod = c.q(27, 3)
    e = c.edges("Dispatch", CFG % (mod, c.seed % mod, "InitPaths", "NextPaths"))
    walks, info = make_walks(e, c.seed, max_len=400)
    c.notes["walks"] = info
    c.replay(b, "TestVerifDispatch", walks, timeout=800)
    walks = c.simulate("Dispatch", CFG % (1, 0, "Init", "Next"), num=c.q(96, 600), depth=c.q(250, 400))
    c.replay(b, "TestVerifDispatch", walks, timeout=800)

if __name__ == "__main__":
    main("P09", run)
