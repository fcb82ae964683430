from vlib import main, make_walks, build_test

CFG = """
CONSTANTS MaxCerts = %d
          MaxAge = %d
          Users = {"alice", "bob", "root"}
          Keys = {"k1", "k2"}
INIT Init
NEXT Next
PROPERTIES KeyStays OwnEmail Expires
CHECK_DEADLOCK FALSE
"""

def cover(e):
    a, f = e.a, e.f
    if a["op"] == "use":
        return [a, f["certs"][a["cert"] - 1], f["ca"]]
    return [a, f["ca"], len(f["certs"])]

def run(c):
    b = build_test("proxy/internal/sshca", ["tmlib.go", "sshca.go"], c.scratch, timers=False)
    c.assumptions = ["requests are given to the handler with the claims of the user (the SSO layer is property P10)",
                     "software keys; the clock moves in ticks of four minutes"]
    e = c.edges("SSHCA", CFG % (1, 3) + "VIEW View\nACTION_CONSTRAINT Emit\n")
    walks, info = make_walks(e, c.seed, max_len=60, cover=c.q(cover, None))
    c.notes["walks"] = info
    c.replay(b, "TestVerifSSHCA", walks)
    c.replay(b, "TestVerifSSHCA", c.simulate("SSHCA", CFG % (6, 4), c.q(300, 4000), 60), label="_sim")

if __name__ == "__main__":
    main("P20", run)
