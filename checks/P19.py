from vlib import main, make_walks, build_test

CFG = """
CONSTANTS MaxCerts = %d
          Users = {%s}
INIT Init
NEXT Next
PROPERTIES OwnerOnly NoneDoesNothing OwnCerts GetChangesNothing
CHECK_DEADLOCK FALSE
"""

def cover(e):
    a, f = e.a, e.f["certs"]
    if "k" in a:
        c = f[a["k"] - 1]
        return [a["op"], a["u"], a.get("adm"), a.get("form"), c, [x["owner"] == c["owner"] for x in f]]
    return [a, f if a["op"] == "list" else len(f)]

def run(c):
    b = build_test("proxy/internal/pki", ["tmlib.go", "pki.go", "pkiself.go"], c.scratch, timers=False)
    c.assumptions = ["requests are given to the endpoint's handler with the claims of the user (the SSO layer is property P10)",
                     "any authenticated user may list and download all certificates when asking for them"]
    some = '"alice", "admin", "mallory", "none"'
    every = '"alice", "bob", "admin", "mallory", "mal2", "none"'
    e = c.edges("PKISelf", CFG % (c.q(2, 3), c.q(every, some)) + "VIEW View\nACTION_CONSTRAINT Emit\n")
    walks, info = make_walks(e, c.seed, max_len=60, cover=c.q(cover, None))
    c.notes["walks"] = info
    c.replay(b, "TestVerifPKISelf", walks)
    c.replay(b, "TestVerifPKISelf", c.simulate("PKISelf", CFG % (6, every), c.q(300, 4000), 60), label="_sim")

if __name__ == "__main__":
    main("P19", run)
