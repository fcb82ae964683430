from vlib import main, make_walks, build_test

CFG = """
CONSTANTS Mod = %d
          Rem = %d
          MaxConns = %d
INIT Init
NEXT Next
PROPERTIES NeverServed OnlyTrue
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Emit
"""

def cover(e):
    f = e.f
    k = e.a.get("k")
    return [f["cfg"], e.a, e.o] if k is None else [f["cfg"], e.a["op"], e.a.get("path"), k, [(c["t"], c["a"]) for c in f["conns"]] if e.a["op"] == "request" else 0]

def run(c):
    b = build_test("proxy", ["proxylib.go", "addresses.go"], c.scratch, clock=False, external=True)
    c.assumptions = ["client addresses are loopback addresses, and any address in PROXY headers",
                     "version 1 of the PROXY protocol cannot describe a QUIC client: UNKNOWN is accepted there",
                     "a trusted peer may also connect without a PROXY header, as itself"]
    mod = c.q(29, 5)
    e = c.edges("Addresses", CFG % (mod, c.seed % mod, c.q(2, 2)))
    walks, info = make_walks(e, c.seed, max_len=150, cover=cover)
    c.notes["walks"] = info
    c.replay(b, "TestVerifAddresses", walks, timeout=800)

if __name__ == "__main__":
    main("P02", run)
