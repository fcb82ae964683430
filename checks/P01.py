from vlib import main, make_walks, build_test

CFG = """
CONSTANTS Mod = %d
          Rem = %d
          NB = {%s}
INIT Init
NEXT Next
PROPERTIES OnlyListedNames FirstOffered UnknownRefused OwnProtocols
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Emit
"""

def run(c):
    b = build_test("proxy", ["proxylib.go", "routing.go"], c.scratch, clock=False, external=True)
    c.assumptions = ["server names are matched as the client sends them (no case folding of the SNI)",
                     "the modes CONSOLE and LOCAL are accepted and selected like HTTP",
                     "the ClientHellos are those of crypto/tls and quic-go, cut into pieces, and listed malformed ones"]
    for i, (nb, mod) in enumerate([("1", c.q(7, 1)), ("2", c.q(211, 31)), ("3", c.q(40009, 4001))]):
        e = c.edges("Routing", CFG % (mod, c.seed % mod, nb))
        cover = lambda e: [e.f["cfg"], e.a["op"], e.o, e.a.get("what"), e.a.get("frag"), e.a.get("sni"), (e.a.get("alpn") or [""])[0]]
        walks, info = make_walks(e, c.seed, max_len=200, cover=c.q(cover, None))
        c.notes["walks%d" % i] = info
        c.replay(b, "TestVerifRouting", walks, label="_%s" % nb, timeout=600)

if __name__ == "__main__":
    main("P01", run)
