from vlib import main, make_walks, build_test

CFG = """
CONSTANTS Mod = %d
          Rem = %d
INIT Init
NEXT Next
PROPERTIES Authenticated Trusted Timely NotRevoked Authorized
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Emit
"""

def cover(e):
    a, o, f = e.a, e.o, e.f
    if a["op"] not in ("connect", "resume"):
        return [f["cfg"], a]
    be = f["cfg"]["bs"][o["be"] - 1]
    k = [a["op"], o["pol"], a["cert"], f["late"], f["revoked"], o["res"]]
    if a["op"] == "connect" and o["res"] == "refused":
        return k + [be["mode"]]
    return k + [f["sess"], be["mode"], be["alpn"], a["t"], a["sni"], a["alpn"]]

def run(c):
    b = build_test("proxy", ["proxylib.go", "ssolib.go", "clientauth.go"], c.scratch, timers=False, external=True)
    c.assumptions = ["certificates name at most one OCSP responder (chains with several are P21's)",
                     "a session is resumed with its own certificate or with none"]
    mod = c.q(3600, 480)
    e = c.edges("ClientAuth", CFG % (mod, c.seed % mod))
    walks, info = make_walks(e, c.seed, max_len=250, cover=cover)
    c.notes["walks"] = info
    c.replay(b, "TestVerifClientAuth", walks, timeout=800)

if __name__ == "__main__":
    main("P03", run)
