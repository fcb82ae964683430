from vlib import main, make_walks, build_test

CFG = """
CONSTANTS Mod = %d
          Rem = %d
          NSlots = %d
          Races = %s
INIT Init
NEXT Next
INVARIANTS Permitted
PROPERTIES KeepWorking Governs RejectedIsNothing
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Emit
"""
SIM = CFG.replace("VIEW View\n", "")

def strip(c):
    return None if c is None else {k: v for k, v in c.items() if k != "v"}

def cover(e):
    a, o, f = e.a, e.o, e.f
    s = f["slots"][0]
    if a["op"] == "reconf":
        if s["stage"] in ("-", "new"):
            return [a["op"], s["stage"], f["cur"], a["v"]]
        return [a["op"], a["v"], s["k"], s["stage"], s["v"], s["be"], o["fates"]]
    if a["op"] == "reject":
        return [a["op"], a["how"], s["stage"], f["cur"]]
    if a["op"] == "connect":
        return [a["op"], a["k"]]
    return [a["op"], a.get("k", s.get("k")), s["stage"], s.get("v"), s.get("be"), f["cur"] if a["op"] not in ("use", "request", "close") else 0, f["jr"], o["res"]]

def run(c):
    b = build_test("proxy", ["proxylib.go", "reconf.go"], c.scratch, timers=False, external=True)
    c.assumptions = ["HTTP connections without a request in flight may be closed by any configuration change (graceful drain)",
                     "the roots of client certificates don't change; revocation is P03's"]
    mod = c.q(307, 61)
    e = c.edges("Reconfigure", CFG % (mod, c.seed % mod, 1, "FALSE"))
    walks, info = make_walks(e, c.seed, max_len=150, cover=cover)
    c.notes["walks"] = info
    c.replay(b, "TestVerifReconf", walks, label="edges", timeout=800)
    e = c.simulate("Reconfigure", SIM % (23, c.seed % 23, 3, "TRUE"), c.q(60, 400), 60)
    c.replay(b, "TestVerifReconf", e, label="races", timeout=800)

if __name__ == "__main__":
    main("P04", run)
