from vlib import main, make_walks, build_test

CFG = """
CONSTANTS Mod = %d
          Rem = %d
          NSlots = %d
          NKinds = %d
INIT Init
NEXT %s
INVARIANTS Ends
PROPERTIES Bounded NoTrace Graceful
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Emit
"""

def cover(e):
    a, o, f, t = e.a, e.o, e.f, e.t
    op = a["op"]
    slots = sorted([s["k"], s["st"]] for s in f["slots"])
    if op in ("open", "advance", "close", "srvclose", "fin", "req", "finish"):
        me = f["slots"][a["s"] - 1]
        return [op, me["k"], me["st"], a.get("k"), a.get("st"), a.get("how"), o["res"], f["phase"], t["phase"]]
    if op == "bad":
        return [op, a["b"], len([s for s in f["slots"] if s["st"] != "-"]) + 1 >= f["max"]]
    if op == "burst":
        return [op, a["k"], o["ok"]]
    if op == "churn":
        return [op, o["room"]]
    if op == "reconf":
        return [op, slots, a["max"] < f["max"]]
    return [op, slots, t["phase"]]

def run(c):
    b = build_test("proxy", ["proxylib.go", "ssolib.go", "httplib.go", "conns.go"], c.scratch, clock=False, external=True)
    c.assumptions = ["a connection counts as gone when the proxy has noticed; the check waits for that"]
    mod = c.q(9, 3)
    e = c.edges("Conns", CFG % (mod, c.seed % mod, 2, 2, "Next"))
    walks, info = make_walks(e, c.seed, max_len=60, cover=cover)
    c.notes["walks"] = info
    c.replay(b, "TestVerifConns", walks, label="edges", timeout=800)
    walks = c.simulate("Conns", CFG.replace("VIEW View\n", "") % (1, 0, 4, 4, "NextSim"), num=c.q(60, 600), depth=60)
    c.replay(b, "TestVerifConns", walks, label="sim", timeout=800)
    c.model("ShutdownWait", "CONSTANTS N = 4\n Locked = TRUE\nSPECIFICATION Spec\nINVARIANTS NotEarly\nPROPERTIES Returns\nCHECK_DEADLOCK FALSE\n")
    walks = c.simulate("Conns", CFG.replace("VIEW View\n", "") % (1, 0, 1, 1, "NextRush"), num=c.q(64, 400), depth=3, salt=1)
    c.replay(b, "TestVerifConns", walks, label="rush", timeout=800)

if __name__ == "__main__":
    main("P05", run)
