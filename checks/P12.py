from vlib import main, build_test

CFG = """
CONSTANTS Runs = {1, 3, 21, 30}
          Fails = {%s}
          Downs = {0, 1, 22, 100, 160, 175}
          MaxTokens = %d
          Depth = %d
          MaxNow = %d
          Policy = "overlap"
INIT Init
NEXT Next
INVARIANTS AllVerifiable Renewed OneOfEach MemSorted
CHECK_DEADLOCK FALSE
"""

def run(c):
    b = build_test("proxy/internal/tokenmanager", ["tokenkeys.go"], c.scratch)
    c.assumptions = ["the clock (with its timers) is moved by the harness, an hour at a time",
                     "software keys (no TPM)", "keys are renewed and retired by the hourly loop"]
    c.model("TokenKeys", CFG % ("1, 3, 26", 2, c.q(6, 8), 2000) + "VIEW MCView\nCONSTRAINT Bound\n")
    c.lap("model checked")
    w = c.simulate("TokenKeys", CFG % ("1, 3", 6, 100, c.q(330, 900)), c.q(72, 800), c.q(20, 40))
    c.replay(b, "TestVerifTokenKeys", w, timeout=c.q(300, 3000))

if __name__ == "__main__":
    main("P12", run)
