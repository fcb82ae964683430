from vlib import main, make_walks, build_test

CFG = """
CONSTANTS MaxCerts = %d
          MaxEpochs = %d
          Kinds = {%s}
INIT Init
NEXT Next
INVARIANTS TypeOK
PROPERTIES RevokedForever OnlyRevoke CRLComplete
CHECK_DEADLOCK FALSE
"""
ALL = '"cn", "dns", "email", "ca", "badsig"'

def run(c):
    b = build_test("proxy/internal/pki", ["tmlib.go", "pki.go"], c.scratch, timers=False)
    c.assumptions = ["the clock is moved by the harness", "software keys (no TPM)",
                     "a write that fails is a failed rename of the data file"]
    e = c.edges("PKI", CFG % (2, 1, '"cn"') + "VIEW View\nACTION_CONSTRAINT Emit\n")
    walks, info = make_walks(e, c.seed, max_len=50, cover=c.q(lambda e: [e.a, e.f["certs"], e.f["crl"], e.t["certs"]], None))
    c.notes["walks"] = info
    c.replay(b, "TestVerifPKI", walks)
    c.replay(b, "TestVerifPKI", c.simulate("PKI", CFG % (5, 2, ALL), c.q(400, 6000), 40), label="_sim")

if __name__ == "__main__":
    main("P18", run)
