from vlib import main, build_test

CFG = """
INIT Init
NEXT Next
PROPERTIES Verified Available Apart
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Emit
"""

def run(c):
    b = build_test("proxy", ["proxylib.go", "ssolib.go", "httplib.go", "upstream.go"], c.scratch, clock=False, external=True)
    c.assumptions = ["behaviours (configurations, states of the servers, connections and requests) are sampled by TLC",
                     "a server that can't be reached refuses connections (TCP) or doesn't answer (QUIC); without QUIC, a server with a bad certificate isn't replaced with another for the same connection"]
    for i in range(c.q(2, 10)):
        walks = c.simulate("Upstream", CFG, num=c.q(64, 160), depth=40, salt=i)
        c.replay(b, "TestVerifUpstream", walks, timeout=800, label="part%d" % i)

if __name__ == "__main__":
    main("P06", run)
