#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as code so that it stays easy to review).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "A connection reaches only the backend its server name and ALPN select",
 "Every TLS connection is handled by the backend that lists the requested server name (the default server name when the client sends none) and the first protocol offered by the client that some backend lists for that name, and otherwise by the first backend configured with that name; a QUIC connection is handled only by a backend of that name that serves QUIC and lists an offered protocol. "
 "A server name that no backend lists, or an empty name with no default, is refused (on TCP with an unrecognized_name alert) and no backend receives any byte. "
 "In TLSPASSTHROUGH mode the backend receives the client's exact bytes, starting with its ClientHello; in the other modes the proxy terminates TLS and negotiates only protocols configured for that backend.",
 ["inputs", "configurations"], "all client hellos (server name x offered ALPN list x transport x fragmentation) against all configurations of backends sharing names and protocols",
 "TestProxyBackends and TestQUICConnections visit a few dozen fixed (config, hello) pairs; the rule quantifies over every combination of shared names, protocol lists, modes and listing order.",
 ["proxy/proxy.go", "proxy/quic.go", "proxy/hello.go", "proxy/config.go"],
 [("backend lookup by (server name, protocol)", "proxy.go Proxy.backend, Reconfigure"), ("ClientHello peeking", "proxy.go handleConnection, hello.go peekClientHello"), ("QUIC admission", "quic.go GetConfigForClient / handleQUICConnection")],
 observe=["the backend server that received the connection", "alert seen by the client", "negotiated protocol"])

prop("P02", "Address rules and PROXY headers admit and report only true client addresses",
 "A client whose address is in denyIPs, or is not in a configured allowIPs list, never gets a byte to or from the backend, in every mode and on TCP as well as QUIC. "
 "The client address is the one in an incoming PROXY header only when the peer is listed in acceptProxyHeaderFrom; otherwise the socket address counts, and a PROXY header from any other peer is never honoured. "
 "When a backend or path override has a proxyProtocolVersion, each connection to it starts with exactly one PROXY header of that version carrying the address of the client whose data it carries (UNKNOWN for a QUIC client in version 1), and an upstream connection is never shared between clients with different addresses; without it no header is sent.",
 ["inputs", "configurations", "histories"], "all client addresses, header contents and sources, allow/deny lists, modes and request histories",
 "TestCheckIP and the two proxyproto tests use single addresses and one request order; bypasses appear in particular mode x header x connection reuse combinations.",
 ["proxy/proxy.go", "proxy/backend.go", "proxy/backend-http.go", "proxy/quic.go", "proxy/config.go"],
 [("address check", "backend.go checkIP, called by every handler"), ("incoming PROXY header", "proxy.go handleConnection acceptProxyHeaderFrom"), ("outgoing PROXY header", "backend.go dial"), ("upstream pooling key", "backend-http.go reverseProxy/transport")],
 observe=["bytes received by the backend", "PROXY header received by the backend"])

prop("P03", "Client-authenticated backends serve only valid, unrevoked, authorized certs",
 "A backend with clientAuth exchanges application data only with clients that proved possession of a certificate that chains to one of its rootCAs (or to any system root when none is set), is within its validity period, is not revoked by the proxy's own PKI or by OCSP, and matches the ACL when there is one (an empty ACL admits nobody). "
 "This holds for every mode that terminates TLS, for TCP and QUIC, for resumed sessions, and from the first handshake after a revocation onwards. "
 "Conversely a client that satisfies the policy of the selected backend is admitted.",
 ["inputs", "configurations", "histories"], "all presented certificates, ACL forms, modes, transports, protocol lists and histories of issue / connect / revoke / resume",
 "TestAuthnAuthz tries five clients against fixed backends, never resumes sessions across a revocation and never mixes policies of backends that share a name.",
 ["proxy/proxy.go", "proxy/backend.go", "proxy/quic.go", "proxy/internal/pki/pki.go"],
 [("handshake verification", "proxy.go Reconfigure VerifyConnection"), ("ACL", "backend.go authorize"), ("post-handshake check", "proxy.go authorizeTLSConnection")],
 observe=["data received by the backend", "handshake result"])

prop("P04", "Reconfiguration is atomic, re-authorizes open connections and never crashes",
 "A configuration that is rejected changes nothing that clients can observe, and an accepted one governs every connection accepted from then on. "
 "After an accepted configuration, every open connection that it no longer permits (backend gone or changed mode, address no longer allowed, client certificate now required but absent, or no longer on the access list) is closed, while connections that it still permits keep working (an HTTP connection may end when it has no request in flight). "
 "No configuration change, at any stage of any connection, crashes the proxy.",
 ["histories", "schedules", "configurations"], "all sequences of configurations interleaved with connections at every stage of their life",
 "No existing test reconfigures a proxy with open connections at all.",
 ["proxy/proxy.go", "proxy/backend.go", "proxy/config.go", "proxy/conntracker.go"],
 [("atomic swap", "proxy.go Reconfigure"), ("re-authorization", "proxy.go reAuthorize"), ("draining old backends", "backend.go close/incInFlight")],
 observe=["open client connections", "process liveness"])

prop("P05", "The open-connection limit and connection accounting are exact",
 "Fewer than maxOpen incoming connections are ever open at the same time, whatever stage they are in: the one that would be the maxOpen-th is closed without reaching a backend, and a place is freed as soon as a connection ends. "
 "However connections end (refused, failed or abandoned handshake, client or server close, reset, reconfiguration), they leave no trace: the tracker returns to exactly the set of connections still open, and no connection to a server outlives the one of the client. "
 "Graceful shutdown accepts nothing any more, closes QUIC client connections, lets handshakes and TCP-carried requests in flight (and TCP connections bridged to QUIC backends) finish and returns as soon as none is left or its context ends; Stop closes everything. Peers of QUIC connections are told.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of connects, failures, closes and shutdown",
 "TestConcurrency opens many connections but never reaches the limit, injects no failures and checks no accounting.",
 ["proxy/proxy.go", "proxy/conntracker.go", "proxy/backend.go", "proxy/quic.go"],
 [("limit check", "proxy.go handleConnection"), ("tracking", "conntracker.go"), ("OnClose callbacks", "internal/netw/netw.go"), ("Shutdown/Stop", "proxy.go")],
 observe=["accepted/refused connections", "return of Shutdown"])

prop("P06", "Backend selection fails over and never sends data to an unverified server",
 "New connections rotate over the configured addresses (of the backend or of the matching path override), skipping those that can't be reached; with none left, or when the server isn't acceptable, the client gets an error (HTTP 502 or close) and nothing hangs. "
 "When the link to the backend uses TLS, client data is sent only to a server whose certificate is valid for forwardServerName under forwardRootCAs (or system roots) and not revoked, unless insecureSkipVerify is set. "
 "A path override uses its own addresses, mode, server name, roots and PROXY setting and never those of the enclosing backend.",
 ["inputs", "configurations", "fault_sequences"], "all up/down/misidentified patterns of backend servers, modes and override settings",
 "Existing tests use one healthy backend address with a right certificate; failover, misidentified and revoked servers are never exercised.",
 ["proxy/backend.go", "proxy/backend-http.go", "proxy/quic.go"],
 [("round robin with failover", "backend.go dial"), ("TLS verification", "backend.go dial tls.Config"), ("override selection", "backend-http.go reverseProxy")],
 observe=["which backend received the connection/request", "error returned to the client"])

prop("P07", "Bridged streams are byte-exact and follow the half-close rules",
 "Between a client and its backend, each direction delivers exactly the bytes sent, in order, without loss, duplication or alteration, whatever the chunking, the bandwidth limits and the amount of data that arrived with the handshake; the same holds for messages bridged by a WebSocket endpoint. "
 "All bytes sent before a half-close are delivered before the peer sees end-of-stream; serverCloseEndsConnection and clientCloseEndsConnection decide whether a half-close ends the other direction, and otherwise the other direction keeps working until halfCloseTimeout without traffic. "
 "When a connection ends, both its sides end.",
 ["schedules", "inputs", "histories"], "all interleavings of writes, half-closes and closes from both ends, all chunkings",
 "Existing tests send one short message and read until EOF; no test half-closes with data in flight or bridges bulk data both ways.",
 ["proxy/proxy.go", "proxy/internal/netw/netw.go", "proxy/websocket.go", "proxy/quic.go"],
 [("bridge", "proxy.go bridgeConns/forward"), ("peeked bytes", "internal/netw/netw.go Peek/Read"), ("websocket bridge", "websocket.go")],
 observe=["bytes and EOFs at both ends"])

prop("P08", "Backends never receive forged identity headers nor the proxy's own credentials",
 "A request forwarded to an HTTP backend never carries a client-supplied X-Forwarded-Client-Cert, X-Forwarded-For or X-tlsproxy-user-id header: X-Forwarded-Client-Cert appears only when configured and describes exactly the verified certificate of the client connection, X-Forwarded-For is the address of the client, and X-tlsproxy-user-id is the verified user and appears only when configured. "
 "Headers configured with forwardHttpHeaders replace whatever the client sent, with every ${...} expanded from the actual connection and the verified user, and are removed when they expand to nothing; nothing in the request can suppress a header that the proxy sets. "
 "The proxy's authentication and session cookies are never forwarded by a backend that has SSO, whatever the path; other cookies are.",
 ["inputs", "configurations"], "all request headers and cookies, certificates, header templates and SSO states",
 "TestBackendHTTPHeaders, TestExpandVars and the XFCC tests check single well-formed requests; forgery needs combinations of duplicate, differently spelled or connection-nominated headers, cookies, and backends without SSO.",
 ["proxy/backend-http.go", "proxy/backend-sso.go", "proxy/xfcc.go", "proxy/internal/cookiemanager/cookiemanager.go"],
 [("header scrubbing and injection", "backend-http.go reverseProxy Director"), ("XFCC encoding", "xfcc.go"), ("cookie filtering", "cookiemanager.go FilterOutAuthTokenCookie")],
 observe=["request as received by the backend"])

prop("P09", "HTTP requests are dispatched by host and path to the right handler only",
 "In the forwarding HTTP modes a request whose host is not one of the server names of the connection's backend gets 421, one that loops back through the proxy gets 508, and local endpoints answer only on their own host and exact path (longest match; prefix only for OCSP); none of these is forwarded. "
 "A path override applies exactly to the configured prefixes on the normalized path, in the order in which the overrides are declared (the first match wins), and with sanitizePath the backend never sees dot segments or repeated slashes. "
 "Everything else reaches one server, with method, path, query and body unchanged, and its response is returned unchanged apart from the headers the proxy is configured to add; a response that the server cut short never looks complete to the client.",
 ["inputs", "configurations"], "all request targets (raw and encoded), hosts, methods, bodies, overrides and HTTP versions",
 "Existing tests use a handful of plain paths; path confusion needs encoded, dotted or doubled separators in combination with overrides and local endpoints.",
 ["proxy/backend-http.go", "proxy/backend-sso.go", "proxy/util.go", "proxy/config.go"],
 [("host check, overrides, loop detection", "backend-http.go reverseProxy"), ("local handlers", "backend-http.go handleLocalEndpointsAndAuthorize"), ("path cleaning", "util.go pathClean")],
 observe=["request as received by each backend", "response status"])

prop("P10", "SSO-protected paths are served only to authenticated, authorized users",
 "A request to a path covered by a backend's SSO policy reaches the backend or a protected local endpoint only if it carries an unexpired token, signed by this proxy, issued for this backend's identity provider and cookie domain (or an ID token issued for exactly this host), whose email the ACL admits. "
 "Otherwise an unauthenticated request is sent to login (403 for other methods than GET) and an unauthorized one gets 403, whatever spelling of the path is used. "
 "With forceReAuth the user must also have logged in for this very host within that period.",
 ["inputs", "configurations", "histories"], "all tokens (provider, audience, signer, age, holder) x cookies/bearer x path spellings x ACLs x policies",
 "TestEnforceSSOPolicy and TestAuthenticateUser check ten hand-written requests; bypasses live in path spellings, token kinds and time.",
 ["proxy/backend-sso.go", "proxy/backend-http.go", "proxy/internal/cookiemanager/cookiemanager.go", "proxy/internal/tokenmanager/tokenmanager.go"],
 [("policy enforcement", "backend-sso.go enforceSSOPolicy"), ("token validation", "backend-sso.go checkCookies, cookiemanager.go"), ("local endpoints", "backend-http.go")],
 observe=["request reaching the backend", "response status and Location"])

prop("P11", "Tokens and cookies work only for the host, provider and session they name",
 "The ID token handed to a backend names exactly that host as audience, carries no proxy-internal claim, and never outlives or differs in subject, provider or session from the login it was derived from. "
 "An ID token is accepted only as a bearer token or cookie for its own host and never as a login cookie; a login cookie set for one provider or domain is never accepted for another. "
 "Cookies are Secure, HttpOnly and limited to the configured domain, and logging out clears them all.",
 ["inputs", "histories", "configurations"], "all combinations of issuing and consuming host, provider, session and time",
 "TestCookies checks one cookie round trip; cross-host and cross-provider replay needs pairs of backends and token kinds.",
 ["proxy/internal/cookiemanager/cookiemanager.go", "proxy/backend-sso.go"],
 [("token issuing and validation", "cookiemanager.go"), ("ID token cookie refresh", "backend-sso.go checkCookies")],
 observe=["cookies set", "decision on replayed tokens"])

prop("P12", "Signing keys rotate so that every issued token stays verifiable",
 "A token issued by the token manager is accepted, by the proxy and by anyone holding the then-published JWKS, for its whole lifetime of up to 20 hours, across key rotations, restarts and crashes, and never after it expires. "
 "A key signs only after it has been published for about two hours (unless nothing older exists), is renewed daily, and disappears about a week after its creation (after a long downtime, once a newer key has been in use for a day). "
 "A token that is unsigned, tampered with, or signed with any other key or algorithm is never accepted.",
 ["histories", "crash_points", "inputs"], "all sequences of issue, rotate, restart, crash and elapsed time, and all token manipulations",
 "TestTokenManager calls rotateKeys a few times in a single process; it does not vary elapsed time, restarts, or failures.",
 ["proxy/internal/tokenmanager/tokenmanager.go"],
 [("rotation", "tokenmanager.go rotateKeys, KeyRotationLoop"), ("key choice", "tokenmanager.go CreateToken"), ("validation", "tokenmanager.go ValidateToken"), ("JWKS", "tokenmanager.go ServeJWKS")],
 observe=["ValidateToken results", "JWKS content"])

prop("P13", "URL tokens and session ids bind continuation links to one browser session",
 "A continuation token (login, logout, switch account, passkey flow) is accepted only from a browser that holds the session id it was issued to and only if produced by this proxy, and yields exactly the URL and claims it was created with. "
 "A session id is created when absent, and survives unchanged otherwise.",
 ["inputs", "histories"], "all pairs of issuing and presenting sessions, all manipulated tokens and cookies",
 "TestURLToken performs one valid and a few invalid conversions.",
 ["proxy/internal/tokenmanager/urltoken.go", "proxy/backend-sso.go"],
 [("URL tokens", "urltoken.go"), ("session cookie", "urltoken.go")],
 observe=["ValidateURLToken result", "cookies set"])

prop("P14", "OIDC login completes only for the browser that began it, once, for a fresh code",
 "An OIDC callback logs a user in only if its state was issued by this provider less than five minutes ago, has never been used, and matches the nonce cookie of the same browser; the code exchange then presents the PKCE verifier and redirect URL of that same request and a nonce in the returned ID token must be that request's. "
 "The user is accepted only with an email that is not marked unverified (and in the configured hosted domain), and is sent back to the URL the login started from. "
 "A failed or refused callback never sets a login cookie.",
 ["histories", "inputs", "schedules"], "all interleavings of logins from several browsers with replayed, stale, swapped or forged callbacks and provider responses",
 "TestSSOEnforceOIDC runs one good login; no test replays, swaps, delays or races callbacks.",
 ["proxy/internal/oidc/client.go"],
 [("state table", "client.go RequestLogin/HandleCallback")],
 observe=["cookies and redirect of the callback response", "token request received by the provider"])

prop("P15", "The local OIDC provider issues codes and tokens once and to the right client",
 "An authorization code is issued only to an authenticated user for a registered client id and its exact redirect URI, and can be exchanged at most once, within two minutes, by that client with its secret and the same redirect URI; an attempt by another registered client or with a wrong redirect URI destroys it. "
 "An access token returns user info at most once, within two minutes. "
 "The ID token and user info carry that user's claims, the requested nonce, the client as audience, and the configured claim rewrites, and no internal claims.",
 ["histories", "schedules", "inputs"], "all sequences and races of authorize, token and userinfo requests by several clients with right and wrong parameters over time",
 "Only claim rewriting has a test (TestRewriteRules).",
 ["proxy/internal/oidc/server.go"],
 [("code and token tables", "server.go ServeAuthorization/ServeToken/ServeUserInfo")],
 observe=["HTTP responses of the three endpoints"])

prop("P16", "SAML login accepts only fresh, signed assertions that answer a pending request",
 "A SAML response logs a user in only if its assertion is signed by a configured certificate, is within its validity window, names this service as audience and recipient, and answers a request that this provider issued less than five minutes ago and that has not been answered before. "
 "The identity is the signed assertion's and nothing outside the signed part influences it; the user is returned to the URL the login started from. "
 "Any other response sets no login cookie.",
 ["histories", "inputs"], "all sequences of login requests and (valid, replayed, stale, altered, wrapped, wrongly addressed) responses",
 "There is no SAML test.",
 ["proxy/internal/saml/saml.go"],
 [("state table and assertion checks", "saml.go RequestLogin/HandleCallback")],
 observe=["cookies and redirect of the callback response"])

prop("P17", "Passkeys authenticate only their registered owner, once per challenge",
 "A passkey login succeeds only with a signature by a registered, still existing key over a challenge issued within five minutes and not used before, for this relying party, with user presence and verification, and yields the identity the key was registered for. "
 "A key is registered only for the user who is logged in with the underlying provider, answering a fresh challenge issued to that same user, from this origin, and only if that user is allowed here; keys are deleted only by their owner, recently authenticated, and never the one in use. "
 "Registrations and deletions survive restarts; refused operations change nothing.",
 ["histories", "inputs", "crash_points"], "all sequences of register, login, delete, refresh and restart by several users with replayed, stale, swapped or altered messages",
 "TestWithFakeAuthenticator runs one registration and two logins; it does not replay, swap, expire, delete or restart.",
 ["proxy/internal/passkeys/manager.go", "proxy/internal/passkeys/webauthn.go"],
 [("challenges and nonces", "manager.go"), ("attestation", "manager.go processAttestation"), ("assertion", "manager.go processAssertion"), ("persistence", "manager.go OpenForUpdate")],
 observe=["HTTP responses", "login cookies", "list of keys"])

prop("P18", "A revoked certificate is reported revoked, everywhere, from then on",
 "Once a revocation has been acknowledged, the certificate is revoked for the proxy's own checks, for OCSP and for every CRL served afterwards, for as long as the certificate is unexpired, across restarts and crashes; a certificate that was not revoked is never reported revoked and OCSP answers good only for certificates this CA issued. "
 "Every issued certificate is recorded before it is handed out, serial numbers are never reused, and it chains to the CA with the requested names and without CA rights. "
 "Every CRL and OCSP response served is signed by the CA (or its delegate), and is current: its nextUpdate is never in the past.",
 ["histories", "crash_points", "schedules"], "all sequences of issue, revoke, query, elapsed time, restart and failed writes, concurrently",
 "TestIssueRevoke issues and revokes one certificate, in one process and one instant.",
 ["proxy/internal/pki/pki.go"],
 [("issue and revoke transactions", "pki.go IssueCertificate/RevokeCertificate"), ("CRL cache", "pki.go RevocationList"), ("OCSP", "pki.go OCSPResponse")],
 observe=["IsRevoked", "OCSP responses", "CRLs"])

prop("P19", "PKI self-service lets users act only on their own certificates",
 "Through the certificate management endpoint a user obtains only certificates for their own email address, can revoke only their own, and is shown only their own unless they ask for everybody's; only administrators who ask to act as such can revoke other users' certificates. "
 "State changes need a POST with the anti-forgery header; an unauthenticated request does nothing. "
 "A refused request changes no state.",
 ["inputs", "histories"], "all requests by several users and administrators, with all certificate request contents",
 "No test exercises the HTTP management interface.",
 ["proxy/internal/pki/http.go"],
 [("ownership checks", "http.go ServeCertificateManagement and helpers")],
 observe=["HTTP responses", "issued and revoked certificates"])

prop("P20", "The SSH CA certifies only the caller's own email, briefly, for user login",
 "An SSH certificate is issued only for a POST with the anti-forgery header from an authenticated user, and is a user certificate for exactly the submitted public key whose only principal and key id is that user's email. "
 "It is valid now and expires within about ten minutes, has a fresh serial, and verifies under the public key the CA publishes; that key survives restarts. "
 "Every other request gets an error and no certificate.",
 ["inputs", "histories"], "all requests (method, headers, content type, body, identity) and restarts",
 "TestCertificate issues two certificates.",
 ["proxy/internal/sshca/sshca.go"],
 [("issuing", "sshca.go ServeCertificate")],
 observe=["HTTP responses"])

prop("P21", "OCSP answers are used only when authentic, current and for the right certificate",
 "A certificate chain is accepted only if each certificate in it that names an OCSP responder has a response (stapled, cached or fetched) that is signed by its issuer or by a responder the issuer authorized, is about that certificate, is within its validity window, and says good; one acceptable chain is enough, and certificates that name no responder need no response. "
 "A revoked or unknown status, an unusable response or an unreachable responder rejects the chain, while a later responder of the same certificate may still answer. "
 "A cached response is not used after its nextUpdate, also after a restart, and the cache stays bounded.",
 ["inputs", "histories", "fault_sequences"], "all chains, responder behaviours, staples, cache states, elapsed times and restarts",
 "The OCSP cache has no test of its own.",
 ["proxy/internal/ocspcache/ocsp.go"],
 [("verification and cache", "ocsp.go VerifyChains/Response/fetchOCSP")],
 observe=["VerifyChains result", "requests received by the responder"])

prop("P22", "Static file serving never leaves the document root or exposes hidden files",
 "Serving static files answers GET and HEAD only, with the present content of a regular file below the document root whose path below it has no component that starts with a dot, and with a directory's index.html for the directory; a client is told that its copy is current only if it is. "
 "No request target, however encoded, lets a client read a file that isn't reachable by name from the document root (symbolic links in the tree are followed), list a directory, or write anything. "
 "All other requests get a redirect to the clean path or an error, without delay.",
 ["inputs", "configurations"], "all request targets and directory trees",
 "TestStaticFiles tries a dozen targets on one tree.",
 ["proxy/backend-http.go", "proxy/util.go"],
 [("containment", "backend-http.go serveStaticFiles, os.Root / path checks"), ("path cleaning", "util.go pathClean")],
 observe=["HTTP responses"])

prop("P23", "Bandwidth and rate limits are never exceeded and traffic counters are exact",
 "Over any interval, the bytes a limited backend (or group of backends sharing a bandwidth limit) moves in each direction never exceed rate x interval plus the burst, and requests or connections forwarded to a backend never exceed forwardRateLimit x interval plus its burst; limited traffic is delayed, not dropped. "
 "The sent and received byte counts of a connection equal the bytes that passed through it, and reported rates are averages over the last minute of those bytes.",
 ["schedules", "histories", "inputs"], "all traffic patterns over any number of connections, chunk sizes and elapsed times",
 "TestBandwidthLimit is flaky-prone and not in the stable list; TestCounter checks one pattern.",
 ["proxy/internal/netw/netw.go", "proxy/internal/counter/counter.go", "proxy/proxy.go"],
 [("token buckets", "netw.go Read/Write, proxy.go connLimit"), ("ring-buffer counter", "counter.go")],
 observe=["bytes/requests over time", "counter values"])

prop("P24", "Every configuration is either rejected or served exactly as written",
 "A configuration that is ambiguous or inconsistent (duplicate server name and protocol, unknown identity provider, PKI or bandwidth group, invalid addresses, networks, modes, URLs, or options in modes that cannot honour them) is rejected with an error, and a valid one is accepted. "
 "Checking never panics, is idempotent, and accepting a configuration never alters what the caller passed in. "
 "Server names are matched in canonical form: case and Unicode spelling of a name in the configuration never change which requests it matches.",
 ["configurations", "inputs"], "all configurations built from the documented options, valid and invalid",
 "TestReadConfig parses one good configuration.",
 ["proxy/config.go", "proxy/proxy.go"],
 [("validation", "config.go Check"), ("copying and comparing", "config.go clone/equal")],
 observe=["error or acceptance by Check/Reconfigure"])

prop("P25", "Concurrent token, code and state consumption succeeds at most once",
 "When several requests race to consume the same one-time secret (OIDC login state, authorization code, access token, SAML request id, passkey challenge or nonce), at most one succeeds, in every schedule, and the others fail as if it had never existed. "
 "Racing operations on shared state (issuing and revoking certificates, registering keys, rotating signing keys, counting connections) have the effect of some sequential order and lose no acknowledged update.",
 ["schedules"], "all interleavings of concurrent requests on the shared tables of the proxy",
 "The stable tests issue requests one at a time on these components.",
 ["proxy/internal/oidc/server.go", "proxy/internal/oidc/client.go", "proxy/internal/saml/saml.go", "proxy/internal/passkeys/manager.go", "proxy/internal/pki/pki.go", "proxy/internal/tokenmanager/tokenmanager.go", "proxy/conntracker.go"],
 [("mutexes around tables", "each component"), ("file locks and re-read before update", "storage OpenForUpdate users")],
 observe=["set of successful responses", "state after the race"])

prop("P26", "Unused cached server certificates, and only those, are revoked and removed",
 "With revokeUnusedCertificates enabled, a certificate in the proxy's certificate cache is revoked with the ACME server and removed only when none of its names is a server name of a configured backend; certificates still in use, cache entries that are not certificates, and all entries when the option is off are left untouched. "
 "A certificate that could not be revoked is kept for a later attempt.",
 ["configurations", "histories", "fault_sequences"], "all cache contents, configurations and ACME failures",
 "There is no test of this job.",
 ["proxy/revoke.go"],
 [("cleanup job", "revoke.go revokeUnusedCertificates")],
 observe=["cache content", "ACME revocation requests"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
