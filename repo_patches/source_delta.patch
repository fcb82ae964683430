From 423d7da2beccdc042145b7fae7ab1359c7c2b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 01/40] fix: bind OIDC authorization codes to their redirect
 URI

---
 proxy/internal/oidc/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/oidc/server.go b/proxy/internal/oidc/server.go
index 5cb15bb..b3e3df9 100644
--- a/proxy/internal/oidc/server.go
+++ b/proxy/internal/oidc/server.go
@@ -73,6 +73,7 @@ type openIDConfiguration struct {
 type codeData struct {
 	created     time.Time
 	clientID    string
+	redirectURI string
 	token       string
 	scope       string
 	accessToken string
@@ -314,6 +315,7 @@ func (s *ProviderServer) ServeAuthorization(w http.ResponseWriter, req *http.Req
 	s.codes[code] = &codeData{
 		created:     now,
 		clientID:    clientID,
+		redirectURI: redirectURI,
 		token:       token,
 		scope:       sc,
 		accessToken: accessToken,
@@ -368,7 +370,7 @@ func (s *ProviderServer) ServeToken(w http.ResponseWriter, req *http.Request) {
 	delete(s.codes, code)
 	s.mu.Unlock()
 
-	if !ok || data.clientID != clientID {
+	if !ok || data.clientID != clientID || data.redirectURI != redirectURI {
 		http.Error(w, "invalid request", http.StatusBadRequest)
 		return
 	}
-- 
2.43.0


From d9b91d5de816c802128d930f433dae0433cd6b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 02/40] fix: require the ID token nonce to be the one of the
 login being completed

---
 proxy/internal/oidc/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proxy/internal/oidc/client.go b/proxy/internal/oidc/client.go
index 872b074..637310e 100644
--- a/proxy/internal/oidc/client.go
+++ b/proxy/internal/oidc/client.go
@@ -304,10 +304,10 @@ func (p *ProviderClient) HandleCallback(w http.ResponseWriter, req *http.Request
 		claims.Nonce = nonce
 	}
 	p.mu.Lock()
-	state, ok = p.states[claims.Nonce]
-	delete(p.states, claims.Nonce)
+	state, ok = p.states[nonce]
+	delete(p.states, nonce)
 	p.mu.Unlock()
-	if !ok {
+	if !ok || claims.Nonce != nonce {
 		p.er.Record("invalid nonce")
 		http.Error(w, "timeout", http.StatusForbidden)
 		return
-- 
2.43.0


From 8250bfbef244cc1485649c991a19294b4b0e758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 03/40] fix: publish JWKS EC coordinates with their full length

RFC 7518 section 6.2.1.2: leading zero octets must not be dropped.
---
 proxy/internal/tokenmanager/tokenmanager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index 7178468..f22585b 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -462,8 +462,8 @@ func (tm *TokenManager) ServeJWKS(w http.ResponseWriter, req *http.Request) {
 				ID:    key.ID,
 				Alg:   "ES256",
 				Curve: "P-256",
-				X:     base64.RawURLEncoding.EncodeToString(pub.X.Bytes()),
-				Y:     base64.RawURLEncoding.EncodeToString(pub.Y.Bytes()),
+				X:     base64.RawURLEncoding.EncodeToString(pub.X.FillBytes(make([]byte, 32))),
+				Y:     base64.RawURLEncoding.EncodeToString(pub.Y.FillBytes(make([]byte, 32))),
 			})
 		case ed25519.PublicKey:
 			out.Keys = append(out.Keys, jwk{
-- 
2.43.0


From dc3a02256085cbf34affa1e5dd06a7855299d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 04/40] fix: keep a token signing key until its successor has
 outlived its tokens

After a downtime of about a week, the key that was still in use for signing
was removed at the next rotation, hours before the tokens it signed expire.
---
 proxy/internal/tokenmanager/tokenmanager.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index f22585b..f44ccfb 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -156,7 +156,11 @@ func (tm *TokenManager) rotateKeys() (retErr error) {
 		keys.Keys = append(keys.Keys, tk...)
 		changed = true
 	}
-	if keys.Keys[0].CreationTime.Add(7 * 24 * time.Hour).Before(now) {
+	// The oldest key is retired after a week, but not before a newer one has
+	// been in use for long enough that all the tokens it signed have expired.
+	if oldest := keys.Keys[0]; oldest.CreationTime.Add(7*24*time.Hour).Before(now) && slices.ContainsFunc(keys.Keys, func(k *tokenKey) bool {
+		return k.CreationTime.After(oldest.CreationTime.Add(time.Hour)) && k.CreationTime.Add(24*time.Hour).Before(now)
+	}) {
 		keys.Keys = keys.Keys[1:]
 		changed = true
 	}
-- 
2.43.0


From 5ce86a8b8e5d5822fd75f69fe65de673d2b06f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 05/40] fix: accept OCSP GET requests with escaped slashes in
 the base64 data

---
 proxy/internal/pki/http.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/pki/http.go b/proxy/internal/pki/http.go
index dadb055..0c8dc2e 100644
--- a/proxy/internal/pki/http.go
+++ b/proxy/internal/pki/http.go
@@ -128,12 +128,14 @@ func (m *PKIManager) ServeOCSP(w http.ResponseWriter, req *http.Request) {
 	switch req.Method {
 	case http.MethodGet:
 		// https://www.rfc-editor.org/rfc/rfc6960.html#page-30
-		off := strings.LastIndex(req.URL.Path, "/")
+		// The base64 encoding can contain slashes. They're escaped.
+		escapedPath := req.URL.EscapedPath()
+		off := strings.LastIndex(escapedPath, "/")
 		if off < 0 {
 			http.Error(w, "invalid request", http.StatusBadRequest)
 			return
 		}
-		data, err := url.PathUnescape(req.URL.Path[off+1:])
+		data, err := url.PathUnescape(escapedPath[off+1:])
 		if err != nil {
 			m.opts.Logger.Errorf("ERR url.PathUnescape: %v", err)
 			http.Error(w, "invalid request", http.StatusBadRequest)
-- 
2.43.0


From a6366ca46aab343a43d92f62360c707da12e3edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:58 +0000
Subject: [PATCH 06/40] fix: forget PKI changes that could not be saved

When the data could not be written, the revocation or the new delegate
certificate remained in memory, and could later be saved along with
something else. A CRL could then be signed with a key that doesn't match
its certificate.
---
 proxy/internal/pki/pki.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index c2111f9..ea7a9cc 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -210,13 +210,20 @@ type revocationList struct {
 }
 
 func (m *PKIManager) open() (func(commit bool, errp *error) error, error) {
+	old := m.db
+	m.db = nil
 	commit, err := m.opts.Store.OpenForUpdate(m.pkiFile, &m.db)
 	if err != nil {
+		m.db = old
 		return nil, err
 	}
 	return func(doCommit bool, errp *error) error {
 		err := commit(doCommit, errp)
 		wipe(m.db.PrivateKey)
+		if err != nil && err != storage.ErrAlreadyCommitted && old != nil {
+			// Forget the changes that weren't saved.
+			m.db = old
+		}
 		return err
 	}, nil
 }
-- 
2.43.0


From 0b8b3558b438ccf82f17afdd8bb259837ee9b133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 07/40] fix: don't look at the PKI's delegate certificate
 without the lock

---
 proxy/internal/pki/pki.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index ea7a9cc..9341c12 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -392,26 +392,24 @@ func (m *PKIManager) parseKeyBytes(b []byte) (any, error) {
 }
 
 func (m *PKIManager) maybeRotateDelegateCert() error {
-	if m.db == nil {
-		return errors.New("no ca")
-	}
 	now := time.Now().UTC()
 
-	var needUpdate bool
-	if len(m.db.DelegateCerts) == 0 {
-		needUpdate = true
-	} else {
-		c, err := m.db.DelegateCerts[0].parse()
-		if err != nil || c.NotBefore.Add(c.NotAfter.Sub(c.NotBefore)/2).Before(now) || c.PublicKeyAlgorithm == x509.Ed25519 {
-			needUpdate = true
+	needUpdate, caCert, err := func() (bool, *x509.Certificate, error) {
+		m.mu.Lock()
+		defer m.mu.Unlock()
+		if m.db == nil {
+			return false, nil, errors.New("no ca")
 		}
-	}
-	if !needUpdate {
-		return nil
-	}
-
-	caCert, err := m.db.CACert.parse()
-	if err != nil {
+		if len(m.db.DelegateCerts) > 0 {
+			c, err := m.db.DelegateCerts[0].parse()
+			if err == nil && !c.NotBefore.Add(c.NotAfter.Sub(c.NotBefore)/2).Before(now) && c.PublicKeyAlgorithm != x509.Ed25519 {
+				return false, nil, nil
+			}
+		}
+		caCert, err := m.db.CACert.parse()
+		return true, caCert, err
+	}()
+	if err != nil || !needUpdate {
 		return err
 	}
 
-- 
2.43.0


From 63184b1b840f6612530f6fed0de4f38f7dba8fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 08/40] fix: refresh the CRL before it expires instead of after

---
 proxy/internal/pki/pki.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index 9341c12..59998a0 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -514,7 +514,7 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 		if err != nil {
 			return nil, nil, err
 		}
-		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(crlRefreshPeriod/2).After(now) {
+		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
 			return last.RawCert, rl.Raw, nil
 		}
 	}
-- 
2.43.0


From 76a7e7f55d60ae37b7e083f1ea6b6dd170cbb02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 09/40] fix: include certificates that were revoked right after
 the previous CRL

---
 proxy/internal/pki/pki.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index 59998a0..4373c7d 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -503,18 +503,31 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 	now := time.Now().UTC()
 
 	if len(m.db.RevocationLists) > 0 {
-		var lastRevocation time.Time
-		for _, c := range m.db.IssuedCerts {
-			if c.Revocation != nil && c.Revocation.Time.After(lastRevocation) {
-				lastRevocation = c.Revocation.Time
-			}
-		}
 		last := m.db.RevocationLists[len(m.db.RevocationLists)-1]
 		rl, err := x509.ParseRevocationList(last.RawCRL)
 		if err != nil {
 			return nil, nil, err
 		}
-		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
+		listed := make(map[string]bool)
+		for _, e := range rl.RevokedCertificateEntries {
+			listed[bytesToHex(e.SerialNumber.Bytes())] = true
+		}
+		// Times have a resolution of one second. A certificate can be
+		// revoked after the list was made, and in the same second.
+		upToDate := true
+		var lastRevocation time.Time
+		for _, c := range m.db.IssuedCerts {
+			if c.Revocation == nil {
+				continue
+			}
+			if c.Revocation.Time.After(lastRevocation) {
+				lastRevocation = c.Revocation.Time
+			}
+			if !c.Revocation.Time.Before(rl.ThisUpdate) && !listed[c.SerialNumber] {
+				upToDate = false
+			}
+		}
+		if upToDate && !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
 			return last.RawCert, rl.Raw, nil
 		}
 	}
-- 
2.43.0


From 57afc6fa186432dfb5ddc0e2c1a844836b2b028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:26 +0000
Subject: [PATCH 10/40] fix: reject SSH certificates submitted as public keys
 instead of panicking

---
 proxy/internal/sshca/sshca.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proxy/internal/sshca/sshca.go b/proxy/internal/sshca/sshca.go
index d3e4efa..4b475fa 100644
--- a/proxy/internal/sshca/sshca.go
+++ b/proxy/internal/sshca/sshca.go
@@ -301,6 +301,11 @@ func (ca *SSHCA) ServeCertificate(w http.ResponseWriter, req *http.Request) {
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return
 	}
+	if _, ok := pub.(*ssh.Certificate); ok {
+		ca.opts.Logger.Errorf("ERR body: public key is a certificate")
+		http.Error(w, "invalid request", http.StatusBadRequest)
+		return
+	}
 	rnd := make([]byte, 8)
 	if _, err := io.ReadFull(rand.Reader, rnd); err != nil {
 		ca.opts.Logger.Errorf("ERR rand: %v", err)
-- 
2.43.0


From 257e26f2650d279b485c78eda7a2846b8facb3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 11/40] fix: forget passkey changes that could not be saved

A registration that was refused because it could not be written remained in
memory, the key could be used to login, and was saved along with the next change.
---
 proxy/internal/passkeys/manager.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/proxy/internal/passkeys/manager.go b/proxy/internal/passkeys/manager.go
index dba74a4..249a757 100644
--- a/proxy/internal/passkeys/manager.go
+++ b/proxy/internal/passkeys/manager.go
@@ -715,11 +715,31 @@ func (m *Manager) subjectIsRegistered(email string) bool {
 	return ok && len(u.Keys) > 0
 }
 
+// openForUpdate reads the data from storage. Any change made to m.db is forgotten
+// if it isn't saved.
+func (m *Manager) openForUpdate() (func(commit bool, errp *error) error, error) {
+	old := m.db
+	m.db.Handles = make(map[string]*user)
+	m.db.Subjects = make(map[string]string)
+	commit, err := m.cfg.Store.OpenForUpdate(passkeyFile, &m.db)
+	if err != nil {
+		m.db = old
+		return nil, err
+	}
+	return func(doCommit bool, errp *error) error {
+		err := commit(doCommit, errp)
+		if err != nil && err != storage.ErrAlreadyCommitted {
+			m.db = old
+		}
+		return err
+	}, nil
+}
+
 func (m *Manager) deleteKey(email string, id Bytes) (retErr error) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
 
-	commit, err := m.cfg.Store.OpenForUpdate(passkeyFile, &m.db)
+	commit, err := m.openForUpdate()
 	if err != nil {
 		return err
 	}
@@ -882,7 +902,7 @@ func (m *Manager) processAttestation(claims map[string]any, host, jsargs string,
 		return nil, errors.New("no attested credentials")
 	}
 
-	commit, err := m.cfg.Store.OpenForUpdate(passkeyFile, &m.db)
+	commit, err := m.openForUpdate()
 	if err != nil {
 		return nil, err
 	}
@@ -991,7 +1011,7 @@ func (m *Manager) processAssertion(jsargs string, token *jwt.Token) (claims map[
 	}
 	delete(m.challenges, cd.Challenge)
 
-	commit, err := m.cfg.Store.OpenForUpdate(passkeyFile, &m.db)
+	commit, err := m.openForUpdate()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a5084f925399bb97a9438b79b69241f95d4eabd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 12/40] fix: don't report a passkey as deleted when it wasn't

---
 proxy/internal/passkeys/manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/internal/passkeys/manager.go b/proxy/internal/passkeys/manager.go
index 249a757..5c41b5f 100644
--- a/proxy/internal/passkeys/manager.go
+++ b/proxy/internal/passkeys/manager.go
@@ -627,6 +627,8 @@ func (m *Manager) ManageKeys(w http.ResponseWriter, req *http.Request) {
 		}
 		if err := m.deleteKey(email, id); err != nil {
 			m.cfg.Logger.Errorf("ERR deleteKey(%q, %v): %v", email, id, err)
+			http.Error(w, "internal error", http.StatusInternalServerError)
+			return
 		}
 		w.Header().Set("content-type", "application/json")
 		json.NewEncoder(w).Encode(map[string]string{
-- 
2.43.0


From 2e8064cd8317b940c98f8d80b74603e89bf6384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 13/40] fix: only accept OCSP responses that are about the
 certificate

---
 proxy/internal/ocspcache/ocsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index be2bc54..ea257a1 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -243,7 +243,7 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 		c.logger.Errorf("ERR body: %v", err)
 		return nil, errOCSPProtocol
 	}
-	ocspResp, err := ocsp.ParseResponse(body, issuer)
+	ocspResp, err := ocsp.ParseResponseForCert(body, cert, issuer)
 	if err != nil {
 		c.logger.Errorf("ERR ocsp.ParseResponse for %s from %s: %v", cert.Subject, server, err)
 		return nil, errOCSPProtocol
-- 
2.43.0


From 9bdc5cfe37ad71d77cbe1bd039c570ec2f66a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 14/40] fix: don't return and cache a nil OCSP response for
 certificates without a responder

---
 proxy/internal/ocspcache/ocsp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index ea257a1..3a3d974 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -192,6 +192,9 @@ func certHash(b []byte) string {
 }
 
 func (c *OCSPCache) Response(cert, issuer *x509.Certificate, margin time.Duration) (*ocsp.Response, error) {
+	if len(cert.OCSPServer) == 0 {
+		return nil, errOCSPInternal
+	}
 	hash := certHash(cert.Raw)
 	if resp, ok := c.cache.Get(hash); ok && time.Now().Add(margin).Before(resp.NextUpdate) {
 		return resp, nil
-- 
2.43.0


From 281f18c53157e6d99ee2c038a4cbd4d5e681b984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 15/40] fix: accept a chain that needs no OCSP response after
 another one was rejected

---
 proxy/internal/ocspcache/ocsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index 3a3d974..b7ec2c2 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -181,7 +181,7 @@ nextChain:
 			}
 		}
 		// Every cert in the chain is good.
-		break
+		return nil
 	}
 	return lastError
 }
-- 
2.43.0


From 5cb5bee673b1b485d7e6c1a7b33a24c0385894c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 16/40] fix: reject OCSP responses that are expired or not
 valid yet

---
 proxy/internal/ocspcache/ocsp.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index b7ec2c2..b1b9ce4 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -42,6 +42,7 @@ import (
 const (
 	ocspCacheSize = 200
 	ocspFile      = "ocsp-cache"
+	maxClockSkew  = 5 * time.Minute
 )
 
 var (
@@ -134,7 +135,7 @@ func (c *OCSPCache) flush() error {
 func (c *OCSPCache) VerifyChains(chains [][]*x509.Certificate, stapled []byte) error {
 	if stapled != nil && len(chains) > 0 && len(chains[0]) > 1 {
 		cert, issuer := chains[0][0], chains[0][1]
-		if resp, err := ocsp.ParseResponseForCert(stapled, cert, issuer); err == nil && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
+		if resp, err := ocsp.ParseResponseForCert(stapled, cert, issuer); err == nil && isCurrent(resp) && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
 			hash := certHash(cert.Raw)
 			if resp, ok := c.cache.Get(hash); ok && resp.Status == ocsp.Revoked {
 				// Someone is playing tricks on us.
@@ -191,6 +192,13 @@ func certHash(b []byte) string {
 	return hex.EncodeToString(hash[:])
 }
 
+// isCurrent returns true if the current time is in the validity window of the
+// response.
+func isCurrent(resp *ocsp.Response) bool {
+	now := time.Now()
+	return now.Add(maxClockSkew).After(resp.ThisUpdate) && (resp.NextUpdate.IsZero() || now.Before(resp.NextUpdate))
+}
+
 func (c *OCSPCache) Response(cert, issuer *x509.Certificate, margin time.Duration) (*ocsp.Response, error) {
 	if len(cert.OCSPServer) == 0 {
 		return nil, errOCSPInternal
@@ -251,5 +259,9 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 		c.logger.Errorf("ERR ocsp.ParseResponse for %s from %s: %v", cert.Subject, server, err)
 		return nil, errOCSPProtocol
 	}
+	if !isCurrent(ocspResp) {
+		c.logger.Errorf("ERR OCSP response for %s from %s is not current", cert.Subject, server)
+		return nil, errOCSPProtocol
+	}
 	return ocspResp, nil
 }
-- 
2.43.0


From 48e34cb8f4d4b14bc54023131ba3e9008e60bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 17/40] fix: only accept OCSP responses from responders that
 the issuer authorized

---
 proxy/internal/ocspcache/ocsp.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index b1b9ce4..a9e7aec 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -32,6 +32,7 @@ import (
 	"errors"
 	"io"
 	"net/http"
+	"slices"
 	"time"
 
 	"github.com/c2FmZQ/storage"
@@ -50,6 +51,8 @@ var (
 	errOCSPUnknown  = errors.New("unknown cert")
 	errOCSPProtocol = errors.New("protocol error")
 	errOCSPInternal = errors.New("internal error")
+
+	errOCSPResponder = errors.New("responder is not authorized to sign OCSP responses")
 )
 
 type logger interface {
@@ -135,7 +138,7 @@ func (c *OCSPCache) flush() error {
 func (c *OCSPCache) VerifyChains(chains [][]*x509.Certificate, stapled []byte) error {
 	if stapled != nil && len(chains) > 0 && len(chains[0]) > 1 {
 		cert, issuer := chains[0][0], chains[0][1]
-		if resp, err := ocsp.ParseResponseForCert(stapled, cert, issuer); err == nil && isCurrent(resp) && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
+		if resp, err := parseResponse(stapled, cert, issuer); err == nil && isCurrent(resp) && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
 			hash := certHash(cert.Raw)
 			if resp, ok := c.cache.Get(hash); ok && resp.Status == ocsp.Revoked {
 				// Someone is playing tricks on us.
@@ -192,6 +195,22 @@ func certHash(b []byte) string {
 	return hex.EncodeToString(hash[:])
 }
 
+// parseResponse parses an OCSP response about cert and checks that it is signed
+// by issuer, or by a responder that issuer authorized.
+func parseResponse(b []byte, cert, issuer *x509.Certificate) (*ocsp.Response, error) {
+	resp, err := ocsp.ParseResponseForCert(b, cert, issuer)
+	if err != nil {
+		return nil, err
+	}
+	if r := resp.Certificate; r != nil && !r.Equal(issuer) {
+		now := time.Now()
+		if !slices.Contains(r.ExtKeyUsage, x509.ExtKeyUsageOCSPSigning) || now.Before(r.NotBefore) || now.After(r.NotAfter) {
+			return nil, errOCSPResponder
+		}
+	}
+	return resp, nil
+}
+
 // isCurrent returns true if the current time is in the validity window of the
 // response.
 func isCurrent(resp *ocsp.Response) bool {
@@ -254,7 +273,7 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 		c.logger.Errorf("ERR body: %v", err)
 		return nil, errOCSPProtocol
 	}
-	ocspResp, err := ocsp.ParseResponseForCert(body, cert, issuer)
+	ocspResp, err := parseResponse(body, cert, issuer)
 	if err != nil {
 		c.logger.Errorf("ERR ocsp.ParseResponse for %s from %s: %v", cert.Subject, server, err)
 		return nil, errOCSPProtocol
-- 
2.43.0


From f1501970440f612959464d4ab93c96263a60b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 18/40] fix: a QUIC connection never falls back to another
 backend of the same name

A TCP or TLS mode backend with h3 in its ALPN protocols was selected by h3 although h3 is not
negotiated in those modes, and the connection was then handled by the first backend with that
server name, whatever its TLS settings.
---
 proxy/quic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/quic.go b/proxy/quic.go
index f05fe8e..d19b3df 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -36,6 +36,7 @@ import (
 	"io"
 	"net"
 	"net/http"
+	"slices"
 	"sync"
 	"time"
 
@@ -75,7 +76,7 @@ func (p *Proxy) startQUIC(ctx context.Context) error {
 		p.mu.RLock()
 		defer p.mu.RUnlock()
 		for _, proto := range hello.SupportedProtos {
-			if be, ok := p.backends[beKey{serverName: hello.ServerName, proto: proto}]; ok && be.Mode != ModeTLSPassthrough {
+			if be, ok := p.backends[beKey{serverName: hello.ServerName, proto: proto}]; ok && be.Mode != ModeTLSPassthrough && slices.Contains(be.tlsConfigQUIC.NextProtos, proto) {
 				return be.tlsConfigQUIC, nil
 			}
 		}
-- 
2.43.0


From 7578e64cfd3f6761f40350325c083ae661294ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 19/40] fix: check client certificates with the policy of the
 selected backend

---
 proxy/proxy.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index fd4c9bc..0716237 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -584,14 +584,11 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 					return err
 				}
 			}
+			// The policy is that of the backend that was selected when the
+			// ClientHello was received. It can't be looked up again here
+			// because the client might not have sent a server name, and
+			// might not have negotiated any of the protocols it offered.
 			tc.VerifyConnection = func(cs tls.ConnectionState) error {
-				be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
-				if err != nil {
-					return tlsUnrecognizedName
-				}
-				if be.ClientAuth == nil {
-					return nil
-				}
 				if len(cs.PeerCertificates) == 0 || len(cs.VerifiedChains) == 0 {
 					p.recordEvent(fmt.Sprintf("deny no cert to %s", idnaToUnicode(cs.ServerName)))
 					if cs.Version == tls.VersionTLS12 {
-- 
2.43.0


From c76246ed7ef3b450119054a90d80260d8c133782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 20/40] fix: don't crash on open connections when the
 configuration changes

The log call dereferenced a nil backend when an open connection's backend
was gone, and the authorization of connections without a client certificate
(which are now closed) dereferenced a nil certificate.
---
 proxy/backend.go | 8 +++++++-
 proxy/proxy.go   | 8 ++++++--
 proxy/quic.go    | 2 +-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index 4187ce7..47fe82e 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -216,7 +216,13 @@ func writeProxyHeader(v byte, out io.Writer, in anyConn) error {
 }
 
 func (be *Backend) authorize(cert *x509.Certificate) error {
-	if be.ClientAuth == nil || be.ClientAuth.ACL == nil {
+	if be.ClientAuth == nil {
+		return nil
+	}
+	if cert == nil {
+		return tlsAccessDenied
+	}
+	if be.ClientAuth.ACL == nil {
 		return nil
 	}
 	if subject := cert.Subject.String(); subject != "" && (slices.Contains(*be.ClientAuth.ACL, subject) || slices.Contains(*be.ClientAuth.ACL, "SUBJECT:"+subject)) {
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 0716237..999b12f 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -869,11 +869,15 @@ func (p *Proxy) reAuthorize() {
 		be, err := p.backend(serverName, proto)
 		if err != nil {
 			p.recordEvent(err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
+			p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
 			conn.Close()
 			continue
 		}
-		if oldBE := connBackend(conn); be.Mode != oldBE.Mode {
+		oldBE := connBackend(conn)
+		if oldBE == nil {
+			continue
+		}
+		if be.Mode != oldBE.Mode {
 			be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
 			conn.Close()
 			continue
diff --git a/proxy/quic.go b/proxy/quic.go
index d19b3df..75e43ac 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -159,7 +159,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 	be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
 	if err != nil {
 		p.recordEvent(err.Error())
-		be.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
+		p.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
 		qc.CloseWithError(quicUnrecognizedName, "unrecognized name")
 		return
 	}
-- 
2.43.0


From 0d25faa4a11b00516c3dd371c6518f94c32d2c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 21/40] fix: close connections that reach an HTTP backend that
 is shutting down

They were left open, and never served.
---
 proxy/http.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/http.go b/proxy/http.go
index f511d55..705b28e 100644
--- a/proxy/http.go
+++ b/proxy/http.go
@@ -90,7 +90,8 @@ func (l *proxyListener) Close() error {
 		l.closed = true
 		close(l.closedCh)
 		go func() {
-			for range l.ch {
+			for c := range l.ch {
+				c.Close()
 			}
 		}()
 	}
-- 
2.43.0


From e57d439e1e70e90a0753071baa48b0f90e103b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 22/40] fix: don't apply the bandwidth limits of a rejected
 configuration

---
 proxy/proxy.go | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 999b12f..43bfe8d 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -411,22 +411,6 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 		pkis[pp.Name] = m
 	}
 
-	for _, bwl := range cfg.BWLimits {
-		const minBurst = 1 << 17 // 128 KB
-		name := strings.ToLower(bwl.Name)
-		if l, ok := p.bwLimits[name]; ok {
-			l.ingress.SetLimit(rate.Limit(bwl.Ingress))
-			l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
-			l.egress.SetLimit(rate.Limit(bwl.Egress))
-			l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
-			continue
-		}
-		p.bwLimits[name] = &bwLimit{
-			ingress: rate.NewLimiter(rate.Limit(bwl.Ingress), int(max(bwl.Ingress, minBurst))),
-			egress:  rate.NewLimiter(rate.Limit(bwl.Egress), int(max(bwl.Egress, minBurst))),
-		}
-	}
-
 	backends := make(map[beKey]*Backend, len(cfg.Backends))
 	for _, be := range cfg.Backends {
 		be.recordEvent = p.recordEvent
@@ -447,9 +431,6 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 				backends[beKey{serverName: sn, proto: proto}] = be
 			}
 		}
-		if l, ok := p.bwLimits[be.BWLimit]; ok {
-			be.bwLimit = l
-		}
 		if be.SSO != nil {
 			idp, ok := identityProviders[be.SSO.Provider]
 			if !ok {
@@ -846,6 +827,26 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 		})
 		be.outConns = p.outConns
 	}
+	for _, bwl := range cfg.BWLimits {
+		const minBurst = 1 << 17 // 128 KB
+		name := strings.ToLower(bwl.Name)
+		if l, ok := p.bwLimits[name]; ok {
+			l.ingress.SetLimit(rate.Limit(bwl.Ingress))
+			l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
+			l.egress.SetLimit(rate.Limit(bwl.Egress))
+			l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
+			continue
+		}
+		p.bwLimits[name] = &bwLimit{
+			ingress: rate.NewLimiter(rate.Limit(bwl.Ingress), int(max(bwl.Ingress, minBurst))),
+			egress:  rate.NewLimiter(rate.Limit(bwl.Egress), int(max(bwl.Egress, minBurst))),
+		}
+	}
+	for _, be := range cfg.Backends {
+		if l, ok := p.bwLimits[be.BWLimit]; ok {
+			be.bwLimit = l
+		}
+	}
 	if p.cfg != nil {
 		for _, be := range p.cfg.Backends {
 			be.close(p.ctx)
-- 
2.43.0


From 8bb944d4c2cb2cc6b051eb1a04ccca64f67d3ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 23/40] fix: re-authorize the connections that are being
 established too

A connection that was in the middle of its TLS handshake when the
configuration changed was served without any of the new restrictions, and a
connection without a negotiated protocol was compared with a backend other
than the one the client selected.
---
 proxy/proxy.go | 105 +++++++++++++++++++++++++++++++------------------
 proxy/quic.go  |  14 +++++--
 proxy/util.go  |  13 ++++--
 3 files changed, 86 insertions(+), 46 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 43bfe8d..fae5319 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -81,6 +81,7 @@ const (
 	handshakeDoneKey = "h"
 	dialDoneKey      = "d"
 	serverNameKey    = "sn"
+	offeredProtosKey = "op"
 	protoKey         = "p"
 	clientCertKey    = "c"
 	internalConnKey  = "ic"
@@ -862,46 +863,53 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 
 func (p *Proxy) reAuthorize() {
 	for _, conn := range p.inConns.slice() {
-		if !connServerNameIsSet(conn) {
-			continue
-		}
-		serverName := connServerName(conn)
-		proto := connProto(conn)
-		be, err := p.backend(serverName, proto)
-		if err != nil {
-			p.recordEvent(err.Error())
-			p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
-			conn.Close()
-			continue
-		}
-		oldBE := connBackend(conn)
-		if oldBE == nil {
-			continue
-		}
-		if be.Mode != oldBE.Mode {
-			be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
-			conn.Close()
-			continue
-		}
-		if err := be.checkIP(conn.RemoteAddr()); err != nil {
-			p.recordEvent(serverName + " CheckIP " + err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q CheckIP: %v", conn.RemoteAddr(), idnaToUnicode(serverName), err)
-			conn.Close()
-			continue
-		}
-		if be.ClientAuth == nil {
-			continue
-		}
-		clientCert := connClientCert(conn)
-		if err := be.authorize(clientCert); err != nil {
-			p.recordEvent(err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
+		// A connection without a backend gets one from the current
+		// configuration.
+		if connBackend(conn) != nil && !p.reAuthorizeConn(conn) {
 			conn.Close()
-			continue
 		}
 	}
 }
 
+// reAuthorizeConn returns whether the current configuration permits conn. The
+// client certificate is only checked after the TLS handshake.
+func (p *Proxy) reAuthorizeConn(conn annotatedConnection) bool {
+	serverName := connServerName(conn)
+	protos := connOfferedProtos(conn)
+	if proto := connProto(conn); proto != "" {
+		protos = []string{proto}
+	}
+	be, err := p.backend(serverName, protos...)
+	if err != nil {
+		p.recordEvent(err.Error())
+		p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
+		return false
+	}
+	oldBE := connBackend(conn)
+	if be == oldBE {
+		return true
+	}
+	if be.Mode != oldBE.Mode {
+		be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
+		return false
+	}
+	if err := be.checkIP(conn.RemoteAddr()); err != nil {
+		p.recordEvent(serverName + " CheckIP " + err.Error())
+		be.logErrorF("BAD [-] ReAuth %s ➔ %q CheckIP: %v", conn.RemoteAddr(), idnaToUnicode(serverName), err)
+		return false
+	}
+	if be.ClientAuth == nil || !connClientCertIsSet(conn) {
+		return true
+	}
+	clientCert := connClientCert(conn)
+	if err := be.authorize(clientCert); err != nil {
+		p.recordEvent(err.Error())
+		be.logErrorF("BAD [-] ReAuth %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
+		return false
+	}
+	return true
+}
+
 // Start starts a TLS proxy with the given configuration. The proxy runs
 // in background until the context is canceled.
 func (p *Proxy) Start(ctx context.Context) error {
@@ -1173,16 +1181,15 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 		serverName = p.defaultServerName()
 	}
 	conn.SetAnnotation(serverNameKey, serverName)
+	conn.SetAnnotation(offeredProtosKey, hello.ALPNProtos)
 
-	be, err := p.backend(serverName, hello.ALPNProtos...)
+	be, err := p.assignBackend(conn, serverName, hello.ALPNProtos...)
 	if err != nil {
 		p.recordEvent(err.Error())
 		p.logErrorF("BAD [-] %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
 		sendUnrecognizedName(conn)
 		return
 	}
-	conn.SetAnnotation(backendKey, be)
-	be.incInFlight(1)
 	p.setCounters(conn, serverName)
 	if l := be.bwLimit; l != nil {
 		conn.SetLimiters(l.ingress, l.egress)
@@ -1285,7 +1292,8 @@ func (p *Proxy) authorizeTLSConnection(conn *tls.Conn) bool {
 			return false
 		}
 	}
-	return true
+	// The configuration might have changed during the handshake.
+	return p.reAuthorizeConn(annotatedConn(conn))
 }
 
 func (p *Proxy) handleHTTPConnection(conn *tls.Conn) {
@@ -1410,6 +1418,25 @@ func (p *Proxy) defaultServerName() string {
 func (p *Proxy) backend(serverName string, protos ...string) (*Backend, error) {
 	p.mu.RLock()
 	defer p.mu.RUnlock()
+	return p.backendLocked(serverName, protos...)
+}
+
+// assignBackend selects the backend that serves conn. It is atomic with respect
+// to Reconfigure, so that conn either gets a backend of the new configuration,
+// or is seen by reAuthorize.
+func (p *Proxy) assignBackend(conn annotatedConnection, serverName string, protos ...string) (*Backend, error) {
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+	be, err := p.backendLocked(serverName, protos...)
+	if err != nil {
+		return nil, err
+	}
+	conn.SetAnnotation(backendKey, be)
+	be.incInFlight(1)
+	return be, nil
+}
+
+func (p *Proxy) backendLocked(serverName string, protos ...string) (*Backend, error) {
 	var be *Backend
 	var ok bool
 	for _, proto := range protos {
diff --git a/proxy/quic.go b/proxy/quic.go
index 75e43ac..97d5eec 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -156,15 +156,13 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		sum = "-"
 	}
 
-	be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
+	be, err := p.assignBackend(qc, cs.ServerName, cs.NegotiatedProtocol)
 	if err != nil {
 		p.recordEvent(err.Error())
 		p.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
 		qc.CloseWithError(quicUnrecognizedName, "unrecognized name")
 		return
 	}
-	be.incInFlight(1)
-	qc.SetAnnotation(backendKey, be)
 	p.setCounters(qc, cs.ServerName)
 
 	if numOpen >= p.cfg.MaxOpen {
@@ -184,6 +182,16 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		return
 	}
 
+	// The configuration might have changed during the handshake.
+	if be.ClientAuth != nil {
+		if err := be.authorize(clientCert); err != nil {
+			p.recordEvent(err.Error())
+			be.logErrorF("BAD [%s] %s:%s ➔ %q Authorize: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), err)
+			qc.CloseWithError(quicAccessDenied, "access denied")
+			return
+		}
+	}
+
 	be.logConnF("QUC [%s] %s:%s ➔ %s|%s:%s", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), idnaToUnicode(cs.ServerName), be.Mode, cs.NegotiatedProtocol)
 	if err := be.connLimit.Wait(ctx); err != nil {
 		if !errors.Is(err, context.Canceled) {
diff --git a/proxy/util.go b/proxy/util.go
index ab3db02..6500dd9 100644
--- a/proxy/util.go
+++ b/proxy/util.go
@@ -74,10 +74,6 @@ func annotatedConn(c anyConn) annotatedConnection {
 	}
 }
 
-func connServerNameIsSet(c anyConn) bool {
-	return annotatedConn(c).Annotation(serverNameKey, nil) != nil
-}
-
 func connServerName(c anyConn) string {
 	if v, ok := annotatedConn(c).Annotation(serverNameKey, "").(string); ok {
 		return v
@@ -99,6 +95,15 @@ func connClientCert(c anyConn) *x509.Certificate {
 	return nil
 }
 
+func connClientCertIsSet(c anyConn) bool {
+	return annotatedConn(c).Annotation(clientCertKey, nil) != nil
+}
+
+func connOfferedProtos(c anyConn) []string {
+	v, _ := annotatedConn(c).Annotation(offeredProtosKey, nil).([]string)
+	return v
+}
+
 func connBackend(c anyConn) *Backend {
 	if v, ok := annotatedConn(c).Annotation(backendKey, (*Backend)(nil)).(*Backend); ok {
 		return v
-- 
2.43.0


From 484102deb9e71003ab6d6a14d85e262ec12c6361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 24/40] fix: check that a new QUIC connection's protocol is
 still its backend's

The backend is looked up after the handshake, and might be one of a newer
configuration that doesn't have the protocol.
---
 proxy/quic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index 97d5eec..ae3fd6a 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -163,6 +163,13 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		qc.CloseWithError(quicUnrecognizedName, "unrecognized name")
 		return
 	}
+	// The configuration might have changed during the handshake.
+	if be.Mode == ModeTLSPassthrough || !slices.Contains(be.tlsConfigQUIC.NextProtos, cs.NegotiatedProtocol) {
+		p.recordEvent("unexpected QUIC protocol")
+		be.logErrorF("BAD [%s] %s:%s ➔ %q: unexpected protocol %q", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, cs.NegotiatedProtocol)
+		qc.CloseWithError(quicUnrecognizedName, "unrecognized name")
+		return
+	}
 	p.setCounters(qc, cs.ServerName)
 
 	if numOpen >= p.cfg.MaxOpen {
-- 
2.43.0


From b042d842c54a32ff1f193f6a3130292d608589ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:28 +0000
Subject: [PATCH 25/40] fix: accept ID tokens only for the backend's own server
 names

---
 proxy/backend-sso.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/proxy/backend-sso.go b/proxy/backend-sso.go
index 644f33c..1006c80 100644
--- a/proxy/backend-sso.go
+++ b/proxy/backend-sso.go
@@ -107,9 +107,14 @@ func (be *Backend) authenticateUser(w http.ResponseWriter, req **http.Request) b
 
 func (be *Backend) checkCookies(w http.ResponseWriter, req *http.Request) (jwt.MapClaims, bool) {
 	// If a valid ID Token is in the authorization header, use it and
-	// ignore the cookies.
-	if tok, err := be.SSO.cm.ValidateAuthorizationHeader(req); err == nil {
-		return tok.Claims.(jwt.MapClaims), true
+	// ignore the cookies. The token is only valid for the host that it was
+	// issued to, which must be one of this backend's. Otherwise, an ID token
+	// that was issued for a different backend could be used here with that
+	// backend's name in the host header.
+	if slices.Contains(be.ServerNames, hostFromReq(req)) {
+		if tok, err := be.SSO.cm.ValidateAuthorizationHeader(req); err == nil {
+			return tok.Claims.(jwt.MapClaims), true
+		}
 	}
 
 	authToken, err := be.SSO.cm.ValidateAuthTokenCookie(req)
-- 
2.43.0


From c936abd4a8d28647e7251d9b313700b314feb163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 26/40] fix: keep headers set by the proxy when the client
 lists them in Connection

---
 proxy/backend-http.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 2c136c7..a01e1bf 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -53,6 +53,7 @@ const (
 
 	viaHeader           = "Via"
 	hostHeader          = "Host"
+	connectionHeader    = "Connection"
 	xForwardedForHeader = "X-Forwarded-For"
 )
 
@@ -330,6 +331,14 @@ func (be *Backend) reverseProxy() http.Handler {
 				req.Header.Del(k)
 			}
 		}
+		// The client can't use the Connection header to have the headers
+		// set by the proxy removed before the request is forwarded.
+		keep := []string{xTLSProxyUserIDHeader, xFCCHeader, viaHeader}
+		for k := range httpHeaders {
+			keep = append(keep, k)
+		}
+		removeConnectionOptions(req.Header, keep)
+
 		// A value of -1 for ContentLength indicates that the size of
 		// request's body is unknown or that the client did not specify
 		// it.
@@ -354,6 +363,30 @@ func (be *Backend) reverseProxy() http.Handler {
 	})
 }
 
+// removeConnectionOptions removes the given names from the Connection header.
+func removeConnectionOptions(header http.Header, names []string) {
+	var options []string
+	var changed bool
+	for _, v := range header[connectionHeader] {
+		for _, opt := range strings.Split(v, ",") {
+			opt = strings.TrimSpace(opt)
+			if slices.ContainsFunc(names, func(n string) bool { return strings.EqualFold(n, opt) }) {
+				changed = true
+				continue
+			}
+			options = append(options, opt)
+		}
+	}
+	if !changed {
+		return
+	}
+	if len(options) == 0 {
+		header.Del(connectionHeader)
+		return
+	}
+	header.Set(connectionHeader, strings.Join(options, ", "))
+}
+
 func addr2ip(addr net.Addr) string {
 	switch a := addr.(type) {
 	case *net.TCPAddr:
-- 
2.43.0


From 60156c1642b85fa034c27e7d49ffbcbe0bea6f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 27/40] fix: don't forward the proxy's cookies on paths without
 SSO policy

---
 proxy/backend-http.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index a01e1bf..f2f5ba4 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -45,6 +45,9 @@ import (
 	"time"
 
 	"golang.org/x/net/http2"
+
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
 )
 
 const (
@@ -211,6 +214,11 @@ func (be *Backend) reverseProxy() http.Handler {
 		if !be.handleLocalEndpointsAndAuthorize(w, req) {
 			return
 		}
+		if be.SSO != nil {
+			// The tlsproxy cookies are never forwarded, even when
+			// the policy doesn't apply to the requested path.
+			cookiemanager.FilterOutAuthTokenCookie(req, tokenmanager.SessionIDCookieName)
+		}
 
 		// Verify that the HTTP request is directed at a server name
 		// that's configured for this backend. This prevents clients
-- 
2.43.0


From a45e8f7af6246da40898e20e505a61f4c4eb0968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 28/40] fix: look for forwarding loops in all the Via headers

---
 proxy/backend-http.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index f2f5ba4..b97cac9 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -310,8 +310,10 @@ func (be *Backend) reverseProxy() http.Handler {
 		// Detect forwarding loops using the via headers.
 		me := localNetConn(req.Context().Value(connCtxKey).(anyConn)).LocalAddr().String()
 		var hops []string
-		if h := req.Header.Get(viaHeader); h != "" {
-			hops = commaRE.Split(h, -1)
+		for _, h := range req.Header.Values(viaHeader) {
+			if h != "" {
+				hops = append(hops, commaRE.Split(h, -1)...)
+			}
 		}
 		for _, via := range hops {
 			if _, via, _ = strings.Cut(via, " "); via == me {
-- 
2.43.0


From 1d63aee7c1858ded55dcd0454be34072997f54b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 29/40] fix: use the path override's mode to choose the scheme
 of the request

---
 proxy/backend-http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index b97cac9..b43897e 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -290,6 +290,10 @@ func (be *Backend) reverseProxy() http.Handler {
 				}
 				ctx = context.WithValue(ctx, ctxOverrideIDKey, i)
 				override = fmt.Sprintf("%d", i)
+				req.URL.Scheme = "https"
+				if po.Mode == ModeHTTP {
+					req.URL.Scheme = "http"
+				}
 				proxyProtoVersion = po.proxyProtocolVersion
 				break L
 			}
-- 
2.43.0


From 59a3b5a7675906c31c68bb22c3f0b19f546f8706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 30/40] fix: forward requests to a path override when the
 backend has no address

---
 proxy/backend-http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index b43897e..f797f52 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -298,7 +298,7 @@ func (be *Backend) reverseProxy() http.Handler {
 				break L
 			}
 		}
-		if len(be.Addresses) == 0 {
+		if override == "" && len(be.Addresses) == 0 {
 			be.serveStaticFiles(w, req, be.DocumentRoot, "")
 			return
 		}
-- 
2.43.0


From 0df27fc360adea7cc8c345faab537fce518dad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 31/40] fix: don't clean the path of OCSP requests

---
 proxy/backend-http.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index f797f52..20a75b5 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -476,7 +476,8 @@ func (be *Backend) handleLocalEndpointsAndAuthorize(w http.ResponseWriter, req *
 		if !be.localHandlers[hi].ssoBypass && !be.enforceSSOPolicy(w, req) {
 			return false
 		}
-		if cleanPath != req.URL.Path {
+		// The escaped slashes of an OCSP request are part of the request.
+		if cleanPath != req.URL.Path && !be.localHandlers[hi].matchPrefix {
 			be.redirectPermanently(w, req, cleanPath)
 			return false
 		}
-- 
2.43.0


From 254f95c366d2467cd092ba651c3f2c4236280994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 32/40] fix: don't make aborted responses look complete

---
 proxy/backend-http.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 20a75b5..865f901 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -72,7 +72,9 @@ var (
 func (be *Backend) logPanic(req *http.Request, recovered any) {
 	if recovered == http.ErrAbortHandler {
 		be.logErrorF("ERR %s ➔ %s %s ➔ Aborted (%q)", formatReqDesc(req), req.Method, req.URL, userAgent(req))
-		return
+		// The server must abort the response. Otherwise, the client
+		// can't tell that it is incomplete.
+		panic(recovered)
 	}
 	be.logErrorF("PANIC: %#v\n%s", recovered, string(debug.Stack()))
 }
-- 
2.43.0


From 9aa70cad6a27ccaa724244d953095ac7aaccc88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 33/40] fix: don't abort requests when the server closes a body
 that was read already

---
 proxy/backend-http.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 865f901..13e9bf9 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -30,6 +30,7 @@ import (
 	"crypto/tls"
 	"encoding/hex"
 	"fmt"
+	"io"
 	"net"
 	"net/http"
 	"net/http/httputil"
@@ -42,6 +43,7 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 
 	"golang.org/x/net/http2"
@@ -375,10 +377,32 @@ func (be *Backend) reverseProxy() http.Handler {
 			req.Body.Close()
 			req.Body = nil
 		}
+		if req.Body != nil {
+			req.Body = &requestBody{ReadCloser: req.Body}
+		}
 		reverseProxy.ServeHTTP(w, req.WithContext(ctx))
 	})
 }
 
+// requestBody is the body of a request that's being forwarded. The HTTP/1 server
+// closes the body when the response starts. Reading it again after the end must
+// not be an error, or the transport aborts the request.
+type requestBody struct {
+	io.ReadCloser
+	eof atomic.Bool
+}
+
+func (b *requestBody) Read(p []byte) (int, error) {
+	if b.eof.Load() {
+		return 0, io.EOF
+	}
+	n, err := b.ReadCloser.Read(p)
+	if err == io.EOF {
+		b.eof.Store(true)
+	}
+	return n, err
+}
+
 // removeConnectionOptions removes the given names from the Connection header.
 func removeConnectionOptions(header http.Header, names []string) {
 	var options []string
-- 
2.43.0


From c709b443891ab1cd7e83f5d6a0e0bd69f71f5c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:35 +0000
Subject: [PATCH 34/40] fix: abort incomplete HTTP/3 responses too

---
 proxy/quic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index ae3fd6a..e9a0bcf 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -615,6 +615,9 @@ func http3Server(handler http.Handler) *http3.Server {
 			if _, ok := c.(*netw.QUICConn); !ok {
 				panic(fmt.Sprintf("http3.Server.ConnContext called with: %#v", c))
 			}
+			// ReverseProxy aborts incomplete responses only when
+			// it knows that there is a server to recover.
+			ctx = context.WithValue(ctx, http.ServerContextKey, &http.Server{})
 			return context.WithValue(ctx, connCtxKey, c)
 		},
 		EnableDatagrams: false,
-- 
2.43.0


From 2e7303ea9d1c7a3017f6bf540f73e4debd8bfbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:36 +0000
Subject: [PATCH 35/40] fix: don't crash when the trailers of an HTTP/3
 response can't be sent

---
 proxy/quic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proxy/quic.go b/proxy/quic.go
index e9a0bcf..3c89453 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -34,6 +34,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"log/slog"
 	"net"
 	"net/http"
 	"slices"
@@ -621,5 +622,8 @@ func http3Server(handler http.Handler) *http3.Server {
 			return context.WithValue(ctx, connCtxKey, c)
 		},
 		EnableDatagrams: false,
+		// Without a logger, the server crashes when it can't send the
+		// trailers of a response.
+		Logger: slog.New(slog.NewTextHandler(io.Discard, nil)),
 	}
 }
-- 
2.43.0


From 212008d353368365b2bf66bfda36cb18d657b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:20 +0000
Subject: [PATCH 36/40] fix: use the modification time of index.html, not of
 its directory

The modification time of a directory doesn't change when its index.html is
edited, and clients were told that their old copy was up to date.
---
 proxy/backend-http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 13e9bf9..b22e505 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -172,7 +172,7 @@ func (be *Backend) serveStaticFiles(w http.ResponseWriter, req *http.Request, do
 			return
 		}
 		p = filepath.Join(p, "index.html")
-		if s, err := os.Stat(p); err != nil || s.IsDir() {
+		if fi, err = os.Stat(p); err != nil || fi.IsDir() {
 			be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL.Path, http.StatusForbidden, userAgent(req))
 			w.WriteHeader(http.StatusForbidden)
 			return
-- 
2.43.0


From 425fa754b68067747455bf1aa76954471639a9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:20 +0000
Subject: [PATCH 37/40] fix: don't open static files that aren't regular files

Opening a named pipe blocks forever.
---
 proxy/backend-http.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index b22e505..7d4ca3a 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -181,6 +181,12 @@ func (be *Backend) serveStaticFiles(w http.ResponseWriter, req *http.Request, do
 		be.redirectPermanently(w, req, strings.TrimSuffix(cleanPath, "/"))
 		return
 	}
+	if !fi.Mode().IsRegular() {
+		// Opening something else, e.g. a named pipe, can block forever.
+		be.logRequestF("REQ %s ➔ %s %s ➔ status:%d (%q)", formatReqDesc(req), req.Method, req.URL.Path, http.StatusForbidden, userAgent(req))
+		w.WriteHeader(http.StatusForbidden)
+		return
+	}
 	f, err := os.Open(p)
 	if err != nil {
 		notFound()
-- 
2.43.0


From 950864a30395e4ae6eb9c88f97de92a52fe229b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:22 +0000
Subject: [PATCH 38/40] fix: tell the peers of QUIC connections when the proxy
 stops

Closing the transport drops the connections without a word, so that the
clients and backends only notice when the connections time out. The ones
from TCP clients to QUIC backends were dropped at the start of Shutdown,
which is supposed to wait for them.
---
 proxy/internal/netw/quic.go | 43 +++++++++++++++++++++++++++++++++----
 proxy/proxy.go              | 18 +++++++++++-----
 proxy/quic.go               |  1 +
 3 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/proxy/internal/netw/quic.go b/proxy/internal/netw/quic.go
index 4697599..f25a1e2 100644
--- a/proxy/internal/netw/quic.go
+++ b/proxy/internal/netw/quic.go
@@ -70,13 +70,47 @@ func NewQUIC(addr string, statelessResetKey quic.StatelessResetKey) (*QUICTransp
 // QUICTransport is a wrapper around quic.Transport.
 type QUICTransport struct {
 	qt quic.Transport
+
+	mu     sync.Mutex
+	conns  map[*QUICConn]struct{}
+	closed bool
+}
+
+func (t *QUICTransport) newQUICConn(qc quic.Connection) *QUICConn {
+	c := newQUICConn(qc)
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	if t.closed {
+		go c.Close()
+		return c
+	}
+	if t.conns == nil {
+		t.conns = make(map[*QUICConn]struct{})
+	}
+	t.conns[c] = struct{}{}
+	context.AfterFunc(qc.Context(), func() {
+		t.mu.Lock()
+		defer t.mu.Unlock()
+		delete(t.conns, c)
+	})
+	return c
 }
 
 func (t *QUICTransport) Addr() net.Addr {
 	return t.qt.Conn.LocalAddr()
 }
 
+// Close closes all the connections, and the transport itself.
 func (t *QUICTransport) Close() error {
+	t.mu.Lock()
+	t.closed = true
+	conns := slices.Collect(maps.Keys(t.conns))
+	t.mu.Unlock()
+	// Closing quic.Transport drops the connections without telling their
+	// peers.
+	for _, c := range conns {
+		c.Close()
+	}
 	return t.qt.Close()
 }
 
@@ -85,7 +119,7 @@ func (t *QUICTransport) Listen(tc *tls.Config) (*QUICListener, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &QUICListener{ln}, nil
+	return &QUICListener{t, ln}, nil
 }
 
 func (t *QUICTransport) Dial(ctx context.Context, addr net.Addr, tc *tls.Config) (*QUICConn, error) {
@@ -93,7 +127,7 @@ func (t *QUICTransport) Dial(ctx context.Context, addr net.Addr, tc *tls.Config)
 	if err != nil {
 		return nil, err
 	}
-	return newQUICConn(conn), nil
+	return t.newQUICConn(conn), nil
 }
 
 func (t *QUICTransport) DialEarly(ctx context.Context, addr net.Addr, tc *tls.Config, enableDatagrams bool) (*QUICConn, error) {
@@ -103,11 +137,12 @@ func (t *QUICTransport) DialEarly(ctx context.Context, addr net.Addr, tc *tls.Co
 	if err != nil {
 		return nil, err
 	}
-	return newQUICConn(conn), nil
+	return t.newQUICConn(conn), nil
 }
 
 // QUICListener is a wrapper around quic.Listener.
 type QUICListener struct {
+	t  *QUICTransport
 	ln *quic.Listener
 }
 
@@ -116,7 +151,7 @@ func (l *QUICListener) Accept(ctx context.Context) (*QUICConn, error) {
 	if err != nil {
 		return nil, err
 	}
-	return newQUICConn(conn), nil
+	return l.t.newQUICConn(conn), nil
 }
 
 func (l *QUICListener) Addr() net.Addr {
diff --git a/proxy/proxy.go b/proxy/proxy.go
index fae5319..912fddd 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -116,6 +116,7 @@ type Proxy struct {
 	cancel        func()
 	listener      net.Listener
 	quicTransport io.Closer
+	quicListener  io.Closer
 	tpm           *tpm.TPM
 	mk            crypto.MasterKey
 	store         *storage.Storage
@@ -979,9 +980,7 @@ func (p *Proxy) Stop() {
 		p.cancel()
 	}
 	p.listener.Close()
-	if p.quicTransport != nil {
-		p.quicTransport.Close()
-	}
+	quicTransport := p.quicTransport
 	if p.mk != nil {
 		p.mk.Wipe()
 		p.mk = nil
@@ -991,6 +990,9 @@ func (p *Proxy) Stop() {
 	conns := p.inConns.slice()
 	p.mu.Unlock()
 
+	if quicTransport != nil {
+		quicTransport.Close()
+	}
 	for _, be := range backends {
 		be.close(nil)
 	}
@@ -1007,14 +1009,20 @@ func (p *Proxy) Stop() {
 func (p *Proxy) Shutdown(ctx context.Context) {
 	p.mu.Lock()
 	p.listener.Close()
-	if p.quicTransport != nil {
-		p.quicTransport.Close()
+	if p.quicListener != nil {
+		p.quicListener.Close()
 	}
 	for _, be := range p.cfg.Backends {
 		be.close(ctx)
 	}
 	p.mu.Unlock()
 
+	for _, c := range p.inConns.slice() {
+		if c.RemoteAddr().Network() == "udp" {
+			c.Close()
+		}
+	}
+
 	done := make(chan struct{})
 	go func() {
 		connLeft := func() bool {
diff --git a/proxy/quic.go b/proxy/quic.go
index 3c89453..2460f35 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -93,6 +93,7 @@ func (p *Proxy) startQUIC(ctx context.Context) error {
 		return err
 	}
 	p.quicTransport = qt
+	p.quicListener = quicListener
 	for _, be := range p.cfg.Backends {
 		be.quicTransport = qt
 	}
-- 
2.43.0


From 162ebb722a524bae7813e30fd993294fa7eadc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:22 +0000
Subject: [PATCH 39/40] fix: close the QUIC connection to the backend with its
 only stream

Otherwise, every TCP connection to a QUIC backend leaves a QUIC connection
open until it times out, or for ever if the backend keeps it alive.
---
 proxy/backend.go |  4 +---
 proxy/noquic.go  |  3 ++-
 proxy/quic.go    | 24 ++++++++++++++++++++----
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index 47fe82e..247e3a6 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -144,9 +144,7 @@ func (be *Backend) dial(ctx context.Context, protos ...string) (net.Conn, error)
 		var c net.Conn
 		var err error
 		if mode == ModeQUIC {
-			ctx, cancel := context.WithTimeout(ctx, timeout)
-			c, err = be.dialQUICStream(ctx, addr, tc)
-			cancel()
+			c, err = be.dialQUICStream(ctx, timeout, addr, tc)
 		} else {
 			dialer := &net.Dialer{
 				Timeout:   timeout,
diff --git a/proxy/noquic.go b/proxy/noquic.go
index e112bf8..2f956ee 100644
--- a/proxy/noquic.go
+++ b/proxy/noquic.go
@@ -32,6 +32,7 @@ import (
 	"io"
 	"net"
 	"net/http"
+	"time"
 )
 
 const quicIsEnabled = false
@@ -42,7 +43,7 @@ func (p *Proxy) startQUIC(context.Context) error {
 	return errQUICNotEnabled
 }
 
-func (be *Backend) dialQUICStream(context.Context, string, *tls.Config) (net.Conn, error) {
+func (be *Backend) dialQUICStream(context.Context, time.Duration, string, *tls.Config) (net.Conn, error) {
 	return nil, errQUICNotEnabled
 }
 
diff --git a/proxy/quic.go b/proxy/quic.go
index 2460f35..a10fcbc 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -501,16 +501,32 @@ func (be *Backend) dialQUIC(ctx context.Context, addr string, tc *tls.Config) (*
 	return conn, nil
 }
 
-func (be *Backend) dialQUICStream(ctx context.Context, addr string, tc *tls.Config) (net.Conn, error) {
-	conn, err := be.dialQUIC(ctx, addr, tc)
+func (be *Backend) dialQUICStream(ctx context.Context, timeout time.Duration, addr string, tc *tls.Config) (net.Conn, error) {
+	dialCtx, cancel := context.WithTimeout(ctx, timeout)
+	defer cancel()
+	conn, err := be.dialQUIC(dialCtx, addr, tc)
 	if err != nil {
 		return nil, err
 	}
-	s, err := conn.OpenStreamSync(ctx)
+	s, err := conn.OpenStreamSync(dialCtx)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
-	return conn.WrapConn(s), nil
+	c := conn.WrapConn(s)
+	conn.OnClose(func() {
+		be.outConns.remove(conn)
+	})
+	c.OnClose(func() {
+		if ctx.Err() != nil {
+			conn.Close()
+			return
+		}
+		// Leave some time for the data that wasn't sent yet.
+		be.outConns.add(conn)
+		time.AfterFunc(time.Second, func() { conn.Close() })
+	})
+	return c, nil
 }
 
 func (be *Backend) dialQUICBackend(ctx context.Context, proto string) (*netw.QUICConn, error) {
-- 
2.43.0


From 74317ac060a0999f59094f72dd332c318294d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:22 +0000
Subject: [PATCH 40/40] fix: don't miss the end of the last connection during
 Shutdown

The notification was lost when the connection was closed between the moment
Shutdown looked at the open connections and the moment it waited for them to
change. Shutdown then used up its whole grace period. It did so too when the
last connection that it waited for turned out to be for a TCP backend, which
it doesn't wait for.
---
 proxy/proxy.go | 18 ++++++++++++++----
 proxy/quic.go  |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 912fddd..cd528f6 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -915,7 +915,7 @@ func (p *Proxy) reAuthorizeConn(conn annotatedConnection) bool {
 // in background until the context is canceled.
 func (p *Proxy) Start(ctx context.Context) error {
 	p.startTime = time.Now()
-	p.connClosed = sync.NewCond(&p.mu)
+	p.connClosed = sync.NewCond(&sync.Mutex{})
 	var httpServer *http.Server
 	if p.cfg.HTTPAddr != "" {
 		httpServer = &http.Server{
@@ -1033,8 +1033,8 @@ func (p *Proxy) Shutdown(ctx context.Context) {
 			}
 			return false
 		}
-		p.mu.Lock()
-		defer p.mu.Unlock()
+		p.connClosed.L.Lock()
+		defer p.connClosed.L.Unlock()
 		for connLeft() {
 			p.connClosed.Wait()
 		}
@@ -1047,6 +1047,15 @@ func (p *Proxy) Shutdown(ctx context.Context) {
 	p.Stop()
 }
 
+// notifyConnChange is called after a connection is removed from inConns, or is
+// assigned to a backend. The lock is needed so that the notification isn't lost
+// when Shutdown is between looking at the open connections and waiting.
+func (p *Proxy) notifyConnChange() {
+	p.connClosed.L.Lock()
+	defer p.connClosed.L.Unlock()
+	p.connClosed.Broadcast()
+}
+
 func (p *Proxy) baseTLSConfig() *tls.Config {
 	tc := p.certManager.TLSConfig()
 	getCert := tc.GetCertificate
@@ -1167,7 +1176,7 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 					conn.BytesReceived(), conn.BytesSent())
 			}
 		}
-		p.connClosed.Broadcast()
+		p.notifyConnChange()
 	})
 	if numOpen >= p.cfg.MaxOpen {
 		p.recordEvent("too many open connections")
@@ -1441,6 +1450,7 @@ func (p *Proxy) assignBackend(conn annotatedConnection, serverName string, proto
 	}
 	conn.SetAnnotation(backendKey, be)
 	be.incInFlight(1)
+	p.notifyConnChange()
 	return be, nil
 }
 
diff --git a/proxy/quic.go b/proxy/quic.go
index a10fcbc..03ec560 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -139,7 +139,7 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 				formatConnDesc(qc), time.Since(startTime).Truncate(time.Millisecond),
 				qc.BytesReceived(), qc.BytesSent())
 		}
-		p.connClosed.Broadcast()
+		p.notifyConnChange()
 	})
 	qc.SetAnnotation(startTimeKey, time.Now())
 
-- 
2.43.0

