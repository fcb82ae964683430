package PKG

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/pem"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	scrypto "github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/crypto/ssh"
)

var vSSHUsers = map[string]string{"alice": "alice@example.com", "bob": "bob@example.com", "root": "root,alice@example.com"}

func TestVerifSSHCA(t *testing.T) {
	mk := vMust1(scrypto.CreateAESMasterKeyForTest())
	type keyPair struct {
		pub  ssh.PublicKey
		priv crypto.Signer
		raw  string
	}
	keys := map[string]keyPair{}
	_, ed, _ := ed25519.GenerateKey(rand.Reader)
	ec := vMust1(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	for n, k := range map[string]crypto.Signer{"k1": ed, "k2": ec} {
		p := vMust1(ssh.NewPublicKey(k.Public()))
		keys[n] = keyPair{p, k, strings.TrimSpace(string(ssh.MarshalAuthorizedKey(p)))}
	}
	count := 0
	vRun(t, func(r *vRunner, w vWalk, step func(int)) {
		time.VerifAdvance(-time.VerifOffset())
		dir := vTempDir()
		cas := map[int]*SSHCA{}
		pubs := map[int]ssh.PublicKey{} // published by authority, now
		known := map[int]string{}       // key identity -> key
		var certs []*ssh.Certificate
		serials := map[uint64]bool{}
		for i, st := range w.Steps {
			step(i)
			count++
			o := vMap(st.O)
			res := vStr(o["res"])
			r.stat(st.op() + ":" + res)
			c := 0
			if v, ok := st.A["ca"]; ok {
				c = vInt(v)
			}
			published := func() ssh.PublicKey {
				rec := httptest.NewRecorder()
				cas[c].ServePublicKey(rec, httptest.NewRequest("GET", "https://ssh.example.com/ca", nil))
				if rec.Code != 200 {
					vFail("the CA's public key is not available: %d", rec.Code)
				}
				pub, _, _, rest, err := ssh.ParseAuthorizedKey(rec.Body.Bytes())
				if err != nil || len(bytes.TrimSpace(rest)) > 0 {
					vFail("the CA's public key is not an authorized key: %v", err)
				}
				return pub
			}
			switch st.op() {
			case "tick":
				time.VerifAdvance(4 * time.Minute)

			case "start":
				if vBool(st.A["fail"]) {
					storage.VerifRename = func(string, string) error { return errors.New("no space left on device") }
				}
				ca, err := New(Options{
					Name: []string{"", "ca one", "ca/one"}[c], KeyType: vStr(st.A["kt"]),
					Store: storage.New(dir, mk), EventRecorder: vRec{}, Logger: vNoLog{}, ClaimsFromCtx: vClaimsFromCtx,
				})
				storage.VerifRename = nil
				if (err == nil) != (res == "ok") {
					vFail("starting the CA: %v, specified %q", err, res)
				}
				cas[c] = nil
				if err != nil {
					break
				}
				cas[c] = ca
				pubs[c] = published()
				id := vInt(o["key"])
				s := string(pubs[c].Marshal())
				if known[id] == "" {
					for _, v := range known {
						if v == s {
							vFail("two authorities have the same key")
						}
					}
					known[id] = s
				} else if known[id] != s {
					vFail("the CA's key changed in a restart")
				}

			case "request":
				k := keys[vStr(st.A["k"])]
				other := keys[map[string]string{"k1": "k2", "k2": "k1"}[vStr(st.A["k"])]]
				body := ""
				switch vStr(st.A["b"]) {
				case "key":
					body = []string{k.raw, k.raw + "\n"}[count%2]
				case "comment":
					body = k.raw + " bob@example.com and more\r\n"
				case "options":
					body = "principals=\"bob@example.com,root\",cert-authority,command=\"/bin/sh\" " + k.raw + "\n"
				case "two":
					body = "# first\n" + k.raw + "\n" + other.raw + "\n"
				case "cert":
					cc := &ssh.Certificate{Key: k.pub, CertType: ssh.UserCert, KeyId: "bob@example.com", ValidPrincipals: []string{"bob@example.com"}, ValidBefore: ssh.CertTimeInfinity}
					vMust(cc.SignCert(rand.Reader, vMust1(ssh.NewSignerFromKey(k.priv))))
					body = string(ssh.MarshalAuthorizedKey(cc))
				case "private":
					body = string(pem.EncodeToMemory(vMust1(ssh.MarshalPrivateKey(k.priv, ""))))
				case "garbage":
					body = []string{"ssh-ed25519 AAAA", "hello", "ssh-ed25519", string(k.pub.Marshal()), k.raw[:len(k.raw)-8]}[count%5]
				case "huge":
					body = "# " + strings.Repeat("x", 200000) + "\n" + k.raw
				}
				method := vStr(st.A["m"])
				if method == "PUT" {
					method = []string{"PUT", "DELETE", "HEAD", "post", "PATCH", "OPTIONS"}[count%6]
				}
				req := httptest.NewRequest(method, "https://ssh.example.com/cert?email=bob@example.com", strings.NewReader(body))
				switch vStr(st.A["x"]) {
				case "1":
					req.Header.Set("X-Csrf-Check", "1")
				case "0":
					req.Header.Set("X-Csrf-Check", []string{"0", "", "true", "11"}[count%4])
				}
				switch vStr(st.A["ct"]) {
				case "text":
					req.Header.Set("Content-Type", "text/plain")
				case "other":
					req.Header.Set("Content-Type", []string{"application/x-www-form-urlencoded", "multipart/form-data; boundary=b", "application/octet-stream"}[count%3])
				}
				req.Header.Set("X-tlsproxy-user-id", "bob@example.com")
				var claims jwt.MapClaims
				email := vSSHUsers[vStr(st.A["u"])]
				switch u := vStr(st.A["u"]); u {
				case "none":
				case "noemail":
					claims = jwt.MapClaims{"sub": "bob@example.com", "name": "bob@example.com"}
				case "emptyemail":
					claims = jwt.MapClaims{"sub": "bob@example.com", "email": ""}
				case "listemail":
					claims = jwt.MapClaims{"sub": "bob@example.com", "email": []any{"bob@example.com"}}
				default:
					if email == "" {
						vHarness("user %q", u)
					}
					claims = jwt.MapClaims{"sub": "someone@example.com", "email": email, "name": "Bob", "principals": []any{"root"}}
				}
				if claims != nil {
					req = req.WithContext(context.WithValue(req.Context(), vClaimsKey{}, claims))
				}
				rec := httptest.NewRecorder()
				now := time.Now()
				func() {
					defer func() {
						if e := recover(); e != nil {
							vFail("the request made the handler panic: %v", e)
						}
					}()
					cas[c].ServeCertificate(rec, req)
				}()
				if res != "ok" {
					if rec.Code < 400 {
						vFail("the request got status %d, specified to be refused: %s", rec.Code, rec.Body)
					}
					if p, _, _, _, err := ssh.ParseAuthorizedKey(rec.Body.Bytes()); err == nil {
						vFail("a refused request got %s", p.Type())
					}
					break
				}
				if rec.Code != 200 {
					vFail("a good request got status %d: %s", rec.Code, rec.Body)
				}
				if v := rec.Header().Get("Cache-Control"); !strings.Contains(v, "no-store") {
					vFail("the certificate may be cached: cache-control: %q", v)
				}
				p, _, _, rest, err := ssh.ParseAuthorizedKey(rec.Body.Bytes())
				cert, ok := p.(*ssh.Certificate)
				if err != nil || !ok || len(bytes.TrimSpace(rest)) > 0 {
					vFail("the answer is not a certificate: %v", err)
				}
				if cert.CertType != ssh.UserCert {
					vFail("certificate type %d", cert.CertType)
				}
				if len(cert.ValidPrincipals) != 1 || cert.ValidPrincipals[0] != email || cert.KeyId != email {
					vFail("certificate for principals %q key id %q, specified %q", cert.ValidPrincipals, cert.KeyId, email)
				}
				if !bytes.Equal(cert.Key.Marshal(), k.pub.Marshal()) {
					vFail("certificate for another key")
				}
				if !bytes.Equal(cert.SignatureKey.Marshal(), pubs[c].Marshal()) {
					vFail("certificate not signed with the published key")
				}
				if serials[cert.Serial] || cert.Serial == 0 {
					vFail("serial number %d was used before", cert.Serial)
				}
				serials[cert.Serial] = true
				if len(cert.CriticalOptions) > 0 {
					vFail("critical options %v", cert.CriticalOptions)
				}
				for e := range cert.Extensions {
					if !strings.HasPrefix(e, "permit-") {
						vFail("extension %q", e)
					}
				}
				if d := time.Unix(int64(cert.ValidBefore), 0).Sub(now); d < 9*time.Minute || d > 11*time.Minute {
					vFail("certificate expires in %v", d)
				}
				if d := now.Sub(time.Unix(int64(cert.ValidAfter), 0)); d < 0 || d > 11*time.Minute {
					vFail("certificate is valid since %v", d)
				}
				certs = append(certs, cert)

			case "use":
				cert := certs[vInt(st.A["cert"])-1]
				trusted := published()
				ck := &ssh.CertChecker{
					IsUserAuthority: func(k ssh.PublicKey) bool { return bytes.Equal(k.Marshal(), trusted.Marshal()) },
					Clock:           time.Now,
				}
				// The server authenticates the connection with the certified key.
				_, err := ck.Authenticate(vConnMeta{user: vSSHUsers[vStr(st.A["u"])]}, cert)
				if err == nil && !bytes.Equal(cert.Key.Marshal(), keys[vStr(st.A["k"])].pub.Marshal()) {
					err = fmt.Errorf("not the certified key")
				}
				if (err == nil) != (res == "ok") {
					vFail("using the certificate: %v, specified %q", err, res)
				}

			default:
				vHarness("op %q", st.op())
			}
		}
	})
}

type vConnMeta struct {
	ssh.ConnMetadata
	user string
}

func (c vConnMeta) User() string { return c.user }

var _ = http.StatusOK
