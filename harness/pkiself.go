package PKG

import (
	"bytes"
	"context"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"html"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"

	scrypto "github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"
)

var vPKIUsers = map[string]string{
	"alice": "alice@example.com", "bob": "bob@example.com", "admin": "admin@example.com",
	"mallory": "admin@example.com.evil.net", "mal2": "ALICE@example.com",
}

func TestVerifPKISelf(t *testing.T) {
	mk := vMust1(scrypto.CreateAESMasterKeyForTest())
	count := 0
	vRun(t, func(r *vRunner, w vWalk, step func(int)) {
		time.VerifAdvance(-time.VerifOffset())
		m := vMust1(New(vPKIOpts(vTempDir(), mk, "")))
		srvRaw, _, _ := vCSR("cn", 0)
		srv := vMust1(x509.ParseCertificate(vMust1(m.IssueCertificate(vMust1(m.ValidateCertificateRequest(srvRaw))))))
		certs := []*x509.Certificate{srv}
		sn := func(k int) string { return bytesToHex(certs[k-1].SerialNumber.Bytes()) }
		for i, st := range w.Steps {
			step(i)
			count++
			o := vMap(st.O)
			res := vStr(o["res"])
			r.stat(st.op() + ":" + res)
			q := url.Values{}
			if a, ok := st.A["adm"]; ok && vBool(a) {
				q.Set("admin", []string{"1", "true", "x"}[count%3])
			}
			send := func(method, body string, hdr map[string]string) *httptest.ResponseRecorder {
				req := httptest.NewRequest(method, "https://pki.example.com/?"+q.Encode(), strings.NewReader(body))
				for k, v := range hdr {
					req.Header.Set(k, v)
				}
				// None of these identify anybody.
				req.Header.Set("X-tlsproxy-user-id", "admin@example.com")
				req.TLS = nil
				if u := vStr(st.A["u"]); u != "none" {
					e := vPKIUsers[u]
					if e == "" {
						vHarness("user %q", u)
					}
					req = req.WithContext(context.WithValue(req.Context(), vPKIClaims{}, jwt.MapClaims{"email": e, "sub": "sub-" + u}))
				}
				rec := httptest.NewRecorder()
				m.ServeCertificateManagement(rec, req)
				return rec
			}
			form := func(hdr map[string]string) string {
				method := http.MethodPost
				switch f := vStr(st.A["form"]); f {
				case "get":
					method = http.MethodGet
				case "put":
					method = []string{"PUT", "DELETE", "PATCH", "HEAD", "post", "OPTIONS"}[count%6]
				case "nocsrf":
					delete(hdr, "x-csrf-check")
				case "csrf0":
					hdr["x-csrf-check"] = []string{"0", "", "true", "11"}[count%4]
				case "ctype":
					hdr["content-type"] = []string{"text/plain", "multipart/form-data; boundary=x", "", "application/octet-stream"}[count%4]
				}
				return method
			}
			jsonRes := func(rec *httptest.ResponseRecorder) map[string]string {
				var out map[string]string
				if rec.Code != 200 || json.Unmarshal(rec.Body.Bytes(), &out) != nil {
					return map[string]string{"result": fmt.Sprintf("status %d: %s", rec.Code, rec.Body)}
				}
				return out
			}
			before := len(m.db.IssuedCerts)
			switch st.op() {
			case "expire":
				time.VerifAdvance(11 * 365 * 24 * time.Hour)

			case "request":
				email := vPKIUsers[vStr(st.A["u"])]
				tm := &x509.CertificateRequest{}
				switch vStr(st.A["csr"]) {
				case "label":
					tm.Subject.CommonName = "my laptop"
				case "spoof":
					tm.Subject = pkix.Name{CommonName: "alice@example.com", Organization: []string{"Admins"}}
					tm.EmailAddresses = []string{"alice@example.com", "admin@example.com"}
					tm.URIs = []*url.URL{{Scheme: "mailto", Opaque: "admin@example.com"}}
				case "dns":
					tm.DNSNames = []string{"www.example.com"}
				}
				key := vKeys[count%len(vKeys)]
				raw := vMust1(x509.CreateCertificateRequest(rand.Reader, tm, key))
				if vStr(st.A["csr"]) == "badsig" {
					raw[len(raw)-3] ^= 0x40
				}
				body := string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: raw}))
				switch vStr(st.A["csr"]) {
				case "notpem":
					body = string(raw)
				case "empty":
					body = ""
				}
				hdr := map[string]string{"x-csrf-check": "1", "content-type": "application/x-pem-file"}
				method := form(hdr)
				q.Set("get", "requestCert")
				rec := send(method, body, hdr)
				got := jsonRes(rec)
				if res == "refused" {
					if got["result"] == "ok" || len(m.db.IssuedCerts) != before {
						vFail("a certificate was issued: %v", got)
					}
					break
				}
				if got["result"] != "ok" {
					vFail("no certificate was issued: %v", got)
				}
				b, _ := pem.Decode([]byte(got["cert"]))
				if b == nil {
					vFail("no certificate in the response: %v", got)
				}
				c, err := x509.ParseCertificate(b.Bytes)
				if err != nil {
					vFail("issued certificate: %v", err)
				}
				if !vSame(c.EmailAddresses, []string{email}) || len(c.URIs) != 0 || len(c.IPAddresses) != 0 {
					vFail("the certificate of %s is for %v %v %v", email, c.EmailAddresses, c.URIs, c.IPAddresses)
				}
				if cn := c.Subject.CommonName; cn != email && !strings.HasPrefix(cn, email+"::") || len(c.Subject.Organization) != 0 {
					vFail("the certificate of %s has subject %q", email, c.Subject)
				}
				if !vSame(c.DNSNames, tm.DNSNames) {
					vFail("the certificate has DNS names %v", c.DNSNames)
				}
				if c.IsCA {
					vFail("the certificate is that of a CA")
				}
				if !bytes.Equal(vMust1(x509.MarshalPKIXPublicKey(c.PublicKey)), vMust1(x509.MarshalPKIXPublicKey(key.Public()))) {
					vFail("the certificate is for another key")
				}
				if err := c.CheckSignatureFrom(vMust1(m.CACert())); err != nil {
					vFail("the certificate is not signed by the CA: %v", err)
				}
				certs = append(certs, c)

			case "revoke", "revokeunknown":
				hdr := map[string]string{"x-csrf-check": "1"}
				method := http.MethodPost
				if st.op() == "revoke" {
					method = form(hdr)
					q.Set("sn", sn(vInt(st.A["k"])))
				} else {
					s := sn(1 + count%len(certs))
					switch vStr(st.A["sn"]) {
					case "":
						s = ""
					case "unknown":
						s = "01:02:03"
					case "prefix":
						s = s[:len(s)-3]
					case "upper":
						if u := strings.ToUpper(s); u != s {
							s = u
						} else {
							s = "aa"
						}
					case "nocolon":
						s = strings.ReplaceAll(s, ":", "")
					}
					q.Set("sn", s)
				}
				q.Set("get", "revokeCert")
				got := jsonRes(send(method, "", hdr))
				if (got["result"] == "ok") != (res == "ok") {
					vFail("revocation: %v, want %s", got, res)
				}

			case "list":
				if s := vStr(st.A["owner"]); s != "" {
					q.Set("owner", s)
				}
				if s := vStr(st.A["status"]); s != "" {
					q.Set("status", s)
				}
				rec := send("GET", "", nil)
				if (rec.Code == 200) != (res == "ok") {
					vFail("list: status %d, want %s", rec.Code, res)
				}
				body := html.UnescapeString(rec.Body.String())
				shown := map[int]bool{}
				for _, k := range vList(o["shown"]) {
					shown[vInt(k)] = true
				}
				for k := 1; k <= len(certs); k++ {
					if got := strings.Contains(body, sn(k)); got != shown[k] {
						vFail("certificate %d listed: %v, want %v", k, got, shown[k])
					}
				}

			case "download":
				q.Set("get", "downloadCert")
				q.Set("sn", sn(vInt(st.A["k"])))
				rec := send(strings.ToUpper(vStr(st.A["form"])), "", map[string]string{"x-csrf-check": "1"})
				b, _ := pem.Decode(rec.Body.Bytes())
				if (rec.Code == 200 && b != nil) != (res == "ok") {
					vFail("download: status %d, want %s", rec.Code, res)
				}
				if b != nil && !bytes.Equal(b.Bytes, certs[vInt(st.A["k"])-1].Raw) {
					vFail("another certificate was downloaded")
				}

			case "odd":
				if vStr(st.A["what"]) == "mode" {
					q.Set("get", []string{"requestcert", "RevokeCert", "x", " "}[count%4])
				} else {
					q.Set("get", "static")
					q.Set("file", []string{"../http.go", "nosuch", "/etc/passwd", "../../../../../../../../etc/passwd", "."}[count%5])
				}
				rec := send("GET", "", nil)
				if rec.Code < 400 && rec.Body.Len() > 0 && strings.Contains(rec.Body.String(), "root:") {
					vFail("a file was served: %q", rec.Body)
				}
				if vStr(st.A["what"]) == "mode" && rec.Code < 400 {
					vFail("request with a bad mode: status %d", rec.Code)
				}

			default:
				vHarness("op %q", st.op())
			}
			// Nothing else has changed.
			want := vList(st.T["certs"])
			n := 0
			for _, c := range m.db.IssuedCerts {
				if x := vMust1(c.parse()); !x.IsCA {
					n++
				}
			}
			if n != len(want) {
				vFail("%d certificates are on file, want %d", n, len(want))
			}
			for k, c := range want {
				if got, want := m.IsRevoked(certs[k].SerialNumber), vBool(vMap(c)["rev"]); got != want {
					vFail("certificate %d revoked: %v, want %v", k+1, got, want)
				}
			}
		}
	})
}
