package PKG

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	_ "crypto/sha1"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/pem"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	scrypto "github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"
	"golang.org/x/crypto/ocsp"
)

type vPKIClaims struct{}

func vPKIOpts(dir string, mk scrypto.MasterKey, kt string) Options {
	return Options{
		Name: "the CA / x", KeyType: kt, Endpoint: "https://pki.example.com/",
		IssuingCertificateURL: []string{"https://pki.example.com/ca.pem"},
		CRLDistributionPoints: []string{"https://pki.example.com/crl.pem"},
		OCSPServer:            []string{"https://pki.example.com/ocsp"},
		Admins:                []string{"admin@example.com"},
		Store:                 storage.New(dir, mk),
		Logger:                vNoLog{},
		ClaimsFromCtx: func(ctx context.Context) jwt.MapClaims {
			c, _ := ctx.Value(vPKIClaims{}).(jwt.MapClaims)
			return c
		},
	}
}

var (
	vKeyEC, _     = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	vKeyEC384, _  = ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
	_, vKeyEd, _  = ed25519.GenerateKey(rand.Reader)
	vKeyRSA, _    = rsa.GenerateKey(rand.Reader, 2048)
	vKeys         = []crypto.Signer{vKeyEC, vKeyEC384, vKeyEd, vKeyRSA}
	vOIDBasicCons = asn1.ObjectIdentifier{2, 5, 29, 19}
)

func vCSR(kind string, n int) ([]byte, *x509.CertificateRequest, crypto.Signer) {
	t := &x509.CertificateRequest{Subject: pkix.Name{CommonName: fmt.Sprintf("cert %d", n)}}
	switch kind {
	case "cn", "badsig":
	case "dns":
		t.DNSNames = []string{"www.example.com", "*.example.net"}
		t.IPAddresses = []net.IP{net.IPv4(192, 0, 2, 1).To4()}
	case "email":
		t.EmailAddresses = []string{"bob@example.com"}
		t.URIs = []*url.URL{{Scheme: "spiffe", Host: "example.com", Path: "/bob"}}
	case "ca":
		// Asks for the rights of a CA.
		t.ExtraExtensions = []pkix.Extension{
			{Id: vOIDBasicCons, Critical: true, Value: vMust1(asn1.Marshal(struct {
				IsCA bool `asn1:"optional"`
			}{true}))},
			{Id: asn1.ObjectIdentifier{2, 5, 29, 15}, Critical: true, Value: vMust1(asn1.Marshal(asn1.BitString{Bytes: []byte{0x06}, BitLength: 7}))},
		}
	default:
		vHarness("kind %q", kind)
	}
	key := vKeys[n%len(vKeys)]
	raw := vMust1(x509.CreateCertificateRequest(rand.Reader, t, key))
	if kind == "badsig" {
		raw[len(raw)-3] ^= 0x40
	}
	return raw, t, key
}

type vPKIWorld struct {
	dir   string
	mk    scrypto.MasterKey
	kt    string
	m     *PKIManager
	certs []*x509.Certificate // nil if issued but never handed out
	sns   map[string]bool
	crlN  *big.Int
	crl   []byte
	n     int
}

// vRename is what the storage library does.
func vRename(from, to string) error { return os.Rename(from, to) }

func (v *vPKIWorld) start() {
	storage.VerifRename = nil
	m, err := New(vPKIOpts(v.dir, v.mk, v.kt))
	if err != nil {
		vFail("the CA does not start: %v", err)
	}
	v.m = m
}

// faulty runs op with the given fault, and restarts the CA if it is a crash.
func (v *vPKIWorld) faulty(f string, op func()) {
	died := false
	switch f {
	case "ok":
	case "fail":
		storage.VerifRename = func(string, string) error { return errors.New("disk full") }
	case "crash":
		storage.VerifRename = func(string, string) error { return errors.New("crash") }
	case "late":
		storage.VerifRename = func(from, to string) error {
			if died {
				return errors.New("crash")
			}
			died = true
			if err := vRename(from, to); err != nil {
				vHarness("rename: %v", err)
			}
			return errors.New("crash")
		}
	default:
		vHarness("fault %q", f)
	}
	op()
	storage.VerifRename = nil
	if f == "crash" || f == "late" {
		v.start()
	}
}

func (v *vPKIWorld) ca() *x509.Certificate {
	ca, err := v.m.CACert()
	if err != nil || ca == nil {
		vFail("no CA certificate: %v", err)
	}
	return ca
}

// recorded returns the certificates on file which the harness has not seen.
func (v *vPKIWorld) lost() *x509.Certificate {
	m, err := New(vPKIOpts(v.dir, v.mk, v.kt))
	vMust(err)
	for _, c := range m.db.IssuedCerts {
		x := vMust1(c.parse())
		if !x.IsCA && !v.sns[x.SerialNumber.String()] {
			return x
		}
	}
	return nil
}

func (v *vPKIWorld) checkCert(raw []byte, t *x509.CertificateRequest, key crypto.Signer) *x509.Certificate {
	c, err := x509.ParseCertificate(raw)
	if err != nil {
		vFail("issued certificate: %v", err)
	}
	if v.sns[c.SerialNumber.String()] {
		vFail("serial number %v was used before", c.SerialNumber)
	}
	v.sns[c.SerialNumber.String()] = true
	if c.IsCA || c.KeyUsage&(x509.KeyUsageCertSign|x509.KeyUsageCRLSign) != 0 {
		vFail("the certificate has the rights of a CA")
	}
	for _, u := range c.ExtKeyUsage {
		if u != x509.ExtKeyUsageClientAuth && u != x509.ExtKeyUsageServerAuth {
			vFail("the certificate has extended key usage %v", u)
		}
	}
	if !c.BasicConstraintsValid {
		vFail("the certificate has no basic constraints")
	}
	pool := x509.NewCertPool()
	pool.AddCert(v.ca())
	if _, err := c.Verify(x509.VerifyOptions{Roots: pool, KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageAny}}); err != nil {
		vFail("the certificate does not verify: %v", err)
	}
	if c.Subject.CommonName != t.Subject.CommonName || !vSame(c.DNSNames, t.DNSNames) || !vSame(c.EmailAddresses, t.EmailAddresses) ||
		!vSame(fmt.Sprint(c.URIs), fmt.Sprint(t.URIs)) || !vSame(c.IPAddresses, t.IPAddresses) {
		vFail("the certificate has other names than requested: %v %v %v %v %v", c.Subject, c.DNSNames, c.EmailAddresses, c.URIs, c.IPAddresses)
	}
	if !bytes.Equal(vMust1(x509.MarshalPKIXPublicKey(c.PublicKey)), vMust1(x509.MarshalPKIXPublicKey(key.Public()))) {
		vFail("the certificate is for another key")
	}
	if len(t.DNSNames)+len(t.IPAddresses) == 0 {
		if _, err := c.Verify(x509.VerifyOptions{Roots: pool, KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}); err != nil {
			vFail("the certificate is not good for clients: %v", err)
		}
	}
	return c
}

// signer checks that cert, which signed a CRL or an OCSP response, is the CA's delegate.
func (v *vPKIWorld) checkDelegate(cert *x509.Certificate) {
	ca := v.ca()
	if cert.Equal(ca) {
		return
	}
	if err := cert.CheckSignatureFrom(ca); err != nil {
		vFail("signed by a certificate that was not issued by the CA: %v", err)
	}
	now := time.Now()
	if now.Before(cert.NotBefore) || now.After(cert.NotAfter) {
		vFail("signed by a certificate that is valid from %v to %v, now is %v", cert.NotBefore, cert.NotAfter, now)
	}
}

func (v *vPKIWorld) fetchCRL(f string) (cert, crl []byte, err error) {
	if v.n++; f != "ok" || v.n%3 == 0 {
		return v.m.RevocationList()
	}
	name := "crl.der"
	if v.n%3 == 1 {
		name = "crl.pem"
	}
	rec := httptest.NewRecorder()
	v.m.ServeCRL(rec, httptest.NewRequest("GET", "https://pki.example.com/"+name, nil))
	if rec.Code != 200 {
		return nil, nil, fmt.Errorf("status %d: %s", rec.Code, rec.Body)
	}
	if name == "crl.der" {
		return nil, rec.Body.Bytes(), nil
	}
	b, rest := pem.Decode(rec.Body.Bytes())
	b2, _ := pem.Decode(rest)
	if b == nil || b2 == nil {
		vFail("the CRL file is not PEM: %q", rec.Body)
	}
	return b.Bytes, b2.Bytes, nil
}

func (v *vPKIWorld) checkCRL(certRaw, raw []byte, o vObj) {
	rl, err := x509.ParseRevocationList(raw)
	if err != nil {
		vFail("CRL: %v", err)
	}
	var cert *x509.Certificate
	if certRaw != nil {
		if cert, err = x509.ParseCertificate(certRaw); err != nil {
			vFail("CRL certificate: %v", err)
		}
		if err := rl.CheckSignatureFrom(cert); err != nil {
			vFail("the CRL's signature is not that of the certificate it comes with: %v", err)
		}
	} else {
		// The certificates that are published with the CA's.
		rec := httptest.NewRecorder()
		v.m.ServeCACert(rec, httptest.NewRequest("GET", "https://pki.example.com/ca.pem", nil))
		for rest := rec.Body.Bytes(); ; {
			var b *pem.Block
			if b, rest = pem.Decode(rest); b == nil {
				break
			}
			if c, err := x509.ParseCertificate(b.Bytes); err == nil && rl.CheckSignatureFrom(c) == nil {
				cert = c
			}
		}
		if cert == nil {
			vFail("the CRL is not signed by any published certificate")
		}
	}
	v.checkDelegate(cert)
	now := time.Now()
	if rl.ThisUpdate.After(now) || !rl.NextUpdate.After(now) {
		vFail("the CRL is for %v to %v, now is %v", rl.ThisUpdate, rl.NextUpdate, now)
	}
	if v.crlN != nil {
		if c := rl.Number.Cmp(v.crlN); c < 0 || c == 0 && !bytes.Equal(raw, v.crl) {
			vFail("CRL number %v follows number %v", rl.Number, v.crlN)
		}
	}
	v.crlN, v.crl = rl.Number, raw
	listed := map[string]bool{}
	for _, e := range rl.RevokedCertificateEntries {
		if listed[e.SerialNumber.String()] {
			vFail("certificate %v is listed twice", e.SerialNumber)
		}
		listed[e.SerialNumber.String()] = true
	}
	may := map[string]bool{}
	for _, k := range vList(o["may"]) {
		may[v.certs[vInt(k)-1].SerialNumber.String()] = true
	}
	for _, k := range vList(o["must"]) {
		if !listed[v.certs[vInt(k)-1].SerialNumber.String()] {
			vFail("certificate %d is revoked but not on the CRL", vInt(k))
		}
	}
	for sn := range listed {
		if !may[sn] {
			vFail("a certificate that is not revoked is on the CRL")
		}
	}
}

var vHashes = []crypto.Hash{crypto.SHA1, crypto.SHA256, crypto.SHA384}

func (v *vPKIWorld) ocsp(k int, who string) (*ocsp.Response, error) {
	v.n++
	ca := v.ca()
	sn := big.NewInt(int64(v.n))
	if k > 0 {
		sn = v.certs[k-1].SerialNumber
	}
	h := vHashes[v.n%3]
	raw := vMust1(ocsp.CreateRequest(&x509.Certificate{SerialNumber: sn}, ca, &ocsp.RequestOptions{Hash: h}))
	q := vMust1(ocsp.ParseRequest(raw))
	switch who {
	case "othername":
		q.IssuerNameHash[v.n%len(q.IssuerNameHash)] ^= 1
	case "otherkey":
		q.IssuerKeyHash[v.n%len(q.IssuerKeyHash)] ^= 0x80
	}
	raw = vMust1(q.Marshal())
	rec := httptest.NewRecorder()
	switch v.n % 5 {
	case 0:
		req := httptest.NewRequest("POST", "https://pki.example.com/ocsp", bytes.NewReader(raw))
		req.Header.Set("content-type", "application/ocsp-request")
		v.m.ServeOCSP(rec, req)
	case 1:
		v.m.ServeOCSP(rec, httptest.NewRequest("GET", "https://pki.example.com/ocsp/"+url.PathEscape(base64.StdEncoding.EncodeToString(raw)), nil))
	case 2:
		v.m.ServeOCSP(rec, httptest.NewRequest("GET", "https://pki.example.com/ocsp/"+base64.RawURLEncoding.EncodeToString(raw), nil))
	case 3:
		s := url.QueryEscape(strings.TrimRight(base64.StdEncoding.EncodeToString(raw), "="))
		v.m.ServeOCSP(rec, httptest.NewRequest("GET", "https://pki.example.com/ocsp/"+s, nil))
	default:
		b, err := v.m.OCSPResponse(q)
		if err != nil {
			return nil, err
		}
		rec.Write(b)
	}
	if rec.Code != 200 {
		return nil, fmt.Errorf("status %d: %s", rec.Code, rec.Body)
	}
	resp, err := ocsp.ParseResponse(rec.Body.Bytes(), ca)
	if err != nil {
		vFail("the OCSP response is not authentic: %v", err)
	}
	if resp.SerialNumber.Cmp(sn) != 0 {
		vFail("the OCSP response is for another certificate")
	}
	if resp.Certificate != nil {
		v.checkDelegate(resp.Certificate)
	}
	now := time.Now()
	if resp.ThisUpdate.After(now) || !resp.NextUpdate.After(now) {
		vFail("the OCSP response is for %v to %v, now is %v", resp.ThisUpdate, resp.NextUpdate, now)
	}
	return resp, nil
}

var vStatus = map[int]string{ocsp.Good: "good", ocsp.Revoked: "revoked", ocsp.Unknown: "unknown"}

func TestVerifPKI(t *testing.T) {
	mk := vMust1(scrypto.CreateAESMasterKeyForTest())
	count := 0
	vRun(t, func(r *vRunner, w vWalk, step func(int)) {
		count++
		kt := "ecdsa-p256"
		switch count % 12 {
		case 3:
			kt = "ed25519"
		case 6:
			kt = "ecdsa-p384"
		}
		v := &vPKIWorld{dir: vTempDir(), mk: mk, kt: kt, sns: map[string]bool{}, n: count}
		time.VerifAdvance(-time.VerifOffset())
		v.start()
		defer func() { storage.VerifRename = nil }()
		for i, st := range w.Steps {
			step(i)
			o := vMap(st.O)
			res := vStr(o["res"])
			r.stat(st.op() + ":" + res)
			f := "ok"
			if x, ok := st.A["f"]; ok {
				f = vStr(x)
			}
			switch st.op() {
			case "issue":
				v.n++
				raw, tmpl, key := vCSR(vStr(st.A["kind"]), v.n)
				var cert *x509.Certificate
				v.faulty(f, func() {
					cr, err := v.m.ValidateCertificateRequest(raw)
					if err != nil {
						if res == "error" {
							return
						}
						vFail("the request is refused: %v", err)
					}
					b, err := v.m.IssueCertificate(cr)
					switch {
					case err == nil && res == "error":
						vFail("a certificate was issued (%s)", f)
					case err != nil && res == "cert":
						vFail("no certificate was issued: %v", err)
					case err == nil:
						cert = v.checkCert(b, tmpl, key)
					}
				})
				if len(vList(st.T["certs"])) > len(v.certs) {
					if cert == nil {
						if cert = v.lost(); cert == nil {
							vHarness("no certificate on file")
						}
						v.sns[cert.SerialNumber.String()] = true
					}
					v.certs = append(v.certs, cert)
				} else if v.lost() != nil {
					vFail("a certificate is on file that was not issued")
				}

			case "revoke":
				v.faulty(f, func() {
					err := v.m.RevokeCertificate(v.certs[vInt(st.A["k"])-1].SerialNumber, []int{RevokeReasonUnspecified, RevokeReasonKeyCompromise}[v.n%2])
					if (err == nil) != (res == "ok") {
						vFail("revocation: %v", err)
					}
				})

			case "revokeunknown":
				if err := v.m.RevokeCertificate(big.NewInt(int64(1000+v.n)), 0); err == nil {
					vFail("a certificate that does not exist was revoked")
				}

			case "crl":
				v.faulty(f, func() {
					cert, crl, err := v.fetchCRL(f)
					if f == "crash" || f == "late" {
						return
					}
					if err != nil {
						if res == "crl" {
							vFail("no CRL: %v", err)
						}
						return
					}
					v.checkCRL(cert, crl, o)
				})

			case "ocsp":
				v.faulty(f, func() {
					resp, err := v.ocsp(vInt(st.A["k"]), vStr(st.A["who"]))
					if res == "any" {
						return
					}
					if err != nil {
						vFail("no OCSP response: %v", err)
					}
					if got := vStatus[resp.Status]; got != res {
						vFail("OCSP says %s about certificate %d (%s), want %s", got, vInt(st.A["k"]), vStr(st.A["who"]), res)
					}
				})

			case "time":
				switch vStr(st.A["d"]) {
				case "short":
					time.VerifAdvance(25 * time.Minute)
				case "long":
					time.VerifAdvance(6 * 24 * time.Hour)
				case "epoch":
					time.VerifAdvance(6 * 365 * 24 * time.Hour)
					v.start()
				}

			case "restart":
				v.start()

			case "peek":
				m, err := New(vPKIOpts(v.dir, v.mk, v.kt))
				if err != nil {
					vFail("the CA does not start: %v", err)
				}
				old := v.m
				v.m = m
				for k, want := range vList(o["all"]) {
					resp, err := v.ocsp(k+1, "issuer")
					if err != nil {
						vFail("no OCSP response: %v", err)
					}
					if got := vStatus[resp.Status]; got != vStr(want) {
						vFail("after a restart, OCSP says %s about certificate %d, want %s", got, k+1, want)
					}
				}
				v.m = old
				// The files were touched by the other instance; start over from there.
				v.start()

			default:
				vHarness("op %q", st.op())
			}
			for k, c := range vList(st.T["certs"]) {
				want := vBool(vMap(c)["rev"])
				if got := v.m.IsRevoked(v.certs[k].SerialNumber); got != want {
					vFail("IsRevoked says %v about certificate %d, want %v", got, k+1, want)
				}
			}
			if v.m.IsRevoked(v.ca().SerialNumber) || v.m.IsRevoked(big.NewInt(7)) {
				vFail("IsRevoked says yes about a certificate that nobody revoked")
			}
			// In the state after the step, OCSP agrees too.
			if n := len(v.certs); n > 0 && i%3 == 0 {
				k := v.n%n + 1
				want := "good"
				if vBool(vMap(vList(st.T["certs"])[k-1])["rev"]) {
					want = "revoked"
				}
				resp, err := v.ocsp(k, "issuer")
				if err != nil {
					vFail("no OCSP response: %v", err)
				}
				if got := vStatus[resp.Status]; got != want {
					vFail("OCSP says %s about certificate %d, want %s", got, k, want)
				}
			}
		}
	})
}
