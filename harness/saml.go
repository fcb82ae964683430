package PKG

import (
	"bytes"
	"compress/flate"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/hex"
	"encoding/pem"
	"encoding/xml"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/beevik/etree"
	jwt "github.com/golang-jwt/jwt/v5"
	dsig "github.com/russellhaering/goxmldsig"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
)

type vSAMLKeys struct {
	good, good2, other tls.Certificate
	pem                string
}

func vSAMLCert(name string, rsaKey bool) tls.Certificate {
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(10 * 365 * 24 * time.Hour)}
	if rsaKey {
		k := vMust1(rsa.GenerateKey(rand.Reader, 2048))
		der := vMust1(x509.CreateCertificate(rand.Reader, tmpl, tmpl, &k.PublicKey, k))
		return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
	}
	k := vMust1(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	der := vMust1(x509.CreateCertificate(rand.Reader, tmpl, tmpl, &k.PublicKey, k))
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
}

func vNewSAMLKeys() *vSAMLKeys {
	k := &vSAMLKeys{good: vSAMLCert("idp", true), good2: vSAMLCert("idp2", true), other: vSAMLCert("idp", true)}
	var b bytes.Buffer
	for _, c := range []tls.Certificate{k.good, k.good2} {
		vMust(pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: c.Certificate[0]}))
	}
	k.pem = b.String()
	return k
}

const (
	vACS    = "https://login.example.com:8443/saml/acs"
	vSelf   = "https://login.example.com/"
	vIssuer = "https://idp.example.net/entity"
)

type vAssertion struct {
	id, to, user, recipient, audience string
	notBefore, notAfter               time.Time
	attrs                             map[string]string
}

func (a vAssertion) element() *etree.Element {
	e := etree.NewElement("saml:Assertion")
	e.CreateAttr("xmlns:saml", "urn:oasis:names:tc:SAML:2.0:assertion")
	e.CreateAttr("ID", a.id)
	e.CreateAttr("Version", "2.0")
	e.CreateElement("saml:Issuer").SetText(vIssuer)
	sub := e.CreateElement("saml:Subject")
	if a.user != "-" {
		sub.CreateElement("saml:NameID").SetText(a.user)
	}
	sc := sub.CreateElement("saml:SubjectConfirmation")
	scd := sc.CreateElement("saml:SubjectConfirmationData")
	if a.to != "-" {
		scd.CreateAttr("InResponseTo", a.to)
	}
	if a.recipient != "-" {
		scd.CreateAttr("Recipient", a.recipient)
	}
	cond := e.CreateElement("saml:Conditions")
	if !a.notBefore.IsZero() {
		cond.CreateAttr("NotBefore", a.notBefore.UTC().Format(time.RFC3339Nano))
		cond.CreateAttr("NotOnOrAfter", a.notAfter.UTC().Format(time.RFC3339Nano))
	}
	if a.audience != "-" {
		for _, s := range strings.Split(a.audience, " ") {
			cond.CreateElement("saml:AudienceRestriction").CreateElement("saml:Audience").SetText(s)
		}
	}
	as := e.CreateElement("saml:AttributeStatement")
	for _, k := range []string{"firstname", "email", "proxyauth"} {
		if v, ok := a.attrs[k]; ok {
			at := as.CreateElement("saml:Attribute")
			at.CreateAttr("Name", k)
			at.CreateElement("saml:AttributeValue").SetText(v)
		}
	}
	return e
}

func vSignEl(e *etree.Element, cert tls.Certificate) *etree.Element {
	ctx := vMust1(dsig.NewSigningContext(cert.PrivateKey.(*rsa.PrivateKey), cert.Certificate))
	ctx.Canonicalizer = dsig.MakeC14N10ExclusiveCanonicalizerWithPrefixList("")
	return vMust1(ctx.SignEnveloped(e))
}

func vResponse(children ...*etree.Element) *etree.Element {
	r := etree.NewElement("samlp:Response")
	r.CreateAttr("xmlns:samlp", "urn:oasis:names:tc:SAML:2.0:protocol")
	r.CreateAttr("ID", "resp1")
	for _, c := range children {
		r.AddChild(c)
	}
	return r
}

// vBuildSAML makes the response with the given fault.
func vBuildSAML(k *vSAMLKeys, fault, to, user string, n int) (method, body string) {
	now := time.Now()
	a := vAssertion{id: fmt.Sprintf("_a%d", n), to: to, user: user, recipient: vACS, audience: vSelf,
		notBefore: now.Add(-time.Minute), notAfter: now.Add(time.Minute), attrs: map[string]string{"firstname": "First " + user}}
	evil := a
	evil.user = "admin@example.com"
	evil.id = a.id + "e"
	cert := k.good
	method = http.MethodPost
	switch fault {
	case "cert2":
		cert = k.good2
	case "window":
		a.notBefore, a.notAfter = now.Add(-24*time.Hour), now.Add(2*time.Second)
	case "wrongKey":
		cert = k.other
	case "recipient":
		a.recipient = "https://login.example.com:8443/saml/acs2"
	case "noRecipient":
		a.recipient = "-"
	case "audience":
		a.audience = "https://other.example.com/"
	case "noAudience":
		a.audience = "-"
	case "secondAudience":
		a.audience = "https://other.example.com/ " + vSelf
	case "expired":
		a.notBefore, a.notAfter = now.Add(-time.Hour), now.Add(-2*time.Second)
	case "notYet":
		a.notBefore, a.notAfter = now.Add(10*time.Second), now.Add(time.Hour)
	case "noWindow":
		a.notBefore = time.Time{}
	case "noName":
		a.user = "-"
	case "emptyName":
		a.user = ""
	case "noTo":
		a.to = "-"
	case "get":
		method = http.MethodGet
	case "comment":
		a.user = "admin@example.com" + "." + user
	case "cdata":
		a.user = "admin@example.com" + "." + user
	}
	var signed *etree.Element
	switch fault {
	case "unsigned":
		signed = a.element()
	case "selfSigned":
		// Signed by a key that is not configured, carrying the name of a configured certificate.
		signed = vSignEl(a.element(), tls.Certificate{Certificate: k.good.Certificate, PrivateKey: k.other.PrivateKey})
	case "certOfOther":
		signed = vSignEl(a.element(), tls.Certificate{Certificate: [][]byte{k.other.Certificate[0], k.good.Certificate[0]}, PrivateKey: k.other.PrivateKey})
	case "sigOther":
		// The signature of another, correct assertion.
		b := a
		b.user = "someone@example.com"
		s2 := vSignEl(b.element(), cert)
		signed = a.element()
		signed.AddChild(s2.FindElement("./Signature").Copy())
	default:
		signed = vSignEl(a.element(), cert)
	}
	resp := vResponse(signed)
	switch fault {
	case "tamperName":
		signed.FindElement("./Subject/NameID").SetText("admin@example.com")
	case "tamperTo":
		// A correctly signed answer to another request, redirected to this one.
		b := a
		b.to = "00112233445566778899aabb"
		signed = vSignEl(b.element(), cert)
		signed.FindElement("./Subject/SubjectConfirmation/SubjectConfirmationData").SelectAttr("InResponseTo").Value = to
		resp = vResponse(signed)
	case "tamperAttr":
		signed.FindElement("./AttributeStatement/Attribute/AttributeValue").SetText("Evil")
	case "comment":
		nid := signed.FindElement("./Subject/NameID")
		nid.SetText("")
		for _, c := range append([]etree.Token{}, nid.Child...) {
			nid.RemoveChild(c)
		}
		nid.AddChild(etree.NewText("admin@example.com"))
		nid.AddChild(etree.NewComment("x"))
		nid.AddChild(etree.NewText("." + user))
	case "cdata":
		nid := signed.FindElement("./Subject/NameID")
		for _, c := range append([]etree.Token{}, nid.Child...) {
			nid.RemoveChild(c)
		}
		nid.AddChild(etree.NewText("admin@example.com"))
		nid.AddChild(etree.NewCData("." + user))
	case "evilFirst":
		resp = vResponse(evil.element(), signed)
	case "evilAfter":
		resp = vResponse(signed, evil.element())
	case "evilExtra":
		// Identity elements outside of the assertion.
		resp = vResponse(evil.element().FindElement("./Subject").Copy(), signed, evil.element().FindElement("./AttributeStatement").Copy())
	case "evilStatus":
		ext := etree.NewElement("samlp:Extensions")
		ext.AddChild(evil.element())
		resp = vResponse(ext, signed)
	case "evilOuter":
		e := evil.element()
		e.AddChild(signed)
		resp = vResponse(e)
	case "evilSigMoved":
		// The original assertion hidden in an Object of its own signature, which is attached to the evil one.
		e := evil.element()
		sig := signed.FindElement("./Signature").Copy()
		orig := signed.Copy()
		orig.RemoveChild(orig.FindElement("./Signature"))
		sig.CreateElement("ds:Object").AddChild(orig)
		e.AddChild(sig)
		resp = vResponse(e)
	case "evilIdRef":
		// Same, and the evil assertion takes the ID of the signed one.
		e := evil
		e.id = a.id
		ee := e.element()
		ee.AddChild(signed.FindElement("./Signature").Copy())
		resp = vResponse(ee, signed)
	case "respSignedToo":
		resp = vSignEl(resp, cert)
	case "noAssertion":
		resp = vResponse()
	}
	doc := etree.NewDocument()
	doc.SetRoot(resp)
	b := vMust1(doc.WriteToBytes())
	switch fault {
	case "notxml":
		b = []byte("this is not xml")
	case "truncated":
		b = b[:len(b)-20]
	}
	body = base64.StdEncoding.EncodeToString(b)
	if fault == "garbage" {
		body = "%%%" + body
	}
	return method, body
}

func TestVerifSAML(t *testing.T) {
	keys := vNewSAMLKeys()
	cm := cookiemanager.New(vNewTM(), "the-idp", "example.com", "https://login.example.com/")
	vRun(t, func(r *vRunner, w vWalk, step func(int)) {
		p := vMust1(New(Config{SSOURL: "https://idp.example.net/sso?x=y", EntityID: "https://login.example.com/entity", Certs: keys.pem, ACSURL: vACS}, vRec{}, cm))
		vSAMLWalk(r, w, step, p, cm, keys)
	})
}

func vSAMLWalk(r *vRunner, w vWalk, step func(int), p *Provider, cm *cookiemanager.CookieManager, keys *vSAMLKeys) {
	urls := map[string]string{"u1": "https://www.example.com/some/page?a=b&c=%2F", "u2": "https://other.example.com:8443/x"}
	hosts := map[string]string{"u1": "www.example.com", "u2": "other.example.com:8443"}
	type login struct{ id, url, body string }
	var logins []login
	seen := map[string]bool{}
	post := func(method, body string) *httptest.ResponseRecorder {
		form := url.Values{"SAMLResponse": {body}, "RelayState": {"https://evil.example.org/"}}.Encode()
		req := httptest.NewRequest(method, vACS, strings.NewReader(form))
		if method == http.MethodGet {
			req = httptest.NewRequest(method, vACS+"?"+form, nil)
		} else {
			req.Header.Set("content-type", "application/x-www-form-urlencoded")
		}
		rec := httptest.NewRecorder()
		p.HandleCallback(rec, req)
		return rec
	}
	cookie := func(rec *httptest.ResponseRecorder) string {
		for _, c := range rec.Result().Cookies() {
			if c.Value != "" && c.MaxAge >= 0 {
				return c.Value
			}
		}
		return ""
	}
	for i, st := range w.Steps {
		step(i)
		o := vMap(st.O)
		stat := st.op() + ":" + vStr(o["res"])
		switch st.op() {
		case "tick":
			time.VerifAdvance(140 * time.Second)

		case "begin":
			u := urls[vStr(st.A["url"])]
			rec := httptest.NewRecorder()
			p.RequestLogin(rec, httptest.NewRequest("GET", u, nil), u)
			loc, err := url.Parse(rec.Header().Get("location"))
			if rec.Code != 302 || err != nil || loc.Host != "idp.example.net" || loc.Path != "/sso" || loc.Query().Get("x") != "y" {
				vFail("login request: %d %q", rec.Code, rec.Header().Get("location"))
			}
			raw, err := base64.StdEncoding.DecodeString(loc.Query().Get("SAMLRequest"))
			if err != nil {
				vFail("SAMLRequest: %v", err)
			}
			b, err := io.ReadAll(flate.NewReader(bytes.NewReader(raw)))
			if err != nil {
				vFail("SAMLRequest: %v", err)
			}
			var ar struct {
				ID  string `xml:",attr"`
				ACS string `xml:"AssertionConsumerServiceURL,attr"`
			}
			if err := xml.Unmarshal(b, &ar); err != nil {
				vFail("SAMLRequest: %v", err)
			}
			if len(ar.ID) < 16 || seen[ar.ID] || ar.ACS != vACS {
				vFail("request id missing, short or not fresh, or wrong consumer: %+v", ar)
			}
			seen[ar.ID] = true
			logins = append(logins, login{id: ar.ID, url: vStr(st.A["url"])})

		case "respond", "replay":
			s := vInt(st.A["s"])
			to := "ffeeddccbbaa998877665544"
			if s > 0 {
				to = logins[s-1].id
			}
			method, body, fault, user := http.MethodPost, "", "replay", ""
			if st.op() == "replay" {
				body = logins[s-1].body
			} else {
				fault = vStr(st.A["fault"])
				user = vStr(st.A["user"]) + "@example.com"
				method, body = vBuildSAML(keys, fault, to, user, i)
			}
			stat += ":" + fault
			rec := post(method, body)
			auth := cookie(rec)
			switch vStr(o["res"]) {
			case "refused":
				if auth != "" {
					vFail("response %s logged a user in (%d)", vJSON(st.A), rec.Code)
				}
				if rec.Code < 400 {
					vFail("response %s was answered with %d %q", vJSON(st.A), rec.Code, rec.Header().Get("location"))
				}
			case "login", "either":
				if auth == "" {
					if vStr(o["res"]) == "either" {
						if rec.Code < 400 {
							vFail("response %s was answered with %d %q", vJSON(st.A), rec.Code, rec.Header().Get("location"))
						}
						r.stat("either-refused:" + fault)
						continue
					}
					vFail("response %s was refused: %d %s", vJSON(st.A), rec.Code, strings.TrimSpace(rec.Body.String()))
				}
				logins[s-1].body = body
				l := logins[s-1]
				if rec.Code != 302 || rec.Header().Get("location") != urls[l.url] {
					vFail("login for %q ends with %d at %q", urls[l.url], rec.Code, rec.Header().Get("location"))
				}
				vreq := httptest.NewRequest("GET", "https://login.example.com/", nil)
				vreq.AddCookie(&http.Cookie{Name: "TLSPROXYAUTH", Value: auth})
				tok, err := cm.ValidateAuthTokenCookie(vreq)
				if err != nil {
					vFail("the login cookie is not valid: %v", err)
				}
				c := tok.Claims.(jwt.MapClaims)
				hh := sha256.Sum256([]byte(hosts[l.url]))
				who := user
				if fault == "comment" || fault == "cdata" {
					who = "admin@example.com" + "." + user
				}
				want := vObj{"email": who, "sub": who, "provider": "the-idp", "hhash": hex.EncodeToString(hh[:]), "firstname": "First " + user, "source": vIssuer}
				for k, v := range want {
					if c[k] != v {
						vFail("response %s: login cookie has %s=%v, want %v", vJSON(st.A), k, c[k], v)
					}
				}
			}

		default:
			vHarness("unknown op %q", st.op())
		}
		r.stat(stat)
	}
}
