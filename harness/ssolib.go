package PKG_test

// Black-box single sign-on: a scripted OpenID provider and browsers that log in through the proxy.

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/cookiejar"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
	jwt "github.com/golang-jwt/jwt/v5"
)

type vIDP struct {
	srv *httptest.Server

	mu    sync.Mutex
	codes map[string]vObj // claims by code
	n     int
}

func vNewIDP() *vIDP {
	f := &vIDP{codes: map[string]vObj{}}
	mux := http.NewServeMux()
	mux.HandleFunc("/token", func(w http.ResponseWriter, req *http.Request) {
		req.ParseForm()
		f.mu.Lock()
		claims := f.codes[req.PostForm.Get("code")]
		delete(f.codes, req.PostForm.Get("code"))
		f.mu.Unlock()
		w.Header().Set("content-type", "application/json")
		if claims == nil {
			w.WriteHeader(http.StatusBadRequest)
			fmt.Fprint(w, `{"error":"invalid_grant"}`)
			return
		}
		tok := vMust1(jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims(claims)).SignedString([]byte("key")))
		json.NewEncoder(w).Encode(vObj{"access_token": "X", "token_type": "Bearer", "id_token": tok})
	})
	f.srv = httptest.NewServer(mux)
	return f
}

func (f *vIDP) close() { f.srv.Close() }

func (f *vIDP) config(name, redirect, domain string) *proxy.ConfigOIDC {
	return &proxy.ConfigOIDC{Name: name, AuthEndpoint: f.srv.URL + "/authorization", TokenEndpoint: f.srv.URL + "/token",
		RedirectURL: redirect, ClientID: "CLIENTID", ClientSecret: "CLIENTSECRET", Domain: domain}
}

// callback is what the provider would redirect the browser to once the user has authenticated.
func (f *vIDP) callback(auth *url.URL, email string) string {
	q := auth.Query()
	f.mu.Lock()
	f.n++
	code := fmt.Sprintf("code%d", f.n)
	c := vObj{"iss": f.srv.URL, "aud": "CLIENTID", "sub": "sub-" + email, "email": email, "email_verified": true,
		"iat": time.Now().Unix(), "exp": time.Now().Add(time.Hour).Unix(), "name": "Name " + email}
	if n := q.Get("nonce"); n != "" {
		c["nonce"] = n
	}
	f.codes[code] = c
	f.mu.Unlock()
	return q.Get("redirect_uri") + "?" + url.Values{"code": {code}, "state": {q.Get("state")}}.Encode()
}

// vBrowser keeps cookies and sends requests to a proxy, without following redirects.
type vBrowser struct {
	px  *vProxy
	jar *cookiejar.Jar
	hc  *http.Client
	tr  *http.Transport
}

func vNewBrowser(px *vProxy) *vBrowser {
	b := &vBrowser{px: px, jar: vMust1(cookiejar.New(nil))}
	b.tr = &http.Transport{
		DisableCompression: true,
		DialTLSContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
			host, _, _ := net.SplitHostPort(addr)
			c, err := vDialTLS(vDial{addr: px.addr, sni: host, alpn: []string{"http/1.1"}})
			if err != nil {
				return nil, err
			}
			return c, nil
		},
	}
	b.hc = &http.Client{Transport: b.tr, Jar: b.jar, Timeout: 30 * time.Second,
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	return b
}

func (b *vBrowser) close() { b.tr.CloseIdleConnections() }

type vResp struct {
	code    int
	header  http.Header
	body    string
	trailer http.Header
}

func (r *vResp) loc() *url.URL {
	u, _ := url.Parse(r.header.Get("Location"))
	return u
}

func (b *vBrowser) do(method, u string, body string, hdr ...string) *vResp {
	var rd io.Reader
	if body != "" {
		rd = strings.NewReader(body)
	}
	req := vMust1(http.NewRequest(method, u, rd))
	for i := 0; i+1 < len(hdr); i += 2 {
		if strings.EqualFold(hdr[i], "host") {
			req.Host = hdr[i+1]
		} else {
			req.Header.Add(hdr[i], hdr[i+1])
		}
	}
	resp, err := b.hc.Do(req)
	if err != nil {
		vFail("%s %s: %v", method, u, err)
	}
	bb, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		vFail("%s %s: body: %v", method, u, err)
	}
	return &vResp{resp.StatusCode, resp.Header, string(bb), resp.Trailer}
}

// begin starts a login by visiting a protected URL, up to the redirection to the provider.
func (b *vBrowser) begin(u string) *url.URL {
	r := b.do("GET", u, "", "x-skip-login-confirmation", "1")
	if r.code != 302 {
		vFail("GET %s without a login: %d %.100q", u, r.code, r.body)
	}
	pu := vMust1(url.Parse(u))
	lu := vMust1(pu.Parse(r.header.Get("Location")))
	if lu.Path != "/.sso/login" {
		vFail("GET %s without a login redirects to %s", u, lu)
	}
	r = b.do("GET", lu.String(), "")
	if r.code != 302 {
		vFail("GET %s: %d %.100q", lu, r.code, r.body)
	}
	return r.loc()
}

// login logs in with the OpenID provider, starting from a protected URL, and returns the URL that
// the browser is sent to at the end.
func (b *vBrowser) login(f *vIDP, u, email string) string {
	auth := b.begin(u)
	cb := f.callback(auth, email)
	r := b.do("GET", cb, "")
	if r.code != 302 {
		vFail("callback: %d %.200q", r.code, r.body)
	}
	return r.header.Get("Location")
}

// vPKIUser issues and revokes certificates through the management endpoint of one of the proxy's PKIs.
type vPKIUser struct {
	b        *vBrowser
	endpoint string
}

func (u *vPKIUser) issue(cn string, dns, emails []string) (*tls.Certificate, error) {
	key := vMust1(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	tmpl := &x509.CertificateRequest{Subject: pkix.Name{CommonName: cn}, DNSNames: dns, EmailAddresses: emails}
	csr := vMust1(x509.CreateCertificateRequest(rand.Reader, tmpl, key))
	body := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: csr})
	r := u.b.do("POST", u.endpoint+"?get=requestCert", string(body), "x-csrf-check", "1", "content-type", "application/x-pem-file")
	if r.code != 200 {
		return nil, fmt.Errorf("requestCert: %d %s", r.code, r.body)
	}
	var resp struct {
		Result string `json:"result"`
		Cert   string `json:"cert"`
	}
	if err := json.Unmarshal([]byte(r.body), &resp); err != nil {
		return nil, fmt.Errorf("requestCert: %q %v", r.body, err)
	}
	blk, _ := pem.Decode([]byte(resp.Cert))
	if blk == nil {
		return nil, fmt.Errorf("requestCert: %q", r.body)
	}
	leaf := vMust1(x509.ParseCertificate(blk.Bytes))
	return &tls.Certificate{Certificate: [][]byte{blk.Bytes}, PrivateKey: crypto.PrivateKey(key), Leaf: leaf}, nil
}

func (u *vPKIUser) revoke(c *tls.Certificate) error {
	r := u.b.do("POST", u.endpoint+"?get=revokeCert&sn="+bytesHex(c.Leaf.SerialNumber.Bytes()), "", "x-csrf-check", "1")
	if r.code != 200 {
		return fmt.Errorf("revokeCert: %d %s", r.code, r.body)
	}
	return nil
}

func bytesHex(b []byte) string {
	var o bytes.Buffer
	for i, x := range b {
		if i > 0 {
			o.WriteByte(':')
		}
		fmt.Fprintf(&o, "%02x", x)
	}
	return o.String()
}
