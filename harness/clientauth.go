package PKG_test

import (
	"context"
	"crypto"
	"crypto/rand"
	"crypto/sha1"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
	"golang.org/x/crypto/ocsp"
)

// vAuthCerts are the certificates of the specification that don't depend on a proxy.
type vAuthCerts struct {
	ca1, ca2, sys *vCA
	certs         map[string]*tls.Certificate
}

var vAuthStatus sync.Map // certificate name by serial number: answers of the responder

var vAuthSetup = sync.OnceValue(func() *vAuthCerts {
	s := &vAuthCerts{ca1: vNewCA("ca1"), ca2: vNewCA("ca2"), sys: vNewCA("sys"), certs: map[string]*tls.Certificate{}}
	// sys is the only root that the system trusts.
	d := vTempDir()
	f := filepath.Join(d, "sys.pem")
	vMust(os.WriteFile(f, []byte(s.sys.pem), 0o600))
	vMust(os.Mkdir(filepath.Join(d, "certs"), 0o700))
	os.Setenv("SSL_CERT_FILE", f)
	os.Setenv("SSL_CERT_DIR", filepath.Join(d, "certs"))

	responder := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		b, _ := io.ReadAll(req.Body)
		or, err := ocsp.ParseRequest(b)
		if err != nil {
			w.WriteHeader(400)
			return
		}
		st, _ := vAuthStatus.Load(or.SerialNumber.String())
		resp := ocsp.Response{SerialNumber: or.SerialNumber, ThisUpdate: time.Now().Add(-time.Hour), NextUpdate: time.Now().Add(240 * time.Hour), RevokedAt: time.Now().Add(-time.Hour)}
		switch st {
		case "good":
			resp.Status = ocsp.Good
		case "revoked":
			resp.Status = ocsp.Revoked
		default:
			resp.Status = ocsp.Unknown
		}
		out, err := ocsp.CreateResponse(s.ca1.cert, s.ca1.cert, resp, s.ca1.key.(crypto.Signer))
		if err != nil {
			w.WriteHeader(500)
			return
		}
		w.Write(out)
	}))
	dead := httptest.NewServer(http.NotFoundHandler())
	deadURL := dead.URL
	dead.Close()

	alice := vLeaf{cn: "alice", dns: []string{"alice.test"}, emails: []string{"alice@x.test"}, uris: []string{"spiffe://x.test/alice"}}
	bob := vLeaf{cn: "bob", dns: []string{"bob.test"}, emails: []string{"bob@x.test"}, uris: []string{"spiffe://x.test/bob"}}
	put := func(name string, c tls.Certificate) { s.certs[name] = &c }
	with := func(l vLeaf, f func(*vLeaf)) vLeaf { f(&l); return l }
	put("alice", s.ca1.leaf(alice))
	put("bob", s.ca1.leaf(bob))
	put("swap", s.ca1.leaf(vLeaf{cn: "alice@x.test", dns: []string{"spiffe.alice"}, emails: []string{"alice.test@y.test"}, uris: []string{"dns://alice.test"}}))
	put("sub", s.ca1.leaf(vLeaf{cn: "alice", org: "Evil", dns: []string{"sub.alice.test", "alice.test.evil.test"}, emails: []string{"xalice@x.test", "ALICE@x.test"}, uris: []string{"spiffe://x.test/alice/sub"}}))
	put("multi", s.ca1.leaf(vLeaf{cn: "zed", dns: []string{"zed.test", "alice.test"}, emails: []string{"zed@x.test", "alice@x.test"}, uris: []string{"spiffe://x.test/zed", "spiffe://x.test/alice"}}))
	put("nosub", s.ca1.leaf(vLeaf{dns: []string{"nosub.test"}}))
	put("short", s.ca1.leaf(with(alice, func(l *vLeaf) { l.to = time.Now().Add(time.Hour) })))
	put("future", s.ca1.leaf(with(alice, func(l *vLeaf) { l.from = time.Now().Add(time.Hour) })))
	put("expired", s.ca1.leaf(with(alice, func(l *vLeaf) { l.from = time.Now().Add(-3 * time.Hour); l.to = time.Now().Add(-time.Hour) })))
	put("srveku", s.ca1.leaf(with(alice, func(l *vLeaf) { l.eku = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth} })))
	wk := s.ca1.leaf(alice)
	wk.PrivateKey = vKey()
	put("wrongkey", wk)
	self := vNewCA("ca1")
	put("selfsigned", func() tls.Certificate {
		key := vKey()
		t := &x509.Certificate{SerialNumber: big.NewInt(77), Subject: pkix.Name{CommonName: "alice"}, NotBefore: time.Now().Add(-time.Hour),
			NotAfter: time.Now().Add(1000 * time.Hour), EmailAddresses: alice.emails, DNSNames: alice.dns, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}
		der := vMust1(x509.CreateCertificate(rand.Reader, t, t, key.Public(), key))
		return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	}())
	// A CA that pretends to be ca1.
	fk := *self
	fc := *self.cert
	fc.RawSubject, fc.SubjectKeyId = s.ca1.cert.RawSubject, s.ca1.cert.SubjectKeyId
	fk.cert = &fc
	fl := fk.leaf(alice)
	fl.Certificate = append(fl.Certificate, self.cert.Raw)
	put("fakeca", fl)
	put("otherca", s.ca2.leaf(alice))
	put("sys", s.sys.leaf(alice))
	put("sysbob", s.sys.leaf(bob))
	inter := s.ca1.intermediate("inter")
	il := inter.leaf(alice)
	put("internc", il)
	il.Certificate = append([][]byte{il.Certificate[0]}, inter.cert.Raw)
	put("inter", il)
	// Signed with a certificate that isn't a CA's.
	bc := s.certs["bob"]
	nc := (&vCA{key: bc.PrivateKey.(crypto.Signer), cert: bc.Leaf}).leaf(alice)
	nc.Certificate = append(nc.Certificate, bc.Certificate[0])
	put("notca", nc)
	for _, k := range []string{"ocspgood", "ocsprev", "ocspunk", "ocspdown"} {
		u := responder.URL
		if k == "ocspdown" {
			u = deadURL
		}
		put(k, s.ca1.leaf(with(alice, func(l *vLeaf) { l.ocsp = []string{u} })))
		vAuthStatus.Store(s.certs[k].Leaf.SerialNumber.String(), map[string]string{"ocspgood": "good", "ocsprev": "revoked"}[k])
	}
	return s
})

func (ca *vCA) intermediate(name string) *vCA {
	vSerial++
	key := vKey()
	t := &x509.Certificate{
		SerialNumber: big.NewInt(vSerial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour),
		NotAfter: time.Now().Add(10 * 365 * 24 * time.Hour), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageCertSign, SubjectKeyId: func() []byte { h := sha1.Sum([]byte(name)); return h[:] }(),
	}
	der := vMust1(x509.CreateCertificate(rand.Reader, t, ca.cert, key.Public(), ca.key))
	return &vCA{key: key, cert: vMust1(x509.ParseCertificate(der)), pem: vPEM(der)}
}

// vOneSession offers one session for everything, and keeps the last one that it gets.
type vOneSession struct {
	mu  sync.Mutex
	use *tls.ClientSessionState
	got *tls.ClientSessionState
}

func (s *vOneSession) Get(string) (*tls.ClientSessionState, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.use, s.use != nil
}

func (s *vOneSession) Put(_ string, cs *tls.ClientSessionState) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if cs != nil {
		s.got = cs
	}
}

type vAuth struct {
	r     *vRunner
	px    *vProxy
	idp   *vIDP
	be    []*vBackend
	mode  []string
	pki   *vPKIUser
	certs map[string]*tls.Certificate
	sess  *tls.ClientSessionState
	seen  string
	def   string
}

func vAuthNew(r *vRunner, init vObj) *vAuth {
	s := vAuthSetup()
	c := vMap(init["cfg"])
	x := &vAuth{r: r, def: vStr(c["def"]), certs: map[string]*tls.Certificate{}}
	for k, v := range s.certs {
		x.certs[k] = v
	}
	cfg := &proxy.Config{EnableQUIC: vPtr(true), DefaultServerName: vStr(c["def"])}
	needPKI := false
	all := []string{"x", "y", "h2", "http/1.1", "h3"}
	for i, bb := range vList(c["bs"]) {
		m := vMap(bb)
		mode := vStr(m["mode"])
		id := fmt.Sprintf("B%d", i+1)
		be := &proxy.Backend{ServerNames: vStrs(m["names"]), Mode: mode}
		if a := vStrs(m["alpn"]); len(a) != 1 || a[0] != "default" {
			be.ALPNProtos = &a
		}
		var b *vBackend
		tc := vBackendTLS([]string{"be.test"}, all...)
		switch mode {
		case "TCP":
			b = vNewBackend(id, "line", vBackendOpts{})
		case "TLS":
			b = vNewBackend(id, "line", vBackendOpts{tls: tc})
		case "HTTP":
			b = vNewBackend(id, "http", vBackendOpts{})
		case "HTTPS":
			b = vNewBackend(id, "http", vBackendOpts{tls: vBackendTLS([]string{"be.test"}, "h2", "http/1.1")})
		case "QUIC":
			b = vNewBackend(id, "quic", vBackendOpts{tls: tc})
		}
		if b != nil {
			be.Addresses = []string{b.addr}
		}
		if mode == "TLS" || mode == "HTTPS" || mode == "QUIC" {
			be.ForwardServerName = "be.test"
			be.ForwardRootCAs = []string{vServerCA().pem}
		}
		if p := vMap(m["pol"]); vBool(p["on"]) {
			be.ClientAuth = &proxy.ClientAuth{}
			if a := vStrs(p["acl"]); len(a) != 1 || a[0] != "nil" {
				be.ClientAuth.ACL = &a
			}
			for _, n := range vStrs(p["roots"]) {
				if n == "ca1" {
					n = s.ca1.pem
				} else {
					needPKI = true
				}
				be.ClientAuth.RootCAs = append(be.ClientAuth.RootCAs, n)
			}
		}
		x.be = append(x.be, b)
		x.mode = append(x.mode, mode)
		cfg.Backends = append(cfg.Backends, be)
	}
	if needPKI {
		x.idp = vNewIDP()
		cfg.OIDCProviders = []*proxy.ConfigOIDC{x.idp.config("idp", "https://sso.test/redirect", "")}
		cfg.Backends = append(cfg.Backends, &proxy.Backend{ServerNames: []string{"sso.test"}, Mode: "LOCAL", SSO: &proxy.BackendSSO{Provider: "idp"}})
		cfg.PKI = []*proxy.ConfigPKI{{Name: "pki", Endpoint: "https://sso.test/certs", Admins: []string{"bob@x.test"}}, {Name: "pki2", Endpoint: "https://sso.test/certs2"}}
	}
	px, err := vNewProxy(cfg)
	if err != nil {
		vFail("a valid configuration is rejected: %v", err)
	}
	x.px = px
	if needPKI {
		b := vNewBrowser(px)
		b.login(x.idp, "https://sso.test/certs", "alice@x.test")
		x.pki = &vPKIUser{b, "https://sso.test/certs"}
		issue := func(u *vPKIUser, cn string, dns []string, emails []string) *tls.Certificate {
			c, err := u.issue(cn, dns, emails)
			if err != nil {
				vFail("%v", err)
			}
			return c
		}
		x.certs["pkialice"] = issue(x.pki, "", nil, []string{"alice@x.test"})
		x.certs["pki2alice"] = issue(&vPKIUser{b, "https://sso.test/certs2"}, "", nil, []string{"alice@x.test"})
		b2 := vNewBrowser(px)
		b2.login(x.idp, "https://sso.test/certs", "bob@x.test")
		x.certs["pkibob"] = issue(&vPKIUser{b2, "https://sso.test/certs"}, "", nil, []string{"bob@x.test"})
		b.close()
		b2.close()
	} else {
		for n, e := range map[string]string{"pkialice": "alice@x.test", "pki2alice": "alice@x.test", "pkibob": "bob@x.test"} {
			c := s.ca2.leaf(vLeaf{cn: e, emails: []string{e}, dns: []string{"alice.test"}})
			x.certs[n] = &c
		}
	}
	return x
}

func (x *vAuth) stop() {
	x.px.stop()
	for _, b := range x.be {
		if b != nil {
			b.close()
		}
	}
	if x.idp != nil {
		x.idp.close()
	}
}

func (x *vAuth) traffic() string {
	var s []string
	for _, b := range x.be {
		if b != nil {
			s = append(s, fmt.Sprintf("%s: %d connections, %d requests", b.id, b.numConns(), b.requests()))
		}
	}
	return strings.Join(s, "; ")
}

func TestVerifClientAuth(t *testing.T) {
	vAuthSetup()
	vRun(t, func(r *vRunner, w vWalk, step func(i int)) {
		time.VerifAdvance(-time.VerifOffset())
		x := vAuthNew(r, w.Init)
		defer x.stop()
		for i, st := range w.Steps {
			step(i)
			o := vMap(st.O)
			switch st.op() {
			case "connect", "resume":
				_, save := vMap(st.T["sess"])["be"]
				x.connect(st.op() == "resume", vStr(st.A["t"]), vStr(st.A["sni"]), vStrs(st.A["alpn"]), vStr(st.A["cert"]), o, save)
			case "revoke":
				if err := x.pki.revoke(x.certs[vStr(st.A["cert"])]); err != nil {
					vFail("%v", err)
				}
				x.pki.b.close()
			case "tick":
				time.VerifAdvance(2 * time.Hour)
			case "drop":
				x.sess = nil
			}
		}
	})
}

// connect makes a connection and exchanges something over it.
func (x *vAuth) connect(resume bool, tr, sni string, alpn []string, cert string, o vObj, save bool) {
	res, i := vStr(o["res"]), vInt(o["be"])-1
	mode := x.mode[i]
	if now := x.traffic(); x.seen != "" && now != x.seen {
		vFail("the backends got something after a client was refused: %s, before: %s", now, x.seen)
	}
	before := x.traffic()
	cache := &vOneSession{}
	if resume {
		cache.use = x.sess
	}
	d := vDial{addr: x.px.addr, sni: sni, alpn: alpn, cache: cache}
	if cert != "none" {
		d.cert = x.certs[cert]
		if d.cert == nil {
			vHarness("certificate %q", cert)
		}
	} else {
		d.cert = &tls.Certificate{}
	}
	var got string
	var err error
	resumed := false
	if tr == "quic" {
		got, resumed, err = x.quic(mode, d)
	} else {
		d.max, d.min = tls.VersionTLS13, tls.VersionTLS13
		if tr == "tls12" {
			d.max, d.min = tls.VersionTLS12, tls.VersionTLS12
		}
		got, resumed, err = x.tcp(mode, d)
	}
	x.r.stat(fmt.Sprintf("%s.%s.resumed=%v", tr, res, resumed))
	if vErrKind(err) == "timeout" {
		vFail("the client gets no answer: %v", err)
	}
	switch {
	case res == "refused" && err == nil:
		vFail("a client with certificate %q (session resumed: %v) is served: %q", cert, resumed, got)
	case res == "refused":
		if now := x.traffic(); now != before {
			vFail("a client with certificate %q is refused, but the backends got something: %s, before: %s", cert, now, before)
		}
	case res == "ok" && err != nil:
		vFail("a client with certificate %q is refused: %v", cert, err)
	}
	x.seen = x.traffic()
	if err == nil {
		want := ""
		if x.be[i] != nil {
			want = x.be[i].id
		}
		if got != want {
			vFail("backend %q answered, expected %q", got, want)
		}
		if !resume && save {
			x.sess = cache.got
			if x.sess == nil {
				x.r.stat("nosession")
			}
		}
	}
}

func (x *vAuth) tcp(mode string, d vDial) (string, bool, error) {
	c, err := vDialTLS(d)
	if err != nil {
		return "", false, err
	}
	defer c.Close()
	resumed := c.ConnectionState().DidResume
	switch mode {
	case "HTTP", "HTTPS", "LOCAL", "CONSOLE":
		host := d.sni
		if host == "" {
			host = x.def
		}
		req := vMust1(http.NewRequest("GET", "https://"+host+"/", nil))
		resp, _, err := vHTTPOnce(c, req)
		if err != nil {
			return "", resumed, err
		}
		if resp.StatusCode != 200 && mode[0] == 'H' {
			vFail("status %d", resp.StatusCode)
		}
		return resp.Header.Get("X-Backend"), resumed, nil
	}
	c.SetDeadline(time.Now().Add(20 * time.Second))
	fmt.Fprintf(c, "ping\n")
	got, err := vReadLine(c, 20*time.Second)
	if err != nil {
		return "", resumed, err
	}
	return strings.TrimPrefix(got, "HELLO "), resumed, nil
}

func (x *vAuth) quic(mode string, d vDial) (string, bool, error) {
	qc, done, err := vDialQUIC(d)
	if err != nil {
		return "", false, err
	}
	defer done()
	defer qc.CloseWithError(0, "")
	resumed := qc.ConnectionState().TLS.DidResume
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	switch mode {
	case "HTTP", "HTTPS", "LOCAL", "CONSOLE":
		h3 := &http3.RoundTripper{DisableCompression: true, Dial: func(context.Context, string, *tls.Config, *quic.Config) (quic.EarlyConnection, error) {
			return qc.(quic.EarlyConnection), nil
		}}
		resp, err := h3.RoundTrip(vMust1(http.NewRequestWithContext(ctx, "GET", "https://"+d.sni+"/", nil)))
		if err != nil {
			return "", resumed, err
		}
		io.Copy(io.Discard, resp.Body)
		resp.Body.Close()
		if mode[0] == 'H' && resp.StatusCode != 200 {
			vFail("status %d", resp.StatusCode)
		}
		return resp.Header.Get("X-Backend"), resumed, nil
	}
	s, err := qc.OpenStreamSync(ctx)
	if err != nil {
		return "", resumed, err
	}
	fmt.Fprintf(s, "ping\n")
	got, err := vReadLine(s, 20*time.Second)
	if err != nil {
		return "", resumed, err
	}
	return strings.TrimPrefix(got, "HELLO "), resumed, nil
}

var _ net.Conn
var _ = url.Parse
