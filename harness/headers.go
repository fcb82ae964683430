package PKG_test

import (
	"crypto/sha256"
	"crypto/tls"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"net/http"
	"net/url"
	"slices"
	"strings"
	"testing"

	"github.com/c2FmZQ/tlsproxy/proxy"
)

type vHdr struct {
	r     *vRunner
	px    *vProxy
	idp   *vIDP
	b, o  *vBackend
	cert  map[string]tls.Certificate
	subj  map[string]string
	ca    *vCA
	xfcc  []string
	tok   string
	cls   map[string]*vClient
	email string
}

func vHdrSetup(r *vRunner, cfg vObj) *vHdr {
	x := &vHdr{r: r, cls: map[string]*vClient{}, cert: map[string]tls.Certificate{}, email: "alice@example.com"}
	mode := vStr(cfg["mode"])
	be := &proxy.Backend{ServerNames: []string{"a.example.com"}, Mode: mode}
	opts := vBackendOpts{}
	if mode == "HTTPS" {
		opts.tls = vBackendTLS([]string{"be.test"}, "http/1.1")
		be.ForwardServerName, be.ForwardRootCAs = "be.test", []string{vServerCA().pem}
	}
	x.b, x.o = vNewBackend("B", "http", opts), vNewBackend("O", "http", vBackendOpts{})
	be.Addresses = []string{x.b.addr}
	headers := func(v any) map[string]string {
		m := map[string]string{}
		for _, h := range vList(v) {
			m[vStr(vMap(h)["n"])] = vStr(vMap(h)["v"])
		}
		return m
	}
	be.ForwardHTTPHeaders = headers(cfg["fh"])
	po := &proxy.PathOverride{Paths: []string{"/o/"}, Mode: "HTTP", Addresses: []string{x.o.addr}}
	if l := vList(cfg["ofh"]); len(l) == 0 {
		po.ForwardHTTPHeaders = &map[string]string{}
	} else if _, ok := l[0].(string); !ok {
		po.ForwardHTTPHeaders = vPtr(headers(cfg["ofh"]))
	}
	be.PathOverrides = []*proxy.PathOverride{po}
	pc := &proxy.Config{EnableQUIC: vPtr(true), Backends: []*proxy.Backend{be}}
	sso := vMap(cfg["sso"])
	if vBool(sso["on"]) {
		x.idp = vNewIDP()
		pc.OIDCProviders = []*proxy.ConfigOIDC{x.idp.config("p1", "https://login.example.com/p1", "example.com")}
		pc.Backends = append(pc.Backends, &proxy.Backend{ServerNames: []string{"login.example.com", "x.example.com"}, Mode: "LOCAL",
			SSO: &proxy.BackendSSO{Provider: "p1"}})
		be.SSO = &proxy.BackendSSO{Provider: "p1", Paths: vStrs(sso["paths"]), SetUserIDHeader: vBool(sso["uid"])}
	}
	if ca := vMap(cfg["ca"]); vBool(ca["on"]) {
		x.ca = vNewCA("client CA")
		x.xfcc = vStrs(ca["f"])
		be.ClientAuth = &proxy.ClientAuth{RootCAs: []string{x.ca.pem}, AddClientCertHeader: x.xfcc}
		x.cert["alice"] = x.ca.leaf(vLeaf{cn: "alice", org: "Org, Inc", dns: []string{"alice.test", "second.test"}, uris: []string{"spiffe://x/alice?a=1;b=2,3"}})
		x.cert["bob"] = x.ca.leaf(vLeaf{cn: `bob";Hash=0;DNS="`, org: `a\b=c`, uris: []string{"urn:a:b", "https://u/"}})
		x.subj = map[string]string{"alice": `/CN=alice/O=Org\, Inc`, "bob": `/CN=bob\"\;Hash=0\;DNS=\"/O=a\\b=c`}
	}
	px, err := vNewProxy(pc)
	if err != nil {
		vFail("a valid configuration is rejected: %v", err)
	}
	x.px = px
	if x.idp != nil {
		// Log in at a host of the same provider.
		b := vNewBrowser(px)
		defer b.close()
		b.login(x.idp, "https://x.example.com/", x.email)
		for _, c := range b.jar.Cookies(vMust1(url.Parse("https://x.example.com/"))) {
			if c.Name == "TLSPROXYAUTH" {
				x.tok = c.Value
			}
		}
		if x.tok == "" {
			vFail("no login cookie")
		}
	}
	return x
}

func (x *vHdr) stop() {
	for _, c := range x.cls {
		c.close()
	}
	x.px.stop()
	x.b.close()
	x.o.close()
	if x.idp != nil {
		x.idp.close()
	}
}

func TestVerifHeaders(t *testing.T) {
	var x *vHdr
	var last string
	defer func() {
		if x != nil {
			x.stop()
		}
	}()
	vRun(t, func(r *vRunner, w vWalk, step func(i int)) {
		if k := vJSON(w.Init["cfg"]); x == nil || k != last {
			if x != nil {
				x.stop()
			}
			x, last = vHdrSetup(r, vMap(w.Init["cfg"])), k
		}
		x.r = r
		for i, st := range w.Steps {
			step(i)
			x.request(st.A, vMap(st.O))
		}
	})
}

func (x *vHdr) request(a, o vObj) {
	proto, cert := vStr(a["p"]), vStr(a["cert"])
	k := proto + cert
	src := "127.0.0.1"
	if x.cls[k] == nil {
		d := vDial{addr: x.px.addr, sni: "a.example.com"}
		if cert != "-" {
			c := x.cert[cert]
			d.cert = &c
		}
		if cert == "bob" {
			d.src = "127.0.0.2"
		}
		x.cls[k] = &vClient{d: d, proto: proto}
	}
	if cert == "bob" {
		src = "127.0.0.2"
	}
	var hdr []string
	for _, n := range []string{"X-Forwarded-Client-Cert", "X-Forwarded-For", "X-Tlsproxy-User-Id", "X-Who", "X-Name", "X-Static", "X-Gone", "X-Addr",
		"X-Ip", "X-Local", "X-Net", "X-Sn", "X-Over", "X-Other"} {
		if n == "X-Other" {
			hdr = append(hdr, n, "other")
			continue
		}
		if proto == "h1" && len(hdr)%4 == 0 {
			n = strings.ToLower(n)
		}
		switch vStr(a["forge"]) {
		case "one":
			hdr = append(hdr, n, "evil")
		case "dup":
			hdr = append(hdr, n, "evil", n, "evil2")
		}
	}
	names := "x-who, X-Tlsproxy-User-Id, X-Forwarded-Client-Cert, x-forwarded-for,X-Static, X-Addr"
	switch vStr(a["conn"]) {
	case "keep-alive":
		hdr = append(hdr, "Connection", "keep-alive")
	case "upgrade":
		hdr = append(hdr, "Connection", "Upgrade", "Upgrade", "foo")
	case "names":
		hdr = append(hdr, "Connection", names)
	case "upnames":
		hdr = append(hdr, "Connection", names+", upgrade", "Upgrade", "foo")
	case "other":
		hdr = append(hdr, "Connection", "X-Other")
	}
	tok := "junk"
	if vBool(a["login"]) {
		tok = x.tok
	}
	for _, line := range vList(a["jar"]) {
		var parts []string
		for _, c := range vList(line) {
			parts = append(parts, vStr(vMap(c)["n"])+"="+strings.Replace(vStr(vMap(c)["v"]), "@tok", tok, 1))
		}
		hdr = append(hdr, "Cookie", strings.Join(parts, "; "))
	}
	nb, no := x.b.requests(), x.o.requests()
	r := x.cls[k].do("GET", vStr(a["path"]), "a.example.com", "", hdr...)
	db, do := x.b.requests()-nb, x.o.requests()-no
	x.r.stat(proto + "." + vStr(o["k"]))
	if vStr(o["k"]) != "backend" {
		if db+do > 0 {
			vFail("%s: a request without a login reached the backend", vJSON(a))
		}
		return
	}
	to := x.b
	if vStr(o["to"]) == "O" {
		to = x.o
	}
	if db+do != 1 || r.header.Get("X-Backend") != vStr(o["to"]) {
		vFail("%s: %d requests at B and %d at O, must be 1 at %s: %d %v", vJSON(a), db, do, vStr(o["to"]), r.code, r.header)
	}
	q := to.lastReq()
	remote, local, network := "", "", "tcp"
	c := x.cls[k]
	switch {
	case proto == "h3":
		network = "udp"
	default:
		remote, local = c.c.LocalAddr().String(), c.c.RemoteAddr().String()
	}
	subst := func(v, got string) string {
		v = strings.ReplaceAll(v, "@clientip", src)
		v = strings.ReplaceAll(v, "@localip", "127.0.0.1")
		if proto == "h3" {
			// The port of the client isn't known here.
			local = x.px.addr
			remote = got
			if !strings.HasPrefix(got, src+":") {
				remote = src + ":?"
			}
		}
		v = strings.ReplaceAll(v, "@client", remote)
		v = strings.ReplaceAll(v, "@local", local)
		v = strings.ReplaceAll(v, "@net", network)
		v = strings.ReplaceAll(v, "@sn", "a.example.com")
		v = strings.ReplaceAll(v, "@email", x.email)
		v = strings.ReplaceAll(v, "@name", "Name "+x.email)
		return v
	}
	for n, v := range vMap(o["hdr"]) {
		want := vStrs(v)
		got := q.header.Values(n)
		if n == "Host" {
			got = []string{q.host}
			if len(q.header.Values("Host")) > 0 {
				vFail("%s: the backend sees a second host header %q", vJSON(a), q.header.Values("Host"))
			}
		}
		if n == "X-Forwarded-Client-Cert" && len(want) == 1 {
			if len(got) != 1 {
				vFail("%s: %s: %q", vJSON(a), n, got)
			}
			x.checkXFCC(cert, got[0])
			continue
		}
		for i := range want {
			g := ""
			if i < len(got) {
				g = got[i]
			}
			want[i] = subst(want[i], g)
		}
		if !slices.Equal(got, want) {
			vFail("%s: the backend sees header %s: %q, must be %q", vJSON(a), n, got, want)
		}
	}
	var want []string
	for _, c := range vList(o["cookies"]) {
		want = append(want, vStr(vMap(c)["n"])+"="+strings.Replace(vStr(vMap(c)["v"]), "@tok", tok, 1))
	}
	var got []string
	for _, c := range (&http.Request{Header: q.header}).Cookies() {
		got = append(got, c.Name+"="+c.Value)
	}
	if !slices.Equal(got, want) {
		vFail("%s: the backend sees cookies %q, must be %q", vJSON(a), got, want)
	}
	for _, v := range q.header.Values("Cookie") {
		if vBool(a["login"]) && strings.Contains(v, x.tok) {
			vFail("%s: the backend is given the login cookie: %q", vJSON(a), v)
		}
	}
}

// checkXFCC parses an X-Forwarded-Client-Cert value and compares it to what the certificate says.
func (x *vHdr) checkXFCC(who, v string) {
	type kv struct{ k, v string }
	var got []kv
	s := v
	for s != "" {
		k, rest, ok := strings.Cut(s, "=")
		if !ok {
			vFail("X-Forwarded-Client-Cert: %q", v)
		}
		var val strings.Builder
		if strings.HasPrefix(rest, `"`) {
			rest = rest[1:]
			end := false
			for i := 0; i < len(rest); i++ {
				if rest[i] == '\\' && i+1 < len(rest) {
					i++
					val.WriteByte(rest[i])
					continue
				}
				if rest[i] == '"' {
					rest, end = rest[i+1:], true
					break
				}
				val.WriteByte(rest[i])
			}
			if !end || (rest != "" && rest[0] != ';') {
				vFail("X-Forwarded-Client-Cert: %q", v)
			}
			rest = strings.TrimPrefix(rest, ";")
		} else {
			w, r, _ := strings.Cut(rest, ";")
			if strings.Contains(w, ",") {
				vFail("X-Forwarded-Client-Cert has several elements: %q", v)
			}
			val.WriteString(strings.NewReplacer(`\\`, `\`, `\"`, `"`).Replace(w))
			rest = r
		}
		got = append(got, kv{k, val.String()})
		s = rest
	}
	leaf := x.cert[who].Leaf
	pemOf := func(der ...[]byte) string {
		var b []byte
		for _, d := range der {
			b = append(b, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: d})...)
		}
		return url.QueryEscape(string(b))
	}
	var want []kv
	for _, f := range x.xfcc {
		switch strings.ToLower(f) {
		case "hash":
			h := sha256.Sum256(leaf.Raw)
			want = append(want, kv{"Hash", hex.EncodeToString(h[:])})
		case "subject":
			want = append(want, kv{"Subject", x.subj[who]})
		case "dns":
			for _, n := range leaf.DNSNames {
				want = append(want, kv{"DNS", n})
			}
		case "uri":
			for _, u := range leaf.URIs {
				want = append(want, kv{"URI", url.QueryEscape(u.String())})
			}
		case "cert":
			want = append(want, kv{"Cert", pemOf(leaf.Raw)})
		case "chain":
			want = append(want, kv{"Chain", pemOf(leaf.Raw, x.ca.cert.Raw)})
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		vFail("X-Forwarded-Client-Cert of %s: %v, must be %v (%q)", who, got, want, v)
	}
}
