package PKG_test

import (
	"fmt"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
)

var vSSOHosts = map[string]string{"a": "a.example.com", "b": "b.example.com", "c": "c.example.com", "d": "d.example.org", "e": "e.example.com"}

type vSSO struct {
	r    *vRunner
	px   *vProxy
	idp  *vIDP
	bes  map[string]*vBackend
	toks []string
	cls  map[string]*vClient
	n    int
	gone bool
}

func vSSOSetup(r *vRunner, init vObj) *vSSO {
	x := &vSSO{r: r, idp: vNewIDP(), bes: map[string]*vBackend{}, cls: map[string]*vClient{}}
	cfg := &proxy.Config{EnableQUIC: vPtr(true)}
	cfg.OIDCProviders = []*proxy.ConfigOIDC{
		x.idp.config("p1", "https://login.example.com/p1", "example.com"),
		x.idp.config("p2", "https://login.example.com/p2", "example.com"),
		x.idp.config("p3", "https://login.example.org/p3", "example.org"),
	}
	prov := map[string]string{"a": "p1", "b": "p1", "c": "p2", "d": "p3", "e": "p1"}
	root := vTempDir()
	for _, d := range []string{"secret", "public"} {
		vMust(os.MkdirAll(filepath.Join(root, d), 0o755))
		vMust(os.WriteFile(filepath.Join(root, d, "x"), []byte("file "+d), 0o644))
	}
	vMust(os.WriteFile(filepath.Join(root, "index.html"), []byte("index"), 0o644))
	for h, p := range vMap(init["pol"]) {
		pol := vMap(p)
		be := &proxy.Backend{ServerNames: []string{vSSOHosts[h]}, Mode: "HTTP"}
		sso := &proxy.BackendSSO{Provider: prov[h], Paths: vStrs(pol["paths"]), SetUserIDHeader: vBool(pol["uid"]), GenerateIDTokens: vBool(pol["gen"])}
		if acl := vStrs(pol["acl"]); len(acl) != 1 || acl[0] != "nil" {
			sso.ACL = &acl
		}
		if vBool(pol["reauth"]) {
			sso.ForceReAuth = time.Hour
		}
		be.SSO = sso
		if h == "d" || h == "e" {
			be.Mode = "LOCAL"
			be.DocumentRoot = root
		} else {
			b := vNewBackend(h, "http", vBackendOpts{})
			x.bes[h] = b
			be.Addresses = []string{b.addr}
		}
		cfg.Backends = append(cfg.Backends, be)
	}
	for _, l := range []string{"login.example.com", "login.example.org"} {
		cfg.Backends = append(cfg.Backends, &proxy.Backend{ServerNames: []string{l}, Mode: "LOCAL"})
	}
	for _, h := range []string{"a", "e"} {
		cfg.WebSockets = append(cfg.WebSockets, &proxy.WebSocketConfig{Endpoint: "https://" + vSSOHosts[h] + "/ws", Address: "127.0.0.1:1"})
	}
	px, err := vNewProxy(cfg)
	if err != nil {
		vFail("a valid configuration is rejected: %v", err)
	}
	x.px = px
	return x
}

func (x *vSSO) drop() {
	for _, c := range x.cls {
		c.close()
	}
	x.cls = map[string]*vClient{}
}

func (x *vSSO) stop() {
	x.drop()
	x.px.stop()
	for _, b := range x.bes {
		b.close()
	}
	x.idp.close()
}

func (x *vSSO) client(h, proto string) *vClient {
	k := h + proto
	if x.cls[k] == nil {
		x.cls[k] = &vClient{d: vDial{addr: x.px.addr, sni: vSSOHosts[h]}, proto: proto}
	}
	return x.cls[k]
}

func vHostPort(h string, port bool) string {
	if port {
		return vSSOHosts[h] + ":8443"
	}
	return vSSOHosts[h]
}

func TestVerifSSO(t *testing.T) {
	var x *vSSO
	var last string
	defer func() {
		if x != nil {
			x.stop()
		}
	}()
	vRun(t, func(r *vRunner, w vWalk, step func(i int)) {
		if k := vJSON(w.Init["pol"]); x == nil || x.gone || k != last {
			if x != nil {
				x.stop()
			}
			x, last = vSSOSetup(r, w.Init), k
		}
		x.r = r
		x.toks = nil
		x.gone = true
		for i, st := range w.Steps {
			step(i)
			x.n++
			switch st.op() {
			case "tick":
				x.drop()
				time.VerifAdvance(time.Duration(vInt(st.A["d"])) * time.Minute)
			case "login":
				x.login(vStr(st.A["h"]), vBool(st.A["port"]), vStr(st.A["u"]))
			case "req":
				x.request(st.A, vMap(st.O), len(vList(st.T["toks"])))
			}
		}
		x.gone = false
	})
}

func (x *vSSO) login(h string, port bool, user string) {
	b := vNewBrowser(x.px)
	defer b.close()
	u := "https://" + vHostPort(h, port) + "/secret/x"
	back := b.login(x.idp, u, user)
	if back != u {
		vFail("the login that began at %s ends at %s", u, back)
	}
	for _, c := range b.jar.Cookies(vMust1(url.Parse(u))) {
		if c.Name == "TLSPROXYAUTH" {
			x.toks = append(x.toks, c.Value)
			return
		}
	}
	vFail("no login cookie after a login on %s", u)
}

func vTamper(tok string) string {
	i := strings.LastIndex(tok, ".") + 5
	c := byte('A')
	if tok[i] == 'A' {
		c = 'B'
	}
	return tok[:i] + string(c) + tok[i+1:]
}

func (x *vSSO) request(a, o vObj, ntoks int) {
	h, host, target, meth, m := vStr(a["h"]), vHostPort(vStr(a["hh"]), vBool(a["port"])), vStr(a["t"]), vStr(a["meth"]), vStr(a["m"])
	proto := []string{"h1", "h1", "h2", "h1", "h3"}[x.n%5]
	if strings.HasPrefix(target, "//") {
		proto = "h1"
	}
	var hdr []string
	tok := func(k int) string {
		t := x.toks[k-1]
		if m == "tamper" {
			t = vTamper(t)
		}
		return t
	}
	var cookies []string
	if k := vInt(a["ck"]); k > 0 {
		cookies = append(cookies, "TLSPROXYAUTH="+tok(k))
	}
	if k := vInt(a["ik"]); k > 0 {
		cookies = append(cookies, "TLSPROXYIDTOKEN="+x.toks[k-1])
	}
	switch {
	case len(cookies) > 0 && m == "-c":
		hdr = append(hdr, "Cookie", "x=1")
		for _, c := range cookies {
			hdr = append(hdr, "Cookie", c)
		}
	case len(cookies) > 0:
		hdr = append(hdr, "Cookie", strings.Join(cookies, "; "))
	}
	if k := vInt(a["bk"]); k > 0 {
		b := "Bearer "
		if m == "-b" {
			b = "bearer "
		}
		hdr = append(hdr, "Authorization", b+tok(k))
	}
	hdr = append(hdr, "X-Tlsproxy-User-Id", "forged@example.com")
	if vBool(a["skip"]) {
		hdr = append(hdr, "X-Skip-Login-Confirmation", "1")
	}
	counts := map[string]int{}
	for n, b := range x.bes {
		counts[n] = b.requests()
	}
	r := x.client(h, proto).do(meth, target, host, "", hdr...)
	served := ""
	for n, b := range x.bes {
		switch b.requests() - counts[n] {
		case 0:
		case 1:
			served += n
		default:
			vFail("backend %s received %d requests", n, b.requests()-counts[n])
		}
	}
	want := vStr(o["k"])
	x.r.stat(proto + "." + want)
	got, user := x.classify(r, h, host, target, meth, vStr(a["tc"]), served)
	if got != want {
		vFail("%s %s %s (host %s, TLS name %s, cookie %d, bearer %d, %s): %s, must be %s: %d %v %.300q", proto, meth, target, host, vSSOHosts[h], vInt(a["ck"]), vInt(a["bk"]), m, got, want, r.code, r.header, r.body)
	}
	wu := vStr(o["u"])
	if wu == "-" {
		wu = ""
	}
	if meth != "HEAD" || want == "backend" {
		if user != wu {
			vFail("%s %s %s (host %s): user %q, must be %q", proto, meth, target, host, user, wu)
		}
	}
	var id string
	for _, c := range (&http.Response{Header: r.header}).Cookies() {
		switch {
		case c.Name == "TLSPROXYIDTOKEN":
			id = c.Value
		case c.Name == "TLSPROXYAUTH":
			vFail("%s %s sets a login cookie", meth, target)
		}
	}
	if (id != "") != (want == "idt") {
		vFail("%s %s (host %s): ID token %q, outcome %s", meth, target, host, id, want)
	}
	if id != "" && len(x.toks) < ntoks {
		x.toks = append(x.toks, id)
	}
}

// classify says what the response is.
func (x *vSSO) classify(r *vResp, h, host, target, meth, clean, served string) (string, string) {
	if served != "" {
		if served != h {
			vFail("backend %s served a request for %s", served, h)
		}
		if r.header.Get("X-Backend") != h || r.code != 200 {
			vFail("the response isn't the one of the backend: %d %v", r.code, r.header)
		}
		u := x.bes[h].lastReq().header.Values("X-Tlsproxy-User-Id")
		return "backend", strings.Join(u, ",")
	}
	if r.header.Get("X-Backend") != "" {
		vFail("a response of a backend that received no request: %v", r.header)
	}
	loc := r.header.Get("Location")
	if r.code == 302 && strings.HasPrefix(loc, "/.sso/login?redirect=") {
		return "login302", ""
	}
	if r.code == 302 {
		// To the same page.
		return "idt", ""
	}
	if r.code == 301 || r.code == 303 {
		if (r.code == 303) != (meth == "POST") {
			vFail("%s %s: redirect with status %d", meth, target, r.code)
		}
		lu := r.loc()
		if x.bes[h] == nil && clean == "/ws" && h != "a" && h != "e" || x.bes[h] == nil && clean == "/ws" && host != vSSOHosts[h] && host != vSSOHosts[h]+":8443" {
			return "site", ""
		}
		switch lu.Path {
		case clean:
			if !strings.HasPrefix(clean, "/.sso/") && clean != "/ws" || clean == "/.sso/style.css/" {
				return "site", ""
			}
			return "clean", ""
		case clean + "/":
			if clean == "/.sso" {
				return "slash", ""
			}
			return "site", ""
		}
		if x.bes[h] == nil {
			return "site", ""
		}
		return "redirect to " + loc, ""
	}
	b := strings.TrimSpace(r.body)
	switch {
	case r.code == 421:
		return "misdirected", ""
	case r.code == 403 && strings.Contains(b, "/.sso/login?redirect="):
		return "login", ""
	case r.code == 403 && strings.Contains(b, "/.sso/logout?u="):
		_, u, _ := strings.Cut(b, "<em>")
		u, _, _ = strings.Cut(u, "</em>")
		return "denied", u
	case r.code == 403 && (b == "authentication required"):
		return "need", ""
	case r.code == 403 && meth == "HEAD":
		if r.header.Get("Content-Type") == "text/plain; charset=utf-8" {
			return "need", ""
		}
		return "denied", ""
	case r.code == 400 && clean == "/ws":
		return "ws", ""
	case r.code == 200 && clean == "/.sso/":
		_, u, _ := strings.Cut(b, "<div>email</div>")
		_, u, _ = strings.Cut(u, "<div>")
		u, _, _ = strings.Cut(u, "</div>")
		return "status", u
	case r.code == 200 && clean == "/.sso/style.css":
		return "open", ""
	}
	if x.bes[h] == nil && (r.code == 200 || r.code == 404 || r.code == 405 || r.code == 403) {
		return "site", ""
	}
	return fmt.Sprintf("status %d", r.code), ""
}
