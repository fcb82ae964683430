package PKG_test

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/quic-go/quic-go/http3"
)

type vDisp struct {
	r     *vRunner
	px    *vProxy
	b     map[string]*vBackend
	cls   map[string]*vClient
	me    map[string]string // how the proxy calls itself in Via headers, by protocol
	stops []func()
}

// vDispBackend is a server that speaks all versions of HTTP.
func (x *vDisp) backend(id, mode string) *vBackend {
	opts := vBackendOpts{handler: vDispAnswer, addr: vFreeAddr("127.0.0.1")}
	if mode == "HTTPS" {
		opts.tls = vBackendTLS([]string{"be.test"}, "h2", "http/1.1")
	}
	b := vNewBackend(id, "http", opts)
	x.stops = append(x.stops, b.close)
	if mode == "HTTPS" {
		pc := vMust1(net.ListenPacket("udp", b.addr))
		s := &http3.Server{TLSConfig: http3.ConfigureTLSConfig(vBackendTLS([]string{"be.test"})), Handler: http.HandlerFunc(b.serveHTTP),
			Logger: slog.New(slog.NewTextHandler(io.Discard, nil))}
		go s.Serve(pc)
		x.stops = append(x.stops, func() { s.Close(); pc.Close() })
	}
	x.b[id] = b
	return b
}

var vDispBig = strings.Repeat("0123456789abcdef", 20000)

// vDispAnswer gives the answer that is asked for.
func vDispAnswer(w http.ResponseWriter, req *http.Request) {
	h := w.Header()
	h.Set("X-A", "1")
	h.Set("Content-Type", "text/x-test")
	switch k := req.Header.Get("X-Resp"); k {
	case "204":
		h.Del("Content-Type")
		w.WriteHeader(204)
	case "304":
		h.Del("Content-Type")
		h.Set("ETag", `"e"`)
		w.WriteHeader(304)
	case "301":
		h.Set("Location", "//elsewhere.test/x/../y?z")
		w.WriteHeader(301)
	case "404", "421", "500":
		code := map[string]int{"404": 404, "421": 421, "500": 500}[k]
		w.WriteHeader(code)
		io.WriteString(w, "body "+k)
	case "hsts":
		h.Set("Strict-Transport-Security", "max-age=1")
		io.WriteString(w, "body "+k)
	case "alt":
		h.Set("Alt-Svc", "clear")
		io.WriteString(w, "body "+k)
	case "multi":
		h.Add("Set-Cookie", "a=1; Path=/")
		h.Add("Set-Cookie", "b=2")
		h["X-M"] = []string{"", "two", "three, four"}
		h.Set("Connection", "X-Hop")
		if req.ProtoMajor == 1 {
			h.Set("X-Hop", "x")
		} else {
			h.Del("Connection")
		}
		h.Set("Via", "1.1 y")
		h.Set("Server", "s")
		io.WriteString(w, "body "+k)
	case "big":
		for i := 0; i < len(vDispBig); i += 50000 {
			io.WriteString(w, vDispBig[i:min(i+50000, len(vDispBig))])
			w.(http.Flusher).Flush()
		}
	case "gzip":
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		io.WriteString(z, "body gzip")
		z.Close()
		h.Set("Content-Encoding", "gzip")
		w.Write(b.Bytes())
	case "trailer":
		h.Set("Trailer", "X-T")
		io.WriteString(w, "body "+k)
		w.(http.Flusher).Flush()
		h.Set("X-T", "end")
	case "cut":
		io.WriteString(w, vDispBig[:1000])
		w.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	case "none":
		panic(http.ErrAbortHandler)
	case "quit":
		h.Set("Trailer", "X-T")
		io.WriteString(w, "body "+k)
		w.(http.Flusher).Flush()
		time.Sleep(time.Duration(rand.Intn(3000)) * time.Microsecond)
		h.Set("X-T", "end")
	default:
		io.WriteString(w, "body "+k)
	}
}

// vDispWant returns the status code, the headers and the body of the answer of a server.
func vDispWant(k string) (int, http.Header, string) {
	code, body := 200, "body "+k
	h := http.Header{"X-A": {"1"}, "Content-Type": {"text/x-test"}}
	switch k {
	case "204", "304":
		body = ""
		h.Del("Content-Type")
		fmt.Sscan(k, &code)
		if k == "304" {
			h.Set("Etag", `"e"`)
		}
	case "301":
		body, code = "", 301
		h.Set("Location", "//elsewhere.test/x/../y?z")
	case "404", "421", "500":
		fmt.Sscan(k, &code)
	case "hsts":
		h.Set("Strict-Transport-Security", "max-age=1")
	case "alt":
		h.Set("Alt-Svc", "clear")
	case "multi":
		h["Set-Cookie"] = []string{"a=1; Path=/", "b=2"}
		h["X-M"] = []string{"", "two", "three, four"}
		h.Set("Via", "1.1 y")
		h.Set("Server", "s")
	case "big":
		body = vDispBig
	}
	return code, h, body
}

func vDispDir(id string) string {
	dir := vTempDir()
	for _, f := range []string{"x", "index.html", "api/x", "api/index.html", "sub/x/x"} {
		f = filepath.Join(dir, f)
		vMust(os.MkdirAll(filepath.Dir(f), 0o755))
		vMust(os.WriteFile(f, []byte("dir "+id+"."), 0o644))
	}
	return dir
}

func vDispSetup(r *vRunner, cfg vObj) *vDisp {
	x := &vDisp{r: r, b: map[string]*vBackend{}, cls: map[string]*vClient{}, me: map[string]string{}}
	mode := vStr(cfg["mode"])
	addr := vFreeAddr("127.0.0.1")
	be := &proxy.Backend{ServerNames: []string{"a.example.com", "a2.example.com"}, Mode: mode}
	x.backend("Z", "HTTP")
	switch base := vStr(cfg["base"]); base {
	case "B":
		be.Addresses = []string{x.backend("B", mode).addr}
	case "N":
	default:
		be.DocumentRoot = vDispDir(base)
	}
	be.ForwardServerName, be.ForwardRootCAs = "be.test", []string{vServerCA().pem}
	flag := map[string]*bool{"-": nil, "yes": vPtr(true), "no": vPtr(false)}
	proto := func(s string) *string {
		if s == "-" {
			return nil
		}
		return &s
	}
	be.SanitizePath = flag[vStr(cfg["san"])]
	be.BackendProto = proto(vStr(cfg["bp"]))
	for _, v := range vList(cfg["ov"]) {
		o := vMap(v)
		po := &proxy.PathOverride{Paths: vStrs(o["paths"]), SanitizePath: flag[vStr(o["san"])], BackendProto: proto(vStr(o["bp"]))}
		m := mode
		if s := vStr(o["mode"]); s != "-" {
			po.Mode, m = s, s
		}
		switch to := vStr(o["to"]); to {
		case "X", "Y":
			po.Addresses = []string{x.backend(to, m).addr}
			po.ForwardServerName, po.ForwardRootCAs = "be.test", []string{vServerCA().pem}
		case "D":
			po.DocumentRoot = vDispDir("D")
		case "L":
			po.Addresses = []string{addr}
			po.ForwardServerName, po.InsecureSkipVerify = "a.example.com", true
		}
		be.PathOverrides = append(be.PathOverrides, po)
	}
	pc := &proxy.Config{TLSAddr: addr, EnableQUIC: vPtr(vBool(cfg["quic"])), Backends: []*proxy.Backend{
		be,
		{ServerNames: []string{"b.example.com"}, Mode: "HTTP", Addresses: []string{x.b["Z"].addr}},
		{ServerNames: []string{"l.example.com"}, Mode: "LOCAL", DocumentRoot: vDispDir("D2"), ExportJWKS: "/jwks"},
		{ServerNames: []string{"c.example.com"}, Mode: "CONSOLE"},
	}}
	two := &proxy.ConfigPKI{Name: "two", IssuingCertificateURLs: []string{"https://l.example.com/pki/ca"}}
	one := &proxy.ConfigPKI{Name: "one"}
	for _, v := range vList(cfg["h"]) {
		h := vMap(v)
		u := "https://" + vStr(h["h"]) + ".example.com" + vStr(h["p"])
		switch vStr(h["id"]) {
		case "jwks":
			be.ExportJWKS = vStr(h["p"])
		case "ca":
			one.IssuingCertificateURLs = append(one.IssuingCertificateURLs, u)
		case "crl":
			one.CRLDistributionPoints = append(one.CRLDistributionPoints, u)
		case "ocsp":
			one.OCSPServer = append(one.OCSPServer, u)
		case "ws":
			pc.WebSockets = append(pc.WebSockets, &proxy.WebSocketConfig{Endpoint: u, Address: x.b["Z"].addr})
		}
	}
	pc.PKI = []*proxy.ConfigPKI{one, two}
	px, err := vNewProxy(pc)
	if err != nil {
		vFail("a valid configuration is rejected: %v", err)
	}
	x.px = px
	return x
}

func (x *vDisp) stop() {
	for _, c := range x.cls {
		c.close()
	}
	x.px.stop()
	for _, f := range x.stops {
		f()
	}
}

func TestVerifDispatch(t *testing.T) {
	var x *vDisp
	var last string
	defer func() {
		if x != nil {
			x.stop()
		}
	}()
	vRun(t, func(r *vRunner, w vWalk, step func(i int)) {
		if k := vJSON(w.Init["cfg"]); x == nil || k != last {
			if x != nil {
				x.stop()
			}
			x, last = vDispSetup(r, vMap(w.Init["cfg"])), k
		}
		x.r = r
		for i, st := range w.Steps {
			step(i)
			x.request(st.A, vMap(st.O))
		}
	})
}

func (x *vDisp) client(proto, sni string) *vClient {
	k := proto + sni
	if x.cls[k] == nil {
		x.cls[k] = &vClient{d: vDial{addr: x.px.addr, sni: sni + ".example.com"}, proto: proto}
	}
	x.cls[k].chunked = false
	return x.cls[k]
}

func (x *vDisp) count() map[string]int {
	m := map[string]int{}
	for k, b := range x.b {
		m[k] = b.requests()
	}
	return m
}

func vDispHost(h string) string {
	switch h {
	case "A":
		return "A.EXAMPLE.com"
	case "nope":
		return "nope.test"
	}
	n, port, ok := strings.Cut(h, ":")
	n += ".example.com"
	if ok {
		n += ":" + port
	}
	return n
}

func (x *vDisp) request(a, o vObj) {
	p := vStr(a["p"])
	if x.me[p] == "" {
		r := x.client(p, "b").do("GET", "/", "b.example.com", "")
		via := ""
		if q := x.b["Z"].lastReq(); q != nil {
			via = q.header.Get("Via")
		}
		_, me, _ := strings.Cut(via, " ")
		if r.code != 200 || me == "" {
			vFail("%s request to b: %d %q, via %q", p, r.code, r.body, via)
		}
		x.me[p] = me
	}
	if vStr(o["proto"]) == "undefined" {
		return
	}
	host := vDispHost(vStr(a["host"]))
	target, hdrHost := vStr(a["target"]), host
	if vStr(a["form"]) == "abs" {
		target, hdrHost = "https://"+host+target, "other.test"
	}
	hdr := []string{"X-Resp", vStr(a["resp"]), "X-B", "b1", "X-B", "b2"}
	via := ""
	switch vStr(a["via"]) {
	case "other":
		via = "1.1 other"
	case "me":
		via = "1.1 " + x.me[p]
	case "mid":
		via = "1.0 a, HTTP/2.0 " + x.me[p] + ",1.1 b"
	case "last":
		via = "HTTP/2.0 a:443 , 1.1 b,HTTP/1.1 " + x.me[p]
	case "near":
		via = "1.1 " + x.me[p] + "0, 1.1 x" + x.me[p]
	case "line2":
		hdr = append(hdr, "Via", "1.1 a")
		via = "1.1 " + x.me[p]
	}
	if via != "" {
		hdr = append(hdr, "Via", via)
	}
	if vBool(a["upg"]) {
		hdr = append(hdr, "Connection", "Upgrade", "Upgrade", "foo")
	}
	c := x.client(p, vStr(a["sni"]))
	body, sent := "", ""
	switch vStr(a["bd"]) {
	case "len":
		body = "body"
	case "chunked":
		body, c.chunked = "body", true
	case "empty":
		hdr = append(hdr, "Content-Length", "0")
	}
	sent = body
	method := vStr(a["m"])
	n := x.count()
	var r *vResp
	if k := vStr(a["resp"]); k == "quit" {
		c = &vClient{d: c.d, proto: c.proto, chunked: c.chunked, quit: time.Duration(1+rand.Intn(3000)) * time.Microsecond}
		r, _ = c.try(method, target, hdrHost, body, hdr...)
		c.close()
		x.r.stat(p + ".quit")
		return
	}
	ask := func() *vResp {
		if k := vStr(a["resp"]); k != "cut" && k != "none" {
			return c.do(method, target, hdrHost, body, hdr...)
		}
		r, err := c.try(method, target, hdrHost, body, hdr...)
		if err != nil {
			return &vResp{code: -1, body: err.Error()}
		}
		return r
	}
	r = ask()
	if r.code == 502 && vStr(a["resp"]) != "none" && vJSON(n) == vJSON(x.count()) {
		// The server closed a connection while it was being reused: not every request can be sent again by the proxy.
		x.r.stat("repeated")
		r = ask()
	}
	got := ""
	for k, m := range x.count() {
		// A request without an answer can be tried again.
		if m > n[k]+1 && (vStr(a["resp"]) != "none" || method == "POST" || method == "PATCH") {
			vFail("%s: server %s got %d requests for one", vJSON(a), k, m-n[k])
		}
		if m > n[k] {
			if got != "" {
				vFail("%s: servers %s and %s got the request", vJSON(a), got, k)
			}
			got = k
		}
	}
	var errs []string
	for _, v := range vList(o["any"]) {
		w := vMap(v)
		e := x.check(a, o, w, r, got, host, sent, via)
		if e == "" {
			x.r.stat(p + "." + vStr(w["k"]))
			return
		}
		errs = append(errs, e)
	}
	vFail("%s: %s", vJSON(a), strings.Join(errs, "; or "))
}

func (x *vDisp) check(a, o, w vObj, r *vResp, got, host, sent, via string) string {
	k, method := vStr(w["k"]), vStr(a["m"])
	if k != "backend" && got != "" {
		return fmt.Sprintf("must be %s, but reached server %s", vJSON(w), got)
	}
	bad := func() string {
		return fmt.Sprintf("must be %s, but is %d %q %v %.200q", vJSON(w), r.code, r.header.Get("Location"), r.header, r.body)
	}
	get := method == "GET" || method == "HEAD"
	switch k {
	case "421", "508":
		if fmt.Sprint(r.code) != k {
			return bad()
		}
	case "notfound":
		if r.code != 404 {
			return bad()
		}
	case "redirect":
		want := 301
		if !get {
			want = 303
		}
		u, err := url.Parse(r.header.Get("Location"))
		if r.code != want || err != nil || u.Host != "" || u.Scheme != "" || vDispNorm(u.Path) != vStr(w["path"]) {
			return bad()
		}
		if q := strings.TrimPrefix(vStr(a["q"]), "?"); u.RawQuery != q {
			return bad()
		}
	case "static":
		switch r.code {
		case 404, 301, 403:
			if !get {
				return bad()
			}
		case 405:
			if get {
				return bad()
			}
		case 200:
			if !get || method == "GET" && r.body != "dir "+vStr(w["d"])+"." {
				return bad()
			}
		default:
			return bad()
		}
	case "local":
		ct := r.header.Get("Content-Type")
		ok := false
		switch vStr(w["id"]) {
		case "jwks":
			ok = r.code == 200 && (method == "HEAD" || strings.Contains(r.body, `"keys": [`))
		case "ca":
			ok = r.code == 200 && ct == "application/x-x509-ca-cert"
		case "crl":
			ok = r.code == 200 && ct == "application/x-pkcs7-crl"
		case "ocsp":
			// Well-formed or not, it is an answer of the OCSP responder.
			ok = r.code == 200 && ct == "application/ocsp-response" || r.code == 400 || r.code == 405
		case "ws":
			ok = r.code == 400 || r.code == 405
		case "metrics":
			ok = r.code == 200 && (method == "HEAD" || strings.Contains(r.body, "Backends"))
		case "icon":
			ok = r.code == 200
		}
		if !ok || r.header.Get("X-Backend") != "" {
			return bad()
		}
	case "backend":
		if got != vStr(w["to"]) {
			return fmt.Sprintf("must be %s, but reached server %q: %d %.200q %v", vJSON(w), got, r.code, r.body, r.header)
		}
		if e := x.seen(a, o, w, x.b[got].lastReq(), host, sent, via); e != "" {
			return e
		}
		return x.answer(a, o, r, got)
	default:
		vHarness("unexpected outcome %s", k)
	}
	return ""
}

// vDispNorm: characters that the specification writes in another way.
func vDispNorm(p string) string {
	return strings.ReplaceAll(strings.ReplaceAll(p, "\x00", "?"), "\u00e9", "e")
}

// seen compares what the server saw with what the client sent.
func (x *vDisp) seen(a, o, w vObj, q *vReqRec, host, sent, via string) string {
	if q.method != vStr(a["m"]) {
		return "the method became " + q.method
	}
	if q.host != host {
		return fmt.Sprintf("the host %q became %q", host, q.host)
	}
	path, query, hasQ := strings.Cut(q.uri, "?")
	if hasQ {
		query = "?" + query
	}
	if query != vStr(a["q"]) {
		return fmt.Sprintf("the query %q became %q", vStr(a["q"]), query)
	}
	if vBool(w["exact"]) {
		if path != vStr(w["path"]) {
			return fmt.Sprintf("the path %q became %q", vStr(w["path"]), path)
		}
	} else if d, err := url.PathUnescape(path); err != nil || vDispNorm(d) != vStr(w["path"]) {
		return fmt.Sprintf("the path is %q, must be %q", path, vStr(w["path"]))
	}
	if b := vStr(o["body"]); b == "any" {
		if len(q.body) != 0 && string(q.body) != sent {
			return fmt.Sprintf("the body became %q", q.body)
		}
	} else if string(q.body) != b {
		return fmt.Sprintf("the body %q became %q", b, q.body)
	}
	proto := map[string]string{"http/1.1": "HTTP/1.1", "h2": "HTTP/2.0", "h3": "HTTP/3.0"}[vStr(o["proto"])]
	if q.proto != proto {
		return fmt.Sprintf("the server got a request in %s, must be %s", q.proto, proto)
	}
	if v := q.header.Values("X-B"); !slices.Equal(v, []string{"b1", "b2"}) {
		return fmt.Sprintf("the headers X-B became %q", v)
	}
	vias := strings.Join(q.header.Values("Via"), ", ")
	if !strings.HasSuffix(vias, " "+x.me[vStr(a["p"])]) {
		return fmt.Sprintf("the via header is %q", vias)
	}
	for _, h := range strings.Split(via, ",") {
		if !strings.Contains(vias, strings.TrimSpace(h)) {
			return fmt.Sprintf("%q is missing from the via header %q", h, vias)
		}
	}
	return ""
}

// answer compares what the client got with what the server sent.
func (x *vDisp) answer(a, o vObj, r *vResp, got string) string {
	resp, method := vStr(a["resp"]), vStr(a["m"])
	switch {
	case resp == "cut" && method != "HEAD":
		if r.code != -1 && r.code != 502 {
			return fmt.Sprintf("an answer that was cut looks complete to the client: %d, %d bytes", r.code, len(r.body))
		}
		return ""
	case resp == "cut":
		return ""
	case resp == "none":
		if r.code != 502 {
			return fmt.Sprintf("there is no answer, but the client gets %d %.200q", r.code, r.body)
		}
		return ""
	}
	code, h, body := vDispWant(resp)
	if method == "HEAD" {
		body = ""
	}
	if r.code != code {
		return fmt.Sprintf("the client gets %d instead of %d (%.200q)", r.code, code, r.body)
	}
	h.Set("X-Backend", got)
	switch vStr(o["hsts"]) {
	case "set":
		h.Set("Strict-Transport-Security", "max-age=2592000")
	}
	if vStr(o["alt"]) == "set" {
		port := "443"
		if i := strings.Index(vStr(a["host"]), ":"); i >= 0 {
			port = vStr(a["host"])[i+1:]
		}
		h.Set("Alt-Svc", `h3=":`+port+`"; ma=2592000;`)
	}
	b := r.body
	if r.header.Get("Content-Encoding") == "gzip" && b != "" {
		z, err := gzip.NewReader(strings.NewReader(b))
		if err != nil {
			return fmt.Sprintf("the body isn't compressed: %v", err)
		}
		d, err := io.ReadAll(z)
		if err != nil {
			return fmt.Sprintf("the body isn't compressed: %v", err)
		}
		b = string(d)
	}
	if b != body {
		return fmt.Sprintf("the client gets the body %.100q of %d bytes, must be %.100q of %d bytes", b, len(b), body, len(body))
	}
	for k, v := range h {
		if !slices.Equal(r.header[k], v) {
			return fmt.Sprintf("the client gets the header %s: %q, must be %q", k, r.header[k], v)
		}
	}
	for k := range r.header {
		switch k {
		case "Date", "Content-Length", "Content-Encoding", "Transfer-Encoding", "Connection", "Trailer":
			continue
		}
		if h[k] == nil {
			return fmt.Sprintf("the client gets the header %s: %q that the server didn't send", k, r.header[k])
		}
	}
	// HTTP/3 here has no trailers.
	if resp == "trailer" && method != "HEAD" && vStr(a["p"]) != "h3" && vStr(o["proto"]) != "h3" {
		if r.trailer.Get("X-T") != "end" {
			return fmt.Sprintf("the trailer became %v", r.trailer)
		}
	}
	return ""
}
