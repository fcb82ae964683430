package PKG_test

import (
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
)

type vUpSrv struct {
	id    string
	kind  string
	pp    bool
	certs map[string]*tls.Certificate
	addr  string

	mu    sync.Mutex
	state string
	sni   string
	b     *vBackend
	old   int // what the previous incarnations got
}

func (s *vUpSrv) start() {
	opts := vBackendOpts{addr: s.addr, pp: s.pp, handler: func(w http.ResponseWriter, req *http.Request) {
		if req.Header.Get("X-Keep") == "no" && req.ProtoMajor == 1 {
			w.Header().Set("Connection", "close")
		}
		body := "HELLO " + s.id + "\n"
		w.Header().Set("Content-Length", fmt.Sprint(len(body)))
		w.Write([]byte(body))
	}}
	kind, protos := "http", []string{"http/1.1"}
	switch s.kind {
	case "TCP", "TLS":
		kind, protos = "line", []string{"verif"}
	case "HTTPS2":
		protos = []string{"h2"}
	case "HTTPS3":
		kind, protos = "quic", []string{"h3"}
	case "QUICt", "QUICq":
		kind, protos = "quic", []string{"verif"}
	}
	if s.kind != "TCP" && s.kind != "HTTP" {
		opts.tls = &tls.Config{NextProtos: protos, GetCertificate: func(h *tls.ClientHelloInfo) (*tls.Certificate, error) {
			s.mu.Lock()
			defer s.mu.Unlock()
			s.sni = h.ServerName
			c := s.certs[s.state]
			if c == nil {
				return nil, fmt.Errorf("no certificate %q", s.state)
			}
			return c, nil
		}}
	}
	b := vNewBackend(s.id, kind, opts)
	b.handler = opts.handler
	s.mu.Lock()
	s.b = b
	s.addr = b.addr
	s.mu.Unlock()
}

// got is how much came, in requests or bytes, from the clients of the proxy.
func (s *vUpSrv) got() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := s.old
	if s.b != nil {
		n += s.b.requests() + s.b.totalBytes()
	}
	return n
}

func (s *vUpSrv) set(state string, kill bool) {
	n := s.got()
	s.mu.Lock()
	was := s.state
	s.state = state
	b := s.b
	s.mu.Unlock()
	if b != nil && (kill || state == "down") {
		b.close()
		s.mu.Lock()
		s.old, s.b = n, nil
		s.mu.Unlock()
	}
	if state != "down" && (was == "down" || kill) {
		s.start()
	}
	if kill {
		time.Sleep(40 * time.Millisecond)
	}
}

type vUp struct {
	cfg  vObj
	px   *vProxy
	srv  map[int]*vUpSrv
	cl   *vClient
	idp  *vIDP
	http bool
}

var vUpCA = sync.OnceValue(func() []*vCA { return []*vCA{vNewCA("one"), vNewCA("two"), vNewCA("three")} })

func vUpSetup(cfg vObj) *vUp {
	x := &vUp{cfg: cfg, srv: map[int]*vUpSrv{}}
	k, ok := vStr(cfg["k"]), vStr(cfg["ok"])
	x.http = strings.HasPrefix(k, "HTTP")
	pp := map[string]string{"": "", "v1": "v1", "v2": "v2"}
	be := &proxy.Backend{ServerNames: []string{"a.example.com"}, ForwardTimeout: 10 * time.Second}
	if k == "HTTPS3" || strings.HasPrefix(k, "QUIC") || ok == "HTTPS3" {
		be.ForwardTimeout = 400 * time.Millisecond
	}
	add := func(id int, kind, pp string) string {
		if x.srv[id] == nil {
			x.srv[id] = &vUpSrv{id: fmt.Sprint(id), kind: kind, pp: pp != "", state: "good", addr: vFreeAddr("127.0.0.1")}
			x.srv[id].start()
		}
		return x.srv[id].addr
	}
	ca := vUpCA()
	for _, a := range vList(cfg["addrs"]) {
		be.Addresses = append(be.Addresses, add(vInt(a), k, vStr(cfg["pp"])))
	}
	be.ProxyProtocolVersion = pp[vStr(cfg["pp"])]
	be.InsecureSkipVerify = vBool(cfg["ins"])
	be.ForwardServerName, be.ForwardRootCAs = "be.test", []string{ca[0].pem, "pki"}
	proto := func(k string) *string {
		return map[string]*string{"HTTP": vPtr("http/1.1"), "HTTPS1": vPtr("http/1.1"), "HTTPS2": vPtr("h2"), "HTTPS3": vPtr("h3")}[k]
	}
	switch k {
	case "TCP", "TLS", "HTTP":
		be.Mode = k
	case "QUICt", "QUICq":
		be.Mode = "QUIC"
	default:
		be.Mode = "HTTPS"
	}
	if x.http {
		be.BackendProto = proto(k)
	} else {
		be.ALPNProtos = &[]string{"verif"}
	}
	if ok != "none" {
		po := &proxy.PathOverride{Paths: []string{"/o/"}, Mode: "HTTPS", BackendProto: proto(ok), ForwardTimeout: be.ForwardTimeout}
		if ok == "HTTP" {
			po.Mode = "HTTP"
		}
		for _, a := range vList(cfg["oaddrs"]) {
			po.Addresses = append(po.Addresses, add(vInt(a), ok, vStr(cfg["opp"])))
		}
		po.ProxyProtocolVersion = pp[vStr(cfg["opp"])]
		po.InsecureSkipVerify = vBool(cfg["oins"])
		po.ForwardServerName, po.ForwardRootCAs = "po.test", []string{ca[1].pem}
		be.PathOverrides = []*proxy.PathOverride{po}
	}
	x.idp = vNewIDP()
	pc := &proxy.Config{EnableQUIC: vPtr(be.ForwardTimeout < time.Second), Backends: []*proxy.Backend{be, {ServerNames: []string{"sso.test"}, Mode: "LOCAL", SSO: &proxy.BackendSSO{Provider: "idp"}}},
		OIDCProviders: []*proxy.ConfigOIDC{x.idp.config("idp", "https://sso.test/redirect", "")},
		PKI:           []*proxy.ConfigPKI{{Name: "pki", Endpoint: "https://sso.test/certs", Admins: []string{"bob@x.test"}}}}
	px, err := vNewProxy(pc)
	if err != nil {
		vFail("a valid configuration is rejected: %v", err)
	}
	x.px = px
	var pki *vPKIUser
	for id, s := range x.srv {
		if s.kind == "TCP" || s.kind == "HTTP" {
			continue
		}
		mine, other := []string{"be.test"}, []string{"po.test"}
		c, c2 := ca[0], ca[1]
		if id > 3 {
			mine, other, c, c2 = other, mine, c2, c
		}
		if pki == nil {
			b := vNewBrowser(px)
			b.login(x.idp, "https://sso.test/certs", "bob@x.test")
			pki = &vPKIUser{b, "https://sso.test/certs"}
		}
		leaf := func(c *vCA, l vLeaf) *tls.Certificate { v := c.leaf(l); return &v }
		now := time.Now()
		m := map[string]*tls.Certificate{
			"good":       leaf(c, vLeaf{cn: "s", dns: mine}),
			"name":       leaf(c, vLeaf{cn: mine[0], dns: []string{"x" + mine[0], "a.example.com", "test"}}),
			"ca":         leaf(ca[2], vLeaf{cn: "s", dns: mine}),
			"expired":    leaf(c, vLeaf{cn: "s", dns: mine, from: now.Add(-48 * time.Hour), to: now.Add(-time.Hour)}),
			"future":     leaf(c, vLeaf{cn: "s", dns: mine, from: now.Add(24 * time.Hour)}),
			"other":      leaf(c2, vLeaf{cn: "s", dns: other}),
			"clientonly": leaf(c, vLeaf{cn: "s", dns: mine, eku: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}),
		}
		for _, k := range []string{"pki", "revoked"} {
			c, err := pki.issue("", mine, nil)
			if err != nil {
				vFail("%v", err)
			}
			m[k] = c
		}
		if err := pki.revoke(m["revoked"]); err != nil {
			vFail("%v", err)
		}
		s.mu.Lock()
		s.certs = m
		s.mu.Unlock()
	}
	x.cl = &vClient{d: vDial{addr: px.addr, sni: "a.example.com"}, proto: "h1"}
	return x
}

func (x *vUp) stop() {
	x.cl.close()
	x.px.stop()
	for _, s := range x.srv {
		if s.b != nil {
			s.b.close()
		}
	}
	x.idp.close()
}

// conn makes one connection and returns the server that answers, or "" and why not.
func (x *vUp) conn() (string, string) {
	d := vDial{addr: x.px.addr, sni: "a.example.com", alpn: []string{"verif"}}
	var rw interface {
		Read([]byte) (int, error)
		Write([]byte) (int, error)
	}
	if vStr(x.cfg["k"]) == "QUICq" {
		qc, done, err := vDialQUIC(d)
		if err != nil {
			return "", "handshake: " + err.Error()
		}
		defer done()
		defer qc.CloseWithError(0, "")
		s, err := qc.OpenStream()
		if err != nil {
			return "", "stream: " + err.Error()
		}
		rw = s
	} else {
		c, err := vDialTLS(d)
		if err != nil {
			vFail("the proxy refuses a connection: %v", err)
		}
		defer c.Close()
		rw = c
	}
	if _, err := rw.Write([]byte("some data\n")); err != nil {
		return "", "write: " + err.Error()
	}
	l, err := vReadLine(rw, 20*time.Second)
	if err != nil {
		if strings.Contains(err.Error(), "timeout") || strings.Contains(err.Error(), "deadline") {
			vFail("a connection hangs: %v", err)
		}
		return "", "read: " + err.Error()
	}
	id, ok := strings.CutPrefix(l, "HELLO ")
	if !ok {
		vFail("got %q", l)
	}
	if l, err = vReadLine(rw, 20*time.Second); err != nil || l != "some data" {
		vFail("server %s: the echo is %q, %v", id, l, err)
	}
	return id, ""
}

func TestVerifUpstream(t *testing.T) {
	vRun(t, func(r *vRunner, w vWalk, step func(i int)) {
		x := vUpSetup(vMap(w.Init["cfg"]))
		defer x.stop()
		for i, st := range w.Steps {
			step(i)
			o := vMap(st.O)
			if st.op() == "set" {
				x.srv[vInt(st.A["s"])].set(vStr(st.A["st"]), vBool(st.A["kill"]))
				continue
			}
			before := map[int]int{}
			for id, s := range x.srv {
				before[id] = s.got()
			}
			moved := func() (l []string) {
				for id, s := range x.srv {
					if s.got() != before[id] {
						l = append(l, s.id)
					}
				}
				sort.Strings(l)
				return
			}
			if st.op() == "burst" {
				var mu sync.Mutex
				var wg sync.WaitGroup
				var got, want []string
				var fail any
				for range vInt(st.A["n"]) {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if e := recover(); e != nil {
								mu.Lock()
								fail = e
								mu.Unlock()
							}
						}()
						id, why := x.conn()
						mu.Lock()
						got = append(got, id+why)
						mu.Unlock()
					}()
				}
				wg.Wait()
				if fail != nil {
					panic(fail)
				}
				for _, v := range vList(o["to"]) {
					want = append(want, fmt.Sprint(vInt(v)))
				}
				sort.Strings(got)
				sort.Strings(want)
				if !vSame(got, want) {
					vFail("connections at the same time reached %v, must be %v", got, want)
				}
				r.stat("burst")
				continue
			}
			want := ""
			if n := vInt(o["to"]); n != 0 {
				want = fmt.Sprint(n)
			}
			var id, why string
			start := time.Now()
			if st.op() == "conn" {
				id, why = x.conn()
			} else {
				target, keep := "/", "yes"
				if vStr(st.A["g"]) == "o" {
					target = "/o/"
				}
				if !vBool(st.A["keep"]) {
					keep = "no"
				}
				ask := func() {
					// The proxy can still be busy with the end of the previous answer.
					time.Sleep(5 * time.Millisecond)
					rs := x.cl.do("GET", target, "a.example.com", "", "X-Keep", keep)
					id, why = "", ""
					if rs.code == 200 {
						if id = strings.TrimSpace(strings.TrimPrefix(rs.body, "HELLO ")); id == "" || rs.header.Get("X-Backend") != id {
							vFail("got %q %v", rs.body, rs.header)
						}
					} else if rs.code == 502 || rs.code == 503 {
						why = fmt.Sprint(rs.code)
					} else {
						vFail("%s: got %d %q", vJSON(st.A), rs.code, rs.body)
					}
				}
				ask()
				if id == "" && want != "" && vBool(o["retry"]) && len(moved()) == 0 {
					r.stat("retry")
					ask()
				}
			}
			if id != want {
				var states []string
				for id, s := range x.srv {
					states = append(states, fmt.Sprint(id, ":", s.state))
				}
				sort.Strings(states)
				vFail("%s with servers %v: must reach server %q, but reached %q %s", vJSON(st.A), states, want, id, why)
			}
			if time.Since(start) > 15*time.Second {
				vFail("%s took %s", vJSON(st.A), time.Since(start))
			}
			if m := moved(); want == "" && len(m) > 0 || want != "" && (len(m) != 1 || m[0] != want) {
				vFail("%s: must reach server %q, but data reached %v", vJSON(st.A), want, m)
			}
			if n := vInt(o["sni"]); n != 0 {
				s := x.srv[n]
				name, ins := "be.test", vBool(x.cfg["ins"])
				pp := vStr(x.cfg["pp"])
				if n > 3 {
					name, ins, pp = "po.test", vBool(x.cfg["oins"]), vStr(x.cfg["opp"])
				}
				s.mu.Lock()
				sni, b := s.sni, s.b
				s.mu.Unlock()
				if s.kind != "TCP" && s.kind != "HTTP" && sni != name {
					vFail("%s: server %d saw the server name %q, must be %q", vJSON(st.A), n, sni, name)
				}
				_ = ins
				if want != "" {
					rec := b.conn(-1)
					if st.op() == "req" {
						rec = b.lastReq().conn
					}
					if pp != "" {
						if rec.hdrErr != nil || rec.hdr == nil || fmt.Sprint("v", rec.hdr.Version) != pp {
							vFail("%s: server %d must get a PROXY header %s, got %v %v", vJSON(st.A), n, pp, rec.hdr, rec.hdrErr)
						}
					}
				}
			}
			r.stat(fmt.Sprintf("%s.%s.%v", vStr(x.cfg["k"]), st.op(), want != ""))
		}
	})
}
