package proxy_test

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"

	"github.com/c2FmZQ/tlsproxy/proxy"
)

type vRcShared struct {
	ca    *vCA
	certs map[string]*tls.Certificate
	up    map[string]*vBackend
	mu    sync.Mutex
	hold  map[string]*vHold
}

type vHold struct {
	got, release chan struct{}
}

var vRcSetup = sync.OnceValue(func() *vRcShared {
	s := &vRcShared{ca: vNewCA("clients"), certs: map[string]*tls.Certificate{}, up: map[string]*vBackend{}, hold: map[string]*vHold{}}
	for _, n := range []string{"alice", "bob"} {
		c := s.ca.leaf(vLeaf{cn: n})
		s.certs[n] = &c
	}
	s.certs["none"] = &tls.Certificate{}
	all := []string{"x", "y", "z", "h2", "http/1.1", "h3"}
	for _, n := range []string{"S1", "S2"} {
		s.up[n] = vNewBackend(n, "line", vBackendOpts{tls: vBackendTLS([]string{"be.test"}, all...)})
	}
	for _, n := range []string{"T1", "T2"} {
		s.up[n] = vNewBackend(n, "line", vBackendOpts{})
	}
	for _, n := range []string{"H1", "H2"} {
		s.up[n] = vNewBackend(n, "http", vBackendOpts{handler: func(w http.ResponseWriter, req *http.Request) {
			if id, ok := strings.CutPrefix(req.URL.Path, "/hold/"); ok {
				s.mu.Lock()
				h := s.hold[id]
				s.mu.Unlock()
				if h != nil {
					close(h.got)
					select {
					case <-h.release:
					case <-req.Context().Done():
						return
					}
				}
			}
			fmt.Fprintf(w, "HELLO %s\n", n)
		}})
	}
	s.up["Q1"] = vNewBackend("Q1", "quic", vBackendOpts{tls: vBackendTLS([]string{"be.test"}, all...)})
	return s
})

// config makes the configuration of a variant.
func (s *vRcShared) config(bs []any) *proxy.Config {
	cfg := &proxy.Config{
		EnableQUIC:        vPtr(true),
		DefaultServerName: "keep.test",
		BWLimits:          []*proxy.BWLimit{{Name: "lim", Ingress: 1e9, Egress: 1e9}},
	}
	for _, x := range bs {
		m := vMap(x)
		be := &proxy.Backend{ServerNames: vStrs(m["names"]), Mode: vStr(m["mode"]), BWLimit: "lim"}
		a := vStrs(m["alpn"])
		be.ALPNProtos = &a
		if up := vStr(m["up"]); up != "-" {
			be.Addresses = []string{s.up[up].addr}
		}
		switch be.Mode {
		case "TLS", "HTTPS", "QUIC":
			be.ForwardServerName = "be.test"
			be.ForwardRootCAs = []string{vServerCA().pem}
		}
		if d := vInt(m["deny"]); d != 0 {
			be.DenyIPs = &[]string{fmt.Sprintf("127.0.0.%d/32", d)}
		}
		if d := vInt(m["only"]); d != 0 {
			be.AllowIPs = &[]string{fmt.Sprintf("127.0.0.%d/32", d)}
		}
		switch pol := vStr(m["pol"]); pol {
		case "-":
		case "any":
			be.ClientAuth = &proxy.ClientAuth{RootCAs: []string{s.ca.pem}}
		case "nobody":
			be.ClientAuth = &proxy.ClientAuth{RootCAs: []string{s.ca.pem}, ACL: &[]string{}}
		default:
			be.ClientAuth = &proxy.ClientAuth{RootCAs: []string{s.ca.pem}, ACL: &[]string{"CN=" + pol}}
		}
		cfg.Backends = append(cfg.Backends, be)
	}
	cfg.Backends = append(cfg.Backends, &proxy.Backend{ServerNames: []string{"keep.test"}, Mode: "LOCAL"})
	return cfg
}

type vRcConn struct {
	k     vObj
	mode  string
	raw   net.Conn
	tls   *tls.Conn
	at    chan struct{} // closed when the handshake waits for the client
	goOn  chan struct{}
	hs    chan error
	q     quic.Connection
	qdone func()
	qs    quic.Stream
	h3    *http3.RoundTripper
	hold  *vHold
	resp  chan error
	seq   int
}

type vRc struct {
	r     *vRunner
	s     *vRcShared
	px    *vProxy
	conns map[int]*vRcConn
	n     int
	rng   *rand.Rand
}

const vRcWait = 15 * time.Second

func (x *vRc) dial(k vObj) vDial {
	return vDial{addr: x.px.addr, src: fmt.Sprintf("127.0.0.%d", vInt(k["addr"])), sni: "a.test", alpn: vStrs(k["alpn"]), cert: x.s.certs[vStr(k["cert"])]}
}

func (x *vRc) connect(k vObj) *vRcConn {
	c := &vRcConn{k: k}
	c.raw = vMust1(vDialTCP(x.dial(k)))
	return c
}

// hello starts the handshake, which then waits when the client has heard from the proxy.
func (x *vRc) hello(c *vRcConn) {
	d := x.dial(c.k)
	x.n++
	if x.n%2 == 0 {
		d.max = tls.VersionTLS12
	}
	tc := d.tlsConfig()
	c.at, c.goOn, c.hs = make(chan struct{}), make(chan struct{}), make(chan error, 1)
	tc.VerifyConnection = func(tls.ConnectionState) error {
		close(c.at)
		<-c.goOn
		return nil
	}
	c.tls = tls.Client(c.raw, tc)
	c.raw.SetDeadline(time.Now().Add(60 * time.Second))
	go func() {
		err := c.tls.Handshake()
		c.hs <- err
	}()
}

// reached waits until the handshake stops in the middle, or fails.
func (c *vRcConn) reached() error {
	select {
	case <-c.at:
		return nil
	case err := <-c.hs:
		if err == nil {
			vHarness("no VerifyConnection")
		}
		return err
	case <-time.After(vRcWait):
		return errors.New("timeout")
	}
}

func (c *vRcConn) quicOpen(x *vRc) error {
	d := x.dial(c.k)
	var err error
	c.q, c.qdone, err = vDialQUIC(d)
	return err
}

// greet gets the first answer over a connection that was just established.
func (c *vRcConn) greet() (string, error) {
	if c.goOn != nil {
		select {
		case <-c.goOn:
		default:
			close(c.goOn)
		}
		select {
		case err := <-c.hs:
			if err != nil {
				return "", err
			}
		case <-time.After(vRcWait):
			return "", errors.New("timeout")
		}
	}
	switch {
	case strings.HasPrefix(c.mode, "HTTP") || c.mode == "LOCAL":
		return c.get("/")
	case c.q != nil:
		ctx, cancel := context.WithTimeout(context.Background(), vRcWait)
		defer cancel()
		var err error
		c.qs, err = c.q.OpenStreamSync(ctx)
		if err != nil {
			return "", err
		}
		if _, err := fmt.Fprintf(c.qs, "hi\n"); err != nil {
			return "", err
		}
		s, err := vReadLine(c.qs, vRcWait)
		if err != nil {
			return "", err
		}
		_, err = vReadLine(c.qs, vRcWait)
		return strings.TrimPrefix(s, "HELLO "), err
	case c.mode == "QUIC":
		fmt.Fprintf(c.tls, "hi\n")
		s, err := vReadLine(c.tls, vRcWait)
		if err == nil {
			_, err = vReadLine(c.tls, vRcWait)
		}
		return strings.TrimPrefix(s, "HELLO "), err
	default:
		s, err := vReadLine(c.tls, vRcWait)
		return strings.TrimPrefix(s, "HELLO "), err
	}
}

// get makes an HTTP request and returns which backend answered.
func (c *vRcConn) get(path string) (string, error) {
	req := vMust1(http.NewRequest("GET", "https://a.test"+path, nil))
	var resp *http.Response
	var err error
	if c.q != nil {
		if c.h3 == nil {
			c.h3 = &http3.RoundTripper{DisableCompression: true, Dial: func(context.Context, string, *tls.Config, *quic.Config) (quic.EarlyConnection, error) {
				return c.q.(quic.EarlyConnection), nil
			}}
		}
		ctx, cancel := context.WithTimeout(context.Background(), vRcWait)
		defer cancel()
		resp, err = c.h3.RoundTrip(req.WithContext(ctx))
		if err == nil {
			_, err = io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
	} else {
		resp, _, err = vHTTPOnce(c.tls, req)
	}
	if err != nil {
		return "", err
	}
	if b := resp.Header.Get("X-Backend"); b != "" {
		if resp.StatusCode != 200 {
			return "", fmt.Errorf("status %d", resp.StatusCode)
		}
		return b, nil
	}
	if resp.StatusCode >= 500 {
		return "", fmt.Errorf("status %d", resp.StatusCode)
	}
	return "-", nil
}

// use sends something over the connection and expects it back.
func (c *vRcConn) use(size int) (string, error) {
	c.seq++
	switch {
	case strings.HasPrefix(c.mode, "HTTP") || c.mode == "LOCAL":
		return c.get(fmt.Sprintf("/%d", c.seq))
	case c.q != nil:
		if err := vEcho(c.qs, c.seq, size); err != nil {
			return "", err
		}
		old := c.qs
		up, err := c.greet()
		old.Close()
		return up, err
	default:
		return "", vEcho(c.tls, c.seq, size)
	}
}

func vEcho(s interface {
	io.ReadWriter
	SetDeadline(time.Time) error
}, n, size int) error {
	s.SetDeadline(time.Now().Add(vRcWait))
	defer s.SetDeadline(time.Time{})
	msg := fmt.Sprintf("echo %d %s", n, strings.Repeat("z", size))
	werr := make(chan error, 1)
	go func() {
		_, err := fmt.Fprintf(s, "%s\n", msg)
		werr <- err
	}()
	buf := make([]byte, len(msg)+1)
	if _, err := io.ReadFull(s, buf); err != nil {
		return err
	}
	if string(buf) != msg+"\n" {
		return fmt.Errorf("got %.60q instead of %.60q", buf, msg)
	}
	return <-werr
}

// closed waits until the proxy closes the connection.
func (c *vRcConn) closed() error {
	if c.q != nil {
		select {
		case <-c.q.Context().Done():
			return nil
		case <-time.After(vRcWait):
			return errors.New("the connection remains open")
		}
	}
	c.raw.SetReadDeadline(time.Now().Add(vRcWait))
	_, err := c.tls.Read(make([]byte, 1))
	if vErrKind(err) == "timeout" || err == nil {
		return errors.New("the connection remains open")
	}
	return nil
}

func (c *vRcConn) close() {
	if c.goOn != nil {
		select {
		case <-c.goOn:
		default:
			close(c.goOn)
		}
	}
	if c.hold != nil {
		close(c.hold.release)
		c.hold = nil
	}
	if c.raw != nil {
		c.raw.Close()
	}
	if c.qdone != nil {
		c.q.CloseWithError(0, "")
		c.qdone()
	}
}

func (x *vRc) reject(how string) {
	cfg := x.s.config(nil)
	cfg.BWLimits = []*proxy.BWLimit{{Name: "lim", Ingress: 1000, Egress: 1000}}
	be := &proxy.Backend{ServerNames: []string{"a.test"}, Mode: "TCP", Addresses: []string{x.s.up["T2"].addr}, BWLimit: "lim"}
	cfg.Backends = append(cfg.Backends, be)
	switch how {
	case "twobackends":
		b2 := *be
		cfg.Backends = append(cfg.Backends, &b2)
	case "idp":
		be.Mode = "LOCAL"
		be.Addresses = nil
		be.SSO = &proxy.BackendSSO{Provider: "nosuch"}
	case "cidr":
		be.DenyIPs = &[]string{"127.0.0.1/99"}
	case "ca":
		be.ClientAuth = &proxy.ClientAuth{RootCAs: []string{"/nonexistent/ca.pem"}}
	case "backendca":
		be.Mode = "TLS"
		be.ForwardServerName = "be.test"
		be.ForwardRootCAs = []string{"/nonexistent/ca.pem"}
	case "oidc":
		cfg.OIDCProviders = []*proxy.ConfigOIDC{{Name: "bad", DiscoveryURL: "https://127.0.0.1:1/", RedirectURL: "https://keep.test/redirect", ClientID: "id", ClientSecret: "secret"}}
	case "pki":
		cfg.PKI = []*proxy.ConfigPKI{{Name: "bad", KeyType: "nosuch", Endpoint: "https://keep.test/pki"}}
	case "mode":
		be.Mode = "NOSUCH"
	case "nobackend":
		be.Addresses = nil
	default:
		vHarness("reject %q", how)
	}
	vFillConfig(cfg)
	cfg.TLSAddr, cfg.CacheDir = x.px.addr, x.px.dir
	if err := x.px.p.Reconfigure(cfg); err == nil {
		vHarness("configuration %q is accepted", how)
	}
}

func vIn(s string, l []string) bool {
	for _, v := range l {
		if s == v {
			return true
		}
	}
	return false
}

func TestVerifReconf(t *testing.T) {
	s := vRcSetup()
	vRun(t, func(r *vRunner, w vWalk, step func(i int)) {
		px, err := vNewProxy(s.config(vList(w.Init["bs"])))
		if err != nil {
			vFail("a valid configuration is rejected: %v", err)
		}
		x := &vRc{r: r, s: s, px: px, conns: map[int]*vRcConn{}, rng: rand.New(rand.NewSource(int64(len(w.Steps))))}
		defer func() {
			for _, c := range x.conns {
				c.close()
			}
			px.stop()
		}()
		for i, st := range w.Steps {
			step(i)
			x.step(st)
		}
	})
}

func (x *vRc) step(st vStep) {
	o := vMap(st.O)
	res := vStr(o["res"])
	id := 0
	if v, ok := st.A["s"]; ok {
		id = vInt(v)
	}
	c := x.conns[id]
	if m, ok := o["mode"]; ok && c != nil {
		c.mode = vStr(m)
	}
	served := func(up string, err error) {
		if err != nil {
			vFail("a connection that is permitted doesn't work: %v (%s)", err, c.mode)
		}
		if ups := vStrs(o["ups"]); up != "" && !vIn(up, ups) {
			vFail("%s answered, expected %v", up, ups)
		}
	}
	refused := func(up string, err error) {
		if err == nil {
			vFail("a connection that is not permitted is served by %s", up)
		}
		if vErrKind(err) == "timeout" || err.Error() == "timeout" {
			vFail("a connection that is not permitted is left hanging")
		}
	}
	drop := func() {
		c.close()
		delete(x.conns, id)
	}
	x.r.stat(st.op() + "." + res)
	switch st.op() {
	case "connect":
		x.conns[id] = x.connect(vMap(st.A["k"]))
	case "hello":
		x.hello(c)
		switch res {
		case "refused":
			refused("the proxy", c.reached())
			drop()
		case "hs":
			if err := c.reached(); err != nil {
				vFail("a connection that is permitted is refused: %v", err)
			}
		case "up":
			if err := c.reached(); err != nil {
				vFail("a connection that is permitted is refused: %v", err)
			}
			served(c.greet())
		}
	case "finish":
		up, err := c.greet()
		switch res {
		case "refused":
			refused(up, err)
			drop()
		case "any":
			if err == nil {
				served(up, err)
			} else if vErrKind(err) == "timeout" || err.Error() == "timeout" {
				vFail("a connection that is permitted is left hanging: %v", err)
			}
			drop()
		case "up":
			served(up, err)
		}
	case "quic":
		c = &vRcConn{k: vMap(st.A["k"])}
		if m, ok := o["mode"]; ok {
			c.mode = vStr(m)
		}
		x.conns[id] = c
		err := c.quicOpen(x)
		var up string
		if err == nil {
			up, err = c.greet()
		}
		if res == "refused" {
			refused(up, err)
			drop()
		} else {
			served(up, err)
		}
	case "use":
		size := 10
		if vBool(st.A["afterReject"]) {
			size = 300000
		}
		served(c.use(size))
	case "request":
		c.hold = &vHold{make(chan struct{}), make(chan struct{})}
		x.n++
		hid := fmt.Sprint(x.n)
		x.s.mu.Lock()
		x.s.hold[hid] = c.hold
		x.s.mu.Unlock()
		c.resp = make(chan error, 1)
		go func(c *vRcConn) {
			_, err := c.get("/hold/" + hid)
			c.resp <- err
		}(c)
		select {
		case <-c.hold.got:
		case err := <-c.resp:
			vFail("a request over a connection that is permitted fails: %v", err)
		case <-time.After(vRcWait):
			vFail("a request over a connection that is permitted is not forwarded")
		}
	case "respond":
		close(c.hold.release)
		c.hold = nil
		select {
		case err := <-c.resp:
			if err != nil {
				vFail("a request that was in flight fails: %v", err)
			}
		case <-time.After(2 * vRcWait):
			vFail("a request that was in flight gets no response")
		}
		if _, ok := vMap(vList(st.T["slots"])[id-1])["k"]; !ok {
			drop()
		}
	case "close":
		drop()
	case "reject":
		x.reject(vStr(st.A["how"]))
	case "reconf":
		x.reconf(st, o)
	}
}

func (x *vRc) reconf(st vStep, o vObj) {
	cfg := x.s.config(vList(st.A["bs"]))
	vFillConfig(cfg)
	cfg.TLSAddr, cfg.CacheDir = x.px.addr, x.px.dir
	var race *vRace
	if vBool(st.A["race"]) {
		race = x.race(vList(o["racers"]))
	}
	if err := x.px.p.Reconfigure(cfg); err != nil {
		vFail("a valid configuration is rejected: %v", err)
	}
	fates := vStrs(o["fates"])
	alive := race != nil
	for _, f := range fates {
		alive = alive || f == "alive"
	}
	if alive {
		time.Sleep(20 * time.Millisecond)
	}
	for i, f := range fates {
		id := i + 1
		c := x.conns[id]
		var stage string
		switch {
		case c == nil:
			continue
		case c.hold != nil:
			stage = "req"
		case c.goOn == nil && c.q == nil:
			continue
		default:
			stage = "up"
			if c.q == nil {
				select {
				case <-c.goOn:
				default:
					stage = "hs"
				}
			}
		}
		x.r.stat("fate." + stage + "." + f)
		switch f + "." + stage {
		case "closed.hs":
			up, err := c.greet()
			if err == nil {
				vFail("a connection in the middle of the handshake, which is not permitted any more, is served by %q", up)
			}
			if vErrKind(err) == "timeout" || err.Error() == "timeout" {
				vFail("a connection in the middle of the handshake, which is not permitted any more, is left hanging")
			}
		case "closed.up":
			if err := c.closed(); err != nil {
				vFail("a connection that is not permitted any more: %v", err)
			}
		case "closed.req":
			select {
			case err := <-c.resp:
				if err == nil {
					vFail("a request over a connection that is not permitted any more is answered")
				}
			case <-time.After(vRcWait):
				vFail("a connection that is not permitted any more, with a request in flight, remains open")
			}
		case "alive.hs":
			select {
			case err := <-c.hs:
				vFail("a connection in the middle of the handshake, which is permitted, fails: %v", err)
			default:
			}
		case "alive.up":
			if _, err := c.use(10); err != nil {
				vFail("a connection that is still permitted doesn't work any more: %v", err)
			}
		case "alive.req":
			select {
			case err := <-c.resp:
				vFail("a request that was in flight fails: %v", err)
			default:
			}
		case "any.hs":
			if _, err := c.greet(); err != nil && (vErrKind(err) == "timeout" || err.Error() == "timeout") {
				vFail("a connection in the middle of the handshake is left hanging")
			}
		case "any.up":
			if _, err := c.use(10); vErrKind(err) == "timeout" {
				vFail("an open connection is left hanging")
			}
		case "any.req":
			close(c.hold.release)
			c.hold = nil
			select {
			case <-c.resp:
			case <-time.After(2 * vRcWait):
				vFail("a request that was in flight gets no response")
			}
		default:
			vHarness("fate %q of a connection at %q", f, stage)
		}
		if f != "alive" {
			c.close()
			delete(x.conns, id)
		}
	}
	if race != nil {
		race.end()
	}
}

// vRace are connections that are made while the configuration changes.
type vRace struct {
	x  *vRc
	wg sync.WaitGroup
	rs []*vRacer
}

type vRacer struct {
	c    *vRcConn
	fate string
	err  error
}

func (x *vRc) race(racers []any) *vRace {
	ra := &vRace{x: x}
	if len(racers) == 0 {
		return ra
	}
	for range 12 {
		m := vMap(racers[x.rng.Intn(len(racers))])
		q := &vRacer{c: &vRcConn{k: vMap(m["k"])}, fate: vStr(m["fate"])}
		wait := []time.Duration{time.Duration(x.rng.Intn(3000)) * time.Microsecond, time.Duration(x.rng.Intn(3000)) * time.Microsecond}
		ra.rs = append(ra.rs, q)
		ra.wg.Add(1)
		go func() {
			defer ra.wg.Done()
			q.err = q.run(x, wait)
		}()
	}
	time.Sleep(time.Duration(x.rng.Intn(3000)) * time.Microsecond)
	return ra
}

// run makes a connection and uses it, whatever serves it.
func (q *vRacer) run(x *vRc, wait []time.Duration) error {
	c, d := q.c, x.dial(q.c.k)
	const req = "GET / HTTP/1.1\r\nHost: a.test\r\n\r\n"
	time.Sleep(wait[0])
	if vStr(c.k["t"]) == "quic" {
		if err := c.quicOpen(x); err != nil {
			return err
		}
		if d.alpn[0] == "h3" {
			_, err := c.get("/")
			return err
		}
		ctx, cancel := context.WithTimeout(context.Background(), vRcWait)
		defer cancel()
		var err error
		if c.qs, err = c.q.OpenStreamSync(ctx); err != nil {
			return err
		}
		fmt.Fprintf(c.qs, "hi\n")
		_, err = vReadLine(c.qs, vRcWait)
		if err == nil {
			_, err = vReadLine(c.qs, vRcWait)
		}
		return err
	}
	c.raw = vMust1(vDialTCP(d))
	time.Sleep(wait[1])
	c.raw.SetDeadline(time.Now().Add(60 * time.Second))
	c.tls = tls.Client(c.raw, d.tlsConfig())
	if err := c.tls.Handshake(); err != nil {
		return err
	}
	if _, err := io.WriteString(c.tls, req); err != nil {
		return err
	}
	s, err := vReadLine(c.tls, vRcWait)
	if err == nil && !strings.HasPrefix(s, "HTTP/") && !strings.HasPrefix(s, "HELLO ") {
		vHarness("unexpected answer %q", s)
	}
	for n := 0; err == nil && n < 3 && strings.HasPrefix(s, "HELLO "); n++ { // the echo
		_, err = vReadLine(c.tls, vRcWait)
	}
	return err
}

func (ra *vRace) end() {
	ra.wg.Wait()
	time.Sleep(30 * time.Millisecond)
	for _, q := range ra.rs {
		ra.x.r.stat(fmt.Sprintf("race.%s.%v", q.fate, q.err == nil))
		if k := vErrKind(q.err); k == "timeout" {
			vFail("a connection made during the configuration change is left hanging: %v", q.err)
		}
		switch {
		case q.fate == "closed" && q.err == nil:
			if q.c.tls != nil {
				for { // the rest of a response
					q.c.raw.SetReadDeadline(time.Now().Add(vRcWait))
					if _, err := q.c.tls.Read(make([]byte, 1000)); vErrKind(err) == "timeout" {
						vFail("a connection that was made during the configuration change, which doesn't permit it, remains open (%v)", q.c.k)
					} else if err != nil {
						break
					}
				}
			} else if err := q.c.closed(); err != nil {
				vFail("a connection that was made during the configuration change, which doesn't permit it: %v (%v)", err, q.c.k)
			}
		case q.fate == "alive" && q.err != nil:
			vFail("a connection made during a configuration change, and permitted before and after it, fails: %v", q.err)
		case q.fate == "alive":
			s := interface {
				io.ReadWriter
				SetDeadline(time.Time) error
			}(q.c.tls)
			if q.c.qs != nil {
				s = q.c.qs
			}
			if err := vEcho(s, 1, 10); err != nil {
				vFail("a connection made during a configuration change, and permitted before and after it, doesn't work: %v", err)
			}
		}
		q.c.close()
	}
}
