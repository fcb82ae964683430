package proxy_test

import (
	"bufio"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/quic-go/quic-go"
	"golang.org/x/net/http2"

	"github.com/c2FmZQ/tlsproxy/proxy"
)

const vCnWait = 15 * time.Second

// vCnServer greets, then reads the name of the connection, then echoes.
type vCnServer struct {
	addr string
	mu   sync.Mutex
	byID map[string]net.Conn
	open map[net.Conn]bool
}

func vNewCnServer(tc *tls.Config) *vCnServer {
	s := &vCnServer{byID: map[string]net.Conn{}, open: map[net.Conn]bool{}}
	ln := vMust1(net.Listen("tcp", "127.0.0.1:0"))
	s.addr = ln.Addr().String()
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go s.serve(c, tc)
		}
	}()
	return s
}

func (s *vCnServer) serve(raw net.Conn, tc *tls.Config) {
	s.mu.Lock()
	s.open[raw] = true
	s.mu.Unlock()
	defer func() {
		raw.Close()
		s.mu.Lock()
		delete(s.open, raw)
		s.mu.Unlock()
	}()
	c := raw
	if tc != nil {
		c = tls.Server(raw, tc)
	}
	if _, err := io.WriteString(c, "HELLO\n"); err != nil {
		return
	}
	br := bufio.NewReader(c)
	id, err := br.ReadString('\n')
	if err != nil {
		return
	}
	id = strings.TrimSpace(id)
	s.mu.Lock()
	s.byID[id] = c
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		delete(s.byID, id)
		s.mu.Unlock()
	}()
	fmt.Fprintf(c, "ID %s\n", id)
	for {
		line, err := br.ReadString('\n')
		if err == io.EOF { // the client won't send any more, but still listens
			for {
				time.Sleep(10 * time.Millisecond)
				if _, err := io.WriteString(c, "TICK\n"); err != nil {
					return
				}
			}
		}
		if err != nil {
			return
		}
		if _, err := io.WriteString(c, line); err != nil {
			return
		}
	}
}

func (s *vCnServer) conn(id string) net.Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.byID[id]
}

func (s *vCnServer) numOpen() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.open)
}

type vCnShared struct {
	tcp, pass *vCnServer
	quic      *vBackend
	http      *vBackend
	ca        *vCA
	mu        sync.Mutex
	hold      map[string]*vCnHold
	deadUDP   string
	deadTCP   string
}

type vCnHold struct{ got, release chan struct{} }

var vCnSetup = sync.OnceValue(func() *vCnShared {
	s := &vCnShared{
		tcp:     vNewCnServer(nil),
		pass:    vNewCnServer(vBackendTLS([]string{"pass.test"}, "x")),
		quic:    vNewBackend("Q", "quic", vBackendOpts{tls: vBackendTLS([]string{"be.test"}, "x")}),
		ca:      vNewCA("clients"),
		hold:    map[string]*vCnHold{},
		deadUDP: vFreeAddr("127.0.0.1"),
		deadTCP: vFreeAddr("127.0.0.1"),
	}
	s.http = vNewBackend("H", "http", vBackendOpts{handler: func(w http.ResponseWriter, req *http.Request) {
		if id, ok := strings.CutPrefix(req.URL.Path, "/hold/"); ok {
			s.mu.Lock()
			h := s.hold[id]
			s.mu.Unlock()
			if h != nil {
				close(h.got)
				select {
				case <-h.release:
				case <-req.Context().Done():
				}
			}
		}
		fmt.Fprintf(w, "HELLO\n")
	}})
	return s
})

func (s *vCnShared) config(max int) *proxy.Config {
	x := &[]string{"x"}
	web := func() *[]string { return &[]string{"h3", "h2", "http/1.1"} }
	return &proxy.Config{
		EnableQUIC: vPtr(true),
		MaxOpen:    max,
		Backends: []*proxy.Backend{
			{ServerNames: []string{"tcp.test"}, Mode: "TCP", ALPNProtos: x, Addresses: []string{s.tcp.addr}},
			{ServerNames: []string{"pass.test"}, Mode: "TLSPASSTHROUGH", Addresses: []string{s.pass.addr}},
			{ServerNames: []string{"tq.test"}, Mode: "QUIC", ALPNProtos: x, Addresses: []string{s.quic.addr}, ForwardServerName: "be.test", ForwardRootCAs: []string{vServerCA().pem}},
			{ServerNames: []string{"http.test"}, Mode: "HTTP", ALPNProtos: web(), Addresses: []string{s.http.addr}},
			{ServerNames: []string{"local.test"}, Mode: "LOCAL", ALPNProtos: web()},
			{ServerNames: []string{"down.test"}, Mode: "TCP", ALPNProtos: x, Addresses: []string{s.deadTCP}},
			{ServerNames: []string{"qdown.test"}, Mode: "QUIC", ALPNProtos: x, Addresses: []string{s.deadUDP}, ForwardTimeout: 300 * time.Millisecond, ForwardServerName: "be.test", ForwardRootCAs: []string{vServerCA().pem}},
			{ServerNames: []string{"cert.test"}, Mode: "TCP", ALPNProtos: x, Addresses: []string{s.tcp.addr}, ClientAuth: &proxy.ClientAuth{RootCAs: []string{s.ca.pem}}},
			{ServerNames: []string{"denied.test"}, Mode: "TCP", ALPNProtos: x, Addresses: []string{s.tcp.addr}, DenyIPs: &[]string{"127.0.0.0/8"}},
		},
	}
}

// vCnConn is a connection of the client.
type vCnConn struct {
	x    *vCn
	k    string
	id   string
	raw  net.Conn
	rest []byte // what remains of the ClientHello
	at   chan struct{}
	goOn chan struct{}
	hs   chan error
	tls  *tls.Conn
	q    quic.Connection
	qend func()
	qs   quic.Stream
	cl   *vClient
	hold *vCnHold
	resp chan error
	seq  int

	refusals int
}

var vCnSeq atomic.Int64

func (x *vCn) dial(k string) vDial {
	switch k {
	case "quic":
		return vDial{addr: x.px.addr, sni: "tcp.test", alpn: []string{"x"}}
	case "qq":
		return vDial{addr: x.px.addr, sni: "tq.test", alpn: []string{"x"}}
	case "h3":
		return vDial{addr: x.px.addr, sni: "http.test", alpn: []string{"h3"}}
	case "http", "local":
		return vDial{addr: x.px.addr, sni: k + ".test", alpn: []string{"http/1.1"}}
	case "h2":
		return vDial{addr: x.px.addr, sni: "http.test", alpn: []string{"h2"}}
	default:
		return vDial{addr: x.px.addr, sni: k + ".test", alpn: []string{"x"}}
	}
}

// vHoldConn keeps back what is written after the first few bytes, until it is let go.
type vCnHalf struct {
	net.Conn
	mu    sync.Mutex
	held  []byte
	after int // bytes that go through; -1: all
}

func (c *vCnHalf) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.after < 0 {
		return c.Conn.Write(b)
	}
	n := min(c.after, len(b))
	c.held = append(c.held, b[n:]...)
	c.after -= n
	if n > 0 {
		if _, err := c.Conn.Write(b[:n]); err != nil {
			return 0, err
		}
	}
	return len(b), nil
}

func (c *vCnHalf) letGo() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.after = -1
	_, err := c.Conn.Write(c.held)
	c.held = nil
	return err
}

func (c *vCnHalf) CloseWrite() error { return c.Conn.(*net.TCPConn).CloseWrite() }

func (x *vCn) newConn(k string) *vCnConn {
	return &vCnConn{x: x, k: k, id: fmt.Sprintf("%s-%d", k, vCnSeq.Add(1))}
}

// to brings a connection to a stage.
func (c *vCnConn) to(st string) error {
	if vIn(c.k, []string{"quic", "qq", "h3"}) {
		return c.greet()
	}
	if c.raw == nil {
		var err error
		d := c.x.dial(c.k)
		if c.raw, err = vDialTCP(d); err != nil {
			return err
		}
	}
	if st == "raw" {
		return nil
	}
	if c.tls == nil {
		d := c.x.dial(c.k)
		d.addr = ""
		if vCnSeq.Add(1)%2 == 0 && c.k != "pass" {
			d.max = tls.VersionTLS12
		}
		tc := d.tlsConfig()
		c.at, c.goOn, c.hs = make(chan struct{}), make(chan struct{}), make(chan error, 1)
		tc.VerifyConnection = func(tls.ConnectionState) error {
			close(c.at)
			<-c.goOn
			return nil
		}
		h := &vCnHalf{Conn: c.raw, after: -1}
		if st == "half" {
			h.after = []int{1, 5, 40}[c.x.rng(3)]
		}
		c.raw = h
		c.tls = tls.Client(h, tc)
		c.raw.SetDeadline(time.Now().Add(90 * time.Second))
		go func() {
			err := c.tls.Handshake()
			c.hs <- err
		}()
	}
	h := c.raw.(*vCnHalf)
	if st == "half" {
		return nil
	}
	if err := h.letGo(); err != nil {
		return err
	}
	select {
	case <-c.at:
	case err := <-c.hs:
		if err == nil {
			err = errors.New("no VerifyConnection")
		}
		c.hs <- err
		return err
	case <-time.After(vCnWait):
		return errors.New("timeout")
	}
	if st == "hs" {
		return nil
	}
	return c.greet()
}

// greet finishes the handshake and gets the first answer.
func (c *vCnConn) greet() error {
	if c.goOn != nil {
		select {
		case <-c.goOn:
		default:
			close(c.goOn)
		}
		select {
		case err := <-c.hs:
			c.hs <- err
			if err != nil {
				return err
			}
		case <-time.After(vCnWait):
			return errors.New("timeout")
		}
	}
	switch c.k {
	case "http", "local":
		c.cl = &vClient{d: c.x.dial(c.k), proto: "h1", c: c.tls, br: bufio.NewReader(c.tls), cl: []func(){func() { c.tls.Close() }}}
		return c.get("/")
	case "h2":
		cc, err := (&http2.Transport{DisableCompression: true}).NewClientConn(c.tls)
		if err != nil {
			return err
		}
		c.cl = &vClient{d: c.x.dial(c.k), proto: "h2", c: c.tls, rt: cc, cl: []func(){func() { c.tls.Close() }}}
		return c.get("/")
	case "h3":
		c.cl = &vClient{d: c.x.dial(c.k), proto: "h3"}
		return c.get("/")
	case "quic", "qq":
		var err error
		if c.q, c.qend, err = vDialQUIC(c.x.dial(c.k)); err != nil {
			return err
		}
		return c.stream()
	case "tq":
		fmt.Fprintf(c.tls, "hi\n")
		s, err := vReadLine(c.tls, vCnWait)
		if err == nil && !strings.HasPrefix(s, "HELLO") {
			vFail("unexpected greeting %q", s)
		}
		if err == nil {
			_, err = vReadLine(c.tls, vCnWait)
		}
		return err
	default:
		return c.name(c.tls)
	}
}

func (c *vCnConn) name(s io.ReadWriter) error {
	line, err := vReadLine(s, vCnWait)
	if err != nil {
		return err
	}
	if line != "HELLO" {
		vFail("unexpected greeting %q", line)
	}
	fmt.Fprintf(s, "%s\n", c.id)
	if line, err = vReadLine(s, vCnWait); err != nil {
		return err
	}
	if line != "ID "+c.id {
		vFail("unexpected answer %q", line)
	}
	return nil
}

// stream opens a stream of a QUIC connection.
func (c *vCnConn) stream() error {
	ctx, cancel := context.WithTimeout(context.Background(), vCnWait)
	defer cancel()
	var err error
	if c.qs, err = c.q.OpenStreamSync(ctx); err != nil {
		return err
	}
	if c.k == "quic" {
		fmt.Fprintf(c.qs, "%s\n", c.id)
		if _, err := vReadLine(c.qs, vCnWait); err != nil {
			return err
		}
		_, err = vReadLine(c.qs, vCnWait)
		return err
	}
	fmt.Fprintf(c.qs, "hi\n")
	if _, err := vReadLine(c.qs, vCnWait); err != nil {
		return err
	}
	_, err = vReadLine(c.qs, vCnWait)
	return err
}

func (c *vCnConn) get(path string) error {
	resp, err := c.cl.try("GET", path, c.cl.d.sni, "")
	if err != nil {
		return err
	}
	if resp.code != 200 && c.k != "local" {
		return fmt.Errorf("status %d", resp.code)
	}
	return nil
}

// use shows that the connection works.
func (c *vCnConn) use() error {
	c.seq++
	if c.cl != nil {
		return c.get(fmt.Sprintf("/%d", c.seq))
	}
	var s io.ReadWriter = c.tls
	if c.qs != nil {
		s = c.qs
	}
	msg := fmt.Sprintf("echo %d", c.seq)
	if _, err := fmt.Fprintf(s, "%s\n", msg); err != nil {
		return err
	}
	line, err := vReadLine(s, vCnWait)
	if err == nil && line != msg {
		vFail("got %q instead of %q", line, msg)
	}
	return err
}

// mustOpen makes a connection that there is room for. The connections that were just closed can
// take a moment to make room.
func (x *vCn) mustOpen(c *vCnConn, k, to string) *vCnConn {
	end := time.Now().Add(vCnWait)
	for try := 1; ; try++ {
		err := c.to(to)
		if err == nil && (to == "raw" || to == "half") {
			time.Sleep(10 * time.Millisecond)
			if !c.dead() {
				return c
			}
			err = errors.New("it is closed")
		}
		if err == nil {
			return c
		}
		if vHanging(err) || time.Now().After(end) {
			vFail("a connection (%s, %s) fails although there is room for it: %v", k, to, err)
		}
		x.r.stat("again." + k)
		c.close("rst")
		time.Sleep(time.Duration(try) * time.Millisecond)
		c = x.newConn(k)
	}
}

// dead tells whether a connection at an early stage was closed.
func (c *vCnConn) dead() bool {
	if c.tls != nil {
		select {
		case err := <-c.hs:
			c.hs <- err
			return err != nil
		default:
			return false
		}
	}
	if c.raw == nil {
		return false
	}
	c.raw.SetReadDeadline(time.Now().Add(time.Millisecond))
	_, err := c.raw.Read(make([]byte, 1))
	c.raw.SetReadDeadline(time.Time{})
	return vErrKind(err) != "timeout"
}

// repair replaces a connection at an early stage that came before there was room for it.
func (x *vCn) repair(c *vCnConn) bool {
	select {
	case <-x.down:
		return false
	default:
	}
	if c.refusals > 10 || c.goOn == nil && c.raw == nil {
		return false
	}
	to := "raw"
	if c.tls != nil {
		to = "half"
		select {
		case <-c.at:
			return false
		default:
		}
	}
	if !c.dead() {
		return false
	}
	for id, o := range x.conns {
		if o == c {
			x.r.stat("repaired." + c.k)
			c.close("rst")
			n := x.mustOpen(x.newConn(c.k), c.k, to)
			n.refusals = c.refusals + 1
			x.conns[id] = n
			return true
		}
	}
	return false
}

func (x *vCn) repairAll() {
	// Connections are accepted in the order in which they come.
	for _, c := range x.conns {
		if c.raw != nil && (c.tls == nil || c.at != nil) {
			if rc, err := vDialTLS(x.dial("tcp")); err == nil {
				rc.Close()
			}
			time.Sleep(20 * time.Millisecond)
			break
		}
	}
	for id := 1; id <= 4; id++ {
		if c := x.conns[id]; c != nil && (c.raw != nil && (c.tls == nil || c.at != nil)) {
			x.repair(c)
		}
	}
}

// gone waits until the proxy closes the connection.
func (c *vCnConn) gone(st string) error {
	switch {
	case c.hold != nil: // with a request
		select {
		case err := <-c.resp:
			if err == nil {
				return errors.New("the request that was in flight is answered")
			}
			return nil
		case <-time.After(vCnWait):
			return errors.New("it remains open")
		}
	case (c.k == "h3" || c.k == "h2") && c.cl != nil:
		// A client that doesn't see the end of the connection gets no answer.
		end := time.Now().Add(vCnWait)
		for time.Now().Before(end) {
			ctx, cancel := context.WithTimeout(context.Background(), time.Second)
			req := vMust1(http.NewRequestWithContext(ctx, "GET", "https://"+c.cl.d.sni+"/", nil))
			resp, err := c.cl.rt.RoundTrip(req)
			cancel()
			if err != nil {
				return nil
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			time.Sleep(10 * time.Millisecond)
		}
		return errors.New("it remains open")
	case c.q != nil:
		select {
		case <-c.q.Context().Done():
			return nil
		case <-time.After(vCnWait):
			return errors.New("it remains open")
		}
	}
	var r io.Reader = c.raw
	switch {
	case st == "hs" || st == "half": // the handshake can't succeed
		select {
		case <-c.goOn:
		default:
			close(c.goOn)
		}
		select {
		case err := <-c.hs:
			c.hs <- err
			if err != nil {
				return nil
			}
			r = c.tls
		case <-time.After(vCnWait):
			return errors.New("it remains open")
		}
	case c.tls != nil:
		r = c.tls
	}
	end := time.Now().Add(vCnWait)
	for time.Now().Before(end) {
		c.raw.SetReadDeadline(end)
		_, err := r.Read(make([]byte, 1000))
		if vErrKind(err) == "timeout" {
			break
		}
		if err != nil {
			return nil
		}
	}
	return errors.New("it remains open")
}

func (c *vCnConn) close(how string) {
	if c.goOn != nil {
		defer func() {
			select {
			case <-c.goOn:
			default:
				close(c.goOn)
			}
		}()
	}
	if c.raw != nil {
		tc, ok := c.raw.(*net.TCPConn)
		if h, ok2 := c.raw.(*vCnHalf); ok2 {
			tc, ok = h.Conn.(*net.TCPConn)
		}
		switch {
		case how == "rst" && ok:
			tc.SetLinger(0)
			tc.Close()
		case how == "garbage" && ok:
			tc.Write([]byte("\x16\x03\x01\x00\x05garbage that isn't a handshake, and goes on for a while"))
			tc.CloseWrite()
			c.x.later = append(c.x.later, func() { tc.Close() })
		case how == "close" && c.tls != nil && c.x.rng(2) == 0:
			select {
			case err := <-c.hs:
				c.hs <- err
				if err == nil {
					c.tls.Close()
				}
			default:
			}
		}
		if how != "garbage" {
			c.raw.Close()
		}
	}
	if c.cl != nil && c.k == "h3" {
		c.cl.close()
	}
	if c.q != nil {
		c.q.CloseWithError(0, "")
		c.qend()
	}
	if c.hold != nil {
		close(c.hold.release)
		c.hold = nil
	}
}

type vCn struct {
	r     *vRunner
	s     *vCnShared
	px    *vProxy
	conns map[int]*vCnConn
	n     uint32
	later []func()
	max   int
	down  chan struct{} // closed when Shutdown returns
	stop  func()
	quicN int
}

func (x *vCn) rng(n int) int {
	x.n = x.n*1664525 + 1013904223
	return int(x.n>>16) % n
}

func vIn(s string, l []string) bool {
	for _, v := range l {
		if s == v {
			return true
		}
	}
	return false
}

func vHanging(err error) bool { return err != nil && (vErrKind(err) == "timeout" || err.Error() == "timeout") }

func TestVerifConns(t *testing.T) {
	s := vCnSetup()
	vRun(t, func(r *vRunner, w vWalk, step func(i int)) {
		x := &vCn{r: r, s: s, conns: map[int]*vCnConn{}, max: vInt(w.Init["max"]), n: uint32(len(w.Steps))}
		x.px = vMust1(vNewProxy(s.config(x.max)))
		defer func() {
			for _, c := range x.conns {
				c.close("close")
			}
			x.px.stop()
			for _, f := range x.later {
				f()
			}
			// A clean start for the next walk.
			vWait(vCnWait, func() bool { return s.tcp.numOpen()+s.pass.numOpen()+x.quicOpen() == 0 })
		}()
		for i, st := range w.Steps {
			step(i)
			t0 := time.Now()
			x.step(st)
			if d := time.Since(t0); d > 200*time.Millisecond {
				x.r.stat(fmt.Sprintf("slow.%s.%v", st.op(), st.A["k"]))
			}
		}
	})
}

// quicOpen returns how many connections the QUIC server has.
func (x *vCn) quicOpen() int {
	b := x.s.quic
	b.mu.Lock()
	defer b.mu.Unlock()
	n := 0
	for _, c := range b.conns {
		if c.qc != nil && c.qc.Context().Err() == nil {
			n++
		}
	}
	return n
}

func (x *vCn) step(st vStep) {
	o := vMap(st.O)
	res := vStr(o["res"])
	id := 0
	if v, ok := st.A["s"]; ok {
		id = vInt(v)
	}
	c := x.conns[id]
	stat := st.op() + "." + res
	if c != nil {
		stat += "." + c.k
	}
	x.r.stat(stat)
	switch st.op() {
	case "open":
		k, to := vStr(st.A["k"]), vStr(st.A["st"])
		c = x.newConn(k)
		switch res {
		case "ok":
			x.conns[id] = x.mustOpen(c, k, to)
		case "refused":
			err := c.to(to)
			if err == nil && to == "idle" {
				vFail("a connection (%s) is served although there is no room for it", k)
			}
			if err == nil {
				err = c.refusal()
			}
			if vHanging(err) {
				vFail("a connection (%s, %s) is left hanging when there is no room for it: %v", k, to, err)
			}
			c.close("close")
		case "gone":
			d := x.dial(k)
			if vIn(k, []string{"quic", "qq", "h3"}) {
				ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
				defer cancel()
				_, err := quic.DialAddr(ctx, d.addr, d.tlsConfig(), nil)
				if err == nil {
					vFail("a QUIC connection is accepted after the start of the shutdown")
				}
			} else if rc, err := vDialTCP(d); err == nil {
				rc.Close()
				vFail("a connection is accepted after the start of the shutdown")
			}
		}
	case "advance":
		to := vStr(st.A["st"])
		if x.repair(c) {
			c = x.conns[id]
		}
		err := c.to(to)
		if res == "ok" && err != nil {
			vFail("a connection (%s) can't go on to %s: %v", c.k, to, err)
		}
		if res == "any" {
			if vHanging(err) {
				vFail("a connection (%s) is left hanging at the end of the shutdown", c.k)
			}
			c.close("close")
			delete(x.conns, id)
		}
		if res == "refused" {
			if err == nil && to == "hs" {
				err = c.gone("hs")
				if err != nil {
					vFail("a connection (%s) that reaches its backend after the start of the shutdown: %v", c.k, err)
				}
			} else if err == nil {
				vFail("a connection (%s) is served although its backend is shutting down", c.k)
			} else if vHanging(err) {
				vFail("a connection (%s) is left hanging although its backend is shutting down", c.k)
			}
			c.close("close")
			delete(x.conns, id)
		}
	case "close":
		c.close(vStr(st.A["how"]))
		delete(x.conns, id)
	case "srvclose":
		srv := x.s.tcp
		if c.k == "pass" {
			srv = x.s.pass
		}
		sc := srv.conn(c.id)
		if sc == nil {
			vFail("the server lost connection %s", c.id)
		}
		sc.Close()
		if err := c.gone("idle"); err != nil {
			vFail("a connection (%s) that the server closed: %v", c.k, err)
		}
		c.close("close")
		delete(x.conns, id)
	case "fin":
		vMust(c.tls.CloseWrite())
		if c.k == "pass" {
			vMust(c.raw.(*vCnHalf).CloseWrite())
		}
		if line, err := vReadLine(c.tls, vCnWait); err != nil || line != "TICK" {
			vFail("after the client's half-close (%s), the server's data doesn't come any more: %q %v", c.k, line, err)
		}
	case "req":
		c.hold = &vCnHold{make(chan struct{}), make(chan struct{})}
		hid := fmt.Sprint(vCnSeq.Add(1))
		x.s.mu.Lock()
		x.s.hold[hid] = c.hold
		x.s.mu.Unlock()
		c.resp = make(chan error, 1)
		go func() { c.resp <- c.get("/hold/" + hid) }()
		select {
		case <-c.hold.got:
		case err := <-c.resp:
			vFail("a request (%s) fails: %v", c.k, err)
		case <-time.After(vCnWait):
			vFail("a request (%s) is not forwarded", c.k)
		}
	case "finish":
		close(c.hold.release)
		c.hold = nil
		select {
		case err := <-c.resp:
			if err != nil {
				vFail("a request (%s) that was being served fails: %v", c.k, err)
			}
		case <-time.After(vCnWait):
			vFail("a request (%s) that was being served gets no response", c.k)
		}
		if res == "closed" {
			if err := c.gone("idle"); err != nil {
				vFail("a connection (%s) after its last request: %v", c.k, err)
			}
			c.close("close")
			delete(x.conns, id)
		}
	case "bad":
		x.bad(vStr(st.A["b"]))
	case "burst":
		x.burst(vInt(st.A["n"]), vStr(st.A["k"]), vInt(o["ok"]))
	case "churn":
		x.churn(vInt(st.A["n"]), vInt(o["room"]))
	case "reconf":
		x.repairAll()
		cfg := x.s.config(vInt(st.A["max"]))
		vFillConfig(cfg)
		cfg.TLSAddr, cfg.CacheDir = x.px.addr, x.px.dir
		vMust(x.px.p.Reconfigure(cfg))
	case "shutdown":
		x.repairAll()
		ctx, cancel := context.WithCancel(context.Background())
		x.stop = cancel
		x.down = make(chan struct{})
		x.px.done = true
		go func() {
			x.px.p.Shutdown(ctx)
			close(x.down)
		}()
		x.later = append(x.later, func() { cancel(); x.px.cancel() })
		vWait(vCnWait, func() bool {
			rc, err := vDialTCP(x.dial("tcp"))
			if err == nil {
				rc.Close()
			}
			return err != nil
		})
	case "cancel":
		x.stop()
	case "stop":
		x.repairAll()
		x.px.stop()
	case "rush":
		x.rush(vInt(st.A["n"]), vInt(st.A["m"]))
	}
	x.settle(st)
}

// refusal waits for the end of a connection that isn't established.
func (c *vCnConn) refusal() error {
	if c.goOn != nil {
		select {
		case err := <-c.hs:
			c.hs <- err
			if err != nil {
				return err
			}
			return nil
		case <-c.at:
			vFail("the handshake of a connection (%s) goes on although there is no room for it", c.k)
		case <-time.After(vCnWait):
			return errors.New("timeout")
		}
	}
	c.raw.SetReadDeadline(time.Now().Add(vCnWait))
	_, err := io.Copy(io.Discard, c.raw)
	return err
}

// settle compares the connections with those of the specification.
func (x *vCn) settle(st vStep) {
	slots := vList(st.T["slots"])
	phase := vStr(st.T["phase"])
	for id := 1; id <= len(slots); id++ {
		c := x.conns[id]
		if c == nil {
			continue
		}
		s := vMap(slots[id-1])["st"]
		if vStr(s) == "-" {
			stage := "raw"
			if c.tls != nil {
				stage = "idle"
				select {
				case <-c.goOn:
				default:
					stage = "hs"
				}
			}
			x.r.stat("ended." + c.k + "." + st.op())
			if err := c.gone(stage); err != nil {
				vFail("a connection (%s) that should have been closed: %v", c.k, err)
			}
			c.close("close")
			delete(x.conns, id)
		}
	}
	if phase == "stopped" && x.down != nil {
		select {
		case <-x.down:
		case <-time.After(vCnWait):
			vFail("Shutdown doesn't return although there is nothing to wait for")
		}
	}
	if phase == "down" {
		time.Sleep(5 * time.Millisecond)
		select {
		case <-x.down:
			vFail("Shutdown returned while there are connections in use")
		default:
		}
	}
	alive, n := 0, map[string]int{}
	for id := 1; id <= len(slots); id++ {
		m := vMap(slots[id-1])
		k, s := vStr(m["k"]), vStr(m["st"])
		if s == "-" {
			continue
		}
		alive++
		n[k+"."+s]++
		c := x.conns[id]
		switch s {
		case "idle":
			if x.rng(3) != 0 && phase == "up" {
				continue
			}
			if err := c.use(); err != nil {
				vFail("a connection (%s) doesn't work any more: %v", k, err)
			}
		case "busy", "lame":
			select {
			case err := <-c.resp:
				vFail("a request (%s) that is being served fails: %v", k, err)
			default:
			}
		}
	}
	if phase == "up" {
		if x.rng(2) == 0 {
			x.probe(vInt(st.T["max"])-1-alive, n)
		}
	} else if phase == "stopped" {
		if rc, err := vDialTCP(x.dial("tcp")); err == nil {
			rc.Close()
			vFail("a connection is accepted after the end")
		}
	}
	// No connection to a server outlives the client's.
	if len(n) > 0 && x.rng(4) != 0 {
		return
	}
	tcp, pass, q := n["tcp.idle"]+n["tcp.fin"]+n["quic.idle"], n["pass.idle"]+n["pass.fin"], n["tq.idle"]+n["qq.idle"]
	vWait(vCnWait, func() bool { return x.s.tcp.numOpen() == tcp && x.s.pass.numOpen() == pass && x.quicOpen() == q })
	if a, b, c := x.s.tcp.numOpen(), x.s.pass.numOpen(), x.quicOpen(); a != tcp || b != pass || c != q {
		vFail("there are %d, %d, %d connections to the TCP, TLS, QUIC servers, expected %d, %d, %d", a, b, c, tcp, pass, q)
	}
}

// probe counts how many more connections there is room for.
func (x *vCn) probe(room int, n map[string]int) {
	room = max(room, 0)
	end := time.Now().Add(vCnWait)
	same := 0
	for {
		var cs []*vCnConn
		for len(cs) <= room {
			c := x.newConn("tcp")
			err := c.to("idle")
			if vHanging(err) {
				vFail("a connection is left hanging")
			}
			if err != nil {
				c.close("close")
				break
			}
			cs = append(cs, c)
		}
		got := len(cs)
		n0 := x.s.tcp.numOpen() - got
		for _, c := range cs {
			c.close("close")
		}
		for i := 0; i < 100 && x.s.tcp.numOpen() > n0; i++ {
			time.Sleep(time.Millisecond)
		}
		time.Sleep(2 * time.Millisecond)
		if got == room {
			return
		}
		if got > room {
			x.repairAll()
		}
		if same++; time.Now().After(end) {
			vFail("there is room for %d connections, expected %d (%v)", got, room, n)
		}
		time.Sleep(time.Duration(same) * time.Millisecond)
	}
}

func (x *vCn) burst(n int, k string, ok int) {
	// What the last steps left behind must be gone.
	x.probe(ok, nil)
	errs := make([]error, n)
	cs := make([]*vCnConn, n)
	for try := 0; ; try++ {
		var wg sync.WaitGroup
		for i := range n {
			cs[i] = x.newConn(k)
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = cs[i].to("idle")
			}()
		}
		wg.Wait()
		got := 0
		for _, err := range errs {
			if vHanging(err) {
				vFail("a connection (%s) is left hanging", k)
			}
			if err == nil {
				got++
			}
		}
		if got > ok {
			vFail("%d connections (%s) at the same time are served, there is room for %d", got, k, ok)
		}
		if got == ok {
			break
		}
		// The connections of the probe can take a moment to go away.
		if try > 50 {
			vFail("%d connections (%s) at the same time are served although there is room for %d", got, k, ok)
		}
		for _, c := range cs {
			c.close("close")
		}
		time.Sleep(time.Duration(10*try) * time.Millisecond)
	}
	for _, c := range cs {
		c.close("close")
	}
}

// churn makes connections that come and go at the same time.
func (x *vCn) churn(n, room int) {
	var mu sync.Mutex
	cur, most := 0, 0
	var wg sync.WaitGroup
	for i := range n + max(room, 0) {
		k := []string{"tcp", "http", "h3", "quic", "pass", "h2"}[x.rng(6)]
		how := []string{"close", "rst"}[x.rng(2)]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for range 4 {
				c := x.newConn(k)
				if err := c.to("idle"); err == nil {
					mu.Lock()
					cur++
					most = max(most, cur)
					mu.Unlock()
					time.Sleep(time.Duration(i%3) * 300 * time.Microsecond)
					mu.Lock()
					cur--
					mu.Unlock()
				}
				c.close(how)
			}
		}()
	}
	wg.Wait()
	x.r.stat(fmt.Sprintf("churn.most.%d.of.%d", most, room))
	if most > max(room, 0) {
		vFail("%d connections are served at the same time, there is room for %d", most, room)
	}
}

// rush shuts the proxy down while n connections that it waits for end, and m that it doesn't wait
// for remain.
func (x *vCn) rush(n, m int) {
	cfg := x.s.config(1000)
	vFillConfig(cfg)
	cfg.TLSAddr, cfg.CacheDir = x.px.addr, x.px.dir
	vMust(x.px.p.Reconfigure(cfg))
	cs := make([]*vCnConn, n+m)
	var wg sync.WaitGroup
	for i := range cs {
		k, to := "tcp", "idle"
		if i < n {
			k, to = "http", "raw"
		}
		cs[i] = x.newConn(k)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := cs[i].to(to); err != nil {
				vHarness("%s %s: %v", k, to, err)
			}
		}()
	}
	wg.Wait()
	time.Sleep(20 * time.Millisecond)
	ctx, cancel := context.WithCancel(context.Background())
	x.down = make(chan struct{})
	x.px.done = true
	go func() {
		x.px.p.Shutdown(ctx)
		close(x.down)
	}()
	x.later = append(x.later, func() { cancel(); x.px.cancel() })
	time.Sleep(10 * time.Millisecond)
	for _, c := range cs[:n] {
		go c.close("rst")
	}
	select {
	case <-x.down:
	case <-time.After(vCnWait):
		vFail("Shutdown doesn't return after the end of all the connections that it waits for")
	}
	for _, c := range cs[n:] {
		c.close("close")
	}
}

func (x *vCn) bad(b string) {
	d := vDial{addr: x.px.addr, sni: "tcp.test", alpn: []string{"x"}}
	refused := func(c *tls.Conn, err error) {
		if err == nil {
			_, err = vReadLine(c, vCnWait)
			c.Close()
		}
		if err == nil {
			vFail("a connection (%s) is served", b)
		}
		if vHanging(err) {
			vFail("a connection (%s) is left hanging", b)
		}
	}
	switch b {
	case "garbage", "truncated", "silent":
		c, err := vDialTCP(d)
		if err != nil {
			vHarness("%v", err)
		}
		switch b {
		case "garbage":
			c.Write([]byte("GET / HTTP/1.0\r\n\r\n" + strings.Repeat("x", x.rng(3000))))
		case "truncated":
			h := vHello("tcp.test", []string{"x"})
			c.Write(h[:x.rng(len(h))])
		}
		if x.rng(2) == 0 {
			c.(*net.TCPConn).SetLinger(0)
		}
		c.Close()
	case "noSNI", "unknown":
		d.sni = map[string]string{"noSNI": "127.0.0.1", "unknown": "nope.test"}[b]
		refused(vDialTLS(d))
	case "noProto":
		d.alpn = []string{"nope"}
		refused(vDialTLS(d))
	case "down", "cert", "denied":
		d.sni = b + ".test"
		refused(vDialTLS(d))
	case "noCert":
		d.sni = "cert.test"
		refused(vDialTLS(d))
	case "acme":
		d.alpn = []string{"acme-tls/1"}
		refused(vDialTLS(d))
	case "quicUnknown", "quicDown", "quicDenied":
		d.sni = map[string]string{"quicUnknown": "nope.test", "quicDown": "qdown.test", "quicDenied": "denied.test"}[b]
		c := x.newConn("quic")
		q, done, err := vDialQUIC(d)
		if err == nil {
			c.q, c.qend = q, done
			if err = c.stream(); err == nil {
				vFail("a connection (%s) is served", b)
			}
			if vHanging(err) {
				vFail("a connection (%s) is left hanging", b)
			}
			c.close("close")
		}
	default:
		vHarness("bad %q", b)
	}
}
