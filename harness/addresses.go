package PKG_test

import (
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/pires/go-proxyproto"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
)

var vAddrIP = map[string]string{"s1": "127.0.0.1", "s2": "127.0.0.2", "s3": "127.1.0.1",
	"h1": "10.1.1.1", "h2": "10.2.2.2", "h6": "2001:db8::1", "m1": "::ffff:10.1.1.1"}

type vAddrConn struct {
	quic   bool
	remote string // what the backends must be told, ip:port
	local  string
	rt     http.RoundTripper
	close  func()
}

type vAddrs struct {
	r     *vRunner
	px    *vProxy
	mode  string
	b, o  *vBackend
	conns []*vAddrConn
	port  int
}

func vAddrSetup(r *vRunner, init vObj) *vAddrs {
	c := vMap(init["cfg"])
	x := &vAddrs{r: r, mode: vStr(c["mode"]), port: 20000}
	be := &proxy.Backend{ServerNames: []string{"a.test"}, Mode: x.mode, ProxyProtocolVersion: vStr(c["pp"]), SanitizePath: vPtr(true)}
	list := func(v any) *[]string {
		l := vStrs(v)
		if len(l) == 1 && l[0] == "none" {
			return nil
		}
		return &l
	}
	be.DenyIPs, be.AllowIPs = list(c["deny"]), list(c["allow"])
	tlsConf := vBackendTLS([]string{"be.test"}, "x", "h2", "http/1.1")
	opts := vBackendOpts{pp: be.ProxyProtocolVersion != ""}
	switch x.mode {
	case "TLS", "QUIC":
		opts.tls = tlsConf
	case "HTTPS":
		opts.tls = vBackendTLS([]string{"be.test"}, "http/1.1")
	}
	switch x.mode {
	case "TCP", "TLS":
		x.b = vNewBackend("B", "line", opts)
		be.ALPNProtos = &[]string{"x"}
	case "TLSPASSTHROUGH":
		opts.script = func(b *vBackend, rec *vConnRec, c net.Conn) {
			got, _ := io.ReadAll(c)
			rec.mu.Lock()
			rec.data.Write(got)
			rec.mu.Unlock()
			c.Write(got)
			c.Close()
		}
		x.b = vNewBackend("B", "raw", opts)
	case "QUIC":
		x.b = vNewBackend("B", "quic", opts)
		be.ALPNProtos = &[]string{"x"}
	case "HTTP", "HTTPS":
		x.b = vNewBackend("B", "http", opts)
		be.ForwardHTTPHeaders = map[string]string{"X-Addr": "${REMOTE_ADDR}", "X-Ip": "${REMOTE_IP}"}
		po := &proxy.PathOverride{Paths: []string{"/o/"}, ProxyProtocolVersion: vStr(c["opp"])}
		oo := vBackendOpts{pp: po.ProxyProtocolVersion != "", tls: opts.tls}
		x.o = vNewBackend("O", "http", oo)
		po.Addresses = []string{x.o.addr}
		po.ForwardServerName = "be.test"
		po.ForwardRootCAs = []string{vServerCA().pem}
		be.PathOverrides = []*proxy.PathOverride{po}
	}
	if x.b != nil {
		be.Addresses = []string{x.b.addr}
	}
	if opts.tls != nil {
		be.ForwardServerName = "be.test"
		be.ForwardRootCAs = []string{vServerCA().pem}
	}
	cfg := &proxy.Config{EnableQUIC: vPtr(true), AcceptProxyHeaderFrom: vStrs(c["trust"]), Backends: []*proxy.Backend{be}}
	px, err := vNewProxy(cfg)
	if err != nil {
		vFail("a valid configuration is rejected: %v", err)
	}
	x.px = px
	return x
}

func (x *vAddrs) stop() {
	for _, c := range x.conns {
		c.close()
	}
	x.px.stop()
	for _, b := range []*vBackend{x.b, x.o} {
		if b != nil {
			b.close()
		}
	}
}

func TestVerifAddresses(t *testing.T) {
	vRun(t, func(r *vRunner, w vWalk, step func(i int)) {
		x := vAddrSetup(r, w.Init)
		defer x.stop()
		for i, st := range w.Steps {
			step(i)
			o := vMap(st.O)
			switch st.op() {
			case "open":
				r.stat(vStr(st.A["t"]) + "." + vStr(o["res"]))
				x.open(vStr(st.A["t"]), vStr(st.A["s"]), vStr(st.A["h"]), vStr(o["res"]), vStr(o["a"]), vMap(o["told"]))
			case "request":
				r.stat("request")
				x.request(x.conns[vInt(st.A["k"])-1], vStr(st.A["path"]), vMap(o["told"]))
			case "close":
				k := vInt(st.A["k"]) - 1
				x.conns[k].close()
				x.conns = append(x.conns[:k], x.conns[k+1:]...)
			}
		}
	})
}

func (x *vAddrs) nconns() int {
	n := 0
	for _, b := range []*vBackend{x.b, x.o} {
		if b != nil {
			n += b.numConns()
		}
	}
	return n
}

// header makes the bytes of a PROXY header, and the addresses it stands for.
func (x *vAddrs) header(h string, dst *net.TCPAddr) (b []byte, remote, local string) {
	x.port++
	mk := func(v byte, ip string) ([]byte, string, string) {
		src := &net.TCPAddr{IP: net.ParseIP(ip), Port: x.port}
		d := &net.TCPAddr{IP: net.ParseIP("192.0.2.7"), Port: 4443}
		tp := proxyproto.TCPv4
		if strings.Contains(ip, ":") {
			d.IP = net.ParseIP("2001:db8::7")
			tp = proxyproto.TCPv6
			if strings.HasPrefix(ip, "::ffff:") {
				d.IP = net.ParseIP("192.0.2.7").To16()
			}
		}
		hd := &proxyproto.Header{Version: v, Command: proxyproto.PROXY, TransportProtocol: tp, SourceAddr: src, DestinationAddr: d}
		return vMust1(hd.Format()), src.String(), d.String()
	}
	switch h {
	case "none":
		return nil, "", ""
	case "local":
		hd := &proxyproto.Header{Version: 2, Command: proxyproto.LOCAL, TransportProtocol: proxyproto.UNSPEC}
		return vMust1(hd.Format()), "", ""
	case "unknown":
		return []byte("PROXY UNKNOWN\r\n"), "", ""
	case "badv1":
		return []byte("PROXY TCP4 10.1.1.1 nonsense 1 2\r\n"), "", ""
	case "badv2":
		b, _, _ := mk(2, "10.1.1.1")
		b[13] = 0x77
		return b, "", ""
	case "twice":
		b, _, _ := mk(1, "10.1.1.1")
		b2, _, _ := mk(1, "10.2.2.2")
		return append(b, b2...), "", ""
	}
	return mk(h[1]-'0', vAddrIP[h[2:]])
}

func vSameAddr(a, b string) bool {
	ta, e1 := net.ResolveTCPAddr("tcp", a)
	tb, e2 := net.ResolveTCPAddr("tcp", b)
	return e1 == nil && e2 == nil && ta.IP.Equal(tb.IP) && ta.Port == tb.Port
}

// told compares the PROXY header that a backend got.
func (x *vAddrs) told(rec *vConnRec, told vObj, remote, local string, sn string) {
	v, a := vStr(told["v"]), vStr(told["a"])
	if v == "" {
		return // the backend would have misread a header
	}
	if rec == nil {
		vFail("no connection was recorded")
	}
	if rec.hdrErr != nil || rec.hdr == nil {
		vFail("expected a PROXY header, got %v", rec.hdrErr)
	}
	h := rec.hdr
	if fmt.Sprintf("v%d", h.Version) != v || (a != "-" && h.Command != proxyproto.PROXY) {
		vFail("expected a PROXY header %s, got version %d command %v", v, h.Version, h.Command)
	}
	if a == "-" {
		if h.TransportProtocol != proxyproto.UNSPEC {
			vFail("unexpected header %+v", h)
		}
		return
	}
	if h.SourceAddr == nil || !vSameAddr(h.SourceAddr.String(), remote) {
		vFail("the PROXY header names the client %v, but the client is %v", h.SourceAddr, remote)
	}
	if h.DestinationAddr == nil || !vSameAddr(h.DestinationAddr.String(), local) {
		vFail("the PROXY header names the destination %v, expected %v", h.DestinationAddr, local)
	}
	if h.Version == 2 {
		tlvs, _ := h.TLVs()
		for _, t := range tlvs {
			if t.Type == proxyproto.PP2_TYPE_AUTHORITY && string(t.Value) != sn {
				vFail("the PROXY header names server %q", t.Value)
			}
		}
	}
}

func (x *vAddrs) open(tr, s, h, res, a string, told vObj) {
	before := x.nconns()
	ip := vAddrIP[s]
	host := "a.test"
	alpn := []string{"x"}
	http1 := x.mode == "HTTP" || x.mode == "HTTPS" || x.mode == "CONSOLE"
	if http1 {
		alpn = []string{"http/1.1"}
	}
	refused := func() {
		if n := x.nconns(); n != before {
			vFail("a backend got %d connections from a client that is refused", n-before)
		}
	}
	if tr == "quic" {
		if http1 {
			alpn = []string{"h3"}
		}
		qc, done, err := vDialQUIC(vDial{addr: x.px.addr, src: ip, sni: host, alpn: alpn})
		if err != nil {
			vFail("QUIC connection failed: %v", err)
		}
		if res == "denied" {
			select {
			case <-qc.Context().Done():
			case <-time.After(20 * time.Second):
				vFail("the QUIC connection of a denied client stays open")
			}
			if k := vErrKind(context.Cause(qc.Context())); k != "quicapp:1002" {
				vFail("expected error 0x1002, got %s (%v)", k, context.Cause(qc.Context()))
			}
			done()
			refused()
			return
		}
		c := &vAddrConn{quic: true, remote: qc.LocalAddr().String(), local: x.px.addr, close: func() { qc.CloseWithError(0, ""); done() }}
		if http1 {
			h3 := &http3.RoundTripper{DisableCompression: true, Dial: func(context.Context, string, *tls.Config, *quic.Config) (quic.EarlyConnection, error) {
				return qc.(quic.EarlyConnection), nil
			}}
			c.rt = h3
			x.request(c, "/", told)
			if x.mode == "CONSOLE" {
				c.close()
				return
			}
			x.conns = append(x.conns, c)
			return
		}
		defer c.close()
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		st, err := qc.OpenStreamSync(ctx)
		if err != nil {
			vFail("stream: %v", err)
		}
		x.ping(st, c, told)
		return
	}

	hdr, remote, local := x.header(h, nil)
	if x.mode == "TLSPASSTHROUGH" {
		c, err := vDialTCP(vDial{addr: x.px.addr, src: ip, hdr: hdr})
		vMust(err)
		defer c.Close()
		if remote == "" {
			remote, local = c.LocalAddr().String(), c.RemoteAddr().String()
		}
		data := append(vHello(host, alpn), "some more bytes"...)
		c.SetDeadline(time.Now().Add(20 * time.Second))
		c.Write(data)
		c.(*net.TCPConn).CloseWrite()
		got, err := io.ReadAll(c)
		if vErrKind(err) == "timeout" {
			vFail("timeout")
		}
		switch res {
		case "denied":
			if !bytes.Equal(got, []byte{0x15, 3, 3, 0, 2, 2, 0x70}) {
				vFail("expected an unrecognized_name alert, got %q (%v)", got, err)
			}
			refused()
		case "closed":
			refused()
			if len(got) > 7 {
				vFail("expected nothing, got %q (%v)", got, err)
			}
		case "ok":
			if !bytes.Equal(got, data) {
				vFail("the backend got other bytes than the client sent: %.40q %v", got, err)
			}
			x.told(x.b.conn(-1), told, remote, local, host)
		}
		return
	}
	t, err := vDialTLS(vDial{addr: x.px.addr, src: ip, hdr: hdr, sni: host, alpn: alpn})
	switch res {
	case "denied":
		if k := vErrKind(err); k != "unrecognized name" {
			vFail("expected an unrecognized_name alert, got %q (%v)", k, err)
		}
		refused()
		return
	case "closed":
		if err == nil {
			vFail("the connection was accepted")
		}
		if k := vErrKind(err); k == "timeout" {
			vFail("the connection isn't closed")
		}
		refused()
		return
	}
	if err != nil {
		vFail("the client is refused: %v", err)
	}
	if remote == "" {
		remote, local = t.LocalAddr().String(), t.RemoteAddr().String()
	}
	c := &vAddrConn{remote: remote, local: local, close: func() { t.Close() }}
	if http1 {
		c.rt = &http.Transport{DialTLSContext: func(context.Context, string, string) (net.Conn, error) { return t, nil }, MaxConnsPerHost: 1, DisableCompression: true}
		x.request(c, "/", told)
		if x.mode == "CONSOLE" {
			c.close()
			return
		}
		x.conns = append(x.conns, c)
		return
	}
	defer c.close()
	x.ping(t, c, told)
}

func (x *vAddrs) ping(c interface {
	io.ReadWriter
	SetDeadline(time.Time) error
}, ac *vAddrConn, told vObj) {
	want := "HELLO B\nping\n"
	c.SetDeadline(time.Now().Add(20 * time.Second))
	if _, err := c.Write([]byte("ping\n")); err != nil {
		vFail("write: %v", err)
	}
	got := make([]byte, len(want))
	if n, err := io.ReadFull(c, got); err != nil || string(got) != want {
		vFail("expected %q from the backend, got %q, %v", want, got[:n], err)
	}
	x.told(x.b.conn(-1), told, ac.remote, ac.local, "a.test")
}

func (x *vAddrs) request(c *vAddrConn, path string, told vObj) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	req := vMust1(http.NewRequestWithContext(ctx, "GET", "https://a.test"+path, nil))
	resp, err := c.rt.RoundTrip(req)
	if err != nil {
		vFail("request failed: %v", err)
	}
	body, _ := io.ReadAll(resp.Body)
	resp.Body.Close()
	if resp.StatusCode != 200 {
		vFail("status %d %q", resp.StatusCode, body)
	}
	if x.mode == "CONSOLE" {
		return
	}
	b := x.b
	if path == "/o/" {
		b = x.o
	}
	if got := resp.Header.Get("X-Backend"); got != b.id {
		vFail("backend %s answered, expected %s", got, b.id)
	}
	rq := b.lastReq()
	if got := rq.header.Get("X-Addr"); !vSameAddr(got, c.remote) {
		vFail("${REMOTE_ADDR} is %s, but the client is %s", got, c.remote)
	}
	if got := rq.header.Get("X-Ip"); !vSameAddr(net.JoinHostPort(got, "1"), net.JoinHostPort(vHostOf(c.remote), "1")) {
		vFail("${REMOTE_IP} is %s, but the client is %s", got, c.remote)
	}
	x.told(rq.conn, told, c.remote, c.local, "a.test")
}

func vHostOf(a string) string {
	h, _, err := net.SplitHostPort(a)
	vMust(err)
	return h
}
