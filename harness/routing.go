package PKG_test

import (
	"bufio"
	"bytes"
	"context"
	"crypto/rand"
	"crypto/tls"
	"fmt"
	"io"
	mrand "math/rand"
	"net"
	"net/http"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
)

type vRouting struct {
	r    *vRunner
	px   *vProxy
	def  string
	be   []*vBackend
	mode []string
	want []int // connections (requests for HTTP) each backend must have seen
	rnd  *mrand.Rand
	raw  chan []byte
}

func vRoutingSetup(r *vRunner, init vObj) *vRouting {
	c := vMap(init["cfg"])
	x := &vRouting{r: r, def: vStr(c["def"]), rnd: mrand.New(mrand.NewSource(1)), raw: make(chan []byte, 10)}
	cfg := &proxy.Config{EnableQUIC: vPtr(true), DefaultServerName: x.def}
	for i, bb := range vList(c["backends"]) {
		m := vMap(bb)
		mode := vStr(m["mode"])
		id := fmt.Sprintf("B%d", i+1)
		var b *vBackend
		be := &proxy.Backend{ServerNames: vStrs(m["names"]), Mode: mode}
		if a := vStrs(m["alpn"]); len(a) != 1 || a[0] != "default" {
			be.ALPNProtos = &a
		}
		all := []string{"x", "y", "h2", "http/1.1", "h3"}
		switch mode {
		case "TCP":
			b = vNewBackend(id, "line", vBackendOpts{})
		case "TLS":
			b = vNewBackend(id, "line", vBackendOpts{tls: vBackendTLS([]string{"be.test"}, all...)})
			be.ForwardServerName = "be.test"
			be.ForwardRootCAs = []string{vServerCA().pem}
		case "TLSPASSTHROUGH":
			b = vNewBackend(id, "raw", vBackendOpts{script: func(b *vBackend, rec *vConnRec, c net.Conn) {
				// Takes everything until EOF, then answers with its id and a copy.
				got, _ := io.ReadAll(c)
				rec.mu.Lock()
				rec.data.Write(got)
				rec.mu.Unlock()
				fmt.Fprintf(c, "HELLO %s\n", b.id)
				c.Write(got)
				c.Close()
			}})
		case "HTTP":
			b = vNewBackend(id, "http", vBackendOpts{})
		case "QUIC":
			b = vNewBackend(id, "quic", vBackendOpts{tls: vBackendTLS([]string{"be.test"}, all...)})
			be.ForwardServerName = "be.test"
			be.ForwardRootCAs = []string{vServerCA().pem}
		}
		be.Addresses = []string{b.addr}
		x.be = append(x.be, b)
		x.mode = append(x.mode, mode)
		cfg.Backends = append(cfg.Backends, be)
	}
	x.want = make([]int, len(x.be))
	px, err := vNewProxy(cfg)
	if err != nil {
		vFail("a valid configuration is rejected: %v", err)
	}
	x.px = px
	return x
}

func (x *vRouting) close() {
	x.px.stop()
	for _, b := range x.be {
		b.close()
	}
}

func (x *vRouting) seen() []int {
	var out []int
	for i, b := range x.be {
		if x.mode[i] == "HTTP" {
			out = append(out, b.requests())
		} else {
			out = append(out, b.numConns())
		}
	}
	return out
}

func (x *vRouting) check(final bool) {
	d := time.Duration(0)
	if final {
		d = 200 * time.Millisecond
		time.Sleep(20 * time.Millisecond)
	}
	ok := vWait(d, func() bool { return fmt.Sprint(x.seen()) == fmt.Sprint(x.want) })
	if !ok {
		vFail("connections or requests seen by the backends: %v, expected %v", x.seen(), x.want)
	}
}

func TestVerifRouting(t *testing.T) {
	vRun(t, func(r *vRunner, w vWalk, step func(i int)) {
		x := vRoutingSetup(r, w.Init)
		defer x.close()
		for i, st := range w.Steps {
			step(i)
			o := vMap(st.O)
			res, be, proto := vStr(o["res"]), vInt(o["be"]), vStr(o["proto"])
			r.stat(st.op() + "." + res)
			switch st.op() {
			case "tcp":
				x.tcp(vStr(st.A["sni"]), vStrs(st.A["alpn"]), vStr(st.A["frag"]), res, be, proto)
			case "quic":
				x.quic(vStr(st.A["sni"]), vStrs(st.A["alpn"]), res, be, proto)
			case "odd":
				x.odd(vStr(st.A["what"]), vStr(st.A["sni"]))
			}
			if be > 0 {
				x.want[be-1]++
			}
			x.check(false)
		}
		x.check(true)
	})
}

func (x *vRouting) tcp(sni string, alpn []string, frag, res string, be int, proto string) {
	if res == "pass" {
		x.pass(sni, alpn, frag, be)
		return
	}
	c, err := vDialTLS(vDial{addr: x.px.addr, sni: sni, alpn: alpn, frag: frag})
	switch res {
	case "refused":
		if k := vErrKind(err); k != "unrecognized name" {
			vFail("expected an unrecognized_name alert, got %q (%v)", k, err)
		}
		return
	case "noalpn":
		if k := vErrKind(err); k != "no application protocol" {
			vFail("expected a no_application_protocol alert, got %q (%v)", k, err)
		}
		return
	}
	if err != nil {
		vFail("connection failed: %v", err)
	}
	defer c.Close()
	if p := c.ConnectionState().NegotiatedProtocol; p != proto {
		vFail("negotiated protocol is %q, expected %q", p, proto)
	}
	switch res {
	case "acme", "badgw":
		if l, err := vReadLine(c, 20*time.Second); err == nil || l != "" || vErrKind(err) == "timeout" {
			vFail("expected the connection to be closed, got %q, %v", l, err)
		}
		return
	}
	id := fmt.Sprintf("B%d", be)
	if x.mode[be-1] == "HTTP" {
		host := sni
		if host == "" {
			host = x.def
		}
		req := vMust1(http.NewRequest("GET", "https://"+host+"/", nil))
		resp, body, err := vHTTPOnce(c, req)
		if err != nil {
			vFail("HTTP request failed: %v", err)
		}
		if resp.StatusCode != 200 || string(body) != "HELLO "+id+"\n" {
			vFail("unexpected response %d %q, expected backend %s", resp.StatusCode, body, id)
		}
		return
	}
	x.greetEcho(c, id)
	if m := x.mode[be-1]; m == "TLS" || m == "QUIC" {
		rec := x.be[be-1].conn(-1)
		rec.mu.Lock()
		defer rec.mu.Unlock()
		if rec.alpn != proto {
			vFail("the backend negotiated %q, the client %q", rec.alpn, proto)
		}
	}
}

func (x *vRouting) greetEcho(c interface {
	io.ReadWriter
	SetDeadline(time.Time) error
}, id string) {
	msg := "ping\n"
	c.SetDeadline(time.Now().Add(20 * time.Second))
	if _, err := c.Write([]byte(msg)); err != nil {
		vFail("write: %v", err)
	}
	want := "HELLO " + id + "\n" + msg
	got := make([]byte, len(want))
	if n, err := io.ReadFull(c, got); err != nil || string(got) != want {
		vFail("expected %q from the backend, got %q, %v", want, got[:n], err)
	}
}

// pass checks that a TLSPASSTHROUGH backend gets exactly what the client sends.
func (x *vRouting) pass(sni string, alpn []string, frag string, be int) {
	data := vHello(sni, alpn)
	n := []int{0, 1, 100, 20000, 70000}[x.rnd.Intn(5)]
	tail := make([]byte, n)
	rand.Read(tail)
	data = append(data, tail...)
	c, err := vDialTCP(vDial{addr: x.px.addr})
	vMust(err)
	defer c.Close()
	c.SetDeadline(time.Now().Add(30 * time.Second))
	if _, err := vWriteCut(c, data, frag); err != nil {
		vFail("write: %v", err)
	}
	c.(*net.TCPConn).CloseWrite()
	want := append([]byte(fmt.Sprintf("HELLO B%d\n", be)), data...)
	got, err := io.ReadAll(c)
	if err != nil || !bytes.Equal(got, want) {
		vFail("%d bytes sent through backend B%d; %d bytes returned, equal: %v, %v: %.60q", len(data), be, len(got), bytes.Equal(got, want), err, got)
	}
}

func (x *vRouting) quic(sni string, alpn []string, res string, be int, proto string) {
	if len(alpn) == 0 {
		// quic-go's client offers no protocol.
		x.r.stat("quic.noproto")
	}
	d := vDial{addr: x.px.addr, sni: sni, alpn: alpn}
	qc, done, err := vDialQUIC(d)
	switch res {
	case "refused":
		if k := vErrKind(err); k != "unrecognized name" {
			vFail("expected an unrecognized_name alert, got %q (%v)", k, err)
		}
		return
	case "noalpn":
		if k := vErrKind(err); k != "no application protocol" {
			vFail("expected a no_application_protocol alert, got %q (%v)", k, err)
		}
		return
	}
	if err != nil {
		vFail("QUIC connection failed: %v", err)
	}
	defer done()
	defer qc.CloseWithError(0, "")
	if p := qc.ConnectionState().TLS.NegotiatedProtocol; p != proto {
		vFail("negotiated protocol is %q, expected %q", p, proto)
	}
	id := fmt.Sprintf("B%d", be)
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	mode := x.mode[be-1]
	if proto == "h3" {
		tr := &http3.RoundTripper{DisableCompression: true, Dial: func(context.Context, string, *tls.Config, *quic.Config) (quic.EarlyConnection, error) {
			return qc.(quic.EarlyConnection), nil
		}}
		defer tr.Close()
		req := vMust1(http.NewRequestWithContext(ctx, "GET", "https://"+sni+"/", nil))
		resp, err := tr.RoundTrip(req)
		if err != nil {
			vFail("HTTP/3 request failed: %v", err)
		}
		body, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		if resp.StatusCode != 200 || string(body) != "HELLO "+id+"\n" {
			vFail("unexpected response %d %q, expected backend %s", resp.StatusCode, body, id)
		}
		return
	}
	s, err := qc.OpenStreamSync(ctx)
	if err != nil {
		vFail("stream: %v", err)
	}
	if mode == "HTTP" {
		s.SetDeadline(time.Now().Add(20 * time.Second))
		req := vMust1(http.NewRequest("GET", "https://"+sni+"/", nil))
		if err := req.Write(s); err != nil {
			vFail("write: %v", err)
		}
		resp, err := http.ReadResponse(bufio.NewReader(s), req)
		if err != nil {
			vFail("HTTP request over a QUIC stream failed: %v", err)
		}
		body, _ := io.ReadAll(resp.Body)
		if resp.StatusCode != 200 || string(body) != "HELLO "+id+"\n" {
			vFail("unexpected response %d %q, expected backend %s", resp.StatusCode, body, id)
		}
		return
	}
	x.greetEcho(s, id)
	if mode == "TLS" || mode == "QUIC" {
		rec := x.be[be-1].conn(-1)
		rec.mu.Lock()
		defer rec.mu.Unlock()
		if rec.alpn != proto {
			vFail("the backend negotiated %q, the client %q", rec.alpn, proto)
		}
	}
}

// odd sends something that isn't a ClientHello for which a backend can be chosen.
func (x *vRouting) odd(what, sni string) {
	h := vHello(sni, []string{"x", "h2"})
	var data []byte
	closeWrite := false
	switch what {
	case "http":
		data = []byte("GET / HTTP/1.1\r\nHost: " + sni + "\r\n\r\n")
	case "sslv2":
		data = append([]byte{0x80, byte(len(h)), 0x01, 0x03, 0x03}, h[5:]...)
	case "split": // the ClientHello in two TLS records
		k := 5 + 20
		n := len(h) - k
		data = append([]byte{h[0], h[1], h[2], 0, 20}, h[5:k]...)
		data = append(data, h[0], h[1], h[2], byte(n>>8), byte(n))
		data = append(data, h[k:]...)
	case "oversize":
		data = append([]byte{}, h...)
		data[3], data[4] = 0x40, 0x01
		data = append(data, make([]byte, 17000)...)
	case "empty":
		data = append([]byte{0x16, 3, 1, 0, 0}, h...)
	case "truncated":
		data = h[:len(h)-1]
		closeWrite = true
	case "notclienthello":
		data = append([]byte{}, h...)
		data[5] = 2
	case "twonames":
		data = vHelloTwice(h, sni)
	case "badext": // the length of the extensions is wrong
		data = append([]byte{}, h...)
		i := bytes.Index(data, append([]byte{0, 0}, 0, byte(len(sni)+5), 0, byte(len(sni)+3), 0, 0, byte(len(sni))))
		if i < 0 {
			vHarness("no SNI extension")
		}
		data[i+5]++ // server_name_list is longer than its extension
	}
	c, err := vDialTCP(vDial{addr: x.px.addr})
	vMust(err)
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	c.Write(data)
	if closeWrite {
		c.(*net.TCPConn).CloseWrite()
	}
	got, err := io.ReadAll(c)
	if vErrKind(err) == "timeout" {
		vFail("the connection stays open after %s", what)
	}
	if bytes.Contains(got, []byte("HELLO")) {
		vFail("a backend answered: %q", got)
	}
}

// vHelloTwice adds a second name to the server name list.
func vHelloTwice(h []byte, sni string) []byte {
	i := bytes.Index(h, append([]byte{0, 0}, 0, byte(len(sni)+5), 0, byte(len(sni)+3), 0, 0, byte(len(sni))))
	if i < 0 {
		vHarness("no SNI extension")
	}
	add := append([]byte{0, 0, byte(len(sni))}, sni...)
	e := i + 4 + len(sni) + 5
	out := append([]byte{}, h[:e]...)
	out = append(out, add...)
	out = append(out, h[e:]...)
	put := func(o, n int) { // 16-bit length at offset o grows by n
		v := int(out[o])<<8 | int(out[o+1])
		v += n
		out[o], out[o+1] = byte(v>>8), byte(v)
	}
	put(i+2, len(add))
	put(i+4, len(add))
	put(3, len(add))
	put(7, len(add)) // the low 16 bits of the handshake message's length
	// extensions length: after session id, cipher suites and compression methods
	o := 5 + 4 + 34
	o += 1 + int(out[o])
	o += 2 + int(out[o])<<8 + int(out[o+1])
	o += 1 + int(out[o])
	put(o, len(add))
	return out
}
