package PKG_test

// Black-box harness for the whole proxy: real proxies, real clients over TCP and QUIC, and recording backends.

import (
	"bufio"
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"log"
	"log/slog"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/pires/go-proxyproto"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"
	"golang.org/x/net/http2"
)

func init() {
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(io.Discard)
	}
}

func vPtr[T any](v T) *T { return &v }

// ---------------------------------------------------------------------------------------------
// Certificates
// ---------------------------------------------------------------------------------------------

type vCA struct {
	key  crypto.Signer
	cert *x509.Certificate
	pem  string
}

var vSerial int64 = 1000

func vKey() crypto.Signer {
	return vMust1(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
}

func vNewCA(name string) *vCA {
	vSerial++
	key := vKey()
	t := &x509.Certificate{
		SerialNumber:          big.NewInt(vSerial),
		Subject:               pkix.Name{CommonName: name},
		NotBefore:             time.Now().Add(-time.Hour),
		NotAfter:              time.Now().Add(20 * 365 * 24 * time.Hour),
		IsCA:                  true,
		BasicConstraintsValid: true,
		KeyUsage:              x509.KeyUsageCertSign | x509.KeyUsageCRLSign,
	}
	der := vMust1(x509.CreateCertificate(rand.Reader, t, t, key.Public(), key))
	return &vCA{key: key, cert: vMust1(x509.ParseCertificate(der)), pem: vPEM(der)}
}

func vPEM(der []byte) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
}

type vLeaf struct {
	cn     string
	org    string
	dns    []string
	emails []string
	uris   []string
	from   time.Time
	to     time.Time
	ocsp   []string
	eku    []x509.ExtKeyUsage
}

func (ca *vCA) leaf(l vLeaf) tls.Certificate {
	vSerial++
	key := vKey()
	t := &x509.Certificate{
		SerialNumber:   big.NewInt(vSerial),
		Subject:        pkix.Name{CommonName: l.cn},
		NotBefore:      time.Now().Add(-time.Hour),
		NotAfter:       time.Now().Add(5 * 365 * 24 * time.Hour),
		DNSNames:       l.dns,
		EmailAddresses: l.emails,
		OCSPServer:     l.ocsp,
		KeyUsage:       x509.KeyUsageDigitalSignature,
		ExtKeyUsage:    l.eku,
	}
	if l.cn == "" {
		t.Subject = pkix.Name{}
	}
	if l.org != "" {
		t.Subject.Organization = []string{l.org}
	}
	if t.ExtKeyUsage == nil {
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}
	}
	if !l.from.IsZero() {
		t.NotBefore = l.from
	}
	if !l.to.IsZero() {
		t.NotAfter = l.to
	}
	for _, u := range l.uris {
		t.URIs = append(t.URIs, vMust1(url.Parse(u)))
	}
	der := vMust1(x509.CreateCertificate(rand.Reader, t, ca.cert, key.Public(), ca.key))
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key, Leaf: vMust1(x509.ParseCertificate(der))}
}

func (ca *vCA) pool() *x509.CertPool {
	p := x509.NewCertPool()
	p.AddCert(ca.cert)
	return p
}

// vServerCA signs the certificates of the proxies and, unless stated otherwise, of the backends.
var vServerCA = sync.OnceValue(func() *vCA { return vNewCA("verif server CA") })

// vProxyCert is a certificate and key file that the proxies use for all names.
var vProxyCert = sync.OnceValues(func() (string, string) {
	d := vTempDir()
	c := vServerCA().leaf(vLeaf{cn: "proxy", dns: []string{"*.test", "*.example.test", "*.a.test", "proxy.test"}})
	kf, cf := filepath.Join(d, "key.pem"), filepath.Join(d, "cert.pem")
	kb := vMust1(x509.MarshalPKCS8PrivateKey(c.PrivateKey))
	vMust(os.WriteFile(kf, pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb}), 0o600))
	vMust(os.WriteFile(cf, []byte(vPEM(c.Certificate[0])), 0o600))
	return kf, cf
})

// ---------------------------------------------------------------------------------------------
// Proxies
// ---------------------------------------------------------------------------------------------

type vProxy struct {
	p      *proxy.Proxy
	addr   string
	dir    string
	cancel func()
	done   bool
}

var vPortSeq atomic.Int64

// vFreeAddr picks a port outside the range the kernel hands out, from a part of it that belongs
// to this process's shard, so that nothing else takes the port before it is used.
func vFreeAddr(ip string) string {
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	base, n := 10000+(shard%9)*2500, 2500
	for i := 0; i < n; i++ {
		port := base + (os.Getpid()*37+int(vPortSeq.Add(1)))%n
		a := net.TCPAddr{IP: net.ParseIP(ip), Port: port}
		l, err := net.ListenTCP("tcp", &a)
		if err != nil {
			continue
		}
		u, err := net.ListenUDP("udp", &net.UDPAddr{IP: a.IP, Port: a.Port})
		l.Close()
		if err != nil {
			continue
		}
		u.Close()
		return a.String()
	}
	vHarness("no free port")
	return ""
}

// vFillConfig sets what the harness needs and the specification doesn't talk about.
func vFillConfig(cfg *proxy.Config) {
	kf, cf := vProxyCert()
	if cfg.CacheDir == "" {
		cfg.CacheDir = vTempDir()
	}
	if cfg.EnableQUIC == nil {
		cfg.EnableQUIC = vPtr(false)
	}
	if cfg.MaxOpen == 0 {
		cfg.MaxOpen = 1000
	}
	cfg.RevokeUnusedCertificates = vPtr(false)
	if cfg.TLSCertificates == nil {
		cfg.TLSCertificates = []*proxy.TLSCertificate{{ServerNames: []string{"*"}, KeyFile: kf, CertFile: cf}}
	}
	for _, be := range cfg.Backends {
		if be.ForwardRateLimit == 0 {
			be.ForwardRateLimit = 1000000
		}
		if be.ForwardTimeout == 0 {
			be.ForwardTimeout = 10 * time.Second
		}
	}
}

func vNewProxy(cfg *proxy.Config) (*vProxy, error) {
	vFillConfig(cfg)
	own := cfg.TLSAddr == ""
	for try := 0; ; try++ {
		if own {
			cfg.TLSAddr = vFreeAddr("127.0.0.1")
		}
		p, err := proxy.New(cfg, []byte("passphrase"))
		if err != nil {
			return nil, err
		}
		ctx, cancel := context.WithCancel(context.Background())
		v := &vProxy{p: p, addr: cfg.TLSAddr, dir: cfg.CacheDir, cancel: cancel}
		if err := p.Start(ctx); err != nil {
			cancel()
			if try < 5 && strings.Contains(err.Error(), "address already in use") {
				continue
			}
			vHarness("Start: %v", err)
		}
		return v, nil
	}
}

func (v *vProxy) stop() {
	if !v.done {
		v.done = true
		v.p.Stop()
		v.cancel()
	}
}

// ---------------------------------------------------------------------------------------------
// Recording backends
// ---------------------------------------------------------------------------------------------

type vConnRec struct {
	n      int
	from   string // socket address of the peer
	hdr    *proxyproto.Header
	hdrErr error
	sni    string
	alpn   string
	offer  []string
	certs  []*x509.Certificate

	mu     sync.Mutex
	data   bytes.Buffer
	eof    bool
	err    error
	conn   net.Conn
	qc     quic.Connection
	tlsOK  bool
	reqs   int
	doneCh chan struct{}
}

type vBackend struct {
	id   string
	kind string
	addr string

	mu    sync.Mutex
	conns []*vConnRec
	reqs  []*vReqRec
	bytes int

	ln      net.Listener
	qln     *quic.Listener
	tlsConf *tls.Config
	opts    vBackendOpts
	handler func(w http.ResponseWriter, req *http.Request)
	srv     *http.Server
}

type vReqRec struct {
	proto  string
	method string
	host   string
	uri    string
	header http.Header
	body   []byte
	conn   *vConnRec
}

type vBackendOpts struct {
	tls     *tls.Config // terminate TLS
	pp      bool        // expect a PROXY header
	handler func(w http.ResponseWriter, req *http.Request)
	script  func(b *vBackend, rec *vConnRec, c net.Conn) // for kind "raw"
	addr    string
}

type vConnKey struct{}

// vNewBackend starts a backend server. Kinds:
//
//	"line": greets with "HELLO id\n", then echoes everything.
//	"raw":  runs opts.script.
//	"http": an HTTP server that describes itself and the request.
//	"quic": greets and echoes on every stream, echoes datagrams.
func vNewBackend(id, kind string, opts vBackendOpts) *vBackend {
	b := &vBackend{id: id, kind: kind, opts: opts, tlsConf: opts.tls, handler: opts.handler}
	addr := opts.addr
	if addr == "" {
		addr = "127.0.0.1:0"
	}
	if kind == "quic" {
		tc := opts.tls
		b.qln = vMust1(quic.ListenAddr(addr, tc, &quic.Config{EnableDatagrams: true, MaxIncomingStreams: 1000, MaxIncomingUniStreams: 1000}))
		b.addr = b.qln.Addr().String()
		go b.serveQUIC()
		return b
	}
	var err error
	for i := 0; i < 50; i++ {
		b.ln, err = net.Listen("tcp", addr)
		if err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	vMust(err)
	b.addr = b.ln.Addr().String()
	if kind == "http" {
		l := net.Listener(&vRecListener{b})
		b.srv = &http.Server{
			Handler: http.HandlerFunc(b.serveHTTP),
			ConnContext: func(ctx context.Context, c net.Conn) context.Context {
				if tc, ok := c.(*tls.Conn); ok {
					c = tc.NetConn()
				}
				return context.WithValue(ctx, vConnKey{}, c.(*vRecConn).rec)
			},
			TLSConfig: opts.tls,
		}
		if opts.tls == nil {
			p := new(http.Protocols)
			p.SetHTTP1(true)
			p.SetUnencryptedHTTP2(true)
			b.srv.Protocols = p
			go b.srv.Serve(l)
		} else {
			go b.srv.ServeTLS(l, "", "")
		}
		return b
	}
	go func() {
		for {
			c, err := b.ln.Accept()
			if err != nil {
				return
			}
			go b.serveConn(c)
		}
	}()
	return b
}

func (b *vBackend) close() {
	if b.ln != nil {
		b.ln.Close()
	}
	if b.qln != nil {
		b.closeConns()
		b.qln.Close()
	}
	if b.srv != nil {
		b.srv.Close()
	}
	b.closeConns()
}

func (b *vBackend) closeConns() {
	b.mu.Lock()
	conns := append([]*vConnRec{}, b.conns...)
	b.mu.Unlock()
	for _, c := range conns {
		if c.conn != nil {
			c.conn.Close()
		}
		if c.qc != nil {
			c.qc.CloseWithError(0x100, "")
		}
	}
}

// newConn records a connection, having read the PROXY header if one is expected.
func (b *vBackend) newConn(c net.Conn) (*vConnRec, net.Conn) {
	rec := &vConnRec{from: c.RemoteAddr().String(), conn: c, doneCh: make(chan struct{})}
	b.mu.Lock()
	rec.n = len(b.conns)
	b.conns = append(b.conns, rec)
	b.mu.Unlock()
	if b.opts.pp {
		br := bufio.NewReader(c)
		c.SetReadDeadline(time.Now().Add(20 * time.Second))
		rec.hdr, rec.hdrErr = proxyproto.Read(br)
		c.SetReadDeadline(time.Time{})
		c = &vBufConn{Conn: c, r: br}
	}
	return rec, c
}

type vBufConn struct {
	net.Conn
	r *bufio.Reader
}

func (c *vBufConn) Read(b []byte) (int, error) { return c.r.Read(b) }
func (c *vBufConn) CloseWrite() error {
	if cw, ok := c.Conn.(interface{ CloseWrite() error }); ok {
		return cw.CloseWrite()
	}
	return errors.New("no CloseWrite")
}

type vRecListener struct{ b *vBackend }
type vRecConn struct {
	net.Conn
	rec *vConnRec
}

func (l *vRecListener) Accept() (net.Conn, error) {
	c, err := l.b.ln.Accept()
	if err != nil {
		return nil, err
	}
	rec, cc := l.b.newConn(c)
	return &vRecConn{cc, rec}, nil
}
func (l *vRecListener) Close() error   { return l.b.ln.Close() }
func (l *vRecListener) Addr() net.Addr { return l.b.ln.Addr() }

func (b *vBackend) serveHTTP(w http.ResponseWriter, req *http.Request) {
	body, _ := io.ReadAll(req.Body)
	r := &vReqRec{proto: req.Proto, method: req.Method, host: req.Host, uri: req.RequestURI, header: req.Header.Clone(), body: body}
	r.conn, _ = req.Context().Value(vConnKey{}).(*vConnRec)
	b.mu.Lock()
	b.reqs = append(b.reqs, r)
	b.mu.Unlock()
	w.Header().Set("X-Backend", b.id)
	if b.handler != nil {
		b.handler(w, req)
		return
	}
	fmt.Fprintf(w, "HELLO %s\n", b.id)
}

func (b *vBackend) requests() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.reqs)
}

func (b *vBackend) lastReq() *vReqRec {
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(b.reqs) == 0 {
		return nil
	}
	return b.reqs[len(b.reqs)-1]
}

func (b *vBackend) numConns() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.conns)
}

func (b *vBackend) conn(i int) *vConnRec {
	b.mu.Lock()
	defer b.mu.Unlock()
	if i < 0 {
		i += len(b.conns)
	}
	if i < 0 || i >= len(b.conns) {
		return nil
	}
	return b.conns[i]
}

func (b *vBackend) totalBytes() int {
	b.mu.Lock()
	conns := append([]*vConnRec{}, b.conns...)
	b.mu.Unlock()
	n := 0
	for _, c := range conns {
		c.mu.Lock()
		n += c.data.Len()
		c.mu.Unlock()
	}
	return n
}

func (b *vBackend) serveConn(c net.Conn) {
	rec, cc := b.newConn(c)
	defer close(rec.doneCh)
	if b.tlsConf != nil {
		tc := b.tlsConf.Clone()
		tc.GetConfigForClient = func(h *tls.ClientHelloInfo) (*tls.Config, error) {
			rec.mu.Lock()
			rec.sni, rec.offer = h.ServerName, h.SupportedProtos
			rec.mu.Unlock()
			return nil, nil
		}
		t := tls.Server(cc, tc)
		if err := t.Handshake(); err != nil {
			rec.mu.Lock()
			rec.err = err
			rec.mu.Unlock()
			c.Close()
			return
		}
		cs := t.ConnectionState()
		rec.mu.Lock()
		rec.tlsOK, rec.alpn, rec.certs = true, cs.NegotiatedProtocol, cs.PeerCertificates
		rec.mu.Unlock()
		cc = t
	}
	if b.opts.script != nil {
		b.opts.script(b, rec, cc)
		return
	}
	if _, err := fmt.Fprintf(cc, "HELLO %s\n", b.id); err != nil {
		c.Close()
		return
	}
	buf := make([]byte, 65536)
	for {
		n, err := cc.Read(buf)
		rec.mu.Lock()
		rec.data.Write(buf[:n])
		if err != nil {
			rec.eof, rec.err = err == io.EOF, err
		}
		rec.mu.Unlock()
		if n > 0 {
			if _, werr := cc.Write(buf[:n]); werr != nil {
				break
			}
		}
		if err != nil {
			break
		}
	}
	cc.Close()
	c.Close()
}

func (b *vBackend) serveQUIC() {
	for {
		qc, err := b.qln.Accept(context.Background())
		if err != nil {
			return
		}
		rec := &vConnRec{from: qc.RemoteAddr().String(), qc: qc, doneCh: make(chan struct{})}
		cs := qc.ConnectionState().TLS
		rec.tlsOK, rec.alpn, rec.sni, rec.certs = true, cs.NegotiatedProtocol, cs.ServerName, cs.PeerCertificates
		b.mu.Lock()
		rec.n = len(b.conns)
		b.conns = append(b.conns, rec)
		b.mu.Unlock()
		if rec.alpn == "h3" {
			srv := &http3.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				b.serveHTTP(w, req.WithContext(context.WithValue(req.Context(), vConnKey{}, rec)))
			}), Logger: slog.New(slog.NewTextHandler(io.Discard, nil))}
			go srv.ServeQUICConn(qc)
			continue
		}
		go func() {
			for {
				s, err := qc.AcceptStream(context.Background())
				if err != nil {
					return
				}
				go func() {
					fmt.Fprintf(s, "HELLO %s\n", b.id)
					io.Copy(io.MultiWriter(s, &vRecWriter{rec}), s)
					s.Close()
				}()
			}
		}()
		go func() {
			for {
				s, err := qc.AcceptUniStream(context.Background())
				if err != nil {
					return
				}
				go func() {
					out, err := qc.OpenUniStreamSync(context.Background())
					if err != nil {
						return
					}
					fmt.Fprintf(out, "HELLO %s\n", b.id)
					io.Copy(io.MultiWriter(out, &vRecWriter{rec}), s)
					out.Close()
				}()
			}
		}()
		go func() {
			for {
				d, err := qc.ReceiveDatagram(context.Background())
				if err != nil {
					return
				}
				qc.SendDatagram(append([]byte(b.id+":"), d...))
			}
		}()
	}
}

type vRecWriter struct{ rec *vConnRec }

func (w *vRecWriter) Write(b []byte) (int, error) {
	w.rec.mu.Lock()
	defer w.rec.mu.Unlock()
	return w.rec.data.Write(b)
}

// vBackendTLS is a TLS configuration for backends.
func vBackendTLS(names []string, protos ...string) *tls.Config {
	c := vServerCA().leaf(vLeaf{cn: names[0], dns: names})
	return &tls.Config{Certificates: []tls.Certificate{c}, NextProtos: protos}
}

// ---------------------------------------------------------------------------------------------
// Clients
// ---------------------------------------------------------------------------------------------

type vDial struct {
	addr   string
	src    string // local IP address
	hdr    []byte // sent before anything else (PROXY header)
	sni    string
	alpn   []string
	cert   *tls.Certificate
	frag   string // how the first flight is cut: "", "bytes", "two"
	max    uint16
	min    uint16
	cache  tls.ClientSessionCache
	nosend bool
}

func vDialTCP(d vDial) (net.Conn, error) {
	nd := net.Dialer{Timeout: 10 * time.Second}
	if d.src != "" {
		nd.LocalAddr = &net.TCPAddr{IP: net.ParseIP(d.src)}
	}
	c, err := nd.Dial("tcp", d.addr)
	if err != nil {
		return nil, err
	}
	if len(d.hdr) > 0 {
		if _, err := c.Write(d.hdr); err != nil {
			c.Close()
			return nil, err
		}
	}
	return c, nil
}

// vFragConn cuts what is written first into pieces.
type vFragConn struct {
	net.Conn
	how  string
	done bool
}

func (c *vFragConn) Write(b []byte) (int, error) {
	if c.done || c.how == "" {
		return c.Conn.Write(b)
	}
	c.done = true
	return vWriteCut(c.Conn, b, c.how)
}

func (c *vFragConn) CloseWrite() error { return c.Conn.(*net.TCPConn).CloseWrite() }

func vWriteCut(w io.Writer, b []byte, how string) (int, error) {
	var cuts []int
	switch how {
	case "bytes":
		cuts = []int{1, 2, 4, 5, 6, 10, 44, len(b) - 1}
	case "two":
		cuts = []int{5 + (len(b)-5)/2}
	case "hdr":
		cuts = []int{3}
	}
	n, last := 0, 0
	for _, c := range append(cuts, len(b)) {
		if c <= last || c > len(b) {
			continue
		}
		m, err := w.Write(b[last:c])
		n += m
		if err != nil {
			return n, err
		}
		last = c
		time.Sleep(time.Millisecond)
	}
	return n, nil
}

func (d vDial) tlsConfig() *tls.Config {
	tc := &tls.Config{
		InsecureSkipVerify: true,
		ServerName:         d.sni,
		NextProtos:         d.alpn,
		MinVersion:         d.min,
		MaxVersion:         d.max,
		ClientSessionCache: d.cache,
	}
	if d.cert != nil {
		tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return d.cert, nil }
	}
	return tc
}

// vDialTLS connects and completes the client's side of the handshake.
func vDialTLS(d vDial) (*tls.Conn, error) {
	c, err := vDialTCP(d)
	if err != nil {
		return nil, err
	}
	c.SetDeadline(time.Now().Add(30 * time.Second))
	t := tls.Client(&vFragConn{Conn: c, how: d.frag}, d.tlsConfig())
	if err := t.Handshake(); err != nil {
		c.Close()
		return nil, err
	}
	c.SetDeadline(time.Time{})
	return t, nil
}

// vErrKind names the reason of a failed connection.
func vErrKind(err error) string {
	if err == nil {
		return "none"
	}
	var te *quic.TransportError
	if errors.As(err, &te) {
		if te.ErrorCode.IsCryptoError() {
			return strings.TrimPrefix(tls.AlertError(uint8(te.ErrorCode&0xff)).Error(), "tls: ")
		}
		return "quic:" + te.ErrorCode.String()
	}
	var ae *quic.ApplicationError
	if errors.As(err, &ae) {
		return fmt.Sprintf("quicapp:%x", uint64(ae.ErrorCode))
	}
	s := err.Error()
	if i := strings.Index(s, "remote error: tls: "); i >= 0 {
		return s[i+len("remote error: tls: "):]
	}
	switch {
	case errors.Is(err, os.ErrDeadlineExceeded), errors.Is(err, context.DeadlineExceeded):
		return "timeout"
	}
	return "closed"
}

// vDialQUIC makes a QUIC connection.
func vDialQUIC(d vDial) (quic.Connection, func(), error) {
	tc := d.tlsConfig()
	tc.MinVersion = tls.VersionTLS13
	src := d.src
	if src == "" {
		src = "127.0.0.1"
	}
	pc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.ParseIP(src)})
	vMust(err)
	tr := &quic.Transport{Conn: pc}
	done := func() { tr.Close(); pc.Close() }
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	qc, err := tr.Dial(ctx, vMust1(net.ResolveUDPAddr("udp", d.addr)), tc, &quic.Config{EnableDatagrams: true})
	if err != nil {
		done()
		return nil, nil, err
	}
	return qc, done, nil
}

// vHTTPOnce sends one request over an established connection.
func vHTTPOnce(c *tls.Conn, req *http.Request) (*http.Response, []byte, error) {
	c.SetDeadline(time.Now().Add(30 * time.Second))
	defer c.SetDeadline(time.Time{})
	var resp *http.Response
	var err error
	if c.ConnectionState().NegotiatedProtocol == "h2" {
		t := &http2.Transport{DisableCompression: true}
		cc, err := t.NewClientConn(c)
		if err != nil {
			return nil, nil, err
		}
		resp, err = cc.RoundTrip(req)
		if err != nil {
			return nil, nil, err
		}
	} else {
		if err := req.Write(c); err != nil {
			return nil, nil, err
		}
		resp, err = http.ReadResponse(bufio.NewReader(c), req)
		if err != nil {
			return nil, nil, err
		}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp, b, err
}

func vReadLine(r io.Reader, d time.Duration) (string, error) {
	if c, ok := r.(interface{ SetReadDeadline(time.Time) error }); ok {
		c.SetReadDeadline(time.Now().Add(d))
		defer c.SetReadDeadline(time.Time{})
	}
	var out []byte
	buf := make([]byte, 1)
	for {
		n, err := r.Read(buf)
		if n == 1 {
			if buf[0] == '\n' {
				return string(out), nil
			}
			out = append(out, buf[0])
			continue
		}
		if err != nil {
			return string(out), err
		}
	}
}

// vHello returns the bytes of a real ClientHello record.
func vHello(sni string, alpn []string) []byte {
	a, b := net.Pipe()
	defer a.Close()
	go func() {
		tls.Client(a, &tls.Config{InsecureSkipVerify: true, ServerName: sni, NextProtos: alpn}).Handshake()
		a.Close()
	}()
	b.SetDeadline(time.Now().Add(20 * time.Second))
	h := make([]byte, 5)
	_, err := io.ReadFull(b, h)
	vMust(err)
	body := make([]byte, int(h[3])<<8|int(h[4]))
	_, err = io.ReadFull(b, body)
	vMust(err)
	b.Close()
	return append(h, body...)
}
