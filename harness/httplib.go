package PKG_test

// An HTTP client that sends request targets and headers as given, over HTTP/1.1, HTTP/2 or HTTP/3,
// and keeps its connection.

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"strings"
	"time"

	"github.com/quic-go/quic-go/http3"
	"golang.org/x/net/http2"
)

type vClient struct {
	d       vDial
	proto   string        // h1, h2, h3
	chunked bool          // the length of the next bodies isn't declared
	quit    time.Duration // if not 0, leave that long after the headers of the answer

	c  *tls.Conn
	br *bufio.Reader
	rt http.RoundTripper
	cl []func()
}

func (c *vClient) close() {
	for _, f := range c.cl {
		f()
	}
	c.cl, c.c, c.br, c.rt = nil, nil, nil, nil
}

func (c *vClient) connect() error {
	d := c.d
	switch c.proto {
	case "h1":
		d.alpn = []string{"http/1.1"}
	case "h2":
		d.alpn = []string{"h2"}
	case "h3":
		d.alpn = []string{"h3"}
		qc, done, err := vDialQUIC(d)
		if err != nil {
			return err
		}
		c.rt = (&http3.Transport{DisableCompression: true}).NewClientConn(qc)
		c.cl = append(c.cl, func() { qc.CloseWithError(0, ""); done() })
		return nil
	}
	tc, err := vDialTLS(d)
	if err != nil {
		return err
	}
	c.c = tc
	c.cl = append(c.cl, func() { tc.Close() })
	if c.proto == "h2" {
		t := &http2.Transport{DisableCompression: true}
		cc, err := t.NewClientConn(tc)
		if err != nil {
			return err
		}
		c.rt = cc
	} else {
		c.br = bufio.NewReader(tc)
	}
	return nil
}

// try sends one request; the headers are pairs.
func (c *vClient) try(method, target, host, body string, hdr ...string) (*vResp, error) {
	if c.c == nil && c.rt == nil {
		if err := c.connect(); err != nil {
			return nil, err
		}
	}
	var resp *http.Response
	if c.proto == "h1" {
		var b bytes.Buffer
		fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\n", method, target, host)
		for i := 0; i+1 < len(hdr); i += 2 {
			fmt.Fprintf(&b, "%s: %s\r\n", hdr[i], hdr[i+1])
		}
		if body != "" && c.chunked {
			n := len(body) / 2
			fmt.Fprintf(&b, "Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n%x\r\n%s\r\n0\r\n\r\n", n, body[:n], len(body)-n, body[n:])
		} else if body != "" {
			fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(body), body)
		} else {
			b.WriteString("\r\n")
		}
		c.c.SetDeadline(time.Now().Add(30 * time.Second))
		defer func() {
			if c.c != nil {
				c.c.SetDeadline(time.Time{})
			}
		}()
		if _, err := c.c.Write(b.Bytes()); err != nil {
			c.close()
			return nil, err
		}
		r, err := http.ReadResponse(c.br, &http.Request{Method: method})
		if err != nil {
			c.close()
			return nil, err
		}
		resp = r
	} else {
		h := strings.Split(host, ":")[0]
		u := &url.URL{Scheme: "https", Host: h, Opaque: target}
		if v, err := url.ParseRequestURI(target); err == nil && v.Scheme == "" && v.RequestURI() == target {
			v.Scheme, v.Host = "https", h
			u = v
		}
		req := &http.Request{Method: method, URL: u, Host: host, Header: http.Header{}}
		for i := 0; i+1 < len(hdr); i += 2 {
			req.Header.Add(hdr[i], hdr[i+1])
		}
		if body != "" {
			req.Body = io.NopCloser(strings.NewReader(body))
			req.ContentLength = int64(len(body))
			if c.chunked {
				req.ContentLength = -1
			}
		}
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		defer cancel()
		r, err := c.rt.RoundTrip(req.WithContext(ctx))
		if err != nil {
			c.close()
			return nil, err
		}
		resp = r
	}
	if c.quit > 0 {
		time.Sleep(c.quit)
		c.close()
		resp.Body.Close()
		return nil, nil
	}
	b, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		c.close()
		return nil, err
	}
	if c.proto == "h1" && resp.Close {
		c.close()
	}
	return &vResp{resp.StatusCode, resp.Header, string(b), resp.Trailer}, nil
}

// do is try for requests that must get an answer. A connection that was idle may have been closed.
func (c *vClient) do(method, target, host, body string, hdr ...string) *vResp {
	kept := c.c != nil || c.rt != nil
	r, err := c.try(method, target, host, body, hdr...)
	if err != nil && kept {
		vDebug("retry %s %s %s: %v", c.proto, method, target, err)
		r, err = c.try(method, target, host, body, hdr...)
	}
	if err != nil {
		vFail("%s %s %s (%s): %v", c.proto, method, target, host, err)
	}
	return r
}

func vDebug(format string, args ...any) {
	if os.Getenv("VERIF_LOG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", args...)
	}
}
