package PKG

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	"github.com/c2FmZQ/storage/crypto"
	"golang.org/x/crypto/ocsp"
)

type vOCSPCert struct {
	*x509.Certificate
	key *ecdsa.PrivateKey
}

var vOCSPSerial int64 = 1000

func vOCSPMake(cn string, parent *vOCSPCert, key *ecdsa.PrivateKey, f func(*x509.Certificate)) *vOCSPCert {
	if key == nil {
		key = vMust1(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	}
	vOCSPSerial++
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(vOCSPSerial), Subject: pkix.Name{CommonName: cn},
		NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().AddDate(300, 0, 0),
		KeyUsage: x509.KeyUsageDigitalSignature, BasicConstraintsValid: true,
	}
	if f != nil {
		f(tmpl)
	}
	p, pk := tmpl, key
	if parent != nil {
		p, pk = parent.Certificate, parent.key
	}
	der := vMust1(x509.CreateCertificate(rand.Reader, tmpl, p, key.Public(), pk))
	return &vOCSPCert{vMust1(x509.ParseCertificate(der)), key}
}

func TestVerifOCSP(t *testing.T) {
	var mu sync.Mutex
	answers := map[string][]byte{} // path/serial -> body; nil: hang up
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		b, _ := io.ReadAll(req.Body)
		q, err := ocsp.ParseRequest(b)
		if err != nil {
			http.Error(w, "bad request", 400)
			return
		}
		mu.Lock()
		a, ok := answers[req.URL.Path+"/"+q.SerialNumber.String()]
		mu.Unlock()
		if !ok {
			http.Error(w, "no such certificate", 404)
			return
		}
		if a == nil {
			panic(http.ErrAbortHandler)
		}
		w.Header().Set("content-type", "application/ocsp-response")
		w.Write(a)
	}))
	srv.Config.ErrorLog = nil
	defer srv.Close()
	ca := func(c *x509.Certificate) { c.IsCA = true; c.KeyUsage |= x509.KeyUsageCertSign }
	at := func(n ...string) func(*x509.Certificate) {
		return func(c *x509.Certificate) {
			for _, s := range n {
				c.OCSPServer = append(c.OCSPServer, srv.URL+"/"+s)
			}
		}
	}
	both := func(fs ...func(*x509.Certificate)) func(*x509.Certificate) {
		return func(c *x509.Certificate) {
			for _, f := range fs {
				f(c)
			}
		}
	}
	eku := func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageOCSPSigning} }
	client := func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} }
	old := func(c *x509.Certificate) { c.NotAfter = time.Now().Add(-time.Hour) }

	cs := map[string]*vOCSPCert{}
	cs["R"] = vOCSPMake("root", nil, nil, ca)
	cs["I"] = vOCSPMake("intermediate", cs["R"], nil, both(ca, at("s1")))
	cs["J"] = vOCSPMake("intermediate", cs["R"], cs["I"].key, ca)
	cs["L3"] = vOCSPMake("L3", cs["I"], nil, client)
	cs["S"] = vOCSPMake("self", nil, nil, both(ca, at("s1")))
	foreign := vOCSPMake("intermediate", nil, nil, ca) // somebody else's CA of the same name
	// The issuers and those who act in their name.
	type deputies struct{ issuer, delegate, peer, exp *vOCSPCert }
	dep := map[string]deputies{}
	for _, n := range []string{"I", "R", "S"} {
		dep[n] = deputies{cs[n], vOCSPMake("ocsp", cs[n], nil, eku), vOCSPMake("peer", cs[n], nil, client), vOCSPMake("oldocsp", cs[n], nil, both(eku, old))}
	}
	fdel := vOCSPMake("ocsp", foreign, nil, eku)
	issuerOf := func(n string) deputies {
		switch n {
		case "I":
			return dep["R"]
		case "S":
			return dep["S"]
		}
		return dep["I"]
	}
	// answer makes the OCSP response of the given kind about a certificate.
	answer := func(c *vOCSPCert, d deputies, kind string) []byte {
		now := time.Now().Truncate(time.Second)
		r := ocsp.Response{Status: ocsp.Good, SerialNumber: c.SerialNumber, ThisUpdate: now, NextUpdate: now.Add(150 * time.Minute)}
		by := d.issuer
		embed := false
		switch kind {
		case "good", "tampered":
		case "revoked":
			r.Status, r.RevokedAt = ocsp.Revoked, now.Add(-time.Hour)
		case "unknown":
			r.Status = ocsp.Unknown
		case "nonext":
			r.NextUpdate = time.Time{}
		case "delegate":
			by, embed = d.delegate, true
		case "delrevoked":
			by, embed = d.delegate, true
			r.Status, r.RevokedAt = ocsp.Revoked, now.Add(-time.Hour)
		case "other":
			r.SerialNumber = big.NewInt(77)
		case "wrongsig":
			by = foreign
		case "foreign":
			by, embed = fdel, true
		case "peer":
			by, embed = d.peer, true
		case "self":
			by, embed = c, true
		case "expdelegate":
			by, embed = d.exp, true
		case "expired":
			r.ThisUpdate, r.NextUpdate = now.Add(-5*time.Hour), now.Add(-time.Hour)
		case "future":
			r.ThisUpdate, r.NextUpdate = now.Add(3*time.Hour), now.Add(5*time.Hour)
		case "trylater":
			return ocsp.TryLaterErrorResponse
		case "garbage":
			return []byte("<html>no such page</html>")
		case "down":
			return nil
		default:
			vHarness("answer %q", kind)
		}
		if embed {
			r.Certificate = by.Certificate
		}
		b := vMust1(ocsp.CreateResponse(d.issuer.Certificate, by.Certificate, r, by.key))
		if kind == "tampered" {
			b[len(b)-10] ^= 1
		}
		return b
	}
	mk := vMust1(crypto.CreateAESMasterKeyForTest())

	vRun(t, func(r *vRunner, w vWalk, step func(int)) {
		// New certificates, as far as the cache is concerned.
		own := map[string]*vOCSPCert{"L3": cs["L3"], "R": cs["R"], "J": cs["J"]}
		own["L1"] = vOCSPMake("L1", cs["I"], nil, both(client, at("s1")))
		own["L2"] = vOCSPMake("L2", cs["I"], nil, both(client, at("s1", "s2")))
		own["I"], own["S"] = cs["I"], cs["S"]
		store := storage.New(vTempDir(), mk)
		var cancel func()
		var cache *OCSPCache
		start := func() {
			cache = New(store, vNoLog{})
			var ctx context.Context
			ctx, cancel = context.WithCancel(context.Background())
			go cache.FlushLoop(ctx)
		}
		start()
		defer func() { cancel(); storage.VerifRename = nil }()

		script := func(n, server, kind string) {
			mu.Lock()
			defer mu.Unlock()
			answers["/"+server+"/"+own[n].SerialNumber.String()] = answer(own[n], issuerOf(n), kind)
		}
		chains := func(f string) (out [][]*x509.Certificate) {
			m := map[string]string{"L1": "L1 I R", "L2": "L2 I R", "L3": "L3 I R", "L1J": "L1 J R", "X1": "L1 I R,L1 J R", "X3": "L3 I R,L3 J R", "S": "S"}
			if f == "none" {
				return nil
			}
			for _, s := range strings.Split(m[f], ",") {
				var ch []*x509.Certificate
				for _, n := range strings.Fields(s) {
					ch = append(ch, own[n].Certificate)
				}
				out = append(out, ch)
			}
			return
		}
		for i, st := range w.Steps {
			step(i)
			res := vStr(vMap(st.O)["res"])
			r.stat(st.op() + ":" + res)
			switch st.op() {
			case "verify":
				f := vStr(st.A["f"])
				leaf := f[:1] + strings.TrimRight(f[1:], "J")
				if f[0] == 'X' {
					leaf = "L" + f[1:]
				}
				if f != "none" {
					script(leaf, "s1", vStr(st.A["leaf"]))
					script(leaf, "s2", vStr(st.A["leaf2"]))
				}
				if leaf != "S" {
					script("I", "s1", vStr(st.A["int"]))
				}
				var staple []byte
				if k := vStr(st.A["staple"]); k != "none" && f != "none" {
					if leaf == "S" && strings.Contains("self peer delegate delrevoked expdelegate", k) {
						k = "garbage"
					}
					staple = answer(own[leaf], issuerOf(leaf), k)
				}
				err := cache.VerifyChains(chains(f), staple)
				if (err == nil) != (res == "ok") {
					vFail("verifying %s (staple %v, responders say %v %v, about the intermediate %v): %v, specified %q", f, st.A["staple"], st.A["leaf"], st.A["leaf2"], st.A["int"], err, res)
				}

			case "response":
				n := vStr(st.A["c"])
				script(n, "s1", vStr(st.A["leaf"]))
				script(n, "s2", vStr(st.A["leaf2"]))
				resp, err := cache.Response(own[n].Certificate, issuerOf(n).issuer.Certificate, time.Hour)
				got := "error"
				if err == nil {
					if resp == nil {
						vFail("no response and no error for %s", n)
					}
					got = map[int]string{ocsp.Good: "good", ocsp.Revoked: "revoked", ocsp.Unknown: "unknown"}[resp.Status]
					p, err := ocsp.ParseResponseForCert(resp.Raw, own[n].Certificate, issuerOf(n).issuer.Certificate)
					if err != nil || p.Status != resp.Status || (!p.NextUpdate.IsZero() && !p.NextUpdate.After(time.Now().Add(time.Hour))) {
						vFail("the response to staple is not usable: %v %v", p, err)
					}
				}
				if got != res {
					vFail("response for %s (responders say %v %v): %s (%v), specified %s", n, st.A["leaf"], st.A["leaf2"], got, err, res)
				}

			case "tick":
				fail := vStr(st.A["f"]) == "fail"
				var once sync.Once
				from := make(chan string, 1)
				storage.VerifRename = func(f, _ string) error {
					once.Do(func() { from <- f })
					if fail {
						return errors.New("disk full")
					}
					return nil
				}
				time.VerifAdvance(time.Hour)
				var tmp string
				for n := 0; tmp == ""; n++ {
					select {
					case tmp = <-from:
					case <-time.After(50 * time.Millisecond):
						if n > 100 {
							vFail("the cache was not saved")
						}
					}
					if n%5 == 4 {
						time.VerifAdvance(61 * time.Second)
					}
				}
				if !fail && !vWait(10*time.Second, func() bool { _, err := os.Stat(tmp); return errors.Is(err, os.ErrNotExist) }) {
					vHarness("rename is taking forever")
				}
				storage.VerifRename = nil

			case "restart":
				cancel()
				start()

			case "flood":
				const n = 700
				var fl []*vOCSPCert
				key := own["L1"].key
				for j := 0; j < n; j++ {
					fl = append(fl, vOCSPMake(fmt.Sprint("F", j), cs["I"], key, both(client, at("s1"))))
				}
				try := func(kind string) (ok int) {
					for j := n - 1; j >= 0; j-- {
						a := answer(fl[j], dep["I"], kind)
						mu.Lock()
						answers["/s1/"+fl[j].SerialNumber.String()] = a
						mu.Unlock()
						if cache.VerifyChains([][]*x509.Certificate{{fl[j].Certificate, cs["J"].Certificate, cs["R"].Certificate}}, nil) == nil {
							ok++
						}
					}
					return
				}
				if k := try("good"); k != n {
					vFail("%d of %d good certificates were accepted", k, n)
				}
				if k := try("revoked"); k > 450 {
					vFail("%d of %d certificates are in the cache, which should be bounded", k, n)
				}
				mu.Lock()
				for _, c := range fl {
					delete(answers, "/s1/"+c.SerialNumber.String())
				}
				mu.Unlock()
				cancel()
				store = storage.New(vTempDir(), mk)
				start()

			default:
				vHarness("op %q", st.op())
			}
		}
	})
}
