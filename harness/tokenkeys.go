package PKG

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"math/big"
	"net/http/httptest"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	scrypto "github.com/c2FmZQ/storage/crypto"
	jwt "github.com/golang-jwt/jwt/v5"
)

type vNoLog2 struct{}

func (vNoLog2) Errorf(string, ...any) {}

// vStrictKeys parses a key set the way a strict relying party does (RFC 7517, 7518, 8037).
func vStrictKeys(body []byte) map[string]any {
	var set struct {
		Keys []map[string]string `json:"keys"`
	}
	if err := json.Unmarshal(body, &set); err != nil {
		vFail("the key set is not valid: %v", err)
	}
	b64 := func(s string) []byte {
		b, err := base64.RawURLEncoding.DecodeString(s)
		if err != nil || len(b) == 0 {
			vFail("key set: bad value %q", s)
		}
		return b
	}
	out := map[string]any{}
	for _, k := range set.Keys {
		id := k["kid"]
		if id == "" || out[id] != nil {
			vFail("key set: missing or duplicate key id %q", id)
		}
		for f := range k {
			if strings.Contains(" d p q dp dq qi k ", " "+f+" ") {
				vFail("key set: private field %q", f)
			}
		}
		switch k["kty"] {
		case "EC":
			x, y := b64(k["x"]), b64(k["y"])
			if k["crv"] != "P-256" || k["alg"] != "ES256" || len(x) != 32 || len(y) != 32 {
				vFail("key set: EC key not in the standard form: %v", k)
			}
			pk := &ecdsa.PublicKey{Curve: elliptic.P256(), X: new(big.Int).SetBytes(x), Y: new(big.Int).SetBytes(y)}
			if !pk.Curve.IsOnCurve(pk.X, pk.Y) {
				vFail("key set: point not on the curve")
			}
			out[id] = pk
		case "RSA":
			if k["alg"] != "RS256" {
				vFail("key set: %v", k)
			}
			out[id] = &rsa.PublicKey{N: new(big.Int).SetBytes(b64(k["n"])), E: int(new(big.Int).SetBytes(b64(k["e"])).Int64())}
		case "OKP":
			x := b64(k["x"])
			if k["crv"] != "Ed25519" || k["alg"] != "EdDSA" || len(x) != ed25519.PublicKeySize {
				vFail("key set: %v", k)
			}
			out[id] = ed25519.PublicKey(x)
		default:
			vFail("key set: unknown type %q", k["kty"])
		}
	}
	return out
}

var vAlgs = map[string]string{"EC": "ES256", "RSA": "RS256", "Ed": "EdDSA"}

func vKeyType(k any) string {
	switch k.(type) {
	case *ecdsa.PublicKey:
		return "EC"
	case *rsa.PublicKey:
		return "RSA"
	}
	return "Ed"
}

type vIssued struct {
	tok  string
	keys map[string]any // the key set published when it was issued
	exp  time.Time
	sub  string
}

type vTMWorld struct {
	dir    string
	mk     scrypto.MasterKey
	tm     *TokenManager
	cancel context.CancelFunc
	done   chan struct{}
	etag   string
	body   []byte
	first  map[string]time.Time // when a key was first published
	last   map[string]any       // the current key set
	downs  time.Time            // the last time the proxy was down or could not write
}

func (v *vTMWorld) start() {
	tm, err := New(storage.New(v.dir, v.mk), nil, vNoLog2{})
	if err != nil {
		vFail("the token manager does not start: %v", err)
	}
	v.tm = tm
	ctx, cancel := context.WithCancel(context.Background())
	v.cancel = cancel
	v.done = make(chan struct{})
	go func() {
		defer close(v.done)
		tm.KeyRotationLoop(ctx)
	}()
	v.idle()
}

// idle waits until the rotation loop is waiting for its next turn.
func (v *vTMWorld) idle() {
	for i := 0; i < 4000; i++ {
		buf := make([]byte, 1<<18)
		n := runtime.Stack(buf, true)
		for _, g := range strings.Split(string(buf[:n]), "\n\n") {
			l := strings.SplitN(g, "\n", 3)
			if len(l) > 1 && strings.Contains(l[0], "[select") && strings.Contains(l[1], "KeyRotationLoop") {
				return
			}
		}
		time.Sleep(500 * time.Microsecond)
	}
	vHarness("the rotation loop is stuck")
}

func (v *vTMWorld) hour() {
	sentinel := time.After(time.Hour + time.Second)
	time.VerifAdvance(time.Hour + time.Second)
	<-sentinel
	time.Sleep(2 * time.Millisecond)
	v.idle()
}

func (v *vTMWorld) fetch() {
	get := func(etag string) *httptest.ResponseRecorder {
		req := httptest.NewRequest("GET", "https://login.example.com/jwks", nil)
		if etag != "" {
			req.Header.Set("If-None-Match", etag)
		}
		rec := httptest.NewRecorder()
		v.tm.ServeJWKS(rec, req)
		return rec
	}
	cond := get(v.etag)
	full := get("")
	if full.Code != 200 {
		vFail("the key set is answered with %d", full.Code)
	}
	if cond.Code == 304 && !bytes.Equal(v.body, full.Body.Bytes()) {
		vFail("the key set changed, but is reported as not modified")
	}
	v.etag, v.body = full.Header().Get("etag"), full.Body.Bytes()
	v.last = vStrictKeys(v.body)
	for id := range v.last {
		if _, ok := v.first[id]; !ok {
			v.first[id] = time.Now()
		}
	}
}

func TestVerifTokenKeys(t *testing.T) {
	mk := vMust1(scrypto.CreateAESMasterKeyForTest())
	vRun(t, func(r *vRunner, w vWalk, step func(int)) {
		v := &vTMWorld{dir: vTempDir(), mk: mk, first: map[string]time.Time{}}
		storage.VerifRename = nil
		v.start()
		defer func() {
			storage.VerifRename = nil
			v.cancel()
			<-v.done
		}()
		v.fetch()
		v.walk(r, w, step)
	})
}

func (v *vTMWorld) walk(r *vRunner, w vWalk, step func(int)) {
	var tokens []vIssued
	// Every token issued so far is checked, with the proxy and with the keys published at the time.
	check := func() {
		for n, tk := range tokens {
			now := time.Now()
			want := now.Before(tk.exp)
			if d := tk.exp.Sub(now); d > -2*time.Second && d < 2*time.Second {
				continue
			}
			tok, err := v.tm.ValidateToken(tk.tok)
			if want && err != nil {
				vFail("token %d was issued %v before its end, is %v from its end, and is refused: %v", n+1, tk.exp.Sub(now), tk.exp.Sub(now), err)
			}
			if want {
				if s, _ := tok.Claims.GetSubject(); s != tk.sub {
					vFail("token %d has subject %q, want %q", n+1, s, tk.sub)
				}
			}
			if !want && err == nil {
				vFail("token %d is accepted %v after it expired", n+1, now.Sub(tk.exp))
			}
			if want {
				if _, err := jwt.Parse(tk.tok, func(t *jwt.Token) (any, error) {
					k, ok := tk.keys[t.Header["kid"].(string)]
					if !ok {
						return nil, errors.New("no such key")
					}
					return k, nil
				}); err != nil {
					vFail("token %d cannot be verified with the key set that was published when it was issued: %v", n+1, err)
				}
			}
		}
	}
	hours := func(h int, renewed bool) {
		for ; h > 0; h-- {
			v.hour()
			v.fetch()
			check()
			if !renewed {
				continue
			}
			newest := time.Duration(1<<63 - 1)
			for id := range v.last {
				if a := time.Since(v.first[id]); a < newest {
					newest = a
				}
			}
			if newest > 25*time.Hour+10*time.Minute {
				vFail("the newest key was published %v ago", newest)
			}
			for id := range v.last {
				a := time.Since(v.first[id])
				if a > 7*24*time.Hour+4*time.Hour && time.Since(v.downs) > 60*time.Hour {
					vFail("key %s is still published after %v", id, a)
				}
			}
		}
	}
	for i, st := range w.Steps {
		step(i)
		r.stat(st.op())
		switch st.op() {
		case "run":
			hours(vInt(st.A["h"]), true)

		case "fail":
			storage.VerifRename = func(string, string) error { return errors.New("disk full") }
			hours(vInt(st.A["h"]), false)
			storage.VerifRename = nil
			v.downs = time.Now()

		case "down":
			v.cancel()
			<-v.done
			time.VerifAdvance(time.Duration(vInt(st.A["h"])) * (time.Hour + time.Second))
			v.start()
			v.fetch()
			v.downs = time.Now()

		case "issue":
			ty, life := vStr(st.A["t"]), vInt(st.A["life"])
			now := time.Now()
			exp := now.Add(time.Duration(life) * time.Hour)
			sub := fmt.Sprintf("user%d@example.com", i)
			alg := vAlgs[ty]
			if ty == "Ed" && i%2 == 0 {
				alg = "" // the default
			}
			tok, err := v.tm.CreateToken(jwt.MapClaims{"sub": sub, "exp": exp.Unix(), "iat": now.Unix()}, alg)
			if err != nil {
				vFail("no token: %v", err)
			}
			v.fetch()
			var hdr struct{ Alg, Kid string }
			vMust(json.Unmarshal(vMust1(base64.RawURLEncoding.DecodeString(strings.SplitN(tok, ".", 2)[0])), &hdr))
			k := v.last[hdr.Kid]
			if k == nil {
				vFail("the token is signed with a key that is not published")
			}
			if alg != "" && hdr.Alg != alg {
				vFail("the token uses %q, want %q", hdr.Alg, alg)
			}
			if vKeyType(k) != ty {
				vFail("the %s token is signed with a key of type %s", alg, vKeyType(k))
			}
			// A key signs only once it has been published for two hours, unless nothing older exists.
			if a := now.Sub(v.first[hdr.Kid]); a < 2*time.Hour-10*time.Minute {
				for id, o := range v.last {
					if id != hdr.Kid && vKeyType(o) == ty && now.Sub(v.first[id]) > a+10*time.Minute {
						vFail("a key signs %v after it was published, and there was an older one (%v)", a, now.Sub(v.first[id]))
					}
				}
			}
			// The newest of the keys that may sign is the one that signs: keys are renewed daily.
			if a := now.Sub(v.first[hdr.Kid]); time.Since(v.downs) > 40*time.Hour && a > 29*time.Hour {
				vFail("a key signs %v after it was published", a)
			}
			tokens = append(tokens, vIssued{tok: tok, keys: v.last, exp: exp, sub: sub})

		case "forge":
			v.forge(tokens)

		default:
			vHarness("unknown op %q", st.op())
		}
		check()
		alive := vList(vMap(st.O)["alive"])
		for n := range tokens {
			d := tokens[n].exp.Sub(time.Now())
			if d > -time.Minute && d < time.Minute {
				continue
			}
			if want := vBool(alive[n]); want != (d > 0) {
				vHarness("the model and the clock disagree on token %d: %v %v", n+1, want, d)
			}
		}
	}
}

// forge presents tokens that nobody but an attacker would make.
func (v *vTMWorld) forge(tokens []vIssued) {
	now := time.Now()
	claims := jwt.MapClaims{"sub": "admin@example.com", "exp": now.Add(time.Hour).Unix(), "iat": now.Unix()}
	enc := base64.RawURLEncoding.EncodeToString
	refuse := func(what, tok string) {
		if _, err := v.tm.ValidateToken(tok); err == nil {
			vFail("a forged token is accepted: %s", what)
		}
	}
	cj := vMust1(json.Marshal(claims))
	raw := func(alg, kid string) string {
		h := vObj{"alg": alg, "typ": "JWT"}
		if kid != "" {
			h["kid"] = kid
		}
		return enc(vMust1(json.Marshal(h))) + "." + enc(cj)
	}
	ec := vMust1(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	_, ed, _ := ed25519.GenerateKey(rand.Reader)
	for id, k := range v.last {
		refuse("alg none", raw("none", id)+".")
		refuse("alg None", raw("None", id)+".")
		refuse("alg empty", raw("", id)+".")
		der := vMust1(x509.MarshalPKIXPublicKey(k))
		for _, secret := range [][]byte{der, pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}), []byte(id), {}} {
			m := hmac.New(sha256.New, secret)
			m.Write([]byte(raw("HS256", id)))
			refuse("hmac with public data", raw("HS256", id)+"."+enc(m.Sum(nil)))
		}
		for _, o := range []struct {
			alg string
			key crypto.Signer
		}{{"ES256", ec}, {"EdDSA", ed}} {
			t := jwt.NewWithClaims(jwt.GetSigningMethod(o.alg), claims)
			t.Header["kid"] = id
			refuse("another key under a known id", vMust1(t.SignedString(o.key)))
			t.Header["jwk"] = vObj{"kty": "OKP", "crv": "Ed25519", "x": enc(ed.Public().(ed25519.PublicKey))}
			refuse("a key of its own", vMust1(t.SignedString(o.key)))
		}
	}
	for _, kid := range []string{"", "nosuchkey"} {
		t := jwt.NewWithClaims(jwt.SigningMethodES256, claims)
		if kid != "" {
			t.Header["kid"] = kid
		}
		refuse("key id "+kid, vMust1(t.SignedString(ec)))
	}
	for n, tk := range tokens {
		if !now.Before(tk.exp) {
			continue
		}
		p := strings.Split(tk.tok, ".")
		refuse("payload replaced", p[0]+"."+enc(cj)+"."+p[2])
		refuse("no signature", p[0]+"."+p[1]+".")
		refuse("two parts", p[0]+"."+p[1])
		sig := vMust1(base64.RawURLEncoding.DecodeString(p[2]))
		sig[len(sig)/2] ^= 1
		refuse("signature changed", p[0]+"."+p[1]+"."+enc(sig))
		var pl map[string]any
		vMust(json.Unmarshal(vMust1(base64.RawURLEncoding.DecodeString(p[1])), &pl))
		pl["exp"] = now.Add(1000 * time.Hour).Unix()
		refuse("lifetime extended", p[0]+"."+enc(vMust1(json.Marshal(pl)))+"."+p[2])
		var hd map[string]any
		vMust(json.Unmarshal(vMust1(base64.RawURLEncoding.DecodeString(p[0])), &hd))
		for _, alg := range []string{"none", "HS256", "ES256", "RS256", "EdDSA", "PS256", "ES384"} {
			if hd["alg"] == alg {
				continue
			}
			h2 := vObj{"alg": alg, "typ": "JWT", "kid": hd["kid"]}
			refuse("algorithm changed to "+alg, enc(vMust1(json.Marshal(h2)))+"."+p[1]+"."+p[2])
		}
		// Another token's signature.
		for m, o := range tokens {
			if m != n && o.tok != tk.tok {
				refuse("signature of another token", p[0]+"."+p[1]+"."+strings.Split(o.tok, ".")[2])
			}
		}
	}
}
