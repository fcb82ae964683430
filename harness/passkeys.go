package PKG

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/c2FmZQ/storage"
	scrypto "github.com/c2FmZQ/storage/crypto"
	cbor "github.com/fxamacker/cbor/v2"
	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/idp"
	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
)

const (
	vPKHost = "login.example.com"
	vPKSelf = "https://login.example.com/.sso/passkey"
	vPKHere = "https://login.example.com/.sso/passkeys"
	vPKElse = "https://www.example.com/app?x=1&y=%2F"
)

// vPKOther stands for the underlying identity provider.
type vPKOther struct{ asked int }

func (o *vPKOther) RequestLogin(w http.ResponseWriter, req *http.Request, origURL string, opts ...idp.Option) {
	o.asked++
	http.Redirect(w, req, "https://idp.example.com/", http.StatusFound)
}

type vPKKey struct {
	id    []byte
	priv  crypto.Signer
	cose  []byte
	owner string
}

func vPKNewKey(n int, rsaPool []*rsa.PrivateKey) *vPKKey {
	id := make([]byte, 20)
	rand.Read(id)
	k := &vPKKey{id: id}
	if n%5 == 4 {
		r := rsaPool[n/5%len(rsaPool)]
		k.priv = r
		k.cose = vMust1(cbor.Marshal(map[int]any{1: 3, 3: -257, -1: r.N.Bytes(), -2: big.NewInt(int64(r.E)).Bytes()}))
		// Authenticators encode the exponent as a byte string; this implementation wants a number.
		k.cose = vMust1(cbor.Marshal(map[int]any{1: 3, 3: -257, -1: r.N.Bytes(), -2: r.E}))
		return k
	}
	e := vMust1(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	k.priv = e
	k.cose = vMust1(cbor.Marshal(map[int]any{1: 2, 3: -7, -1: 1, -2: e.X.FillBytes(make([]byte, 32)), -3: e.Y.FillBytes(make([]byte, 32))}))
	return k
}

func vPKAuthData(rpid string, flags byte, count uint32, k *vPKKey) []byte {
	h := sha256.Sum256([]byte(rpid))
	var b bytes.Buffer
	b.Write(h[:])
	if k != nil {
		flags |= 0x40
	}
	b.WriteByte(flags)
	binary.Write(&b, binary.BigEndian, count)
	if k != nil {
		b.Write(make([]byte, 16))
		binary.Write(&b, binary.BigEndian, uint16(len(k.id)))
		b.Write(k.id)
		b.Write(k.cose)
	}
	return b.Bytes()
}

func vPKClientData(typ string, challenge []byte, origin string) []byte {
	return vMust1(json.Marshal(map[string]any{"type": typ, "challenge": base64.RawURLEncoding.EncodeToString(challenge), "origin": origin, "crossOrigin": false}))
}

type vPKChal struct {
	challenge []byte
	uid       []byte
	rpid      string
}

type vPKWorld struct {
	r        *vRunner
	dir      string
	mk       scrypto.MasterKey
	tm       *tokenmanager.TokenManager
	m        *Manager
	cm, ocm  *cookiemanager.CookieManager
	other    *vPKOther
	keys     []*vPKKey
	handles  map[string][]byte
	chals    []*vPKChal
	browsers map[string]*vPKBrowser
	count    int
	rsa      []*rsa.PrivateKey
	acl      []string
}

type vPKBrowser struct {
	sid   string
	other *http.Cookie
	auth  *http.Cookie
	login string // where it was sent for its latest login
}

func vPKEmail(u string) string { return u + "@example.com" }

func (v *vPKWorld) start() {
	m, err := NewManager(Config{
		Store: storage.New(v.dir, v.mk), Other: v.other, RefreshInterval: 16 * time.Hour, Endpoint: vPKSelf,
		EventRecorder: vRec{}, CookieManager: v.cm, OtherCookieManager: v.ocm, TokenManager: v.tm,
		ClaimsFromCtx: vClaimsFromCtx, Logger: vNoLog{},
	})
	if err != nil {
		vFail("the manager doesn't start again: %v", err)
	}
	m.SetACL(&v.acl)
	v.m = m
}

func (v *vPKWorld) faulty(f string, op func()) {
	switch f {
	case "none":
		op()
		return
	case "fail", "crash":
		storage.VerifRename = func(string, string) error { return errors.New("disk full") }
	case "late":
		storage.VerifRename = func(from, to string) error {
			vMust(os.Rename(from, to))
			return errors.New("crash")
		}
	}
	op()
	storage.VerifRename = nil
	if f != "fail" {
		v.start()
	}
}

// request sends a request to the passkey endpoint ("") or the key management page ("manage").
func (v *vPKWorld) request(b, page, method, target string, form url.Values, csrf bool) *httptest.ResponseRecorder {
	br := v.browsers[b]
	var req *http.Request
	if method == http.MethodPost {
		req = httptest.NewRequest(method, target, strings.NewReader(form.Encode()))
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	} else {
		if len(form) > 0 {
			target += "&" + form.Encode()
		}
		req = httptest.NewRequest(method, target, nil)
	}
	// As an HTTP server would present it.
	req.URL.Scheme, req.URL.Host = "", ""
	req.RequestURI = req.URL.RequestURI()
	if csrf {
		req.Header.Set("X-Csrf-Check", "1")
	}
	req.AddCookie(&http.Cookie{Name: tokenmanager.SessionIDCookieName, Value: br.sid})
	rec := httptest.NewRecorder()
	if page == "manage" {
		if br.auth != nil {
			req.AddCookie(br.auth)
			if tok, err := v.cm.ValidateAuthTokenCookie(req); err == nil {
				req = req.WithContext(context.WithValue(req.Context(), vClaimsKey{}, tok.Claims.(jwt.MapClaims)))
			}
		}
		v.m.ManageKeys(rec, req)
	} else {
		if br.other != nil {
			req.AddCookie(br.other)
		}
		v.m.HandleCallback(rec, req)
	}
	return rec
}

func vPKLoginCookie(rec *httptest.ResponseRecorder) *http.Cookie {
	for _, c := range rec.Result().Cookies() {
		if c.Value != "" && c.MaxAge >= 0 && c.Name != tokenmanager.SessionIDCookieName {
			return c
		}
	}
	return nil
}

func (v *vPKWorld) refused(rec *httptest.ResponseRecorder) {
	if c := vPKLoginCookie(rec); c != nil {
		vFail("cookie %s was set in a response to a request specified to be refused (status %d)", c.Name, rec.Code)
	}
	if rec.Code == 200 {
		vFail("a request specified to be refused got %s", rec.Body)
	}
}

func (v *vPKWorld) result(rec *httptest.ResponseRecorder) map[string]string {
	var out map[string]string
	if rec.Code != 200 || json.Unmarshal(rec.Body.Bytes(), &out) != nil {
		vFail("specified to succeed, got status %d: %s", rec.Code, rec.Body)
	}
	return out
}

// ask sends the browser to the login page, follow goes there.
func (v *vPKWorld) ask(b string, dest string) string {
	rec := httptest.NewRecorder()
	req := httptest.NewRequest("GET", dest, nil)
	v.m.RequestLogin(rec, req, dest, idp.WithLoginHint(vPKEmail(b)))
	loc := rec.Header().Get("Location")
	if rec.Code != http.StatusFound || !strings.HasPrefix(loc, vPKSelf+"?") {
		vFail("the login request was not redirected to the passkey endpoint: %d %q", rec.Code, loc)
	}
	return loc
}

func (v *vPKWorld) follow(b, loc string) string {
	rec := v.request(b, "", "GET", loc, nil, false)
	if rec.Code != http.StatusFound {
		return ""
	}
	u := vMust1(url.Parse(rec.Header().Get("Location")))
	if u.Query().Get("nonce") != "" {
		vFail("the nonce is sent on to %q", u)
	}
	return u.Query().Get("redirect")
}

func (v *vPKWorld) target(b, form, get string, here bool) string {
	dest := vPKElse
	if here {
		dest = vPKHere
	}
	tok := v.follow(b, v.ask(b, dest))
	if tok == "" {
		vFail("a fresh login request is not accepted")
	}
	if form == "notoken" {
		switch v.count % 4 {
		case 0:
			tok = ""
		case 1:
			tok = tok[:len(tok)-4] + "AAAA"
		case 2: // somebody else's
			for o := range v.browsers {
				if o != b {
					tok = v.follow(o, v.ask(o, dest))
				}
			}
		case 3:
			tok = v.browsers[b].sid
		}
	}
	return vPKSelf + "?" + url.Values{"get": {get}, "redirect": {tok}}.Encode()
}

func (v *vPKWorld) options(rec *httptest.ResponseRecorder) (challenge, uid []byte, rpid string, ids []string) {
	var out struct {
		Challenge []byte `json:"challenge"`
		RP        struct {
			ID string `json:"id"`
		} `json:"rp"`
		User struct {
			ID   []byte `json:"id"`
			Name string `json:"name"`
		} `json:"user"`
		Exclude []struct {
			ID []byte `json:"id"`
		} `json:"excludeCredentials"`
		Allow []struct {
			ID []byte `json:"id"`
		} `json:"allowCredentials"`
		UV  string `json:"userVerification"`
		Sel struct {
			UV string `json:"userVerification"`
		} `json:"authenticatorSelection"`
	}
	if rec.Code != 200 {
		vFail("no options: status %d %s", rec.Code, rec.Body)
	}
	if err := json.Unmarshal(vPKBytes(rec.Body.Bytes()), &out); err != nil {
		vFail("options: %v: %s", err, rec.Body)
	}
	if len(out.Challenge) < 16 {
		vFail("challenge has %d bytes", len(out.Challenge))
	}
	if out.UV != "required" && out.Sel.UV != "required" {
		vFail("user verification is not required")
	}
	for _, c := range v.chals {
		if bytes.Equal(c.challenge, out.Challenge) {
			vFail("challenge issued twice")
		}
	}
	for _, e := range append(out.Exclude, out.Allow...) {
		ids = append(ids, hex.EncodeToString(e.ID))
	}
	return out.Challenge, out.User.ID, out.RP.ID, ids
}

// vPKBytes converts arrays of numbers into the base64 strings that encoding/json wants for bytes.
func vPKBytes(b []byte) []byte {
	var conv func(x any) any
	conv = func(x any) any {
		switch x := x.(type) {
		case map[string]any:
			for k, e := range x {
				x[k] = conv(e)
			}
		case []any:
			var bs []byte
			for i, e := range x {
				f, ok := e.(float64)
				if !ok || f < 0 || f > 255 {
					bs = nil
					for j := range x {
						x[j] = conv(x[j])
					}
					return x
				}
				_ = i
				bs = append(bs, byte(f))
			}
			if len(x) == 0 {
				return x
			}
			return base64.StdEncoding.EncodeToString(bs)
		}
		return x
	}
	var x any
	if json.Unmarshal(b, &x) != nil {
		return b
	}
	return vMust1(json.Marshal(conv(x)))
}

func vPKInts(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func (v *vPKWorld) idsOf(ks []any) []string {
	var out []string
	for _, k := range ks {
		out = append(out, hex.EncodeToString(v.keys[vInt(k)-1].id))
	}
	return out
}

func vSameSet(a, b []string) bool {
	a, b = append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(a)
	sort.Strings(b)
	return strings.Join(a, ",") == strings.Join(b, ",")
}

// attest makes the authenticator's answer to a registration challenge.
func (v *vPKWorld) attest(ch *vPKChal, form string, k *vPKKey) string {
	typ, origin, rpid, flags, challenge := "webauthn.create", "https://"+vPKHost, vPKHost, byte(5), ch.challenge
	if ch.rpid != "" {
		rpid = ch.rpid
	}
	att := k
	n := v.count
	switch form {
	case "type":
		typ = []string{"webauthn.get", "", "webauthn.Create", "payment.create"}[n%4]
	case "origin":
		origin = []string{"http://" + vPKHost, "https://www.example.com", "https://" + vPKHost + ".evil.net", "", "https://" + vPKHost + ":8443", "null"}[n%6]
	case "rpid":
		rpid = []string{"www.example.com", "example.com", "", "https://" + vPKHost}[n%4]
	case "noup":
		flags &^= 1
	case "nouv":
		flags &^= 4
	case "nocred":
		att = nil
	case "forged":
		challenge = make([]byte, 32)
		if n%3 == 0 {
			challenge = nil
		} else {
			rand.Read(challenge)
		}
	}
	ao := vMust1(cbor.Marshal(map[string]any{"fmt": "none", "attStmt": map[string]any{}, "authData": vPKAuthData(rpid, flags, 0, att)}))
	cd := vPKClientData(typ, challenge, origin)
	if form == "garbage" {
		switch n % 4 {
		case 0:
			ao = ao[:len(ao)-len(k.cose)-2]
		case 1:
			ao = []byte{0xff}
		case 2:
			cd = []byte("{")
		case 3:
			return "{}"
		}
	}
	return string(vMust1(json.Marshal(map[string]any{"clientDataJSON": vPKInts(cd), "attestationObject": vPKInts(ao), "transports": []string{"internal"}})))
}

// assert makes the authenticator's answer to a login challenge.
func (v *vPKWorld) assert(ch *vPKChal, form string, k *vPKKey, handle []byte, loginID string) string {
	typ, origin, rpid, flags, challenge := "webauthn.get", "https://"+vPKHost, vPKHost, byte(5), ch.challenge
	n := v.count
	signer := k.priv
	switch form {
	case "type":
		typ = []string{"webauthn.create", "", "webauthn.Get", "payment.get"}[n%4]
	case "rpid":
		rpid = []string{"www.example.com", "example.com", "", "https://" + vPKHost}[n%4]
	case "noup":
		flags &^= 1
	case "nouv":
		flags &^= 4
	case "sig":
		signer = vMust1(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
		for _, o := range v.keys {
			if o != k && n%2 == 0 {
				signer = o.priv
			}
		}
	case "forged":
		challenge = make([]byte, 32)
		if n%3 == 0 {
			challenge = nil
		} else {
			rand.Read(challenge)
		}
	}
	cd := vPKClientData(typ, challenge, origin)
	ad := vPKAuthData(rpid, flags, uint32(n), nil)
	sign := func(cd, ad []byte) []byte {
		h := sha256.Sum256(cd)
		d := sha256.Sum256(append(append([]byte(nil), ad...), h[:]...))
		return vMust1(signer.Sign(rand.Reader, d[:], crypto.SHA256))
	}
	sig := sign(cd, ad)
	switch form {
	case "tamper":
		switch n % 3 {
		case 0:
			ad[36]++
		case 1:
			// user verification was not done when this was signed
			flags &^= 4
			sig = sign(cd, vPKAuthData(rpid, flags, uint32(n), nil))
		case 2:
			ad = append(ad, 0)
		}
	case "cdtamper":
		switch n % 3 {
		case 0: // a recorded signature for another challenge
			old := make([]byte, 32)
			rand.Read(old)
			sig = sign(vPKClientData(typ, old, origin), ad)
		case 1:
			cd = append(cd, ' ')
		case 2:
			sig = sign(vPKClientData("webauthn.create", challenge, origin), ad)
		}
	case "garbage":
		switch n % 5 {
		case 0:
			sig = nil
		case 1:
			ad = ad[:36]
		case 2:
			cd = []byte("{")
		case 3:
			sig = sig[:len(sig)-1]
		case 4:
			return "{}"
		}
	}
	m := map[string]any{"id": base64.RawURLEncoding.EncodeToString(k.id), "clientDataJSON": vPKInts(cd), "authenticatorData": vPKInts(ad), "signature": vPKInts(sig)}
	if handle != nil {
		m["userHandle"] = vPKInts(handle)
	}
	if loginID != "" {
		m["loginId"] = loginID
	}
	return string(vMust1(json.Marshal(m)))
}

// loggedIn checks a successful login (or first registration), and keeps the cookie.
func (v *vPKWorld) loggedIn(b string, rec *httptest.ResponseRecorder, user string, ver int, k *vPKKey, here bool) {
	out := v.result(rec)
	dest, host := vPKElse, "www.example.com"
	if here {
		dest, host = vPKHere, vPKHost
	}
	if out["result"] != "ok" || out["redirect"] != dest {
		vFail("login answered %v, specified to send the user to %q", out, dest)
	}
	c := vPKLoginCookie(rec)
	if c == nil {
		vFail("no cookie was set by a successful login")
	}
	req := httptest.NewRequest("GET", vPKHere, nil)
	req.AddCookie(c)
	tok, err := v.cm.ValidateAuthTokenCookie(req)
	if err != nil {
		vFail("login cookie: %v", err)
	}
	cl := tok.Claims.(jwt.MapClaims)
	kh, hh := sha256.Sum256(k.id), sha256.Sum256([]byte(host))
	if cl["email"] != vPKEmail(user) || cl["sub"] != "sub-"+user {
		vFail("logged in as %v/%v, specified %q", cl["sub"], cl["email"], user)
	}
	if n, _ := cl["n"].(float64); int(n) != ver {
		vFail("logged in with version %v of the identity, specified %d", cl["n"], ver)
	}
	if cl["passkey_hash"] != hex.EncodeToString(kh[:]) || cl["hhash"] != hex.EncodeToString(hh[:]) {
		vFail("login is for another key or host: %v", cl)
	}
	if iat, err := cl.GetIssuedAt(); err != nil || time.Since(iat.Time) > 5*time.Second || time.Until(iat.Time) > 5*time.Second {
		vFail("login issued at %v", iat)
	}
	v.browsers[b].auth = c
}

// checkState compares the registered keys, as the outside can see them, with the specification.
func (v *vPKWorld) checkState(t vObj) {
	live := map[string][]string{}
	for i, e := range vList(t["keys"]) {
		o := vMap(e)
		if vBool(o["live"]) {
			live[vStr(o["owner"])] = append(live[vStr(o["owner"])], hex.EncodeToString(v.keys[i].id))
		}
	}
	for b := range v.browsers {
		_, _, _, ids := v.options(v.request(b, "", "POST", v.target(b, "good", "AssertionOptions", true), url.Values{"loginId": {vPKEmail(b)}}, true))
		if vInt(vMap(t["rec"])[b]) == 0 {
			if len(ids) == 1 && ids[0] == "ff" {
				continue
			}
			vFail("%s never registered, but has keys %v", b, ids)
		}
		if !vSameSet(ids, live[b]) {
			vFail("%s has keys %v, specified %v", b, ids, live[b])
		}
	}
}

func TestVerifPasskeys(t *testing.T) {
	mk := vMust1(scrypto.CreateAESMasterKeyForTest())
	tmdir := vTempDir()
	pool := []*rsa.PrivateKey{vMust1(rsa.GenerateKey(rand.Reader, 2048)), vMust1(rsa.GenerateKey(rand.Reader, 2048))}
	count := 0
	vRun(t, func(r *vRunner, w vWalk, step func(int)) {
		defer func() { storage.VerifRename = nil }()
		v := &vPKWorld{r: r, dir: vTempDir(), mk: mk, rsa: pool, other: &vPKOther{}, handles: map[string][]byte{}, browsers: map[string]*vPKBrowser{}}
		v.tm = vMust1(tokenmanager.New(storage.New(tmdir, mk), nil, vNoLog{}))
		v.cm = cookiemanager.New(v.tm, "passkey", "example.com", "https://login.example.com/")
		v.ocm = cookiemanager.New(v.tm, "google", "example.com", "https://login.example.com/")
		v.acl = [][]string{{"alice@example.com", "bob@example.com"}, {"bob@example.com", "@sub.example.com", "alice@example.com"}}[w.ID%2]
		for b := range vMap(w.Init["other"]) {
			v.browsers[b] = &vPKBrowser{sid: "sid-" + b}
		}
		v.start()
		nver := 0
		for i, st := range w.Steps {
			step(i)
			count++
			v.count = count
			o := vMap(st.O)
			res := vStr(o["res"])
			r.stat(st.op() + ":" + res)
			b, form, fault := "", "good", "none"
			if x, ok := st.A["b"]; ok {
				b = vStr(x)
			}
			if x, ok := st.A["form"]; ok {
				form = vStr(x)
			}
			if x, ok := st.A["fault"]; ok {
				fault = vStr(x)
			}
			here := true
			if x, ok := st.A["here"]; ok {
				here = vBool(x)
			}
			method, csrf := http.MethodPost, form != "nocsrf"
			if form == "get" {
				method = http.MethodGet
			}
			var ch *vPKChal
			if x, ok := st.A["c"]; ok {
				ch = v.chals[vInt(x)-1]
			}
			if vInt(st.T["nv"]) != nver {
				// Logins in the same second are the same.
				time.VerifAdvance(time.Second)
				nver = vInt(st.T["nv"])
			}
			switch st.op() {
			case "otherlogin":
				rec := httptest.NewRecorder()
				vMust(v.ocm.SetAuthTokenCookie(rec, "sub-"+b, vPKEmail(b), "sid-"+b, vPKHost, map[string]any{"n": nver, "name": "User " + b}))
				v.browsers[b].other = vPKLoginCookie(rec)

			case "tick":
				time.VerifAdvance(3 * time.Minute)
			case "day":
				time.VerifAdvance(24 * time.Hour)
				// The signing keys are renewed along the way.
				v.tm = vMust1(tokenmanager.New(storage.New(tmdir, mk), nil, vNoLog{}))
				for _, br := range v.browsers {
					if br.auth != nil && count%2 == 0 {
						br.auth = nil
					}
				}
			case "restart":
				v.start()

			case "ask":
				v.browsers[b].login = v.ask(b, vPKElse)
			case "follow":
				tok := v.follow(b, v.browsers[b].login)
				if (tok != "") != (res == "ok") {
					vFail("following the login link gave token %q, specified %q", tok, res)
				}
				if tok != "" {
					rec := v.request(b, "", "GET", vPKSelf+"?"+url.Values{"get": {"Login"}, "redirect": {tok}}.Encode(), nil, false)
					if rec.Code != 200 || !strings.Contains(rec.Body.String(), vPKEmail(b)) {
						vFail("login page: %d", rec.Code)
					}
				}

			case "regoptions", "manageoptions":
				var rec *httptest.ResponseRecorder
				if st.op() == "regoptions" {
					rec = v.request(b, "", method, v.target(b, form, "AttestationOptions", true), nil, csrf)
				} else {
					rec = v.request(b, "manage", method, vPKHere+"?get=AttestationOptions", nil, csrf)
				}
				if res != "ok" {
					v.refused(rec)
					break
				}
				c, uid, rpid, ids := v.options(rec)
				if !vSameSet(ids, v.idsOf(vList(o["exclude"]))) {
					vFail("excluded keys %v", ids)
				}
				v.chals = append(v.chals, &vPKChal{challenge: c, uid: uid, rpid: rpid})

			case "loginoptions":
				id := vStr(st.A["id"])
				if id != "" {
					id = vPKEmail(id)
				}
				rec := v.request(b, "", method, v.target(b, form, "AssertionOptions", true), url.Values{"loginId": {id}}, csrf)
				if res != "ok" {
					v.refused(rec)
					break
				}
				c, uid, rpid, ids := v.options(rec)
				if len(ids) == 1 && ids[0] == "ff" {
					ids = nil
				}
				if !vSameSet(ids, v.idsOf(vList(o["allowed"]))) {
					vFail("allowed keys %v for %q", ids, id)
				}
				v.chals = append(v.chals, &vPKChal{challenge: c, uid: uid, rpid: rpid})

			case "register", "manageadd":
				k := vPKNewKey(count, v.rsa)
				k.owner = b
				args := url.Values{"args": {v.attest(ch, form, k)}}
				var rec *httptest.ResponseRecorder
				v.faulty(fault, func() {
					if st.op() == "register" {
						rec = v.request(b, "", method, v.target(b, form, "AddKey", here), args, csrf)
					} else {
						rec = v.request(b, "manage", method, vPKHere+"?get=AddKey", args, csrf)
					}
				})
				if len(vList(st.T["keys"])) > len(v.keys) {
					v.keys = append(v.keys, k)
					k.owner = vStr(vMap(vList(st.T["keys"])[len(v.keys)-1])["owner"])
					if v.handles[k.owner] == nil {
						v.handles[k.owner] = ch.uid
					}
				}
				switch res {
				case "crash":
				case "refused":
					v.refused(rec)
				default:
					if st.op() == "register" {
						v.loggedIn(b, rec, b, vInt(o["ver"]), k, here)
					} else if out := v.result(rec); out["result"] != "ok" {
						vFail("adding a key answered %v", out)
					}
				}

			case "login":
				k := v.keys[vInt(st.A["k"])-1]
				var handle []byte
				loginID := ""
				foreign := "nobody"
				for u := range v.browsers {
					if u != k.owner {
						foreign = u
					}
				}
				switch vStr(st.A["h"]) {
				case "own":
					handle = v.handles[k.owner]
					if handle == nil {
						vHarness("no handle")
					}
				case "loginid":
					loginID = vPKEmail(k.owner)
				case "foreign":
					if handle = v.handles[foreign]; handle == nil {
						handle = make([]byte, 32)
						rand.Read(handle)
					}
				case "foreignid":
					loginID = vPKEmail(foreign)
				}
				args := url.Values{"args": {v.assert(ch, form, k, handle, loginID)}}
				target := v.target(b, form, "Check", here)
				var rec *httptest.ResponseRecorder
				v.faulty(fault, func() { rec = v.request(b, "", method, target, args, csrf) })
				switch res {
				case "crash":
				case "refused":
					v.refused(rec)
				case "refresh":
					if c := vPKLoginCookie(rec); c != nil {
						vFail("logged in with an identity that is to be refreshed")
					}
					if out := v.result(rec); out["result"] == "ok" {
						vFail("answer %v, specified to ask for a refresh", out)
					}
				default:
					v.loggedIn(b, rec, vStr(o["user"]), vInt(o["ver"]), k, here)
				}

			case "delete":
				k := v.keys[vInt(st.A["k"])-1]
				id := hex.EncodeToString(k.id)
				if count%3 == 0 {
					id = strings.ToUpper(id)
				}
				var rec *httptest.ResponseRecorder
				v.faulty(fault, func() {
					rec = v.request(b, "manage", method, vPKHere+"?get=DeleteKey", url.Values{"id": {id}}, csrf)
				})
				switch res {
				case "crash", "any":
				case "refused":
					v.refused(rec)
				default:
					if out := v.result(rec); out["result"] != "ok" {
						vFail("deleting a key answered %v", out)
					}
				}

			case "list":
				rec := v.request(b, "manage", "GET", vPKHere, nil, false)
				if res != "ok" {
					v.refused(rec)
					break
				}
				if rec.Code != 200 {
					vFail("key management page: status %d", rec.Code)
				}
				shown := map[string]bool{}
				for _, s := range v.idsOf(vList(o["shown"])) {
					shown[s] = true
				}
				for i, k := range v.keys {
					id := hex.EncodeToString(k.id)
					if got := strings.Contains(rec.Body.String(), id[:8]); got != shown[id] {
						vFail("key %d of %s shown: %v, specified %v", i+1, k.owner, got, shown[id])
					}
				}

			case "odd":
				k := v.keys[vInt(st.A["k"])-1]
				br := v.browsers[b]
				save := *br
				target, csrf := vPKHere, true
				form := url.Values{"id": {hex.EncodeToString(k.id)}}
				page := "manage"
				switch vStr(st.A["what"]) {
				case "nosess":
					br.auth = nil
				case "nohash": // logged in without a passkey
					rec := httptest.NewRecorder()
					vMust(v.cm.SetAuthTokenCookie(rec, "sub-"+b, vPKEmail(b), "sid-"+b, vPKHost, nil))
					br.auth = vPKLoginCookie(rec)
				case "otherhost":
					target = "https://www.example.com/.sso/passkeys"
				case "badid":
					form.Set("id", "zz"+hex.EncodeToString(k.id))
				}
				rec := v.request(b, page, "POST", target+"?get=DeleteKey", form, csrf)
				*br = save
				v.refused(rec)

			default:
				vHarness("op %q", st.op())
			}
			v.checkState(st.T)
		}
	})
}
