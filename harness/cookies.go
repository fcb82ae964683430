package PKG

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"net/http"
	"net/http/cookiejar"
	"net/http/httptest"
	"net/url"
	"slices"
	"strings"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"
)

var (
	vCMs = map[string][3]string{ // provider, domain, issuer
		"A": {"p1", "example.com", "https://login.example.com/"},
		"B": {"p2", "example.com", "https://login.example.com/"},
		"C": {"p3", "example.org", "https://login.example.org/"},
		"D": {"p1", "example.com", "https://login2.example.com/"},
	}
	vHosts = map[string]string{
		"www.com":   "www.example.com",
		"login.com": "login.example.com",
		"idn.com":   "xn--bcher-kva.example.com",
		"www.org":   "www.example.org",
	}
	vUnicode = map[string]string{"idn.com": "bücher.example.com"}
	vExtras  = map[string]map[string]any{
		"plain": {"email_verified": true, "name": "Bob"},
		"evil": {"iss": "https://evil/", "aud": "evil", "sub": "evil", "exp": 99999999999, "proxyauth": "evil", "provider": "evil",
			"hhash": "evil", "sid": "evil", "email": "evil@evil", "iat": 5, "scope": "openid", "source": "passkey", "groups": []string{"g1", "g2"}},
	}
)

type vCookieTok struct {
	kind, tok string
	claims    map[string]any
}

func vClaims(tok string) map[string]any {
	p := strings.Split(tok, ".")
	if len(p) != 3 {
		vFail("not a token: %q", tok)
	}
	b, err := base64.RawURLEncoding.DecodeString(p[1])
	if err != nil {
		vFail("not a token: %q", tok)
	}
	var c map[string]any
	if err := json.Unmarshal(b, &c); err != nil {
		vFail("not a token: %q", tok)
	}
	return c
}

func vAlg(tok string) string {
	b, _ := base64.RawURLEncoding.DecodeString(strings.Split(tok, ".")[0])
	var h map[string]any
	json.Unmarshal(b, &h)
	a, _ := h["alg"].(string)
	return a
}

func TestVerifCookies(t *testing.T) {
	tm := vNewTM()
	cms := map[string]*CookieManager{}
	for n, c := range vCMs {
		cms[n] = New(tm, c[0], c[1], c[2])
	}
	count := 0
	vRun(t, func(r *vRunner, w vWalk, step func(int)) {
		jar := vMust1(cookiejar.New(nil))
		var toks []vCookieTok
		// checkSet looks at the attributes of the cookies that are being set, and puts them in the jar.
		checkSet := func(rec *httptest.ResponseRecorder, host, domain string) {
			for _, c := range rec.Result().Cookies() {
				if !c.Secure || !c.HttpOnly {
					vFail("cookie without Secure or HttpOnly: %v", c)
				}
				if c.Path != "/" || c.MaxAge >= 0 && c.SameSite != http.SameSiteLaxMode && c.SameSite != http.SameSiteStrictMode {
					vFail("cookie with a bad Path or SameSite: %v", c)
				}
				switch c.Name {
				case "TLSPROXYAUTH", "TLSPROXYNONCE":
					if c.Domain != domain {
						vFail("cookie for domain %q, want %q: %v", c.Domain, domain, c)
					}
				case "TLSPROXYIDTOKEN":
					if c.Domain != "" {
						vFail("ID token cookie for other hosts: %v", c)
					}
				default:
					vFail("unexpected cookie %v", c)
				}
			}
			jar.SetCookies(&url.URL{Scheme: "https", Host: host, Path: "/"}, rec.Result().Cookies())
		}
		get := func(host, name string) string {
			v := ""
			for _, c := range jar.Cookies(&url.URL{Scheme: "https", Host: host, Path: "/some/where"}) {
				if c.Name == name {
					v = c.Value
				}
			}
			return v
		}
		newReq := func(h string, cookies map[string]string) *http.Request {
			count++
			host := vHosts[h]
			if count%3 == 0 {
				host += ":8443"
			}
			req := httptest.NewRequest("GET", "https://"+host+"/x", nil)
			req.Host = host
			for n, v := range cookies {
				req.AddCookie(&http.Cookie{Name: n, Value: v})
			}
			return req
		}
		for i, st := range w.Steps {
			step(i)
			o := vMap(st.O)
			res := vStr(o["res"])
			r.stat(st.op() + ":" + res)
			var c, h string
			if st.op() != "tick" {
				c, h = vStr(st.A["c"]), vStr(st.A["h"])
			}
			var cm = cms[c]
			cfg := vCMs[c]
			switch st.op() {
			case "tick":
				time.VerifAdvance(7 * time.Hour)

			case "login":
				u := vStr(st.A["u"])
				x := vExtras[vStr(st.A["x"])]
				rec := httptest.NewRecorder()
				now := time.Now().Unix()
				if err := cm.SetAuthTokenCookie(rec, "sub-"+u, u+"@example.com", vStr(st.A["s"]), vHosts[h], x); err != nil {
					vFail("login: %v", err)
				}
				checkSet(rec, "login."+cfg[1], cfg[1])
				tok := get("login."+cfg[1], "TLSPROXYAUTH")
				if tok == "" {
					vFail("no login cookie was set: %q", rec.Header())
				}
				if cs := rec.Result().Cookies(); len(cs) != 1 {
					vFail("a login set %d cookies", len(cs))
				}
				cl := vClaims(tok)
				hh := sha256.Sum256([]byte(vHosts[h]))
				want := map[string]any{"iss": cfg[2], "aud": cfg[2], "proxyauth": cfg[2], "provider": cfg[0], "sub": "sub-" + u,
					"email": u + "@example.com", "sid": vStr(st.A["s"]), "hhash": hex.EncodeToString(hh[:]), "iat": cl["iat"], "exp": cl["exp"]}
				for k, v := range x {
					if _, ok := want[k]; !ok {
						want[k] = v
					}
				}
				if !vSame(cl, want) {
					vFail("login token has claims %v, want %v", vJSON(cl), vJSON(want))
				}
				iat, exp := int64(cl["iat"].(float64)), int64(cl["exp"].(float64))
				if iat < now-1 || iat > now+2 || exp < iat+3600 || exp > iat+20*3600 {
					vFail("login token is issued at %d and expires at %d, now is %d", iat, exp, now)
				}
				toks = append(toks, vCookieTok{"auth", tok, cl})

			case "visit":
				cookies := map[string]string{}
				for _, ck := range jar.Cookies(&url.URL{Scheme: "https", Host: vHosts[h], Path: "/x"}) {
					cookies[ck.Name] = ck.Value
				}
				req := newReq(h, cookies)
				tok, err := cm.ValidateAuthTokenCookie(req)
				if (err == nil) != (res != "out") {
					vFail("login cookie accepted by %s on %s: %v, want %v (%v)", c, h, err == nil, res != "out", err)
				}
				if res == "out" {
					break
				}
				err = cm.ValidateIDTokenCookie(req, tok)
				if (err == nil) != (res == "in") {
					vFail("ID token cookie accepted: %v, want %v (%v)", err == nil, res == "in", err)
				}
				if res == "in" {
					break
				}
				rec := httptest.NewRecorder()
				now := time.Now().Unix()
				if err := cm.SetIDTokenCookie(rec, req, tok); err != nil {
					vFail("SetIDTokenCookie: %v", err)
				}
				checkSet(rec, vHosts[h], cfg[1])
				v := get(vHosts[h], "TLSPROXYIDTOKEN")
				cl := vClaims(v)
				from := toks[vInt(o["from"])-1].claims
				var aud any = "https://" + vHosts[h] + "/"
				if u := vUnicode[h]; u != "" {
					aud = []string{"https://" + vHosts[h] + "/", "https://" + u + "/"}
				}
				want := map[string]any{}
				for k, v := range from {
					if !slices.Contains([]string{"scope", "proxyauth", "source", "hhash", "aud", "iat"}, k) {
						want[k] = v
					}
				}
				want["aud"] = aud
				want["iat"] = cl["iat"]
				if l, ok := cl["aud"].([]any); ok && len(l) == 1 {
					cl["aud"] = l[0]
				}
				if !vSame(cl, want) {
					vFail("ID token has claims %v, want %v", vJSON(cl), vJSON(want))
				}
				if iat := int64(cl["iat"].(float64)); iat < now-1 || iat > now+2 {
					vFail("ID token is issued at %d, now is %d", iat, now)
				}
				if a := vAlg(v); a != "ES256" {
					vFail("ID token is signed with %q, not ES256", a)
				}
				for oh, name := range vHosts {
					if oh != h && get(name, "TLSPROXYIDTOKEN") == v {
						vFail("the ID token of %s is also sent to %s", h, oh)
					}
				}
				toks = append(toks, vCookieTok{"id", v, cl})

			case "logout":
				rec := httptest.NewRecorder()
				if err := cm.ClearCookies(rec); err != nil {
					vFail("ClearCookies: %v", err)
				}
				checkSet(rec, vHosts[h], cfg[1])

			case "present":
				k := toks[vInt(st.A["k"])-1]
				tok := k.tok
				m := vStr(st.A["m"])
				as := vStr(st.A["as"])
				if m != "none" {
					cl := jwt.MapClaims{}
					for k, v := range k.claims {
						cl[k] = v
					}
					switch m {
					case "iss":
						cl["iss"] = "https://other.example.com/"
					case "aud":
						cl["aud"] = "https://other.example.com/"
						if count%3 == 0 {
							cl["aud"] = strings.TrimSuffix(cfg[2], "/")
						}
						if count%3 == 1 {
							delete(cl, "aud")
						}
					case "proxyauth":
						cl["proxyauth"] = "https://other.example.com/"
						if as == "bearer" && count%2 == 0 {
							cl["proxyauth"] = cfg[2]
						}
					case "noproxyauth":
						delete(cl, "proxyauth")
					case "provider":
						cl["provider"] = "px"
					case "noprovider":
						delete(cl, "provider")
					case "nosub":
						delete(cl, "sub")
					case "emptysub":
						cl["sub"] = ""
					case "expired":
						cl["exp"] = time.Now().Add(-5 * time.Second).Unix()
					}
					if m != "basic" && m != "short" {
						tok = vMust1(tm.CreateToken(cl, []string{"", "ES256"}[count%2]))
					}
				}
				var err error
				var got *jwt.Token
				if as == "auth" {
					got, err = cm.ValidateAuthTokenCookie(newReq(h, map[string]string{"TLSPROXYAUTH": tok}))
				} else {
					req := newReq(h, nil)
					pre := []string{"Bearer ", "bearer ", "BEARER "}[count%3]
					switch m {
					case "basic":
						pre = []string{"Basic ", "Bearer", "Bearer: ", "", "Digest "}[count%5]
					case "short":
						pre, tok = []string{"Bearer", "B", " "}[count%3], ""
					}
					req.Header.Set("Authorization", pre+tok)
					got, err = cm.ValidateAuthorizationHeader(req)
				}
				if (err == nil) != (res == "ok") {
					vFail("%s token presented as %s to %s on %s (%s): accepted %v, want %v (%v)", k.kind, as, c, h, m, err == nil, res == "ok", err)
				}
				if err == nil && !vSame(got.Claims, k.claims) {
					vFail("accepted token has claims %v, want %v", got.Claims, k.claims)
				}

			case "presentid":
				a := toks[vInt(st.A["a"])-1]
				auth := &jwt.Token{Claims: jwt.MapClaims(a.claims)}
				err := cm.ValidateIDTokenCookie(newReq(h, map[string]string{"TLSPROXYIDTOKEN": toks[vInt(st.A["k"])-1].tok}), auth)
				if (err == nil) != (res == "ok") {
					vFail("ID token cookie on %s: accepted %v, want %v (%v)", h, err == nil, res == "ok", err)
				}

			default:
				vHarness("op %q", st.op())
			}
			// The jar as the specification has it.
			for h, k := range vMap(st.T["id"]) {
				want := ""
				if n := vInt(k); n > 0 {
					want = toks[n-1].tok
				}
				if got := get(vHosts[h], "TLSPROXYIDTOKEN"); got != want {
					vFail("the ID token cookie of %s is %q, want %q", h, got, want)
				}
				dom := "com"
				if h == "www.org" {
					dom = "org"
				}
				want = ""
				if n := vInt(vMap(st.T["auth"])[dom]); n > 0 {
					want = toks[n-1].tok
				}
				if got := get(vHosts[h], "TLSPROXYAUTH"); got != want {
					vFail("the login cookie on %s is %q, want %q", h, got, want)
				}
			}
			for _, n := range []string{"http://www.example.com/", "http://www.example.org/", "https://www.example.net/", "https://example.com.evil.net/"} {
				if l := jar.Cookies(vMust1(url.Parse(n))); len(l) != 0 {
					vFail("cookies are sent to %s: %v", n, l)
				}
			}
		}
	})
}
