package PKG

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"regexp"
	"strings"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"
)

var vTokURLs = []string{
	"https://www.example.com/",
	"https://www.example.com/a/b?x=1&y=%2F%20z",
	"https://xn--bcher-kva.example.com/buch?q=%C3%BC#frag",
	"https://xn--bcher-kva.example.com:8443/",
	"https://www.example.com:443/a%2Fb/../c",
	"https://www.example.com/%E2%82%AC?redirect=https%3A%2F%2Fevil.example.net%2F",
	"https://[2001:db8::1]:8443/v6",
	"https://user@www.example.com/u",
	"https://WWW.Example.COM/Case",
	"https://xn--zckzah.example.com/?a=b;c",
	"https://www.example.com/?" + strings.Repeat("long=1&", 200),
	"https://faß.example.com/not-punycode",
	"https://www.example.com//double//slash?",
}

var vTokExtras = []map[string]any{
	nil,
	{},
	{"email": "bob@example.com"},
	{"email": "bob@example.com", "n": 5, "list": []string{"a", "b"}},
	{"url": "https://evil.example.net/", "sid": "ffffffffffffffffffffffffffffffff"},
	{"email": "ünï@example.com", "nested": map[string]any{"a": true}},
}

var vSidRE = regexp.MustCompile(`^[0-9a-zA-Z_-]{16,}$`)

type vTok struct {
	tok, url string
	extra    map[string]any
}

func TestVerifURLToken(t *testing.T) {
	tm := vNewTM()
	tm2 := vNewTM()
	hosts := map[string]string{"h1": "www.example.com", "h2": "xn--bcher-kva.example.com:8443"}
	planted := []string{"", "abc", "00000000000000000000000000000000"}
	count := 0
	seenSid := map[string]bool{}
	vRun(t, func(r *vRunner, w vWalk, step func(int)) {
		sids := map[int]string{}
		for i, p := range planted {
			sids[-1-i] = p + "-" + fmt.Sprint(count)
		}
		if count%3 == 0 {
			sids[-1] = ""
		}
		jar := map[string]map[string]*string{"b1": {}, "b2": {}}
		var toks []vTok
		for i, st := range w.Steps {
			step(i)
			count++
			b, h := vStr(st.A["b"]), vStr(st.A["h"])
			o := vMap(st.O)
			ok := vBool(o["ok"])
			r.stat(fmt.Sprintf("%s:%v", st.op(), ok))
			newReq := func() *http.Request {
				req := httptest.NewRequest("GET", "https://"+hosts[h]+"/.sso/login", nil)
				req.AddCookie(&http.Cookie{Name: "TLSPROXYAUTH", Value: "eyJhbGciOiJub25lIn0.e30."})
				if v := jar[b][h]; v != nil {
					req.AddCookie(&http.Cookie{Name: "TLSPROXYSID", Value: *v})
				}
				req.AddCookie(&http.Cookie{Name: "TLSPROXYSIDX", Value: "zzz"})
				req.Header.Set("TLSPROXYSID", "header")
				return req
			}
			// What the response does to the session cookie: nil if nothing.
			sidSet := func(rec *httptest.ResponseRecorder) *string {
				var v *string
				for _, c := range rec.Result().Cookies() {
					if c.Name != "TLSPROXYSID" {
						vFail("unexpected cookie %q", c)
					}
					if v != nil {
						vFail("more than one session cookie")
					}
					if !c.Secure || !c.HttpOnly || c.Domain != "" || c.Path != "/" || c.SameSite != http.SameSiteLaxMode && c.SameSite != http.SameSiteStrictMode {
						vFail("session cookie without protection, or for other hosts: %q", c)
					}
					if c.MaxAge < 0 || !c.Expires.IsZero() && c.Expires.Before(time.Now().Add(time.Hour)) {
						vFail("session cookie does not last: %q", c)
					}
					s := c.Value
					v = &s
				}
				if cur := jar[b][h]; cur != nil && v != nil && *cur != *v {
					vFail("the session id changed from %q to %q", *cur, *v)
				} else if cur == nil && v != nil {
					if !vSidRE.MatchString(*v) || seenSid[*v] {
						vFail("a new session id %q is weak or not fresh", *v)
					}
					seenSid[*v] = true
				}
				return v
			}
			switch st.op() {
			case "clear":
				delete(jar[b], h)

			case "plant":
				s := sids[vInt(st.A["sid"])]
				jar[b][h] = &s

			case "issue":
				us := vTokURLs[count%len(vTokURLs)]
				u := vMust1(url.Parse(us))
				want := u.String()
				extra := vTokExtras[(count/3)%len(vTokExtras)]
				rec := httptest.NewRecorder()
				tok, display, err := tm.URLToken(rec, newReq(), u, extra)
				if err != nil {
					vFail("URLToken(%q): %v", us, err)
				}
				if u.String() != want {
					vFail("URLToken changed the caller's URL from %q to %q", want, u.String())
				}
				if display == "" {
					vFail("URLToken(%q): no display URL", us)
				}
				v := sidSet(rec)
				if v == nil && jar[b][h] == nil {
					vFail("no session id was set")
				}
				if v != nil {
					sids[vInt(o["sid"])] = *v
					jar[b][h] = v
				}
				toks = append(toks, vTok{tok, want, extra})

			case "use":
				k := vInt(st.A["k"])
				tok := ""
				if k > 0 {
					tok = toks[k-1].tok
				}
				parts := strings.Split(tok, ".")
				switch m := vStr(st.A["m"]); m {
				case "none":
				case "sig":
					x := []byte(parts[2])
					n := count % (len(x) - 2)
					if x[n] == 'A' {
						x[n] = 'B'
					} else {
						x[n] = 'A'
					}
					tok = parts[0] + "." + parts[1] + "." + string(x)
				case "payload":
					p := vMust1(base64.RawURLEncoding.DecodeString(parts[1]))
					p2 := strings.Replace(string(p), "https://", "https://x", 1)
					if p2 == string(p) {
						vHarness("no url in %s", p)
					}
					tok = parts[0] + "." + base64.RawURLEncoding.EncodeToString([]byte(p2)) + "." + parts[2]
				case "alg":
					tok = base64.RawURLEncoding.EncodeToString([]byte(`{"alg":"none","typ":"JWT"}`)) + "." + parts[1] + "."
				case "trunc":
					tok = parts[0] + "." + parts[1]
				case "empty":
					tok = parts[0] + "." + parts[1] + "."
				case "garbage":
					tok = []string{"", ".", "..", "a.b.c", "https://www.example.com/", "null"}[count%6]
				case "other", "nourl", "nosid":
					c := jwt.MapClaims{"url": "https://www.example.com/", "iat": time.Now().Unix(), "sub": "bob"}
					if v := jar[b][h]; v != nil && m != "nosid" {
						c["sid"] = *v
					}
					m2 := tm
					if m == "other" {
						m2 = tm2
						if v := jar[b][h]; v == nil {
							c["sid"] = "abc"
						}
					}
					if m == "nourl" {
						delete(c, "url")
						if count%2 == 0 {
							c["url"] = 5
						}
					}
					tok = vMust1(m2.CreateToken(c, []string{"", "ES256", "EdDSA"}[count%3]))
				default:
					vHarness("mutation %q", m)
				}
				rec := httptest.NewRecorder()
				u, claims, err := tm.ValidateURLToken(rec, newReq(), tok)
				sidSet(rec)
				if !ok {
					if err == nil {
						vFail("a token that was not issued by the proxy to this session was accepted: url %q", u)
					}
					break
				}
				if err != nil {
					vFail("a valid token was refused: %v", err)
				}
				want := toks[k-1]
				if u.String() != want.url {
					vFail("the token yields %q, was issued for %q", u.String(), want.url)
				}
				got := map[string]any{}
				for n, v := range claims {
					if n != "url" && n != "sid" && n != "iat" && n != "exp" {
						got[n] = v
					}
				}
				exp := map[string]any{}
				for n, v := range want.extra {
					if n != "url" && n != "sid" {
						exp[n] = v
					}
				}
				if !vSame(got, exp) {
					vFail("the token yields claims %v, was issued with %v", got, exp)
				}
			default:
				vHarness("op %q", st.op())
			}
		}
	})
}
