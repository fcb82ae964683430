package PKG

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"slices"
	"strings"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
)

const vIssuer = "https://idp.example.com/prefix"

var vRedirects = map[string]string{
	"r1a":   "https://c1.example.com/cb",
	"r1b":   "https://c1.example.com/other?x=1&y=2",
	"r2":    "https://c2.example.com/cb",
	"evil":  "https://evil.example.net/cb",
	"r1a/x": "https://c1.example.com/cb/x",
	"":      "",
}

var vSecrets = map[string]string{"c1": "secret-one", "c2": "secret-two", "unknown": "secret-three"}

func vUserClaims(u string) jwt.MapClaims {
	if u == "none" {
		return nil
	}
	return jwt.MapClaims{
		"sub":         "sub-" + u,
		"email":       u + "@Example.com",
		"name":        "Name " + u,
		"given_name":  u,
		"sid":         "internal-sid-" + u,
		"proxyauth":   "https://login.example.com/",
		"provider":    "the-provider",
		"hhash":       "internal-hash",
		"source":      "internal-source",
		"iss":         "https://login.example.com/",
		"aud":         "https://login.example.com/",
		"other-claim": "internal-other",
	}
}

func vNewOIDCServer(tm *tokenmanager.TokenManager) *ProviderServer {
	return NewServer(ServerOptions{
		TokenManager:  tm,
		Issuer:        vIssuer,
		PathPrefix:    "/prefix",
		ClaimsFromCtx: vClaimsFromCtx,
		Clients: []Client{
			{ID: "c1", Secret: vSecrets["c1"], RedirectURI: []string{vRedirects["r1a"], vRedirects["r1b"]}},
			{ID: "c2", Secret: vSecrets["c2"], RedirectURI: []string{vRedirects["r2"], vRedirects["r1b"]}},
		},
		RewriteRules: []RewriteRule{
			{InputClaim: "email", OutputClaim: "login", Regex: `^([^@]+)@Example\.com$`, Value: "<$1>"},
			{InputClaim: "login:upper", OutputClaim: "LOGIN", Regex: `^(.*)$`, Value: "$1"},
			{InputClaim: "email", OutputClaim: "role", Regex: `^alice@.*$`, Value: "admin"},
			{InputClaim: "${login}/${sub}", OutputClaim: "both", Regex: `^(.*)/(.*)$`, Value: "$2/$1"},
		},
		EventRecorder: vRec{},
		Logger:        vNoLog{},
	})
}

type vIssued struct {
	code, state, nonce, token string
}

func TestVerifOIDCServer(t *testing.T) {
	tm := vNewTM()
	vRun(t, func(r *vRunner, w vWalk, step func(int)) {
		s := vNewOIDCServer(tm)
		var issued []vIssued
		used := map[string]bool{}
		for i, st := range w.Steps {
			step(i)
			o := vMap(st.O)
			want := vStr(o["res"])
			r.stat(st.op() + ":" + want)
			switch st.op() {
			case "tick":
				time.VerifAdvance(50 * time.Second)

			case "authorize":
				v := url.Values{}
				v.Set("response_type", vStr(st.A["rtype"]))
				v.Set("client_id", vStr(st.A["client"]))
				v.Set("redirect_uri", vRedirects[vStr(st.A["ruri"])])
				state := fmt.Sprintf("state-%d-%d&x=y", w.ID, i)
				v.Set("state", state)
				nonce := ""
				if vBool(st.A["nonce"]) {
					nonce = fmt.Sprintf("nonce-%d-%d", w.ID, i)
					v.Set("nonce", nonce)
				}
				if vStr(st.A["scope"]) == "all" {
					v.Set("scope", "openid email profile")
				} else {
					v.Set("scope", "openid")
				}
				var req *http.Request
				if vStr(st.A["method"]) == "POST" {
					req = httptest.NewRequest("POST", "/prefix/authorization", strings.NewReader(v.Encode()))
					req.Header.Set("content-type", "application/x-www-form-urlencoded")
				} else {
					req = httptest.NewRequest("GET", "/prefix/authorization?"+v.Encode(), nil)
				}
				if c := vUserClaims(vStr(st.A["user"])); c != nil {
					req = req.WithContext(context.WithValue(req.Context(), vClaimsKey{}, c))
				}
				rec := httptest.NewRecorder()
				s.ServeAuthorization(rec, req)
				loc := rec.Header().Get("location")
				if want == "error" {
					if rec.Code < 400 || loc != "" {
						vFail("authorization request %s was granted: %d %q", vJSON(st.A), rec.Code, loc)
					}
					continue
				}
				if rec.Code != 302 {
					vFail("authorization request %s was refused: %d %s", vJSON(st.A), rec.Code, rec.Body)
				}
				lu, err := url.Parse(loc)
				if err != nil {
					vFail("authorization redirects to %q", loc)
				}
				wu := vMust1(url.Parse(vRedirects[vStr(st.A["ruri"])]))
				q := lu.Query()
				if lu.Scheme != wu.Scheme || lu.Host != wu.Host || lu.Path != wu.Path {
					vFail("authorization for %q redirects to %q", wu, loc)
				}
				for k, vv := range wu.Query() {
					if !slices.Equal(vv, q[k]) {
						vFail("redirect lost query %q: %q", k, loc)
					}
				}
				if q.Get("state") != state {
					vFail("redirect carries state %q, want %q", q.Get("state"), state)
				}
				code := q.Get("code")
				if len(code) < 12 || used[code] {
					vFail("code %q is short or not fresh", code)
				}
				used[code] = true
				issued = append(issued, vIssued{code: code, state: state, nonce: nonce})

			case "exchange":
				k := vInt(st.A["k"])
				code := "AAAAAAAAAAAAAAAA"
				if k > 0 {
					code = issued[k-1].code
				}
				v := url.Values{}
				v.Set("grant_type", vStr(st.A["grant"]))
				v.Set("code", code)
				c := vStr(st.A["client"])
				v.Set("client_id", c)
				v.Set("client_secret", vSecrets[c])
				if !vBool(st.A["secret"]) {
					other := map[string]string{"c1": "c2", "c2": "c1", "unknown": "c1"}
					v.Set("client_secret", vSecrets[other[c]])
				}
				v.Set("redirect_uri", vRedirects[vStr(st.A["ruri"])])
				m := vStr(st.A["method"])
				var req *http.Request
				if m == "GET" {
					req = httptest.NewRequest("GET", "/prefix/token?"+v.Encode(), nil)
				} else {
					req = httptest.NewRequest(m, "/prefix/token", strings.NewReader(v.Encode()))
					req.Header.Set("content-type", "application/x-www-form-urlencoded")
				}
				rec := httptest.NewRecorder()
				s.ServeToken(rec, req)
				if want == "error" {
					if rec.Code < 400 {
						vFail("token request %s was granted: %d %s", vJSON(st.A), rec.Code, rec.Body)
					}
					if strings.Contains(rec.Body.String(), "token") {
						vFail("refused token request returns %s", rec.Body)
					}
					continue
				}
				if rec.Code != 200 {
					vFail("token request %s was refused: %d %s", vJSON(st.A), rec.Code, rec.Body)
				}
				var resp struct {
					AccessToken string `json:"access_token"`
					IDToken     string `json:"id_token"`
					TokenType   string `json:"token_type"`
				}
				if err := json.Unmarshal(rec.Body.Bytes(), &resp); err != nil || resp.AccessToken == "" || used[resp.AccessToken] {
					vFail("token response %s", rec.Body)
				}
				used[resp.AccessToken] = true
				issued[k-1].token = resp.AccessToken
				vCheckIDToken(tm, resp.IDToken, vStr(o["user"]), vStr(o["aud"]), vStr(o["scope"]), issued[k-1].nonce)

			case "userinfo":
				k := vInt(st.A["k"])
				tok := "AAAAAAAAAAAAAAAA"
				if k > 0 {
					tok = issued[k-1].token
				}
				req := httptest.NewRequest(vStr(st.A["method"]), "/prefix/userinfo", nil)
				switch vStr(st.A["scheme"]) {
				case "bearer":
					req.Header.Set("authorization", "Bearer "+tok)
				case "basic":
					req.Header.Set("authorization", "Basic "+tok)
				}
				rec := httptest.NewRecorder()
				s.ServeUserInfo(rec, req)
				if want == "error" {
					if rec.Code < 400 || strings.Contains(rec.Body.String(), "sub") {
						vFail("userinfo request %s was granted: %d %s", vJSON(st.A), rec.Code, rec.Body)
					}
					continue
				}
				if rec.Code != 200 {
					vFail("userinfo request %s was refused: %d %s", vJSON(st.A), rec.Code, rec.Body)
				}
				var got vObj
				if err := json.Unmarshal(rec.Body.Bytes(), &got); err != nil {
					vFail("userinfo returns %s", rec.Body)
				}
				if wantc := vWantClaims(vStr(o["user"]), vStr(o["scope"])); !vSame(got, wantc) {
					vFail("userinfo returns %s, want %s", vJSON(got), vJSON(wantc))
				}
			default:
				vHarness("unknown op %q", st.op())
			}
		}
	})
}

// vWantClaims is what a client may learn about a user.
func vWantClaims(user, scope string) vObj {
	c := vObj{
		"sub":   "sub-" + user,
		"login": "<" + user + ">",
		"LOGIN": "<" + strings.ToUpper(user) + ">",
		"both":  "sub-" + user + "/<" + user + ">",
	}
	if user == "alice" {
		c["role"] = "admin"
	}
	if scope == "all" {
		c["email"] = user + "@Example.com"
		c["email_verified"] = true
		c["name"] = "Name " + user
		c["given_name"] = user
	}
	return c
}

func vCheckIDToken(tm *tokenmanager.TokenManager, tok, user, aud, scope, nonce string) {
	if _, err := tm.ValidateToken(tok); err != nil {
		vFail("the ID token is not valid: %v", err)
	}
	var claims jwt.MapClaims
	if _, _, err := jwt.NewParser().ParseUnverified(tok, &claims); err != nil {
		vFail("the ID token: %v", err)
	}
	want := vWantClaims(user, scope)
	want["iss"] = vIssuer
	want["aud"] = aud
	if nonce != "" {
		want["nonce"] = nonce
	}
	got := vObj{}
	for k, v := range claims {
		got[k] = v
	}
	if s, _ := got["scope"].(string); (scope == "all" && s != "openid email profile") || (scope != "all" && s != "openid") {
		vFail("ID token scope %q for request %q", s, scope)
	}
	iat, ok1 := got["iat"].(float64)
	exp, ok2 := got["exp"].(float64)
	if !ok1 || !ok2 || exp <= iat || exp-iat > 3600 {
		vFail("ID token times: iat=%v exp=%v", got["iat"], got["exp"])
	}
	delete(got, "scope")
	delete(got, "iat")
	delete(got, "exp")
	if l, ok := got["aud"].([]any); ok && len(l) == 1 {
		got["aud"] = l[0]
	}
	if !vSame(got, want) {
		vFail("the ID token carries %s, want %s", vJSON(got), vJSON(want))
	}
}
