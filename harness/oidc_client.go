package PKG

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	jwt "github.com/golang-jwt/jwt/v5"

	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
)

// vFakeIDP is the upstream provider; the harness tells it what to answer.
type vFakeIDP struct {
	mu       sync.Mutex
	srv      *httptest.Server
	answer   vObj
	nonce    string
	user     string
	requests []url.Values
}

func vNewFakeIDP() *vFakeIDP {
	f := &vFakeIDP{}
	mux := http.NewServeMux()
	claims := func() vObj {
		c := vObj{"iss": "https://idp.example.net", "aud": "CLIENTID", "sub": "sub-" + f.user, "iat": time.Now().Unix(),
			"exp": time.Now().Add(time.Hour).Unix(), "name": "Name " + f.user}
		if vBool(f.answer["email"]) {
			c["email"] = f.user + "@example.com"
		}
		switch vStr(f.answer["verified"]) {
		case "true":
			c["email_verified"] = true
		case "false":
			c["email_verified"] = false
		}
		if h := vStr(f.answer["hd"]); h != "" {
			c["hd"] = h
		}
		if f.nonce != "" {
			c["nonce"] = f.nonce
		}
		return c
	}
	handle := func(w http.ResponseWriter, req *http.Request, userinfo bool) {
		f.mu.Lock()
		defer f.mu.Unlock()
		if !userinfo {
			req.ParseForm()
			f.requests = append(f.requests, req.PostForm)
		}
		w.Header().Set("content-type", "application/json")
		switch vStr(f.answer["kind"]) {
		case "error":
			w.WriteHeader(http.StatusBadRequest)
			fmt.Fprint(w, `{"error":"invalid_grant"}`)
			return
		case "garbage":
			fmt.Fprint(w, `<html>oops</html>`)
			return
		case "empty":
			fmt.Fprint(w, `{}`)
			return
		case "down":
			if hj, ok := w.(http.Hijacker); ok {
				if c, _, err := hj.Hijack(); err == nil {
					c.Close()
				}
			}
			return
		}
		if userinfo {
			if req.Header.Get("authorization") != "Bearer UPSTREAM-TOKEN" {
				w.WriteHeader(http.StatusUnauthorized)
				return
			}
			json.NewEncoder(w).Encode(claims())
			return
		}
		resp := vObj{"access_token": "UPSTREAM-TOKEN", "token_type": "Bearer"}
		if vBool(f.answer["idtoken"]) {
			tok := vMust1(jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims(claims())).SignedString([]byte("key")))
			resp["id_token"] = tok
		}
		json.NewEncoder(w).Encode(resp)
	}
	mux.HandleFunc("/token", func(w http.ResponseWriter, req *http.Request) { handle(w, req, false) })
	mux.HandleFunc("/userinfo", func(w http.ResponseWriter, req *http.Request) { handle(w, req, true) })
	f.srv = httptest.NewServer(mux)
	return f
}

func (f *vFakeIDP) take() []url.Values {
	f.mu.Lock()
	defer f.mu.Unlock()
	r := f.requests
	f.requests = nil
	return r
}

type vLogin struct {
	state, nonce, challenge, url string
}

// vJar keeps the cookies of one browser (for the proxy's domain).
type vJar map[string]string

func (j vJar) update(rec *httptest.ResponseRecorder) {
	for _, c := range rec.Result().Cookies() {
		if c.MaxAge < 0 || c.Value == "" {
			delete(j, c.Name)
		} else {
			j[c.Name] = c.Value
		}
	}
}

func (j vJar) add(req *http.Request) {
	for k, v := range j {
		req.AddCookie(&http.Cookie{Name: k, Value: v})
	}
}

func TestVerifOIDCClient(t *testing.T) {
	idp := vNewFakeIDP()
	defer idp.srv.Close()
	tm := vNewTM()
	vRun(t, func(r *vRunner, w vWalk, step func(int)) {
		vClientWalk(r, w, step, idp, cookiemanager.New(tm, "the-idp", "example.com", "https://login.example.com/"))
	})
}

func vClientWalk(r *vRunner, w vWalk, step func(int), idp *vFakeIDP, cm *cookiemanager.CookieManager) {
	mode := vStr(w.Init["mode"])
	cfg := Config{
		AuthEndpoint:  "https://idp.example.net/auth",
		TokenEndpoint: idp.srv.URL + "/token",
		RedirectURL:   "https://login.example.com/redirect",
		ClientID:      "CLIENTID",
		ClientSecret:  "CLIENTSECRET",
		HostedDomain:  vStr(w.Init["hd"]),
	}
	if mode == "userinfo" {
		cfg.UserinfoEndpoint = idp.srv.URL + "/userinfo"
	}
	p := vMust1(New(cfg, vRec{}, cm))
	urls := map[string]string{"u1": "https://www.example.com/some/page?a=b&c=%2F", "u2": "https://other.example.com:8443/x"}
	hosts := map[string]string{"u1": "www.example.com", "u2": "other.example.com:8443"}
	jars := map[string]vJar{"b1": {}, "b2": {}}
	var logins []vLogin
	seen := map[string]bool{}
	for i, st := range w.Steps {
		step(i)
		o := vMap(st.O)
		r.stat(st.op() + ":" + vStr(o["res"]))
		switch st.op() {
		case "tick":
			time.VerifAdvance(140 * time.Second)

		case "restore":
			jars[vStr(st.A["browser"])]["TLSPROXYNONCE"] = logins[vInt(st.A["k"])-1].nonce

		case "begin":
			u := urls[vStr(st.A["url"])]
			jar := jars[vStr(st.A["browser"])]
			req := httptest.NewRequest("GET", u, nil)
			jar.add(req)
			rec := httptest.NewRecorder()
			p.RequestLogin(rec, req, u)
			loc, err := url.Parse(rec.Header().Get("location"))
			if rec.Code != 302 || err != nil {
				vFail("login request: %d %q", rec.Code, rec.Header().Get("location"))
			}
			if got := loc.Scheme + "://" + loc.Host + loc.Path; got != cfg.AuthEndpoint {
				vFail("login request goes to %q", loc)
			}
			q := loc.Query()
			for k, v := range map[string]string{"response_type": "code", "client_id": "CLIENTID", "redirect_uri": cfg.RedirectURL, "code_challenge_method": "S256"} {
				if q.Get(k) != v {
					vFail("login request has %s=%q, want %q", k, q.Get(k), v)
				}
			}
			l := vLogin{state: q.Get("state"), nonce: q.Get("nonce"), challenge: q.Get("code_challenge"), url: u}
			if len(l.state) < 16 || len(l.nonce) < 16 || len(l.challenge) != 43 || seen[l.state] || seen[l.challenge] {
				vFail("state, nonce or challenge is missing, short or not fresh: %q", loc)
			}
			seen[l.state], seen[l.challenge] = true, true
			jar.update(rec)
			if jar["TLSPROXYNONCE"] != l.nonce {
				vFail("the browser was not given the nonce %q: %q", l.nonce, jar["TLSPROXYNONCE"])
			}
			logins = append(logins, l)

		case "callback":
			b := vStr(st.A["browser"])
			jar := jars[b]
			s := vInt(st.A["s"])
			ans := vMap(st.A["ans"])
			state := "0123456789abcdef01234567"
			if s > 0 {
				state = logins[s-1].state
			}
			ans["idtoken"] = mode == "idtoken"
			idp.mu.Lock()
			idp.answer = ans
			idp.nonce = ""
			if mode == "idtoken" && vInt(ans["nonce"]) > 0 {
				idp.nonce = logins[vInt(ans["nonce"])-1].nonce
			}
			idp.user = "user-" + b
			idp.requests = nil
			idp.mu.Unlock()
			code := fmt.Sprintf("CODE-%d-%d", w.ID, i)
			req := httptest.NewRequest("GET", "https://login.example.com/redirect?"+url.Values{"state": {state}, "code": {code}}.Encode(), nil)
			jar.add(req)
			rec := httptest.NewRecorder()
			p.HandleCallback(rec, req)
			reqs := idp.take()
			delete(jar, "TLSPROXYAUTH")
			jar.update(rec)
			auth := jar["TLSPROXYAUTH"]
			// Whether a refused callback clears the nonce cookie is unspecified; it is gone here.
			if vInt(vMap(st.T["cookie"])[b]) == 0 {
				delete(jar, "TLSPROXYNONCE")
			}
			if vStr(o["res"]) == "refused" {
				if auth != "" {
					vFail("callback %s logged the user in (%d)", vJSON(st.A), rec.Code)
				}
				if rec.Code < 400 {
					vFail("callback %s was answered with %d %q", vJSON(st.A), rec.Code, rec.Header().Get("location"))
				}
				if !vBool(o["asked"]) && len(reqs) > 0 {
					vFail("callback %s with an invalid state reached the token endpoint", vJSON(st.A))
				}
				for _, f := range reqs {
					vCheckTokenReq(f, cfg, code, logins[s-1])
				}
				continue
			}
			if len(reqs) != 1 {
				vFail("callback made %d token requests", len(reqs))
			}
			vCheckTokenReq(reqs[0], cfg, code, logins[s-1])
			if rec.Code != 302 || auth == "" {
				vFail("callback %s was refused: %d %s", vJSON(st.A), rec.Code, strings.TrimSpace(rec.Body.String()))
			}
			if loc := rec.Header().Get("location"); loc != urls[vStr(o["url"])] {
				vFail("login for %q ends at %q", urls[vStr(o["url"])], loc)
			}
			vreq := httptest.NewRequest("GET", "https://login.example.com/", nil)
			vreq.AddCookie(&http.Cookie{Name: "TLSPROXYAUTH", Value: auth})
			tok, err := cm.ValidateAuthTokenCookie(vreq)
			if err != nil {
				vFail("the login cookie is not valid: %v", err)
			}
			c := tok.Claims.(jwt.MapClaims)
			hh := sha256.Sum256([]byte(hosts[vStr(o["url"])]))
			want := vObj{"email": "user-" + b + "@example.com", "sub": "sub-user-" + b, "provider": "the-idp", "hhash": hex.EncodeToString(hh[:]), "name": "Name user-" + b}
			if h := vStr(ans["hd"]); h != "" {
				want["hd"] = h
			}
			for k, v := range want {
				if c[k] != v {
					vFail("login cookie has %s=%v, want %v", k, c[k], v)
				}
			}

		default:
			vHarness("unknown op %q", st.op())
		}
	}
}

func vCheckTokenReq(f url.Values, cfg Config, code string, l vLogin) {
	sum := sha256.Sum256([]byte(f.Get("code_verifier")))
	if base64.RawURLEncoding.EncodeToString(sum[:]) != l.challenge {
		vFail("the token request does not carry the PKCE verifier of this login")
	}
	for k, v := range map[string]string{"code": code, "client_id": cfg.ClientID, "client_secret": cfg.ClientSecret, "redirect_uri": cfg.RedirectURL, "grant_type": "authorization_code"} {
		if f.Get(k) != v {
			vFail("the token request has %s=%q, want %q", k, f.Get(k), v)
		}
	}
}
