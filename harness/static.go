package PKG_test

import (
	"fmt"
	"io/fs"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
)

type vStatic struct {
	r    *vRunner
	px   *vProxy
	top  string
	root string
	cls  map[string]*vClient
	data map[string]string // present content, by file
	n    int
	now  time.Time
	has  map[string][2]string // what the client has: content and date, by target
}

var vStaticFiles = []string{"/index.html", "/n.txt", "/e", "/c d?%;.txt", "/d2/s.txt", "/d2/.h", "/d2/.w/c", "/x/n.txt", "/x/x/n.txt", "/.h", "/.git/c", "/.well-known/n.txt", "/...",
	"/..h", "/b\\s", "/d/f.txt", "/d/h.html", "/index.html.d/index.html/f.txt", "/t.", "/x y/index.html", "out:/secret", "out:/dir/f.txt", "out:/dir/index.html"}

func (x *vStatic) path(id string) string {
	if p, ok := strings.CutPrefix(id, "out:"); ok {
		return x.top + p
	}
	return x.root + id
}

// write gives a file a new content and date.
func (x *vStatic) write(id, how string) {
	x.n++
	x.now = x.now.Add(3 * time.Second)
	size := 20 + x.n%50
	if id == "/n.txt" {
		size = 150000
	}
	s := fmt.Sprintf("content %d of %s\n", x.n, id)
	s += strings.Repeat("x", size)
	x.data[id] = s
	p := x.path(id)
	vMust(os.MkdirAll(filepath.Dir(p), 0o755))
	if how == "rename" {
		tmp := filepath.Join(x.top, "tmp")
		vMust(os.WriteFile(tmp, []byte(s), 0o644))
		vMust(os.Rename(tmp, p))
	} else {
		vMust(os.WriteFile(p, []byte(s), 0o644))
	}
	vMust(os.Chtimes(p, x.now, x.now))
}

func (x *vStatic) put(what, kind string) {
	p := filepath.Join(x.root, what)
	x.release()
	vMust(os.RemoveAll(p))
	link := func(to string) { vMust(os.Symlink(to, p)) }
	switch kind {
	case "none":
	case "file":
		x.write("/"+what, "write")
	case "dir":
		vMust(os.Mkdir(p, 0o755))
		if what == "a" {
			x.write("/a/f.txt", "write")
		}
	case "idir":
		vMust(os.Mkdir(p, 0o755))
		x.write("/a/f.txt", "write")
		x.write("/a/index.html", "write")
	case "lfile":
		link(filepath.Join(x.root, "n.txt"))
	case "ldir":
		link("d")
	case "lroot":
		link(".")
	case "lhid":
		link(".h")
	case "lout":
		link(filepath.Join(x.top, "secret"))
	case "loutdir":
		link("../dir")
	case "dangling":
		link("nowhere")
	case "loop":
		link(what)
	case "fifo":
		vMust(syscall.Mkfifo(p, 0o644))
	case "sock":
		l := vMust1(net.ListenUnix("unix", &net.UnixAddr{Name: p}))
		l.SetUnlinkOnClose(false)
		l.Close()
	default:
		vHarness("kind %s", kind)
	}
}

// there says whether a file that can be away is there.
func (x *vStatic) there(id string) bool {
	dir, err := os.Lstat(filepath.Dir(x.path(id)))
	if err != nil || !dir.IsDir() {
		return false
	}
	fi, err := os.Lstat(x.path(id))
	return err == nil && fi.Mode().IsRegular()
}

// list describes everything that is in the scratch directory.
func (x *vStatic) list() string {
	var l []string
	vMust(filepath.WalkDir(x.top, func(p string, d fs.DirEntry, err error) error {
		vMust(err)
		fi, err := os.Lstat(p)
		vMust(err)
		s := p + " " + fi.Mode().String()
		if fi.Mode().IsRegular() {
			s += " " + string(vMust1(os.ReadFile(p))) + fi.ModTime().String()
		}
		l = append(l, s)
		return nil
	}))
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func vStaticSetup(cfg vObj) *vStatic {
	x := &vStatic{cls: map[string]*vClient{}, data: map[string]string{}, top: vTempDir(), now: time.Now().Add(-24 * time.Hour).Truncate(time.Second), has: map[string][2]string{}}
	x.root = filepath.Join(x.top, "root")
	for _, f := range append(vStaticFiles, "out:/root.txt", "out:/root-secret/n.txt", "out:/n.txt", "/root-secret.txt") {
		x.write(f, "write")
	}
	be := &proxy.Backend{ServerNames: []string{"a.example.com"}, Mode: vStr(cfg["mode"])}
	if prefix := vStrs(cfg["prefix"]); len(prefix) == 0 {
		be.DocumentRoot = x.root
	} else {
		p := "/" + strings.Join(prefix, "/") + "/"
		if p == "//" {
			p = "/"
		}
		be.PathOverrides = []*proxy.PathOverride{{Paths: []string{p}, DocumentRoot: x.root}}
	}
	px, err := vNewProxy(&proxy.Config{EnableQUIC: vPtr(true), Backends: []*proxy.Backend{be}})
	if err != nil {
		vFail("a valid configuration is rejected: %v", err)
	}
	x.px = px
	return x
}

// release ends the attempts to read what isn't a file.
func (x *vStatic) release() {
	for _, f := range []string{"a", "d/index.html"} {
		p := filepath.Join(x.root, f)
		if fi, err := os.Lstat(p); err == nil && fi.Mode()&fs.ModeNamedPipe != 0 {
			if f, err := os.OpenFile(p, os.O_RDWR|syscall.O_NONBLOCK, 0); err == nil {
				f.Close()
			}
		}
	}
}

func (x *vStatic) stop() {
	x.release()
	for _, c := range x.cls {
		c.close()
	}
	x.px.stop()
}

func (x *vStatic) client(proto string) *vClient {
	if x.cls[proto] == nil {
		x.cls[proto] = &vClient{d: vDial{addr: x.px.addr, sni: "a.example.com"}, proto: proto}
	}
	return x.cls[proto]
}

func vStaticNorm(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\x00", "?0"), "\xff", "?ff")
}

func (x *vStatic) request(a, o vObj) {
	target, method, rng := vStr(a["target"]), vStr(a["m"]), vStr(a["rng"])
	var hdr []string
	if rng != "" {
		hdr = append(hdr, "Range", rng)
	}
	have, cond := x.has[target]
	cond = cond && vBool(a["cond"])
	if cond {
		hdr = append(hdr, "If-Modified-Since", have[1])
	}
	body := ""
	if method == "POST" || method == "PUT" {
		body = "new content"
	}
	r := x.client(vStr(a["p"])).do(method, target+vStr(a["q"]), "a.example.com", body, hdr...)
	bad := func(why string) {
		vFail("%s: must be %s, but is %d %v %.100q (%d bytes)%s", vJSON(a), vJSON(o), r.code, r.header, r.body, len(r.body), why)
	}
	x.r.stat(vStr(o["k"]))
	switch vStr(o["k"]) {
	case "err":
		if r.code < 400 || r.code > 499 {
			bad("")
		}
		for id, s := range x.data {
			if strings.Contains(r.body, s) || strings.Contains(r.body, "content ") {
				bad(": the content of " + id)
			}
		}
	case "method":
		if r.code != 405 {
			bad("")
		}
	case "redirect":
		u, err := url.Parse(r.header.Get("Location"))
		code := 301
		if method != "GET" && method != "HEAD" {
			code = 303
		}
		if r.code != code || err != nil || u.Host != "" || u.Scheme != "" || vStaticNorm(u.Path) != vStr(o["path"]) || u.RawQuery != strings.TrimPrefix(vStr(a["q"]), "?") {
			bad("")
		}
	case "file":
		want, ok := x.data[vStr(o["id"])]
		if !ok {
			vHarness("file %q", vStr(o["id"]))
		}
		switch {
		case r.code == 304 && cond:
			if have[0] != want {
				bad(": the client is told that its old copy is good")
			}
			if !vBool(o["nm"]) {
				vHarness("%s: the specification says it has changed", vJSON(a))
			}
			x.r.stat("304")
			return
		case r.code == 200:
		case r.code == 206 && rng == "bytes=2-5":
			want = want[2:6]
		case r.code == 206 && rng == "bytes=-3":
			want = want[len(want)-3:]
		case r.code == 206 && rng == "bytes=0-":
		case r.code == 416 && rng == "bytes=9999999-":
			return
		default:
			bad("")
		}
		if method == "HEAD" {
			want = ""
		}
		if r.body != want {
			bad("")
		}
		if method == "GET" && rng == "" {
			if d := r.header.Get("Last-Modified"); d != "" {
				x.has[target] = [2]string{r.body, d}
			} else {
				delete(x.has, target)
			}
		}
	default:
		vHarness("outcome %s", vJSON(o))
	}
}

func TestVerifStatic(t *testing.T) {
	var x *vStatic
	var last string
	defer func() {
		if x != nil {
			x.stop()
		}
	}()
	vRun(t, func(r *vRunner, w vWalk, step func(i int)) {
		if k := vJSON(w.Init["cfg"]); x == nil || k != last {
			if x != nil {
				x.stop()
			}
			x, last = vStaticSetup(vMap(w.Init["cfg"])), k
		}
		x.r = r
		x.has = map[string][2]string{}
		x.put("a", vStr(w.Init["a"]))
		x.put("d/index.html", vStr(w.Init["i"]))
		was := x.list()
		same := func() {
			if now := x.list(); now != was {
				vFail("the requests changed the files: before\n%.2000s\nafter\n%.2000s", was, now)
			}
		}
		for i, st := range w.Steps {
			step(i)
			switch st.op() {
			case "put":
				same()
				for _, id := range vStrs(st.A["ids"]) {
					if x.there(id) {
						x.write(id, "write")
					}
				}
				x.put(vStr(st.A["what"]), vStr(st.A["kind"]))
				was = x.list()
			case "edit":
				same()
				if id := vStr(st.A["id"]); x.there(id) {
					x.write(id, vStr(st.A["how"]))
				}
				was = x.list()
			case "req":
				x.request(st.A, vMap(st.O))
			}
		}
		same()
	})
}
