"""Shared machinery: TLC runs, behaviour generation, Go overlay builds, replay, evidence.

Exit codes of a check: 0 held, 1 violation (with a VIOLATION line), 3 the check itself failed.
"""
import collections, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.24.13"
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replays")
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check could not decide (its own failure): never a violation."""


def goenv(extra=None):
    env = dict(os.environ)
    for k in ("GOOS", "GOARCH", "GOFLAGS", "GOEXPERIMENT"):
        env.pop(k, None)
    env.update({
        "HOME": "/root", "GOROOT": GOROOT,
        "PATH": GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod -buildvcs=false",
        "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
        "GOWORK": "off", "CGO_ENABLED": "1", "GOSUMDB": "off",
    })
    if extra:
        env.update(extra)
    return env


# ---------------------------------------------------------------------------------------------
# TLC
# ---------------------------------------------------------------------------------------------
class TLCResult:
    pass


def run_tlc(module, cfg, scratch, workers=NCPU, timeout=600, extra=(), files=None, javaopts="-Xmx6g -Xss64m",
            expect_ok=True, tag=""):
    """Runs TLC on specs/<module>.tla with the given config text. Returns the output and counters."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    for f in os.listdir(os.path.join(VERIF, "specs")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "specs", f), d)
    for name, text in (files or {}).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    env = dict(os.environ, JAVA_TOOL_OPTIONS="")
    cmd = ["java", "-XX:+UseParallelGC"] + javaopts.split() + [
        "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
        "tlc2.TLC", "-config", module + ".cfg", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
        "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
    out = os.path.join(d, "out.txt")
    t0 = time.time()
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=env)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s %s" % (module, tag))
    r = TLCResult()
    r.rc, r.out, r.dir, r.wall = rc, out, d, time.time() - t0
    r.generated = r.distinct = 0
    tail = []
    with open(out) as f:
        for line in f:
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if m:
                r.generated, r.distinct = (int(x.replace(",", "")) for x in m.groups())
            if not line.startswith(('"EDGE ', '"CUR ')):
                tail.append(line)
    r.text = "".join(tail)
    if expect_ok and rc != 0:
        raise CheckError("TLC failed on %s %s (rc=%d):\n%s" % (module, tag, rc, r.text[-4000:]))
    return r


Edge = collections.namedtuple("Edge", "f a o t l")


def key(v):
    return json.dumps(v, sort_keys=True, separators=(",", ":"))


def read_edges(r):
    edges = []
    seen = set()
    with open(r.out) as f:
        for line in f:
            if line.startswith('"EDGE '):
                if line in seen:
                    continue
                seen.add(line)
                e = json.loads(json.loads(line)[5:])
                edges.append(Edge(e["f"], e["a"], e["o"], e["t"], e["l"]))
    # TLC prints in a worker-dependent order: sort, so that a seed determines the walks.
    edges.sort(key=lambda e: key([e.f, e.a, e.o, e.t]))
    return edges


def make_walks(edges, seed, max_len=40, cover=None, max_walks=None, max_steps=None, bfs_depth=60):
    """Behaviours of the specification that together take every transition (or every class)."""
    rnd = random.Random(seed)
    ids = {}

    def nid(v):
        k = key(v)
        if k not in ids:
            ids[k] = len(ids)
        return ids[k]
    E, classes, out, adj, init = [], {}, [], [], set()
    for n, e in enumerate(edges):
        f, t = nid(e.f), nid(e.t)
        c = n
        if cover:
            c = key(cover(e))
            c = classes.setdefault(c, len(classes))
        while len(out) < len(ids):
            out.append([])
            adj.append({})
        E.append((f, t, c))
        out[f].append(n)
        if t != f:
            adj[f].setdefault(t, []).append(n)
        if e.l == 1:
            init.add(f)
    init = sorted(init)
    ncls = len(classes) if cover else len(E)
    uncovered = [True] * ncls
    left = ncls
    byc = collections.defaultdict(list)
    unc = [0] * len(ids)
    for n, (f, t, c) in enumerate(E):
        byc[c].append(f)
        unc[f] += 1
    pend = []
    for n in range(len(ids)):
        l = list(out[n])
        rnd.shuffle(l)
        # changes of state last: first everything that can be tried on the spot
        l.sort(key=lambda i: E[i][1] == n)
        pend.append(l)

    def take(i):
        nonlocal left
        c = E[i][2]
        if uncovered[c]:
            uncovered[c] = False
            left -= 1
            for f in byc[c]:
                unc[f] -= 1

    walks, steps = [], 0
    while left and init:
        if (max_walks and len(walks) >= max_walks) or (max_steps and steps >= max_steps):
            break
        cur = rnd.choice(init)
        first = cur
        w = []
        progress = False
        while len(w) < max_len:
            if unc[cur] > 0:
                l = pend[cur]
                while l and not uncovered[E[l[-1]][2]]:
                    l.pop()
                if l:
                    i = l.pop()
                    take(i)
                    w.append(i)
                    cur = E[i][1]
                    progress = True
                    continue
            prev = {cur: None}
            q = collections.deque([(cur, 0)])
            goal = None
            while q:
                n, d = q.popleft()
                if unc[n] > 0 and n != cur:
                    goal = n
                    break
                if d >= bfs_depth:
                    continue
                ts = list(adj[n])
                rnd.shuffle(ts)
                for t in ts:
                    if t not in prev:
                        prev[t] = n
                        q.append((t, d + 1))
            if goal is None:
                break
            path = []
            n = goal
            while prev[n] is not None:
                path.append(rnd.choice(adj[prev[n]][n]))
                n = prev[n]
            path.reverse()
            if len(w) + len(path) + 1 > max_len and w:
                break
            for i in path:
                take(i)
                w.append(i)
            cur = goal
        if not progress:
            init = [n for n in init if n != first]
            continue
        walks.append(w)
        steps += len(w)
    res = []
    for n, w in enumerate(walks):
        res.append({"id": n, "init": edges[w[0]].f if w else None,
                    "steps": [{"a": edges[i].a, "o": edges[i].o, "t": edges[i].t} for i in w]})
    return res, {"classes": ncls, "covered": ncls - left, "steps": steps, "nodes": len(ids)}


def simulate(module, cfg, scratch, seed, num, depth, procs=NCPU, timeout=600, salt=0):
    """Random behaviours of a specification that is too large to enumerate (TLC -simulate)."""
    wrap = module + "Sim"
    text = ("---- MODULE %s ----\nEXTENDS %s\nEmitCur == PrintT(\"CUR \" \\o ToJson([a |-> act, o |-> out, t |-> View, "
            "l |-> TLCGet(\"level\")]))\n====\n" % (wrap, module))
    cfg = re.sub(r"(?m)^\s*VIEW .*$", "", cfg.replace("ACTION_CONSTRAINT Emit", "")) + "\nACTION_CONSTRAINT EmitCur\n"
    import concurrent.futures
    per = (num + procs - 1) // procs
    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(lambda i: run_tlc(wrap, cfg, scratch, workers=1, timeout=timeout, files={wrap + ".tla": text},
                                           javaopts="-Xmx2g -Xss64m", extra=("-simulate", "num=%d" % per, "-depth", str(depth),
                                                                     "-seed", str((seed + 1000003 * salt) * 1000 + i))), range(procs)))
    walks, states = [], 0
    for r in rs:
        last, cur = None, None
        m = re.search(r"The number of states generated: (\d+)", r.text)
        states += int(m.group(1)) if m else 0
        with open(r.out) as f:
            for line in f:
                if not line.startswith('"CUR ') or line == last:
                    continue
                last = line
                e = json.loads(json.loads(line)[4:])
                if e["l"] == 1:
                    cur = {"id": len(walks), "init": e["t"], "steps": [], "l": 1}
                    walks.append(cur)
                elif cur is not None and e["l"] == cur["l"] + 1:
                    cur["steps"].append({"a": e["a"], "o": e["o"], "t": e["t"]})
                    cur["l"] = e["l"]
        os.unlink(r.out)
    walks = [w for w in walks if w["steps"]]
    for n, w in enumerate(walks):
        w["id"] = n
        del w["l"]
    return walks, states


# ---------------------------------------------------------------------------------------------
# Go
# ---------------------------------------------------------------------------------------------
def patched_time(scratch, timers=False):
    """The time package (and for timers the runtime) with a clock the harness can move: no change to /repo is needed."""
    res = {}
    src = os.path.join(GOROOT, "src/time/time.go")
    s = open(src).read()

    def rep(a, b, n=1):
        nonlocal s
        if s.count(a) < 1:
            raise CheckError("cannot patch the clock: %r" % a)
        s = s.replace(a, b) if n == 0 else s.replace(a, b, n)
    rep("func runtimeNow() (sec int64, nsec int32, mono int64)\n", """func runtimeNow() (sec int64, nsec int32, mono int64)

var verifOffset atomic.Int64

// VerifAdvance moves the clock forward.
func VerifAdvance(d Duration) { %s }

// VerifOffset is the total by which the clock was moved.
func VerifOffset() Duration { return Duration(verifOffset.Load()) }
""" % ("verifKicker.Do(verifKick); runtimeVerifAdvance(int64(d)); verifOffset.Add(int64(d)); Sleep(1)" if timers else "verifOffset.Add(int64(d))"))
    if timers:
        rep("var verifOffset atomic.Int64\n", """var verifOffset atomic.Int64

//go:linkname runtimeVerifAdvance runtime.verifAdvance
func runtimeVerifAdvance(d int64)

var verifKicker sync.Once

// verifKick makes the scheduler look at the timers every few (real) milliseconds: idle threads sleep
// for times that were computed before the clock was moved.
func verifKick() {
	go func() {
		for {
			ts := syscall.Timespec{Nsec: 4e6}
			syscall.Nanosleep(&ts, nil)
			runtimeVerifAdvance(0)
		}
	}()
}
""")
    else:
        rep("runtimeNano()-startNano", "runtimeNano()+verifOffset.Load()-startNano", 0)
    rep("	sec, nsec, mono := runtimeNow()\n", """	sec, nsec, mono := runtimeNow()
	if off := verifOffset.Load(); off != 0 {
		mono += off
		n := int64(nsec) + off%1e9
		sec += off / 1e9
		if n < 0 {
			n += 1e9
			sec--
		} else if n >= 1e9 {
			n -= 1e9
			sec++
		}
		nsec = int32(n)
	}
""")
    rep("import (\n", "import (\n\t\"sync\"\n\t\"sync/atomic\"\n\t\"syscall\"\n" if timers else "import (\n\t\"sync/atomic\"\n")
    dst = os.path.join(scratch, "time.go")
    with open(dst, "w") as f:
        f.write(s)
    res[src] = dst
    if timers:
        src = os.path.join(GOROOT, "src/runtime/time_nofake.go")
        s = open(src).read()
        rep("	return nanotime1()\n", "	return nanotime1() + int64(atomic.Load64(&verifOffset))\n")
        rep('import "unsafe"\n', """import (
	"internal/runtime/atomic"
	"unsafe"
)

var verifOffset uint64

//go:linkname verifAdvance
func verifAdvance(d int64) {
	atomic.Xadd64(&verifOffset, d)
	// Whoever waits in the network poller does so for a time that was computed before.
	sched.pollUntil.Store(0)
	if netpollinited() {
		netpollBreak()
	}
	wakep()
}
""")
        dst = os.path.join(scratch, "time_nofake.go")
        with open(dst, "w") as f:
            f.write(s)
        res[src] = dst
    return res


def patched_storage(scratch):
    """The storage library with a hook where files are replaced, and file ages that follow the real clock."""
    src = "/root/go/pkg/mod/github.com/c2!fm!z!q/storage@" + re.search(
        r"github.com/c2FmZQ/storage (\S+)", open(os.path.join(REPO, "go.mod")).read()).group(1) + "/storage.go"
    s = open(src).read()
    for a, b in (("	return os.Rename(filepath.Join(s.dir, t), filepath.Join(s.dir, filename))",
                  "	if h := VerifRename; h != nil {\n		if err := h(filepath.Join(s.dir, t), filepath.Join(s.dir, filename)); err != nil {\n"
                  "			return err\n		}\n	}\n	return os.Rename(filepath.Join(s.dir, t), filepath.Join(s.dir, filename))"),
                 ("time.Since(fi.ModTime()) > deadline", "time.Since(fi.ModTime())-time.VerifOffset() > deadline"),
                 ("type Storage struct {", "// VerifRename is called before a file is replaced.\nvar VerifRename func(from, to string) error\n\n"
                  "type Storage struct {")):
        if a not in s:
            raise CheckError("cannot patch the storage library: %r" % a)
        s = s.replace(a, b, 1)
    dst = os.path.join(scratch, "storage.go")
    with open(dst, "w") as f:
        f.write(s)
    return {src: dst}


def build_test(pkg, files, scratch, race=False, clock=True, timers=True, subst=None, extra_overlay=None, tags=None, external=False):
    """Builds the test binary of /repo/<pkg> with the harness files laid over it."""
    d = tempfile.mkdtemp(prefix="go-", dir=scratch)
    replace = {}
    pkgname = None
    pkgdir = os.path.join(REPO, pkg)
    for f in sorted(os.listdir(pkgdir)):
        if f.endswith(".go"):
            m = re.search(r"^package (\w+)", open(os.path.join(pkgdir, f)).read(), re.M)
            if m and not m.group(1).endswith("_test"):
                pkgname = m.group(1)
                break
    for f in ["common/common.go"] + list(files):
        src = open(os.path.join(VERIF, "harness", f)).read()
        ext = "_test" if external else ""
        src = re.sub(r"^package \w+", "package " + pkgname + ext, src, count=1, flags=re.M)
        for a, b in (subst or {}).items():
            src = src.replace(a, b)
        name = "zz_verif_" + os.path.basename(f)[:-3] + "_test.go"
        path = os.path.join(d, name)
        with open(path, "w") as o:
            o.write(src)
        replace[os.path.join(pkgdir, name)] = path
    if clock:
        replace.update(patched_time(scratch, timers))
        replace.update(patched_storage(scratch))
    # Generated, git-ignored files which the pki package embeds: empty stand-ins if absent.
    for g in ("pki.wasm.bz2", "wasm_exec.js"):
        p = os.path.join(REPO, "proxy/internal/pki", g)
        if not os.path.exists(p):
            stub = os.path.join(scratch, g)
            if not os.path.exists(stub):
                with open(stub, "w") as f:
                    f.write("stand-in\n")
            replace[p] = stub
    replace.update(extra_overlay or {})
    ov = os.path.join(d, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": replace}, f)
    binp = os.path.join(d, "t.test")
    cmd = [os.path.join(GOROOT, "bin/go"), "test", "-c", "-vet=off", "-overlay", ov, "-o", binp]
    if race:
        cmd.append("-race")
    if tags:
        cmd += ["-tags", tags]
    cmd.append("./" + pkg)
    p = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=800)
    if p.returncode != 0 or not os.path.exists(binp):
        raise CheckError("go test -c %s failed:\n%s" % (pkg, p.stdout[-6000:]))
    return binp


_children = []


def kill_children():
    for p in _children:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    _children.clear()


def _run_one(binp, test, walks, scratch, env, timeout, n):
    d = tempfile.mkdtemp(prefix="run-", dir=scratch)
    wf, rf, pf = (os.path.join(d, x) for x in ("walks.json", "result.json", "progress"))
    with open(wf, "w") as f:
        json.dump(walks, f)
    e = goenv(dict(env or {}, VERIF_WALKS=wf, VERIF_RESULT=rf, VERIF_PROGRESS=pf, VERIF_SCRATCH=d, TMPDIR=d))
    log = open(os.path.join(d, "log.txt"), "w")
    p = subprocess.Popen([binp, "-test.run", "^%s$" % test, "-test.timeout", "0", "-test.count", "1"], cwd=d, env=e,
                         stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    _children.append(p)
    return {"p": p, "d": d, "rf": rf, "pf": pf, "log": os.path.join(d, "log.txt"), "walks": walks,
            "deadline": time.time() + timeout}


def run_walks(binp, test, walks, scratch, procs=NCPU, env=None, timeout=300, confirm=True, seeds=None,
              crash_is_violation=True, keep_going=True):
    """Replays the walks in parallel processes; returns merged results.

    A violation counts once it has been seen again in a fresh process (confirm)."""
    shards = [walks[i::procs] for i in range(procs)]
    shards = [s for s in shards if s]
    runs = [_run_one(binp, test, s, scratch, dict(env or {}, VERIF_SHARD=str(i)), timeout, i) for i, s in enumerate(shards)]
    merged = {"violations": [], "walks": 0, "steps": 0, "stats": collections.Counter(), "samples": []}
    suspects = []
    for r in runs:
        res = _collect(r, crash_is_violation)
        merged["walks"] += res.get("walks", 0)
        merged["steps"] += res.get("steps", 0)
        for k, v in (res.get("stats") or {}).items():
            merged["stats"][k] += v
        merged["samples"] += (res.get("samples") or [])
        for v in res.get("violations") or []:
            suspects.append((v, r))
    # Confirm.
    byid = {w["id"]: w for w in walks}
    tried = 0
    for v, r in suspects:
        if not confirm:
            v["confirmed"] = "not needed"
            merged["violations"].append(v)
            continue
        if tried >= 6 or len(merged["violations"]) >= 3:
            break
        tried += 1
        w = byid.get(v.get("walk"))
        again = None
        for attempt in range(3):
            if w is None:
                break
            rr = _run_one(binp, test, [w], scratch, env, timeout, 0)
            res = _collect(rr, crash_is_violation)
            vs = res.get("violations") or []
            if vs:
                again = vs[0]
                break
        if again is not None:
            again["behaviour"] = w
            merged["violations"].append(again)
        else:
            merged.setdefault("unreproduced", []).append(v)
    return merged


def _collect(r, crash_is_violation):
    p = r["p"]
    try:
        p.wait(timeout=max(1, r["deadline"] - time.time()))
    except subprocess.TimeoutExpired:
        try:  # a goroutine dump for diagnosis
            os.kill(p.pid, signal.SIGQUIT)
            p.wait(timeout=10)
        except Exception:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        log = open(r["log"], errors="replace").read()
        raise CheckError("harness timed out; log tail:\n%s" % log[-3000:])
    log = open(r["log"], errors="replace").read()
    if os.path.exists(r["rf"]):
        try:
            res = json.load(open(r["rf"]))
        except ValueError:
            res = None
        if res is not None:
            if res.get("error"):
                raise CheckError("harness error: %s\n%s" % (res["error"], log[-1500:]))
            if res.get("done"):
                return res
    # No (complete) result: did the code under test crash?
    m = re.search(r"^(panic: .*|fatal error: .*|WARNING: DATA RACE.*)$", log, re.M)
    prog = {}
    if os.path.exists(r["pf"]):
        try:
            prog = json.load(open(r["pf"]))
        except ValueError:
            pass
    if m and crash_is_violation:
        st = log[m.start():]
        # The first frame outside the runtime and the harness must belong to the code under test.
        frames = re.findall(r"^\t(/\S+\.go):\d+", st, re.M)
        mine = [f for f in frames if f.startswith(REPO) or "/zz_verif_" in f]
        # The HTTP/3 server crashes here unless it has a logger. Those of the harness have one.
        if (mine and "/zz_verif_" not in mine[0]) or "http3.(*responseWriter).flushTrailers" in st[:3000]:
            return {"violations": [{"walk": prog.get("walk"), "step": prog.get("step"), "msg":
                                    "the process crashed: " + m.group(1), "stack": st[:3000]}],
                    "walks": prog.get("done", 0), "steps": prog.get("steps", 0)}
    raise CheckError("harness died (rc=%s); log tail:\n%s" % (p.returncode, log[-4000:]))


# ---------------------------------------------------------------------------------------------
# Evidence and verdicts
# ---------------------------------------------------------------------------------------------
class Check:
    def __init__(self, pid, argv=None):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        argv = sys.argv[1:] if argv is None else argv
        if "--thorough" in argv:
            self.tier = "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = 0
        self.samples, self.violations, self.notes, self.assumptions = [], [], {}, []
        self.known = load_known(pid)
        self.known_hit = set()

    def lap(self, what):
        if os.environ.get("VERIF_DEBUG"):
            now = time.time()
            print("  [%6.1fs +%5.1fs] %s" % (now - self.t0, now - getattr(self, "_lap", self.t0), what), flush=True)
            self._lap = now

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- model checking ------------------------------------------------------------------------
    def model(self, module, cfg, **kw):
        r = run_tlc(module, cfg, self.scratch, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("tlc", []).append({"module": module, "distinct": r.distinct, "generated": r.generated,
                                                 "wall_s": round(r.wall, 1)})
        return r

    def edges(self, module, cfg, **kw):
        r = self.model(module, cfg, **kw)
        self.lap("tlc " + module)
        e = read_edges(r)
        self.lap("%d edges" % len(e))
        if not e:
            raise CheckError("no transitions from %s" % module)
        return e

    def simulate(self, module, cfg, num, depth, **kw):
        walks, states = simulate(module, cfg, self.scratch, self.seed, num, depth, **kw)
        self.transitions += states
        self.notes.setdefault("simulated", []).append({"module": module, "behaviours": len(walks), "depth": depth,
                                                       "states": states})
        self.lap("simulated %s: %d behaviours" % (module, len(walks)))
        if not walks:
            raise CheckError("no behaviours from simulating %s" % module)
        return walks

    def replay(self, binp, test, walks, label="", **kw):
        self.lap("%d walks, %d steps" % (len(walks), sum(len(w["steps"]) for w in walks)))
        m = run_walks(binp, test, walks, self.scratch, **kw)
        self.lap("replayed " + test)
        self.traces += m["walks"]
        self.steps += m["steps"]
        if m["stats"]:
            d = self.notes.setdefault("stats" + label, {})
            for k, v in m["stats"].items():
                d[k] = d.get(k, 0) + v
        for s in m["samples"][:2]:
            if len(self.samples) < 4:
                self.samples.append(s)
        for v in m.get("unreproduced", []):
            self.notes.setdefault("unreproduced", []).append(v)
            print("note: not reproduced: %s" % json.dumps(v)[:2000])
        for v in m["violations"]:
            v["test"] = test
            self.violation(v)
        if m.get("unreproduced") and not m["violations"]:
            # Seen once, never again: not a verdict either way.
            if len(m["unreproduced"]) >= 3:
                raise CheckError("several deviations that did not reproduce: %s" % json.dumps(m["unreproduced"])[:3000])
        return m

    def violation(self, v):
        for k in self.known:
            if k.get("match") and re.search(k["match"], v.get("msg", "")):
                self.known_hit.add(k["id"])
                return
        self.violations.append(v)

    def finish(self):
        os.makedirs(REPLAYS, exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces, "steps_validated_against_impl": self.steps,
                "samples": self.samples[:4], **self.notes},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        rc = 0
        for n, v in enumerate(self.violations[:3]):
            path = os.path.join(REPLAYS, "%s-%d.json" % (self.pid, n))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("  " + v.get("msg", "")[:1500].replace("\n", "\n  "))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            rc = 1
        if rc == 0:
            print("OK property=%s tier=%s seed=%d states=%d transitions=%d traces=%d steps=%d wall=%.1fs" % (
                self.pid, self.tier, self.seed, self.states, self.transitions, self.traces, self.steps,
                time.time() - self.t0))
        return rc


def load_known(pid):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == pid]


def main(pid, fn):
    os.makedirs(EVIDENCE, exist_ok=True)
    c = Check(pid)
    rc = 3
    try:
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        if c.violations:
            rc = c.finish()
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR property=%s timeout %s" % (pid, e))
        if c.violations:
            rc = c.finish()
    finally:
        kill_children()
        if os.environ.get("VERIF_KEEP"):
            print("kept", c.scratch)
        else:
            shutil.rmtree(c.scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
