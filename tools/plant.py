#!/usr/bin/env python3
"""Validates planted bugs: plant.py ID...  (or all). In a scratch copy of /repo: the patch applies, touches original lines,
builds, passes the stable tests; the demo passes without and fails with it. --check also runs the property's check on it."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = "/verif/seeded"
def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=timeout)
    return p.returncode, p.stdout
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(ROOT))
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json")).get("passed") or [])
    for i in args:
        d = os.path.join(ROOT, i)
        w = tempfile.mkdtemp(prefix="plant-")
        try:
            c = os.path.join(w, "repo")
            subprocess.check_call(["cp", "-a", "/repo", c])
            r, o = sh("bash %s/demo.sh" % d, c)
            if r: print(i, "DEMO FAILS ON CLEAN TREE\n" + o[-3000:]); continue
            r, o = sh("git apply %s/patch.diff" % d, c)
            if r: print(i, "PATCH DOES NOT APPLY", o); continue
            r, o = sh("go build ./... && go build -tags noquic,pprof ./...", c)
            if r: print(i, "DOES NOT BUILD", o); continue
            r, o = sh("bash %s/demo.sh" % d, c)
            if not r: print(i, "DEMO PASSES WITH BUG\n" + o[-2000:]); continue
            demo = o
            if "--notest" not in sys.argv:
                r, o = sh("go test -json -vet=off -count=1 -timeout 10m ./...", c)
                failed = set()
                for l in o.splitlines():
                    try: e = json.loads(l)
                    except ValueError: continue
                    if e.get("Action") == "fail" and e.get("Test"): failed.add(e["Package"] + "/" + e["Test"])
                bad = failed & stable if stable else failed
                if bad: print(i, "TESTS FAIL", bad); continue
            print(i, "ok:", [l for l in demo.splitlines() if "demo" in l.lower() or "panic" in l][:2])
        finally:
            shutil.rmtree(w)
main()
