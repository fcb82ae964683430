#!/usr/bin/env python3
"""mkplant.py SPEC.py: makes /verif/seeded/<id> from a description: id, property, needs, breaks, pkg, edits [(file, old, new)], test (Go source)."""
import json, os, subprocess, sys, shutil, tempfile
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    for b in g["BUGS"]:
        d = "/verif/seeded/" + b["id"]
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix="mkplant-")
        c = w + "/repo"
        subprocess.check_call(["git", "clone", "-q", "/repo", c])
        for path, old, new in b["edits"]:
            p = os.path.join(c, path)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        subprocess.check_call("gofmt -l . ", shell=True, cwd=c)
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=c, text=True))
        shutil.rmtree(w)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/demo_test.go", "w").write(b["test"])
        open(d + "/demo.sh", "w").write('''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && { here=$PWD; . /opt/vp/env.sh; cd "$here"; }
o=$(mktemp)
trap 'rm -f "$o"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$o"
go test -overlay "$o" -vet=off -count=1 -timeout 200s %s-run '^TestDemo' ./%s
''' % (b["pkg"], b.get("flags", ""), b["pkg"]))
        os.chmod(d + "/demo.sh", 0o755)
        print(b["id"])
