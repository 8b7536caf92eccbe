#!/usr/bin/env python3
"""mk.py ID PROPERTY PKG — reads a spec file with edits; creates /verif/seeded/ID"""
import sys, os, subprocess, json, re
spec = sys.argv[1]
ns = {}
exec(open(spec).read(), ns)
W = "/tmp/w/r"
for s in ns["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    subprocess.run(["git","-C",W,"checkout","-q","--","."],check=True)
    subprocess.run(["git","-C",W,"fetch","-q","/repo","HEAD"],check=True)
    subprocess.run(["git","-C",W,"reset","-q","--hard","FETCH_HEAD"],check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(W, f); t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p,"w").write(t.replace(old,new))
    subprocess.run("cd %s && gofmt -l $(git diff --name-only)" % W, shell=True)
    diff = subprocess.run(["git","-C",W,"diff"],capture_output=True,text=True).stdout
    d = "/verif/seeded/"+s["id"]; os.makedirs(d, exist_ok=True)
    open(d+"/patch.diff","w").write(diff)
    json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]}, open(d+"/meta.json","w"), indent=1)
    if "test" in s:
        files = {s["pkg"]+"/zz_demo_test.go": s["test"]}
        files.update(s.get("files", {}))
        ents = []
        for i, (rel, text) in enumerate(sorted(files.items())):
            n = "demo_test.go" if rel.endswith("zz_demo_test.go") else "extra%d.go" % i
            open(d+"/"+n,"w").write(text)
            ents.append('\\"$PWD/%s\\": \\"$d/%s\\"' % (rel, n))
        open(d+"/demo.sh","w").write('''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
t=$(mktemp -d) && trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{%s}}" > "$t/o.json"
timeout 250 go test -vet=off -count=1 %s-overlay "$t/o.json" -run '^TestDemo$' ./%s
''' % (", ".join(ents), s.get("flags",""), s["pkg"]))
    print("wrote", s["id"])
subprocess.run(["git","-C",W,"checkout","-q","--","."],check=True)
