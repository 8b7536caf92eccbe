#!/usr/bin/env python3
"""Runs the checks on quick mutants: mut.py muts/FILE.py [name...]

A mutant is a dict: name, kind ("bug": the checks in props must alarm;
"ref": behaviour is unchanged, every check must stay quiet), props, edits
[(file, old, new)].
"""
import os, shutil, subprocess, sys, runpy
W = "/tmp/w/m%d" % os.getpid()
spec = runpy.run_path(sys.argv[1])["MUTS"]
only = sys.argv[2:]
os.makedirs("/tmp/w", exist_ok=True)
subprocess.run(["cp", "-a", "/repo", W], check=True)
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
bad = 0
try:
    for m in spec:
        if only and m["name"] not in only:
            continue
        saved = {}
        ok = True
        for f, old, new in m["edits"]:
            p = os.path.join(W, f)
            if p not in saved:
                saved[p] = open(p).read() if os.path.exists(p) else None
            cur = open(p).read() if os.path.exists(p) else ""
            if old and cur.count(old) != 1:
                print(m["name"], "EDIT DOES NOT APPLY", f, cur.count(old), repr(old[:60])); ok = False; break
            open(p, "w").write(cur.replace(old, new) if old else cur + new)
        if ok:
            b = subprocess.run(["go", "build", "./..."], cwd=W, env=env, capture_output=True, text=True)
            if b.returncode:
                print(m["name"], "DOES NOT BUILD", b.stderr[-400:]); ok = False
        if ok:
            ids = []
            if m["kind"] == "bug" and m.get("fast", True):
                ids = m["props"]
            r = subprocess.run([os.environ.get("CHECK", "/verif/bin/check"), "-dir", W, "-out", "", "-v"] + ids, capture_output=True, text=True)
            hit = sorted({l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})
            if m["kind"] == "bug":
                miss = [p for p in m["props"] if p not in hit]
                print(("ok     " if not miss else "MISSED ") + m["name"], "bug", hit)
                bad += bool(miss)
                if "-x" in os.environ.get("V", ""):
                    print("\n".join(l[:300] for l in r.stdout.splitlines() if l.startswith("  ") and "[" in l)[:1500])
            else:
                print(("ok     " if not hit else "ALARM  ") + m["name"], "ref", hit)
                bad += bool(hit)
                if hit:
                    print("\n".join(l[:400] for l in r.stdout.splitlines() if l.startswith("  ") and "[" in l)[:2500])
            if r.returncode not in (0, 1):
                print(r.stdout[-800:], r.stderr[-800:])
        for p, s in saved.items():
            if s is None:
                os.remove(p)
            else:
                open(p, "w").write(s)
finally:
    shutil.rmtree(W)
print("bad:", bad)
