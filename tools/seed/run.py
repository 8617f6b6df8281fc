#!/usr/bin/env python3
"""Makes planted bugs from a list of edits: run.py LIST.py [ID...]
Each is tried in a scratch copy: must compile, pass the existing tests, and its demonstration must
pass without it and fail with it. Kept as /verif/seeded/ID."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = "/tmp/seedw"
here = os.path.dirname(os.path.abspath(__file__))

def sh(*a, cwd=W, **k):
    return subprocess.run(a, cwd=cwd, capture_output=True, text=True, **k)

if not os.path.isdir(W):
    subprocess.run(["cp", "-a", "/repo", W], check=True)
head = sh("git", "rev-parse", "HEAD", cwd="/repo").stdout
if sh("git", "rev-parse", "HEAD").stdout != head:
    shutil.rmtree(W); subprocess.run(["cp", "-a", "/repo", W], check=True)
env = dict(os.environ, CARGO_NET_OFFLINE="true")

def build():
    r = sh("cargo", "build", "--offline", "--locked", env=env)
    return r.returncode, r.stderr

def demo(d):
    r = sh("bash", os.path.join(d, "demo.sh"), timeout=300)
    return r.returncode, (r.stdout + r.stderr).strip()[-400:]

bugs = runpy.run_path(sys.argv[1])["BUGS"]
want = sys.argv[2:]
sh("git", "checkout", "--", ".")
rc, err = build(); assert rc == 0, err
todo = []
for b in bugs:
    if want and b["id"] not in want: continue
    d = os.path.join("/tmp/seedout", b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/demo.py", "w").write("from drive import *\n\n" + b["demo"].lstrip("\n"))
    shutil.copy(here + "/drive.py", d)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# Run in /repo after its build: 0 without the bug, 1 with it.\nexec env PYTHONDONTWRITEBYTECODE=1 python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, out = demo(d)
    if rc != 0: print(b["id"], "DEMO FAILS ON THE UNCHANGED TREE:", rc, out); continue
    todo.append((b, d))
for b, d in todo:
    sh("git", "checkout", "--", ".")
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(W, f); s = open(p).read()
        if s.count(old) != 1: print(b["id"], "EDIT MATCHES", s.count(old), "TIMES:", old[:60]); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    rc, err = build()
    if rc: print(b["id"], "DOES NOT BUILD", err[-1500:]); continue
    t = sh("cargo", "test", "--offline", "--locked", env=env)
    if t.returncode: print(b["id"], "BREAKS TESTS", [l for l in t.stdout.splitlines() if "FAILED" in l][:5]); continue
    rc, out = demo(d)
    if rc == 0: print(b["id"], "DEMO PASSES WITH THE BUG"); continue
    open(d + "/patch.diff", "w").write(sh("git", "diff").stdout)
    dst = os.path.join(V, "seeded", b["id"]); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
    print(b["id"], "kept:", out.splitlines()[-1][:160] if out else "")
sh("git", "checkout", "--", ".")
