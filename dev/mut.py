#!/usr/bin/env python3
"""dev/mut.py PID FILE: applies (file, old, new[, expect]) edits one at a time to a scratch copy, runs the check there. Development aid only."""
import sys, os, subprocess, shutil, importlib.util
pid, spec = sys.argv[1], sys.argv[2]
only = sys.argv[3] if len(sys.argv) > 3 else None
R = "/tmp/mut/%s" % pid
shutil.rmtree(R, ignore_errors=True)
os.makedirs(R)
subprocess.run(["cp", "-a", os.environ.get("MUT_BASE", "/repo") + "/mml", R + "/"], check=True)
ns = {}
exec(open(spec).read(), ns)
env = dict(os.environ, MML_REPO=R, VERIF_EVID="/tmp/mut/ev")
for i, m in enumerate(ns["M"]):
    if only is not None and str(i) != only: continue
    edits = m[0] if isinstance(m[0], list) else [(m[0], m[1], m[2])]
    exp = (m[1] if isinstance(m[0], list) else (m[3] if len(m) > 3 else 1))
    if isinstance(m[0], list) and len(m) < 2: exp = 1
    saved = {}
    bad = False
    for f, o, n in edits:
        p = os.path.join(R, f); s = open(p).read(); saved.setdefault(p, s)
        if s.count(o) < 1: print(i, "EDIT NOT FOUND:", f, repr(o)[:80]); bad = True; break
        open(p, "w").write(s.replace(o, n, 1))
    if not bad:
        r = subprocess.run(["python3", "/verif/check.py", pid], capture_output=True, text=True, env=env)
        ok = r.returncode == exp
        lines = [l for l in r.stdout.splitlines() if l.startswith("  ")]
        print(i, "OK " if ok else "**MISMATCH**", "rc=%d" % r.returncode, edits[0][2][:60].replace("\n", " "), "|", (lines[0][:150] if lines else (r.stdout + r.stderr)[-200:].replace("\n", " ") if not ok else ""))
    for p, s in saved.items(): open(p, "w").write(s)
shutil.rmtree(R, ignore_errors=True)
