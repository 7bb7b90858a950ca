#!/usr/bin/env python3
"""dev/mkplant.py SPEC.py: SPEC defines PLANTS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo=<c++ source> [, flags])]; writes seeded/<id>/."""
import sys, os, json, subprocess, tempfile, shutil
ns = {}; exec(open(sys.argv[1]).read(), ns)
for p in ns["PLANTS"]:
    d = "/verif/seeded/%s" % p["id"]; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkp", dir="/tmp")
    out = ""
    per = {}
    for f, o, n in p["edits"]:
        s = per.get(f) or open("/repo/" + f).read()
        if s.count(o) != 1: print(p["id"], "occurrences:", s.count(o), "in", f, repr(o)[:70])
        per[f] = s.replace(o, n, 1)
    for f, s in per.items():
        os.makedirs(os.path.dirname("%s/b/%s" % (t, f)), exist_ok=True); os.makedirs(os.path.dirname("%s/a/%s" % (t, f)), exist_ok=True)
        open("%s/b/%s" % (t, f), "w").write(s); shutil.copy("/repo/" + f, "%s/a/%s" % (t, f))
        out += subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "a/" + f, "b/" + f], cwd=t, capture_output=True, text=True).stdout
    shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.cpp", "w").write(p["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: behaves as stated; nonzero: property violated
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
g++ -std=c++17 -O1 -w %s -I"$PWD" -I"$PWD/mml" "$H/demo.cpp" -o "$T/demo" -lpthread || exit 3
cd "$T" && timeout %d ./demo
''' % (p.get("flags", ""), p.get("timeout", 60)))
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(p["id"], "ok", out.count("\n+") - 1)
