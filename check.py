#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current tree."""
import importlib, json, os, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
EV = os.environ.get("VERIF_EVID", os.path.join(V, "evidence"))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from sa import core


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    ck = core.Check(pid, tier)
    from sa import registry
    ent = registry.CHECKS[pid]
    try:
        mod = importlib.import_module("sa." + ent["module"])
        getattr(mod, ent.get("func", "run"))(ck)
    except core.Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e)); return 2
    except Exception:
        traceback.print_exc(); print("ANALYSIS-BROKEN property=%s internal error" % pid); return 3
    kf = [k for k in core.known() if k["property"] == pid and k.get("status", "known") == "known"]
    new, old = [], []
    for v in ck.viol:
        m = [k for k in kf if k["key"] == v["key"]]
        (old if m else new).append((v, m[0] if m else None))
    os.makedirs(EV, exist_ok=True)
    replay = os.path.join(EV, pid + ".violations.txt")
    if os.path.exists(replay): os.remove(replay)
    if new:
        with open(replay, "w") as f:
            for v, _ in new: f.write("%s: [%s] %s\n    construct: %s\n" % (v["where"], pid, v["msg"], v["key"]))
    seen = set()
    for v, k in old:
        if k["key"] in seen: continue
        seen.add(k["key"])
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, k["what"], v["where"]))
    expl = ent["rule"]
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": ent["level"],
          "coverage": dict({"explanation": expl, "obligations": ck.obl, "discharged": ck.ok, "known_findings": len(old),
                            "checker_cmd": "python3 /verif/check.py %s" % pid,
                            "trusted_base": ["clang 18 parser and semantic analysis", "tool/mmlx.cpp extractor", "sa/%s.py rule" % ent["module"]],
                            "sample_instances": ck.samples}, **ck.cov),
          "wall_s": round(time.time() - ck.t0, 2),
          "assumptions": ck.assumptions + ent.get("assumptions", []),
          "violations": len(new)}
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d known, %d new violations; %s (%.1fs)" % (
        pid, ck.obl, ck.ok, len(old), len(new), ", ".join("%s=%s" % (k, v) for k, v in ck.cov.items() if not isinstance(v, (list, dict))), time.time() - ck.t0))
    if new:
        for v, _ in new[:60]: print("  %s: %s {%s}" % (v["where"], v["msg"], v["key"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
