from .core import *
from .typestate import *


def run(ck):
    P = program()
    recs = sorted(r for r in P.recs if role(P, r) and len(role(P, r)) > 1)
    ck.floor("result_types", len(recs), 20)
    ck.cov["result_type_names"] = [r.replace("MML::", "") for r in recs]
    ts = TS(P, ck)
    roots = []; lambdas = 0; states = 0
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if not f.body: continue
        rt = P.tc.get(f.get("ret"), "")
        rec = ts.tracked(rt) if not rt.endswith("&") and not rt.endswith("*") else None
        if rec and f.kind != "ctor":
            # helpers that take the status / message as parameters are checked where they are called
            kinds = [ts.varkind(P.T(p)) for p in f.params]
            helper = "status" in kinds or any(kk == "msg" and p["n"] in ("error_message", "message", "msg", "err", "error", "errorMessage", "errMsg", "what", "reason") for kk, p in zip(kinds, f.params))
            if helper: continue
            roots.append(f)
            su = [St()]
            for p in f.params:
                r = ts.tracked(P.T(p))
                if r: su = [x for st in su for x in [mk(st, p["id"], d) for d in ts.coherent(r)]]
            rets = []; ts.retsites = {}; ts.paths = 0; ts.active = set()
            for st in su:
                ts.active.add(f.key)
                fall, rr, _ = ts.run(f.body, st, rt)
                rets += rr
            bads = {}
            for st, d in rets:
                if d is None: continue
                t = incoherence(P, rec, d)
                if t: bads[t] = d
            lines = sorted(l for l, ds in ts.retsites.items() if any(incoherence(P, dict(x)["_r"], dict(x)) for x in ds))
            states += ts.paths
            if bads:
                for t in sorted(bads):
                    ck.bad("%s: %s" % (nt(f.q), t), "%s:%d" % (f.f, (lines or [f.l])[0]), "%s returns a %s whose fields disagree: %s (return lines %s)" % (f.q, rec.split("::")[-1], t, lines))
            else: ck.good("%s: %d abstract return states coherent" % (f.q, ts.paths))
        # lambdas that fill a result object passed by reference are analysed inside the wrapper they are given to
        lambdas += sum(1 for L in walk(f.body) if L.get("k") == "Lambda" and any(ts.tracked(P.T(p)) and P.T(p).endswith("&") for p in L.get("params", [])))
    ck.floor("functions_returning_results", len(roots), 150)
    ck.floor("result_filling_callbacks", lambdas, 20)
    ck.cov["abstract_return_states"] = states


def mk(st, i, d):
    a = st.copy(); a.o[i] = dict(d); return a
