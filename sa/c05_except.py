from .core import *
from .escape import *
from .typestate import TS, St, role

TOOLRES = ("SerializeResult",)


def haspolicy(P, f):
    """function takes a configuration carrying an exception policy"""
    for p in f.params:
        q = nt(P.T(p).replace("const ", "").replace("&", "").strip()); st = [q]; seen = set()
        while st:
            x = st.pop()
            if x in seen or x not in P.recs: continue
            seen.add(x)
            for fl in P.recs[x]["fields"]:
                if P.T(fl).endswith("EvaluationExceptionPolicy"): return True
            st += [b["q"] for b in P.recs[x]["bases"] if b.get("q")]
    return False


def run(ck):
    P = program()
    conv = Esc(P, "ConvertToStatus"); prop_ = Esc(P, "Propagate")
    short = lambda s: ", ".join(x.replace("MML::", "") for x in sorted(s))
    npol = ntool = nnx = nsafe = 0
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.body is None: continue
        e = conv.sum[f.key]
        rt = nt(P.tc.get(f.get("ret"), ""))
        w = lambda e: "%s:%d" % (f.f, min([conv.why.get((f.key, t), f.l) for t in e]))
        if haspolicy(P, f):
            npol += 1
            if e: ck.bad("%s: lets exceptions escape under the convert policy" % nt(f.q), w(e), "with the convert policy, %s can still leave this function" % short(e))
            else: ck.good("%s: nothing escapes under the convert policy" % f.q)
            if rt.startswith("MML") and role(P, rt):
                if USER not in prop_.sum[f.key]:
                    ck.bad("%s: exceptions do not propagate under the propagate policy" % nt(f.q), f.where, "with the propagate policy an exception raised by the computation is not passed to the caller")
                else: ck.good()
        if rt.split("::")[-1] in TOOLRES:
            ntool += 1
            e2 = {t for t in e if not (t == USER and accessor_only(P, f, conv))}
            if e2: ck.bad("%s: exception escapes a result-reporting writer" % nt(f.q), w(e2), "%s can leave this function, which reports failures through its result" % short(e2))
            else: ck.good()
        if f.n.endswith("Safe") and rt.startswith("MML"):
            nsafe += 1
            if e: ck.bad("%s: exception escapes the non-throwing loader" % nt(f.q), w(e), "%s can leave this function" % short(e))
            else: ck.good()
        if f.get("nxspec") or f.kind == "dtor":
            nnx += 1
            if e | prop_.sum[f.key]: ck.bad("%s: exception can escape a noexcept function" % nt(f.q), w(e | prop_.sum[f.key]), "%s can leave a noexcept function or destructor (terminates the program)" % short(e | prop_.sum[f.key]))
            else: ck.good()
    ck.floor("policy_functions", npol, 90); ck.floor("result_reporting_writers", ntool, 25); ck.floor("nonthrowing_loaders", nsafe, 2)
    ck.cov["noexcept_functions_and_destructors"] = nnx
    ck.cov["fixpoint_steps"] = conv.steps + prop_.steps
    throws(ck, P, conv)
    handlers(ck, P, conv)


def accessor_only(P, f, E):
    """the only user code run outside the handlers is a virtual range accessor (getMinU(), ...)"""
    l = E.why.get((f.key, USER))
    for n in walk(f.body):
        if n.get("k") == "Call" and n.get("l") == l and not (n.get("vrt") and nt(n.get("fn", "")).split("::")[-1].startswith("get") and not n.get("c")):
            cf = P.callee(n)
            if cf is None and n.get("op") == "()" or n.get("vrt"): return False
            if cf is not None and cf.key != f.key and USER in E.sum[cf.key]: return False
    return True


def isexc(P, E, t):
    t = bare(t)
    return t in STD or "std::exception" in E.bases(t)


def throws(ck, P, E):
    nth = 0
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        for b in [i["c"][0] for i in f.get("inits") or [] if i.get("c")] + ([f.body] if f.body else []):
            caughtv = {}
            for n in walk(b):
                if n.get("k") == "Catch" and n.get("id"): caughtv[n["id"]] = n
            for n in walk(b):
                k = n.get("k")
                if k == "Throw":
                    nth += 1
                    if n.get("re"): ck.good(); continue
                    t = P.tc.get(n.get("tt"), "?"); x = strip(n["c"][0])
                    if not isexc(P, E, t): ck.bad("%s: throws %s" % (nt(f.q), bare(t)), "%s:%d" % (f.f, n["l"]), "throws %s, which does not derive from std::exception, so converting handlers miss it" % bare(t))
                    elif x is not None and x.get("k") == "Ref" and x.get("id") in caughtv: ck.bad("%s: rethrow by copy" % nt(f.q), "%s:%d" % (f.f, n["l"]), "rethrows a copy of the caught exception (slices the original type)")
                    else: ck.good()
                elif k == "Block" or k in ("If", "For", "While", "Do", "RFor"):
                    subs = n.get("c", []) if k == "Block" else [n.get("then"), n.get("else"), n.get("body")]
                    for y in subs:
                        z = strip(y) if y is not None else None
                        if z is not None and z.get("k") in ("Ctor", "Cast") and isexc(P, E, P.T(z)):
                            ck.bad("%s: exception object created but not thrown" % nt(f.q), "%s:%d" % (f.f, z.get("l", f.l)), "constructs %s as a statement without throwing it" % bare(P.T(z)))
    ck.floor("throw_sites", nth, 350)


def handlers(ck, P, E):
    ts = TS(P, ck); nh = 0
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.body is None: continue
        hs = [h for n in walk(f.body) if n.get("k") == "Try" for h in n["h"]]
        if not hs: continue
        nested = {id(y) for h in hs for y in walk(h["body"]) if y.get("k") == "Catch"}
        outcome = {}

        def on(h, fall, rets, rt):
            o = outcome.setdefault(id(h), {"fall": [], "rets": [], "rt": rt})
            o["fall"] += fall; o["rets"] += rets
        ts.onhandler = on
        try:
            rt = P.tc.get(f.get("ret"), ""); rec = ts.tracked(rt)
            ts.retsites = {}; ts.paths = 0; ts.active = {f.key}
            su = [St()]
            for p in f.params:
                r = ts.tracked(P.T(p))
                if r: su = [x for st in su for d in ts.coherent(r) for x in [mk(st, p["id"], d)]]
            for st in su: ts.run(f.body, st, rt)
        finally: ts.onhandler = None
        for n in walk(f.body):
            if n.get("k") != "Try": continue
            seen = []
            for h in n["h"]:
                nh += 1
                nm = "catch (%s)" % ("..." if h.get("all") else P.TS(h).replace("const ", "").strip(" &"))
                w = "%s:%d" % (f.f, h["l"]); key = "%s: %s" % (nt(f.q), nm)
                if not h.get("all"):
                    t = P.T(h)
                    if not t.strip().endswith(("&", "*")): ck.bad(key + " by value", w, "catches by value: derived exceptions are sliced"); continue
                    dead = [p for p in seen if p.get("all") or E.caught(bare(t), p)]
                    if dead: ck.bad(key + " unreachable", w, "handler can never run: an earlier handler already catches this type"); continue
                seen.append(h)
                pr = judge(P, ts, E, f, h, outcome.get(id(h)), id(h) in nested)
                if pr: ck.bad("%s %s" % (key, pr[0]), w, pr[1])
                else: ck.good("%s %s: failure recorded, returned or rethrown" % (f.q, nm))
    ck.floor("handlers", nh, 80)


def mk(st, i, d):
    a = st.copy(); a.o[i] = dict(d); return a


def failing(P, d):
    ro = role(P, d.get("_r")) or {}
    if "flag" in ro: return d.get("flag") == "F"
    if "status" in ro: return d.get("status") == "X"
    return None


def completes(n):
    """can statement n complete normally / does it return / does it throw (structured over-approximation)"""
    k = n.get("k") if n else None
    if n is None: return True
    if k in ("Return", "Throw", "Break", "Continue"): return False
    if k == "Block":
        return all(completes(x) for x in n.get("c", []))
    if k == "If": return n.get("else") is None or completes(n["then"]) or completes(n["else"])
    if k == "Try": return completes(n["body"]) or any(completes(h["body"]) for h in n["h"])
    return True


def judge(P, ts, E, f, h, out, nested):
    body = h["body"]; stm = [x for x in body.get("c", []) if x.get("k") != "Null"]
    rets = [x for x in walk(body, False) if x.get("k") == "Return"]
    # --- text of the original exception kept
    uses = [x for x in walk(body) if x.get("k") == "Ref" and x.get("id") == h.get("id")] if h.get("id") else []
    # --- what is returned
    for r in rets:
        if not r.get("c"): continue
        v = strip(r["c"][0]); t = P.T(v)
        if out is not None and ts.tracked(t): continue
        if t.replace("const ", "") == "bool" and const(v) not in (0,): return "returns true", "the handler returns true: the failure looks like success to the caller"
    if out is not None:
        for st, d in out["rets"]:
            if d is None: continue
            if failing(P, d) is False: return "returns a non-failing result", "the handler can return a result that does not report failure"
        for st in out["fall"]:
            objs = [d for d in st.o.values() if failing(P, d) is not None]
            if objs and completes(body) and not any(failing(P, d) for d in objs): return "continues with a non-failing result", "after the handler the result still does not report failure"
    if completes(body):
        inner = {v["id"] for v in walk(body) if v.get("k") == "Var"}
        writes = []
        for x in walk(body):
            k = x.get("k"); tgt = None; val = None
            if k == "Bin" and x["op"] in ("=", "|=", "+="): tgt, val = x["c"][0], x["c"][1]
            elif k == "Call" and x.get("op") == "=" : tgt, val = x.get("obj") or x["c"][0], x["c"][-1]
            elif k == "Call" and x.get("obj") is not None and not x.get("cst") and not x.get("op"): tgt = x["obj"]
            elif k == "Un" and x["op"] in ("++", "p++"): tgt = x["c"][0]
            elif k == "Call" and x.get("op") in ("<<", "()"): tgt = x.get("obj") or x["c"][0]
            if tgt is None: continue
            b = strip(tgt)
            while b is not None and b.get("k") in ("Mem", "Idx") or b is not None and b.get("k") == "Call" and b.get("obj") is not None: b = strip(b["c"][0] if b.get("k") != "Call" else b["obj"])
            if b is not None and (b.get("k") == "This" or b.get("k") == "Ref" and b.get("id") not in inner and b.get("id") != h.get("id")):
                writes.append((x, tgt, val))
        if not writes:
            if f.kind == "dtor" or nested: return None
            return "swallows the exception", "the handler neither rethrows, returns a failure, nor records the exception anywhere"
        for x, tgt, val in writes:
            if P.T(strip(tgt)).replace("const ", "") == "bool" and val is not None and const(val) == 1 and strip(tgt).get("n", "").lower().strip("_") in ("success", "converged", "valid", "ok", "succeeded"):
                return "records success", "the handler sets a success flag"
    # --- result-producing handlers keep the text and use a matching status
    isres = any(ts.tracked(P.T(strip(r["c"][0]))) and "msg" in (role(P, ts.tracked(P.T(strip(r["c"][0])))) or {}) for r in rets if r.get("c"))
    isres = isres or any(x.get("k") in ("Call", "Other", "DepRef") and ("Failure" in x.get("n", "") or "Failure" in nt(x.get("fn", "")).split("::")[-1]) for x in walk(body))
    isres = isres or any(x.get("k") == "Bin" and x["op"] == "=" and P.T(strip(x["c"][0])).endswith("AlgorithmStatus") for x in walk(body))
    if not h.get("all") and isres and not uses: return "drops the exception text", "the failure result does not carry the text of the exception that caused it"
    ht = bare(P.T(h)) if not h.get("all") else None
    stat = {strip(a).get("n") for x in walk(body) for a in (x.get("c") or []) if isinstance(a, dict) and strip(a) is not None and strip(a).get("dk") == "enum" and P.T(strip(a)).endswith("AlgorithmStatus")}
    if stat and ht:
        s1 = ht.split("::")[-1]
        if "Success" in stat: return "uses status Success", "the handler builds a result with the success status"
        if s1.startswith("SingularMatrix") and stat != {"SingularMatrix"}: return "misclassifies", "a singular-matrix exception is reported as %s" % sorted(stat)
        if (s1.endswith("DimensionError") or ht == "std::invalid_argument" or s1.endswith(("InputError", "DomainError"))) and stat != {"InvalidInput"}: return "misclassifies", "an invalid-input exception is reported as %s" % sorted(stat)
        if ht == "std::exception" and stat & {"InvalidInput", "SingularMatrix"}: return "misclassifies", "an arbitrary exception is reported as %s" % sorted(stat)
    return None
