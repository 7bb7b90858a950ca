"""C01: disjunctive typestate analysis of result objects (success flag / status code / error text).

Abstract state: for every tracked result object and every local bool / status / string variable one value of a
finite domain (bool T/F, status S(uccess)/X(failure), message E(mpty)/N(on-empty)).  Unknown values fork the state, so the
analysis is a sound finite-domain dataflow over every path of a function; calls are resolved and summarised."""
from .core import *

FLAG = ("converged", "success")
MSG = ("error_message", "errorMessage", "message")
STAT = ("status",)
CAP = 4000


def role(P, rec, _c={}):
    """roles of a result record: {'flag':name,'status':name,'msg':name} including base-class fields"""
    k = (id(P), rec)
    if k in _c: return _c[k]
    r = P.recs.get(rec); out = {}
    if r:
        for b in r["bases"]:
            out.update(role(P, b.get("q", "")) or {})
        for f in r["fields"]:
            t = P.T(f)
            if f["n"] in FLAG and t == "bool": out["flag"] = f["n"]
            if f["n"] in STAT and t.endswith("AlgorithmStatus"): out["status"] = f["n"]
            if enumok(P, t) == "None": out["reason"] = f["n"]
            if f["n"] in MSG and "basic_string" in t: out["msg"] = f["n"]
    if not ("status" in out or "flag" in out): out = None      # flag-only records are tracked, but nothing is required of them
    _c[k] = out
    return out


def rec_of_type(P, t):
    t = t.replace("const ", "").replace("&", "").strip()
    i = t.find("<")
    if i > 0: t = t[:i]
    return t


def enumok(P, t):
    """name of the enumerator that means 'no failure' for a status-like enum type, else None"""
    t = t.replace("const ", "").replace("&", "").strip()
    if t.endswith("AlgorithmStatus"): return "Success"
    if t.endswith("FailureReason"): return "None"
    return None


class St:
    __slots__ = ("o", "v")

    def __init__(s, o=None, v=None):
        s.o = o or {}; s.v = v or {}

    def copy(s): return St({k: dict(x) for k, x in s.o.items()}, dict(s.v))

    def key(s):
        return (frozenset((k, frozenset(x.items())) for k, x in s.o.items()), frozenset(s.v.items()))


def uniq(l):
    d = {}
    for s in l: d.setdefault(s.key(), s)
    return list(d.values())


class TS:
    def __init__(s, P, ck):
        s.P = P; s.ck = ck; s.summ = {}; s.active = set(); s.paths = 0; s.retsites = {}; s.overflow = []

    # ---------- helpers
    def tracked(s, t):
        r = rec_of_type(s.P, t)
        return r if role(s.P, r) else None

    def coherent(s, rec):
        ro = role(s.P, rec); out = []
        for ok in (True, False):
            d = {"_r": rec}
            if "flag" in ro: d["flag"] = "T" if ok else "F"
            if "status" in ro: d["status"] = "S" if ok else "X"
            if "reason" in ro: d["reason"] = "S" if ok else "X"
            if "msg" in ro: d["msg"] = "E" if ok else "N"
            out.append(d)
        return out

    def default(s, rec):
        """default member values from in-class initialisers"""
        ro = role(s.P, rec); d = {"_r": rec}
        ini = {}
        def coll(rn):
            r = s.P.recs.get(rn)
            if not r: return
            for b in r["bases"]: coll(b.get("q", ""))
            for f in r["fields"]: ini[f["n"]] = f
        coll(rec)
        for role_, nm in ro.items():
            f = ini.get(nm)
            if role_ == "msg":
                v = "E"
                if f and f.get("c"):
                    x = strip(f["c"][0])
                    lit = next((y for y in walk(x) if y.get("k") == "Str"), None)
                    v = "N" if lit is not None and lit.get("v") else "E"
                d["msg"] = v
            elif role_ == "flag":
                c = const(f["c"][0]) if f and f.get("c") else None
                if c is None and f and f.get("c") and strip(f["c"][0]).get("k") == "InitList":
                    cc = strip(f["c"][0])["c"]; c = const(cc[0]) if cc else 0
                d["flag"] = "?" if c is None else ("T" if c else "F")
            else:
                v = "?"
                if f and f.get("c"):
                    for y in walk(f["c"][0]):
                        if y.get("dk") == "enum": v = "S" if y["n"] == enumok(s.P, s.P.T(f)) else "X"
                d[role_] = v
        return d

    # ---------- expression evaluation: returns list of (state, value)
    def objref(s, st, n):
        """resolve an lvalue expression to a tracked object key in the state"""
        n = strip(n)
        if n is None: return None
        k = n.get("k")
        if k == "Ref" and "id" in n:
            i = n["id"]
            a = st.v.get(("alias", i))
            if a is not None: return a
            return i if i in st.o else None
        if k == "This": return "this" if "this" in st.o else None
        if k == "Un" and n.get("op") == "*": return s.objref(st, n["c"][0])
        return None

    def fieldof(s, st, n):
        """Mem node -> (objkey, role) if it is a tracked field of a tracked object"""
        n = strip(n)
        if n is None or n.get("k") != "Mem" or n.get("dk") != "field": return None
        o = s.objref(st, n["c"][0])
        if o is None: return None
        ro = role(s.P, st.o[o]["_r"])
        for r, nm in ro.items():
            if nm == n["n"]: return (o, r)
        return None

    def cond(s, st, n):
        """-> list of (state, True/False)"""
        n = strip(n)
        if n is None: return [(st, True)]
        k = n.get("k")
        c = const(n)
        if c is not None and k != "Ref": return [(st, bool(c))]
        if k == "Un" and n["op"] == "!":
            return [(a, not b) for a, b in s.cond(st, n["c"][0])]
        if k == "Bin" and n["op"] in ("&&", "||"):
            out = []
            for a, b in s.cond(st, n["c"][0]):
                if b == (n["op"] == "||"): out.append((a, b))
                else: out += s.cond(a, n["c"][1])
            return out
        if k == "Bin" and n["op"] in ("==", "!="):
            l, r = n["c"]
            for x, y in ((l, r), (r, l)):
                y_ = strip(y)
                if y_.get("dk") == "enum" and enumok(s.P, s.P.T(y_)):
                    out = []
                    ok = enumok(s.P, s.P.T(y_))
                    for a, v in s.val(st, x, "status" if ok == "Success" else "reason"):
                        if y_["n"] == ok: b = (v == "S")
                        elif v == "S": b = False
                        else:
                            out.append((a, True)); out.append((a, False)); continue
                        out.append((a, b == (n["op"] == "==")))
                    return out
                cy = const(y_)
                if cy is not None and s.P.T(strip(x)) == "bool":
                    return [(a, (b == bool(cy)) == (n["op"] == "==")) for a, b in s.cond(st, x)]
        if k == "Cond":
            out = []
            for a, b in s.cond(st, n["c"][0]): out += s.cond(a, n["c"][1 if b else 2])
            return out
        f = s.fieldof(st, n)
        if f and f[1] == "flag":
            out = []
            v = st.o[f[0]]["flag"]
            if v != "?": return [(st, v == "T")]
            for b in (True, False):
                a = st.copy(); a.o[f[0]]["flag"] = "T" if b else "F"; out.append((a, b))
            return out
        if k == "Ref" and "id" in n and n.get("dk") in ("local", "parm", "bind") and s.P.T(n).replace("const ", "").replace("&", "").strip() == "bool":
            v = st.v.get(n["id"], "?")
            if v != "?": return [(st, v == "T")]
            out = []
            for b in (True, False):
                a = st.copy(); a.v[n["id"]] = "T" if b else "F"; out.append((a, b))
            return out
        if k == "Call" and n.get("fn", "").endswith("::empty") and n.get("obj"):
            f = s.fieldof(st, n["obj"])
            if f and f[1] == "msg" and st.o[f[0]]["msg"] != "?":
                return [(st, st.o[f[0]]["msg"] == "E")]
        if k == "Call" and n.get("obj") is not None:
            o = s.objref(st, n["obj"]); fn = s.P.callee(n)
            if o is not None and fn is not None and fn.body and fn.get("cst") and not n.get("c"):
                b = fn.body.get("c", [])
                if len(b) == 1 and b[0].get("k") == "Return":
                    t = st.copy(); t.o = dict(t.o); t.o["this"] = t.o[o]
                    return [(st, x) for _, x in s.cond(t, b[0]["c"][0])]
        # comparisons and other opaque conditions: remember the outcome of textually identical pure comparisons
        if k == "Bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
            ids = frozenset(x["id"] for x in walk(n) if "id" in x)
            pure = all(x.get("k") in ("Bin", "Ref", "Int", "Float", "ICast", "Cast", "Mem", "This", "Un", "Bool") and not x.get("op", "").endswith("++") for x in walk(n))
            if pure and not any(x.get("k") == "Un" and ("++" in x["op"] or "--" in x["op"]) for x in walk(n)):
                kk = ("cmp", show(n), ids)
                if kk[1:] not in s.rep:
                    a = st
                    return [(a, True), (a, False)]
                v = st.v.get(kk)
                if v is not None: return [(st, v == "T")]
                out = []
                for b in (True, False):
                    a = st.copy(); a.v[kk] = "T" if b else "F"; out.append((a, b))
                return out
        out = []
        for a in s.effects(st, n): out += [(a, True), (a, False)]
        return out

    def kill(s, st, ids, fields=()):
        """an assignment to variable ids invalidates remembered comparisons mentioning them"""
        dead = [k for k in st.v if isinstance(k, tuple) and k[0] == "cmp" and ((k[2] & ids) or any(f in k[1] for f in fields))]
        if dead:
            st = st.copy()
            for k in dead: del st.v[k]
        return st

    def val(s, st, n, kind):
        """kind flag|status|msg -> list of (state, value)"""
        n = strip(n)
        if kind == "flag":
            return [(a, "T" if b else "F") for a, b in s.cond(st, n)]
        if n is None: return [(st, "?")]
        k = n.get("k")
        if k == "Cond":
            out = []
            for a, b in s.cond(st, n["c"][0]): out += s.val(a, n["c"][1 if b else 2], kind)
            return out
        f = s.fieldof(st, n)
        if f and f[1] == kind:
            v = st.o[f[0]][kind]
            if v == "?":
                out = []
                for w in (("S", "X") if kind in ("status", "reason") else ("E", "N")):
                    a = st.copy(); a.o[f[0]][kind] = w; out.append((a, w))
                return out
            return [(st, v)]
        if k == "Ref" and "id" in n and n.get("dk") in ("local", "parm"):
            v = st.v.get(n["id"])
            if v in ("S", "X", "E", "N"): return [(st, v)]
        if kind in ("status", "reason"):
            if n.get("dk") == "enum": return [(st, "S" if n["n"] == enumok(s.P, s.P.T(n)) else "X")]
            if k == "Call":
                fn = s.P.callee(n)
                if fn is not None and fn.body:
                    vals = set()
                    rets = [r for r in walk(fn.body, False) if r.get("k") == "Return"]
                    for r in rets:
                        for y in walk(r):
                            if y.get("dk") == "enum" and enumok(s.P, s.P.T(y)): vals.add("S" if y["n"] == enumok(s.P, s.P.T(y)) else "X")
                    if vals: return [(st, v) for v in sorted(vals)]
            return [(st, "S"), (st, "X")]
        # message
        if k == "Str": return [(st, "N" if n.get("v") else "E")]
        if k == "Ctor" and not n.get("c"): return [(st, "E")]
        if k == "InitList" and not n.get("c"): return [(st, "E")]
        if k in ("Ctor", "InitList") and n.get("c"): return s.val(st, n["c"][0], kind)
        if k == "Call" and n.get("fn", "").endswith("operator+"):
            return [(st, "N")] if any(y.get("k") in ("Str", "Char") and y.get("v") for y in walk(n)) else [(st, "E"), (st, "N")]
        return [(st, "N")]   # non-literal texts (what(), built strings) are taken as non-empty

    # ---------- object-valued expressions
    def objval(s, st, n, rec):
        """-> list of (state, fielddict)"""
        n = strip(n)
        k = n.get("k") if n else None
        o = s.objref(st, n)
        if o is not None:
            d = dict(st.o[o])
            if d["_r"] != rec:
                src = d; d = s.default(rec)
                for r in ("flag", "status", "reason", "msg"):
                    if r in src and r in d: d[r] = src[r]
            return [(st, d)]
        if k == "Cond":
            out = []
            for a, b in s.cond(st, n["c"][0]): out += s.objval(a, n["c"][1 if b else 2], rec)
            return out
        if k == "InitList":
            return s.aggregate(st, n, rec)
        if k == "Ctor":
            return s.ctor(st, n, rec)
        if k == "ZeroInit": return [(st, s.default(rec))]
        if k == "Call":
            return s.call(st, n, rec)
        return [(st, d) for d in s.coherent(rec)]

    def allfields(s, rec):
        r = s.P.recs.get(rec); out = []
        for b in (r or {}).get("bases", []): out += s.allfields(b.get("q", ""))
        return out + ([f["n"] for f in r["fields"]] if r else [])

    def aggregate(s, st, n, rec):
        d0 = s.default(rec); fs = s.allfields(rec); ro = role(s.P, rec); inv = {v: k for k, v in ro.items()}
        states = [(st, d0)]
        items = n.get("c", [])
        if len(items) == 1 and strip(items[0]).get("k") in ("Ctor", "Call") and s.tracked(s.P.T(strip(items[0]))) == rec:
            return s.objval(st, items[0], rec)
        for nm, e in zip(fs, items):
            if nm in inv and strip(e) is not None and e.get("k") not in ("DefInit", "ZeroInit"):
                nxt = []
                for a, d in states:
                    for b, v in s.val(a, e, inv[nm]):
                        dd = dict(d); dd[inv[nm]] = v; nxt.append((b, dd))
                states = nxt
        return states

    def bindargs(s, st, fn, args, sub):
        """sub: new state for callee; binds scalar params; returns list of (callerstate, calleestate)"""
        outs = [(st, sub)]
        for p, a in zip(fn.params, args):
            lam = s.lamof(st, a)
            if lam is not None:
                nxt = []
                for cs, su in outs:
                    x = su.copy(); x.v[("lam", p["id"])] = lam; nxt.append((cs, x))
                outs = nxt
                continue
            t = s.P.T(p).replace("const ", "").replace("&", "").strip()
            kind = "flag" if t == "bool" else {"Success": "status", "None": "reason"}.get(enumok(s.P, t)) or ("msg" if ("basic_string" in t or t == "char *") else None)
            if kind:
                nxt = []
                for cs, su in outs:
                    vs = s.val(cs, a, kind)
                    for c2, v in vs:
                        x = su.copy(); x.v[p["id"]] = v; nxt.append((c2, x))
                outs = nxt
            else:
                r = s.tracked(s.P.T(p))
                if r:
                    nxt = []
                    for cs, su in outs:
                        for c2, d in s.objval(cs, a, r):
                            x = su.copy(); x.o[p["id"]] = d; nxt.append((c2, x))
                    outs = nxt
        return outs

    def ctor(s, st, n, rec):
        fn = s.P.callee(n)
        ro = role(s.P, rec); inv = {v: k for k, v in ro.items()}
        if fn is None or fn.get("dft"):
            if n.get("c") and not n.get("cp"):
                return [(st, d) for d in s.coherent(rec)]
            return [(st, s.default(rec))]
        out = []
        for cs, su in s.bindargs(st, fn, n.get("c", []), St()):
            states = [(su, s.default(rec))]
            for i in fn.get("inits", []):
                m = i.get("m")
                if m in inv and i.get("w") and i.get("c"):
                    nxt = []
                    for a, d in states:
                        for b, v in s.val(a, i["c"][0], inv[m]):
                            dd = dict(d); dd[inv[m]] = v; nxt.append((b, dd))
                    states = nxt
            for a, d in states:
                a = a.copy(); a.o["this"] = d
                if fn.body and fn.body.get("c"):
                    for e in s.block([a], fn.body)[0]: out.append((cs, dict(e.o["this"])))
                else: out.append((cs, d))
        return dedup(out)

    def call(s, st, n, rec):
        fn = s.P.callee(n)
        lr = s.calllam(st, n)
        if lr is not None:
            out = []
            for a, d in lr:
                for dd in ([d] if d is not None else s.coherent(rec)): out.append((a, dict(dd)))
            return dedup(out)
        if fn is None or not fn.body:
            # unresolved callee (user callback / library): a value of the contract type
            out = []
            for a in s.effects(st, n): out += [(a, d) for d in s.coherent(rec)]
            return out
        out = []
        refs = s.refargs(st, fn, n)
        for cs, su in s.bindargs(st, fn, n.get("c", []), St()):
            for ret, outs in s.summary(fn, su):
                a = cs
                if refs:
                    a = cs.copy()
                    for pid, ok in refs:
                        if pid in outs: a.o[ok] = dict(outs[pid])
                for dd in ([ret] if ret is not None else s.coherent(rec)):
                    d2 = dict(dd)
                    if d2.get("_r") != rec: d2 = dict(s.coherent(rec)[0 if d2.get("status", d2.get("flag")) in ("S", "T") else 1])
                    out.append((a, d2))
        return dedup(out)

    LAMS = {}

    def lamof(s, st, n):
        """lambda bound to an expression (literal, local variable, parameter), as an index"""
        n = strip(n)
        while n is not None and n.get("k") == "Ctor" and len(n.get("c", [])) == 1: n = strip(n["c"][0])
        if n is None: return None
        if n.get("k") == "Lambda":
            TS.LAMS[id(n)] = n; return id(n)
        if n.get("k") == "Ref" and "id" in n: return st.v.get(("lam", n["id"]))
        if n.get("k") == "Call" and n.get("fn") in ("std::forward", "std::move", "std::ref") and n.get("c"): return s.lamof(st, n["c"][0])
        return None

    def calllam(s, st, n):
        """call of a known lambda: -> None or list of (state, returned fielddict or None)"""
        tgt = n.get("obj") if n.get("op") == "()" else n.get("callee")
        if tgt is None: return None
        lam = s.lamof(st, tgt)
        if lam is None: return None
        L = TS.LAMS[lam]
        if lam in s.lamactive: return None
        s.lamactive.add(lam)
        try:
            states = [st.copy()]
            for p, a in zip(L.get("params", []), n.get("c", [])):
                t = s.P.T(p); r = s.tracked(t); nx = []
                for x in states:
                    o = s.objref(x, a) if r else None
                    if r and o is not None and t.endswith("&"):
                        y = x.copy(); y.v[("alias", p["id"])] = o; nx.append(y)
                    elif r:
                        for z, d in s.objval(x, a, r):
                            y = z.copy(); y.o[p["id"]] = dict(d); nx.append(y)
                    else:
                        kind = s.varkind(t)
                        if kind:
                            for z, v in s.val(x, a, kind):
                                y = z.copy(); y.v[p["id"]] = v; nx.append(y)
                        else: nx.append(x)
                states = nx
            out = []
            for x in states:
                fall, rr, _ = s.run(L["body"], x)
                out += [(y, None) for y in fall] + rr
            return out
        finally:
            s.lamactive.discard(lam)
    lamactive = set()

    def refargs(s, st, fn, n):
        l = []
        for p, a in zip(fn.params, n.get("c", [])):
            t = s.P.T(p)
            if t.endswith("&") and not t.startswith("const ") and s.tracked(t):
                o = s.objref(st, a)
                if o is not None: l.append((p["id"], o))
        return l

    def summary(s, fn, su):
        """-> list of (return fielddict or None, {param id: fielddict})"""
        key = (fn.key, su.key())
        if key in s.summ: return s.summ[key]
        rt = s.tracked(s.P.tc.get(fn.get("ret"), ""))
        if fn.key in s.active or len(s.active) > 14:
            r = [(d, {}) for d in s.coherent(rt)] if rt else [(None, {})]
            return r
        s.active.add(fn.key)
        fall, rets, _ = s.run(fn.body, su, s.P.tc.get(fn.get('ret'), '') if rt else None)
        s.active.discard(fn.key)
        res = {}
        for stt, d in rets + [(x, None) for x in fall]:
            outs = {i: o for i, o in stt.o.items() if any(p["id"] == i for p in fn.params)}
            k = (frozenset(d.items()) if d else None, frozenset((i, frozenset(o.items())) for i, o in outs.items()))
            res[k] = (d, outs)
        s.summ[key] = list(res.values())
        return s.summ[key]

    # ---------- statements
    def run(s, body, st, rt=None):
        sv = s.rets, s.rt, s.trycol
        s.rets = []; s.rt = rt; s.trycol = None
        svr = s.rep; s.rep = s.repeated(body)
        s.depth += 1
        fall, brk, cont = s.block([st], body)
        s.depth -= 1
        r = s.rets
        s.rets, s.rt, s.trycol = sv; s.rep = svr
        return fall, r, None
    depth = 0
    onhandler = None
    rep = frozenset()
    _rep = {}

    def repeated(s, body):
        """comparisons written more than once in the function: only those need to be remembered"""
        k = id(body)
        if k not in TS._rep:
            c = {}
            for n in walk(body):
                if n.get("k") == "Bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
                    t = (show(n), frozenset(x["id"] for x in walk(n) if "id" in x)); c[t] = c.get(t, 0) + 1
            TS._rep[k] = frozenset(t for t, m in c.items() if m > 1)
        return TS._rep[k]

    def effects(s, st, n):
        """side effects of an expression on tracked state; returns list of states"""
        if n is None: return [st]
        n0 = n
        n = strip(n)
        k = n.get("k")
        if k == "Lambda": return [st]
        if k == "Bin" and n["op"] == "=":
            return s.assign(st, n["c"][0], n["c"][1])
        if k == "Bin" and n["op"] in ("&&", "||", ",") or k == "Cond":
            if n.get("op") == ",":
                out = []
                for a in s.effects(st, n["c"][0]): out += s.effects(a, n["c"][1])
                return out
            if k == "Cond":
                out = []
                for a, b in s.cond(st, n["c"][0]): out += s.effects(a, n["c"][1 if b else 2])
                return uniq(out)
            return uniq([a for a, b in s.cond(st, n)])
        if k == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            f = s.fieldof(st, n["c"][0])
            l = strip(n["c"][0])
            if f and f[1] == "flag":
                out = []
                for a, b in s.cond(st, n["c"][1]):
                    a = a.copy(); cur = a.o[f[0]]["flag"]
                    if n["op"] == "&=" : a.o[f[0]]["flag"] = cur if b else "F"
                    elif n["op"] == "|=": a.o[f[0]]["flag"] = "T" if b else cur
                    out.append(a)
                return out
            ids = frozenset(x["id"] for x in walk(l) if "id" in x)
            st = s.kill(st, ids, [l["n"]] if l.get("k") == "Mem" else [])
            if l.get("k") == "Ref" and l.get("id") in st.v:
                st = st.copy(); st.v.pop(l["id"], None)
            return s.effects(st, n["c"][1])
        if k == "Un" and ("++" in n["op"] or "--" in n["op"]):
            l = strip(n["c"][0])
            return [s.kill(st, frozenset(x["id"] for x in walk(l) if "id" in x), [l["n"]] if l.get("k") == "Mem" else [])]
        if k == "Call":
            op = n.get("op")
            if op == "=" and n.get("obj") is not None and n.get("c"):
                return s.assign(st, n["obj"], n["c"][0])
            if op == "+=" and n.get("obj") is not None:
                f = s.fieldof(st, n["obj"])
                if f and f[1] == "msg":
                    st = st.copy(); st.o[f[0]]["msg"] = "N"; return [st]
            nm = n.get("fn", "").split("::")[-1]
            if n.get("obj") is not None and nm in ("clear",):
                f = s.fieldof(st, n["obj"])
                if f and f[1] == "msg":
                    st = st.copy(); st.o[f[0]]["msg"] = "E"; return [st]
            lr = s.calllam(st, n)
            if lr is not None: return uniq([a for a, _ in lr])
            states = [st]
            fn = s.P.callee(n)
            for a in ([n["obj"]] if n.get("obj") else []) + n.get("c", []) + ([n["callee"]] if n.get("callee") else []):
                sa_ = strip(a)
                if sa_ is not None and sa_.get("k") not in ("Ref", "Int", "Float", "Str", "This", "Bool", "Lambda"):
                    nx = []
                    for x in states: nx += s.effects(x, a)
                    states = uniq(nx)
            # non-const method on tracked object / tracked object passed by reference
            out = []
            for x in states:
                o = s.objref(x, n["obj"]) if n.get("obj") is not None else None
                if o is not None and fn is not None and fn.body and not n.get("cst"):
                    for cs, su in s.bindargs(x, fn, n.get("c", []), St({"this": dict(x.o[o])})):
                        fall, rets, _ = s.run(fn.body, su)
                        for e in fall + [r for r, _ in rets]:
                            y = cs.copy(); y.o[o] = dict(e.o["this"]); out.append(y)
                    continue
                ref = s.refargs(x, fn, n) if fn is not None and fn.body else []
                if ref:
                    for cs, su in s.bindargs(x, fn, n.get("c", []), St()):
                        for ret, outs in s.summary(fn, su):
                            y = cs.copy()
                            for pid, ok in ref:
                                if pid in outs: y.o[ok] = dict(outs[pid])
                            out.append(y)
                    continue
                if fn is None or not fn.body:
                    # callable argument (lambda / std::function) given a tracked object by reference
                    objs = [s.objref(x, a) for a in n.get("c", [])]
                    objs = [o for o in objs if o is not None]
                    isuser = n.get("op") == "()" or n.get("callee") is not None
                    if objs and isuser:
                        for o in objs:
                            for d in s.coherent(x.o[o]["_r"]):
                                y = x.copy(); y.o[o] = d; out.append(y)
                        continue
                # bool/status/string locals passed by non-const reference become unknown
                y = x
                pts = n.get("pt", [])
                for a, pt in zip(n.get("c", []), pts):
                    t = s.P.T(pt)
                    if t.endswith("&") and not t.startswith("const "):
                        l = strip(a)
                        if l and l.get("k") == "Ref" and "id" in l:
                            y = s.kill(y, frozenset([l["id"]]))
                            if l["id"] in y.v: y = y.copy(); y.v.pop(l["id"])
                out.append(y)
            return uniq(out)
        if k == "Throw": return []
        if k in ("Ref", "Int", "Float", "Str", "Bool", "This", "Null"): return [st]
        states = [st]
        for c in children(n):
            nx = []
            for x in states: nx += s.effects(x, c)
            states = uniq(nx)
        return states

    def assign(s, st, lhs, rhs):
        l = strip(lhs)
        f = s.fieldof(st, l)
        if f:
            out = []
            for a, v in s.val(st, rhs, f[1]):
                for b in s.effects_in(a, rhs):
                    b = b.copy(); b.o[f[0]][f[1]] = v; out.append(b)
            return uniq(out)
        o = s.objref(st, l)
        if o is not None:
            out = []
            for a, d in s.objval(st, rhs, st.o[o]["_r"]):
                a = a.copy(); a.o[o] = dict(d); out.append(a)
            return uniq(out)
        if l and l.get("k") == "Ref" and "id" in l and l.get("dk") in ("local", "parm"):
            st = s.kill(st, frozenset([l["id"]]))
            kind = s.varkind(s.P.T(l))
            if kind:
                out = []
                for a, v in s.val(st, rhs, kind):
                    for b in s.effects_in(a, rhs):
                        b = b.copy(); b.v[l["id"]] = v; out.append(b)
                return uniq(out)
        elif l is not None:
            st = s.kill(st, frozenset(x["id"] for x in walk(l) if "id" in x), [l["n"]] if l.get("k") == "Mem" else [])
        out = []
        for a in s.effects(st, lhs): out += s.effects(a, rhs)
        return uniq(out)

    def effects_in(s, st, n):
        n = strip(n)
        if n is None or n.get("k") in ("Bin", "Ref", "Mem", "Str", "Int", "Bool", "Un", "Cond", "Float", "Ctor", "InitList"): return [st]
        return s.effects(st, n)

    def varkind(s, t):
        t = t.replace("const ", "").replace("&", "").strip()
        return "flag" if t == "bool" else {"Success": "status", "None": "reason"}.get(enumok(s.P, t)) or ("msg" if "basic_string<" in t else None)

    def decl(s, states, v):
        if v is None or v.get("k") != "Var": return states
        t = s.P.T(v); rec = s.tracked(t); init = (v.get("c") or [None])[0]
        out = []
        for st in states:
            if rec and not t.endswith("*"):
                if t.endswith("&"):
                    o = s.objref(st, init) if init else None
                    if o is not None:
                        a = st.copy(); a.v[("alias", v["id"])] = o; out.append(a); continue
                if init is None:
                    a = st.copy(); a.o[v["id"]] = s.default(rec); out.append(a)
                else:
                    for a, d in s.objval(st, init, rec):
                        a = a.copy(); a.o[v["id"]] = dict(d); out.append(a)
            else:
                kind = s.varkind(t)
                st = s.kill(st, frozenset([v["id"]]))
                lam = s.lamof(st, init) if init is not None else None
                if lam is not None:
                    a = st.copy(); a.v[("lam", v["id"])] = lam; out.append(a); continue
                if kind and init is not None:
                    for a, x in s.val(st, init, kind):
                        for b in s.effects_in(a, init):
                            b = b.copy(); b.v[v["id"]] = x; out.append(b)
                elif kind == "msg":
                    a = st.copy(); a.v[v["id"]] = "E"; out.append(a)
                elif init is not None: out += s.effects(st, init)
                else: out.append(st)
        return uniq(out)

    def block(s, states, n):
        """returns (fallthrough, breaks, continues)"""
        if n is None or not states: return states, [], []
        if len(states) > CAP:
            raise Broken("typestate state explosion")
        k = n.get("k")
        if k == "Block":
            br, co = [], []
            for c in n["c"]:
                states, b, cc = s.block(states, c); br += b; co += cc
                if s.trycol is not None: s.trycol.extend(states)
                if not states: break
            dead = set(v["id"] for c in n["c"] if c.get("k") == "Decl" for v in c["c"] if "id" in v)
            if dead and s.scope:
                states = s.drop(states, dead); br = s.drop(br, dead); co = s.drop(co, dead)
            return states, uniq(br), uniq(co)
        if k == "Decl":
            for v in n["c"]: states = s.decl(states, v)
            return states, [], []
        if k == "If":
            if n.get("init"): states, _, _ = s.block(states, n["init"])
            if n.get("cv_"): states = s.decl(states, n["cv_"])
            t, e = [], []
            for st in states:
                for a, b in s.cond(st, n["cond"]): (t if b else e).append(a)
            t1, b1, c1 = s.block(uniq(t), n["then"])
            e1, b2, c2 = s.block(uniq(e), n["else"]) if n.get("else") else (uniq(e), [], [])
            return uniq(t1 + e1), b1 + b2, c1 + c2
        if k in ("For", "While", "Do", "RFor"):
            if n.get("init"): states, _, _ = s.block(states, n["init"])
            if k == "RFor" and n.get("range"):
                nx = []
                for st in states: nx += s.effects(st, n["range"])
                states = nx
            seen = {}; work = list(states); exits = []
            first_do = k == "Do"
            while work:
                st = work.pop()
                kk = st.key()
                if kk in seen: continue
                seen[kk] = st
                if len(seen) > CAP: raise Broken("typestate loop state explosion")
                ent = []
                if k == "Do": ent = [st]
                elif k == "RFor": ent = [st]; exits.append(st)
                else:
                    if n.get("cond") is None: ent = [st]
                    else:
                        for a, b in s.cond(st, n["cond"]): (ent if b else exits).append(a)
                f, br, co = s.block(uniq(ent), n["body"])
                exits += br
                f = uniq(f + co)
                if k == "For" and n.get("inc"):
                    nx = []
                    for a in f: nx += s.effects(a, n["inc"])
                    f = nx
                if k == "Do":
                    nf = []
                    for a in f:
                        for x, b in s.cond(a, n["cond"]): (nf if b else exits).append(x)
                    f = nf
                work += uniq(f)
            return uniq(exits), [], []
        if k == "Return":
            c = n.get("c")
            for st in states:
                if c and s.rt and s.tracked(s.rt):
                    for a, d in s.objval(st, c[0], s.tracked(s.rt)): s.rets.append((a, d)); s.site(n, d)
                elif c:
                    rec = s.tracked(s.P.T(strip(c[0]))) if strip(c[0]) else None
                    if rec:
                        for a, d in s.objval(st, c[0], rec): s.rets.append((a, d)); s.site(n, d)
                    else:
                        for a in s.effects(st, c[0]): s.rets.append((a, None))
                else: s.rets.append((st, None))
            s.rets = duprets(s.rets)
            return [], [], []
        if k == "Break": return [], states, []
        if k == "Continue": return [], [], states
        if k == "Switch":
            nx = []
            if n.get("init"): states, _, _ = s.block(states, n["init"])
            for st in states: nx += s.effects(st, n["cond"])
            entry = uniq(nx); out = []; cur = []; brk = []; co = []; hasdef = False
            body = n["body"].get("c", []) if n["body"] else []
            for c in body:
                x = c
                while x is not None and x.get("k") in ("Case", "Default"):
                    hasdef |= x["k"] == "Default"
                    cur = uniq(cur + entry); x = x["c"][0]
                cur, b, cc = s.block(cur, x); brk += b; co += cc
            return uniq(cur + brk + ([] if hasdef else entry)), [], co
        if k == "Try":
            sv = s.trycol; s.trycol = list(states)
            f, b, c = s.block(states, n["body"])
            mid = uniq(s.trycol); s.trycol = sv
            if sv is not None: sv.extend(mid)
            for h in n.get("h", []):
                n0 = len(s.rets)
                a, b2, c2 = s.block(mid, h["body"])
                if s.onhandler: s.onhandler(h, a, s.rets[n0:], s.rt)
                f = uniq(f + a); b += b2; c += c2
            return f, b, c
        if k in ("Null", "Goto", "Label", "Other"):
            return states, [], []
        if k == "Throw": 
            return [], [], []
        out = []
        for st in states: out += s.effects(st, n)
        return uniq(out), [], []

    def drop(s, l, dead):
        """forget variables going out of scope"""
        out = []
        for st in l:
            ks = [k for k in st.v if k in dead or (isinstance(k, tuple) and (k[1] in dead if k[0] != "cmp" else k[2] & dead))]
            ko = [k for k in st.o if k in dead]
            if ks or ko:
                st = st.copy()
                for k in ks: del st.v[k]
                for k in ko: del st.o[k]
            out.append(st)
        return uniq(out)

    trycol = None
    scope = True
    rt = None
    rets = []

    def site(s, n, d):
        if s.depth != 1: return
        s.paths += 1
        s.retsites.setdefault(n["l"], set()).add(tuple(sorted(d.items())))


def dedup(l):
    d = {}
    for a, x in l: d.setdefault((a.key(), tuple(sorted(x.items()))), (a, x))
    return list(d.values())


def duprets(l):
    d = {}
    for a, x in l: d.setdefault((a.key(), tuple(sorted(x.items())) if x else None), (a, x))
    return list(d.values())


def incoherence(P, rec, d):
    """text of the inconsistency or None"""
    ro = role(P, rec); pr = []
    if "status" not in ro and "msg" not in ro: return None
    fl, stt, ms = d.get("flag"), d.get("status"), d.get("msg")
    errmsg = ro.get("msg") in ("error_message", "errorMessage")
    rs = d.get("reason")
    if fl == "T" and rs == "X": pr.append("success flag true with a failure reason")
    if fl == "F" and rs == "S": pr.append("success flag false without a failure reason")
    if fl == "T" and stt == "X": pr.append("success flag true with a failure status")
    if fl == "F" and stt == "S": pr.append("success flag false with status Success")
    ok = fl == "T" if fl else stt == "S"
    if ok and ms == "N" and errmsg: pr.append("success with an error text")
    if not ok and ms == "E": pr.append("failure with an empty error text")
    if "?" in (fl, stt, ms, rs): pr.append("undetermined")
    return "; ".join(pr) or None
