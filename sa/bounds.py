"""Symbolic element-access analysis: linear-inequality dataflow (flow-sensitive, relational) over the typed AST.

Every integer variable, integer member and container extent has a symbolic value (a linear form over symbols that never change
meaning; an update introduces a fresh symbol), and the state carries linear inequalities between symbols learned from loop
headers, branch conditions, guards that throw or return, constructions and resizes.  Each element access is then classified:
  proved   index within the extent on every path
  refuted  at the extreme iteration of the enclosing loops the facts imply the index is outside the extent
  open     neither (the relation depends on values or contracts the facts do not contain)"""
from fractions import Fraction
from .core import *

ONE = ""


def lf(c=0): return {ONE: c} if c else {}


def add(a, b, k=1):
    r = dict(a)
    for s_, v in b.items():
        x = r.get(s_, 0) + k * v
        if x: r[s_] = x
        else: r.pop(s_, None)
    return r


def mul(a, k): return {s_: v * k for s_, v in a.items()} if k else {}
def isconst(a): return all(s_ == ONE for s_ in a)
def cval(a): return a.get(ONE, 0)


def norm(a):
    from math import gcd
    vs = [Fraction(v) for v in a.values()]
    if not vs: return ()
    den = 1
    for v in vs: den = den * v.denominator // gcd(den, v.denominator)
    iv = {s_: int(Fraction(v) * den) for s_, v in a.items()}
    g = 0
    for s_, v in iv.items():
        if s_ != ONE: g = gcd(g, abs(v))
    if g > 1:
        iv = {s_: (v // g if s_ == ONE else v // g) for s_, v in iv.items()}     # integer tightening of the constant
    return tuple(sorted(iv.items(), key=lambda x: str(x[0])))


def unsat(ineqs, limit=220):
    """True when the system {e >= 0} has no integer solution (Fourier-Motzkin with integer tightening); False = unknown."""
    S = set()
    for e in ineqs:
        t = norm(e)
        if all(s_ == ONE for s_, _ in t):
            if sum(v for _, v in t) < 0: return True
            continue
        S.add(t)
    while True:
        syms = {}
        for t in S:
            for s_, v in t:
                if s_ != ONE:
                    p = syms.setdefault(s_, [0, 0]); p[0 if v > 0 else 1] += 1
        if not syms: return False
        s0 = min(syms, key=lambda x: (syms[x][0] * syms[x][1] - syms[x][0] - syms[x][1], str(x)))
        pos, neg, rest = [], [], set()
        for t in S:
            v = dict(t).get(s0, 0)
            (pos if v > 0 else neg).append(dict(t)) if v else rest.add(t)
        if len(pos) * len(neg) + len(rest) > limit: return False
        for p in pos:
            for q in neg:
                r = add(mul(p, -q[s0]), q, p[s0]); t = norm(r)
                if all(s_ == ONE for s_, _ in t):
                    if sum(v for _, v in t) < 0: return True
                    continue
                if len(t) <= 12: rest.add(t)
        # keep the tightest constant per direction
        best = {}
        for t in rest:
            k = tuple(x for x in t if x[0] != ONE); c = dict(t).get(ONE, 0)
            if k not in best or c < best[k]: best[k] = c
        S = {tuple(sorted(list(k) + ([(ONE, c)] if c else []), key=lambda x: str(x[0]))) for k, c in best.items()}


class State:
    __slots__ = ("val", "facts", "ver", "dead", "es", "tight", "conds", "unk")

    def __init__(s): s.val = {}; s.facts = []; s.ver = {}; s.dead = False; s.es = {}; s.tight = []; s.conds = []; s.unk = frozenset()

    def copy(s):
        r = State(); r.val = dict(s.val); r.facts = list(s.facts); r.ver = dict(s.ver); r.dead = s.dead; r.es = dict(s.es); r.tight = list(s.tight); r.conds = list(s.conds); r.unk = s.unk; return r


GROW = {"push_back", "emplace_back"}
RESIZERS = {"Resize", "resize", "assign", "push_back", "emplace_back", "pop_back", "clear", "insert", "erase", "swap", "operator=", "shrink_to_fit", "reserve", "emplace", "push", "pop", "SetDegree", "Reduce"}


class Bounds:
    def __init__(s, P):
        s.helpers = set(); s.ctx = {}; s.inctx = False
        s.P = P; s.n = 0; s.acc = []; s._rs = {}; s.fn = None; s.inv = {}; s.collect = True; s._busy = set(); s._getter = {}; s.orig = {}; s._lin = {}

    # ------------------------------------------------------------ types
    def base(s, t):
        t = t.strip()
        for x in ("const ", "volatile "): t = t.replace(x, "")
        return t.rstrip("&").strip()

    def statdims(s, t):
        """extents fixed by the type"""
        t = s.base(t)
        if t.endswith("]") and "(" not in t:
            h = t[t.index("["):]; out = []
            for x in h.strip("[]").split("]["):
                if not x.isdigit(): return None
                out.append(int(x))
            return out
        q = nt(t)
        if q in ("MML::VectorN",) or q.startswith("MML::Vector") and q in s.P.recs or q.startswith("MML::Tensor") or q.startswith("MML::MatrixNM") or q == "std::array" or q.startswith("MML::"):
            a = s.targs(t)
            if q == "MML::VectorN" and len(a) == 2 and a[1].isdigit(): return [int(a[1])]
            if q == "std::array" and len(a) == 2 and a[1].isdigit(): return [int(a[1])]
            if q == "MML::MatrixNM" and len(a) == 3 and a[1].isdigit() and a[2].isdigit(): return [int(a[1]), int(a[2])]
            if q in ("MML::Tensor2", "MML::Tensor3", "MML::Tensor4", "MML::Tensor5") and a and a[0].isdigit(): return [int(a[0])] * int(q[-1])
            r = s.P.recs.get(q)
            if r and not a:
                for b in r["bases"]:
                    x = s.statdims(s.P.tc[b["t"]]) if "t" in b else None
                    if x: return x
        return None

    def targs(s, t):
        i = t.find("<")
        if i < 0: return []
        d = 0; out = []; cur = ""
        for c in t[i + 1:]:
            if c == "<": d += 1
            if c == ">":
                if d == 0: break
                d -= 1
            if c == "," and d == 0: out.append(cur.strip()); cur = ""; continue
            cur += c
        out.append(cur.strip()); return out

    def kind(s, t):
        q = nt(s.base(t))
        if q in ("std::vector", "std::basic_string", "std::deque"): return "std"
        if q == "MML::Vector": return "vec"
        if q == "MML::Matrix": return "mat"
        if q == "MML::MatrixSym": return "sym"
        return None

    # ------------------------------------------------------------ paths, symbols
    def path(s, n, st):
        n = strip(n)
        while n is not None and n.get("k") == "Un" and n["op"] in ("*", "&"): n = strip(n["c"][0])
        if n is None: return None
        k = n.get("k")
        if k == "This": return ("t",)
        if k == "Ref" and n.get("dk") in ("local", "parm", "bind", "slocal"):
            a = st.es.get(("alias", n["id"]))
            return a if a else (n["id"],)
        if k == "Ref" and n.get("dk") == "global": return ("g", n.get("q"))
        if k == "Mem" and n.get("dk") == "field":
            p = s.path(n["c"][0], st)
            return p + (n["n"],) if p else None
        if k in ("Call", "Idx") and (k == "Idx" or n.get("op") == "[]"):
            o = n["obj"] if n.get("obj") is not None else n["c"][0]; i = n["c"][-1]
            p = s.path(o, st)
            if p is None: return None
            e = s.num(i, st)
            return p + ("[%s]" % (sorted(((str(a), b) for a, b in e.items())) if e is not None else s.fresh("idx")),)
        if k == "Call" and n.get("op") in ("->", "*") and n.get("obj") is not None: return s.path(n["obj"], st)
        if k == "Call" and n.get("obj") is not None and not n.get("op"):
            cf = s.P.callee(n)
            if cf is not None and cf.body and not n.get("c") and len(cf.body.get("c", [])) == 1 and cf.body["c"][0].get("k") == "Return" and cf.body["c"][0].get("c"):
                r = strip(cf.body["c"][0]["c"][0]); chain = []
                while r is not None and r.get("k") == "Mem" and r.get("dk") == "field": chain.append(r["n"]); r = strip(r["c"][0])
                if chain and r is not None and r.get("k") == "This":
                    p = s.path(n["obj"], st)
                    return p + tuple(reversed(chain)) if p else None
        return None

    def fresh(s, hint="x"):
        s.n += 1
        return "%s#%d" % (hint, s.n)

    def get(s, st, key, nonneg=False):
        """current symbolic value of an integer location / extent"""
        v = st.val.get(key)
        if v is None:
            sy = s.fresh(str(key)); s.orig[sy] = key
            v = {sy: 1}; st.val[key] = v
            if nonneg: st.facts.append(dict(v))
        return v

    def dims(s, n, st, t=None):
        """extents of container expression n, as linear forms, or None"""
        n0 = n; n = strip(n)
        t = t or s.P.T(n)
        sd = s.statdims(t)
        if sd: return [lf(x) for x in sd]
        k = s.kind(t)
        if k is None: return None
        p = s.path(n, st)
        if p is None:
            return s.exprdims(n, st)
        return s.pdims(p, k, st, t)

    def pdims(s, p, k, st, t=None):
        if k in ("std", "vec"):
            key = ("sz",) + p if k == "std" else ("sz",) + p + ("_elems",)
            if key not in st.val:
                # element of a uniformly built vector of vectors
                q = p
                if q and isinstance(q[-1], str) and q[-1].startswith("["):
                    u = st.es.get(("elem",) + q[:-1])
                    if u is not None and len(u) == 1: return [u[0]]
            return [s.get(st, key, True)]
        if k == "mat":
            q = p
            if q and isinstance(q[-1], str) and q[-1].startswith("[") and ("f",) + p + ("_rows",) not in st.val:
                u = st.es.get(("elem",) + q[:-1])
                if u is not None and len(u) == 2: return list(u)
            return [s.get(st, ("f",) + p + ("_rows",), True), s.get(st, ("f",) + p + ("_cols",), True)]
        if k == "sym":
            d = s.get(st, ("f",) + p + ("_dim",), True); return [d, d]

    def exprdims(s, n, st):
        """extents of a container-valued expression (constructor, call, operator) or None"""
        n = strip(n); t = s.P.T(n)
        sd = s.statdims(t)
        if sd: return [lf(x) for x in sd]
        k = s.kind(t)
        if k is None or n is None: return None
        p = s.path(n, st)
        if p is not None: return s.pdims(p, k, st)
        kk = n.get("k"); c = n.get("c", [])
        if kk == "Ctor":
            cc = [x for x in c if x.get("k") not in ("DefArg",)]
            if not cc: return [lf(0)] * (1 if k in ("std", "vec") else 2)
            t0 = s.base(s.P.T(strip(cc[0])))
            if s.kind(t0) == k: return s.exprdims(cc[0], st)
            intish = lambda x: s.isint(s.P.T(x)) or s.isint(s.P.T(strip(x)))
            if k in ("std", "vec") and intish(cc[0]) and not n.get("li"):
                e = s.num(cc[0], st); return [e] if e is not None else None
            if k == "vec" and intish(cc[0]) : 
                e = s.num(cc[0], st); return [e] if e is not None else None
            if k == "mat" and len(cc) >= 2 and intish(cc[0]) and intish(cc[1]):
                a, b = s.num(cc[0], st), s.num(cc[1], st)
                return [a, b] if a is not None and b is not None else None
            if k == "sym" and intish(cc[0]):
                a = s.num(cc[0], st); return [a, a] if a is not None else None
            if k in ("vec", "std") and strip(cc[0]).get("k") == "InitList": return [lf(len(strip(cc[0]).get("c", [])))]
            if k == "vec" and s.kind(t0) == "std":
                return s.exprdims(cc[0], st)
            return None
        if kk == "InitList" and k in ("std", "vec"): return [lf(len(c))]
        if kk == "Call" and n.get("op") in ("+", "-", "*", "/"):
            a = ([n["obj"]] if n.get("obj") is not None else []) + c
            if len(a) == 1: return s.exprdims(a[0], st)
            ka, kb = s.kind(s.P.T(strip(a[0]))), s.kind(s.P.T(strip(a[1])))
            da = s.exprdims(a[0], st) if ka else None; db = s.exprdims(a[1], st) if kb else None
            if n["op"] in ("+", "-", "/"): return da if ka == k else db if kb == k else None
            if ka == "mat" and kb == "mat" and da and db: return [da[0], db[1]]
            if ka == "mat" and kb == "vec" and da: return [da[0]]
            if ka == "vec" and kb == "mat" and db: return [db[1]]
            if ka and not kb: return da
            if kb and not ka: return db
            return None
        if kk == "Call" and n.get("obj") is not None and s.kind(s.P.T(strip(n["obj"]))) == "mat":
            nm = nt(n.get("fn", "")).split("::")[-1]; d = s.exprdims(n["obj"], st)
            if d and nm in ("GetTranspose", "transpose", "Transpose", "GetTransposed"): return [d[1], d[0]]
            if d and nm in ("VectorFromRow", "GetRow"): return [d[1]]
            if d and nm in ("VectorFromColumn", "VectorFromDiagonal", "GetColumn"): return [d[0]]
            if d and nm in ("GetInverse", "inverse"): return [d[0], d[1]]
        if kk == "Call" and nt(n.get("fn", "")).endswith("::GetUnitMatrix") or kk == "Call" and nt(n.get("fn", "")).endswith("::Identity"):
            if len(c) == 1 and s.isint(s.P.T(c[0])):
                e = s.num(c[0], st)
                return [e, e] if e is not None and k != "vec" else None
        if kk == "Cond":
            a, b = s.exprdims(c[1], st), s.exprdims(c[2], st)
            return a if a and b and a == b else None
        if kk == "Call" and s.P.callee(n) is not None:
            return s.retdims(n, st)
        return None

    _rd = {}

    def retdims(s, n, st):
        """extents of the container returned by a called library function in terms of its arguments (single constructed local)"""
        cf = s.P.callee(n)
        if cf.key in s._busy or not cf.body or len(s._busy) > 3: return None
        k = s.kind(s.P.T(n))
        rv = None
        for x in walk(cf.body, False):
            if x.get("k") == "Return" and x.get("c"):
                v = strip(x["c"][0])
                if v is None or v.get("k") != "Ref" or v.get("dk") != "local": return None
                if rv is not None and rv != v["id"]: return None
                rv = v["id"]
        if rv is None: return None
        decl = None
        for x in walk(cf.body, False):
            if x.get("k") == "Var" and x.get("id") == rv: decl = x
            if x.get("k") == "Call" and x.get("obj") is not None and strip(x["obj"]) is not None and strip(x["obj"]).get("id") == rv and (x.get("op") == "=" or nt(x.get("fn", "")).split("::")[-1] in RESIZERS): return None
            if x.get("k") in ("Call", "Ctor") and not x.get("op"):
                for a, pt in zip(x.get("c", []), x.get("pt") or []):
                    a = strip(a)
                    if a is not None and a.get("id") == rv and a.get("k") == "Ref" and s.P.tc[pt].strip().endswith("&") and "const " not in s.P.tc[pt] and s.mayresize(x): return None
        if decl is None or not decl.get("c"): return None
        c = strip(decl["c"][0])
        # evaluate the constructor arguments in a state binding the parameters
        sub = State(); sub.facts = st.facts
        if cf.cls is not None and n.get("obj") is not None:
            op = s.path(n["obj"], st)
            if op is None: return None
            for kx, v in list(st.val.items()):
                if kx[1:1 + len(op)] == op and kx[0] in ("sz", "f"): sub.val[(kx[0], "t") + kx[1 + len(op):]] = v
        for prm, a in zip(cf.params, n.get("c", [])):
            if s.isint(s.P.T(prm)):
                e = s.num(a, st)
                if e is None: return None
                sub.val[("v", prm["id"])] = e
            elif s.kind(s.P.T(prm)):
                d = s.exprdims(a, st); kk = s.kind(s.P.T(prm))
                if d: s.setdims((prm["id"],), kk, d, sub)
        # straight-line integer locals before the declaration
        s._busy = s._busy | {cf.key}
        try:
            sv = s.collect; s.collect = False
            for x in cf.body.get("c", []):
                if x.get("k") == "Decl" and any(v is decl for v in x.get("c", [])): break
                if x.get("k") == "Decl": sub = s.stmt(x, sub)
                elif x.get("k") == "If" and not s.completes(x["then"]) and x.get("else") is None: continue
                elif x.get("k") in ("Null",): continue
                else:
                    s.havoc_for(x, sub)
            s.collect = sv
            known_ = {sy for e in st.val.values() for sy in e} | {sy for e in st.facts for sy in e}
            d = s.exprdims(c, sub)
        finally: s._busy = s._busy - {cf.key}; s.collect = sv
        if not d: return None
        return d

    def bindcall(s, cf, n, st):
        """a state for callee cf in which its parameters (and this) have the values of call n's arguments"""
        sub = State(); sub.facts = st.facts; sub.conds = st.conds
        back = []
        if cf.cls is not None and n.get("obj") is not None:
            op = s.path(n["obj"], st)
            if op is not None:
                back.append((("t",), op))
                for kx, v in list(st.val.items()):
                    if kx[1:1 + len(op)] == op and kx[0] in ("sz", "f"): sub.val[(kx[0], "t") + kx[1 + len(op):]] = v
                for c in s.lineage(nt(cf.cls)): s.applyinv(c, ("t",), sub)
        for prm, a in zip(cf.params, n.get("c", [])):
            if s.isint(s.P.T(prm)):
                e = s.num(a, st)
                if e is not None: sub.val[("v", prm["id"])] = e
            elif s.kind(s.P.T(prm)):
                d = s.exprdims(a, st)
                if d: s.setdims((prm["id"],), s.kind(s.P.T(prm)), d, sub)
            else:
                op = s.path(a, st)
                if op is not None:
                    back.append(((prm["id"],), op))
                    for kx, v in list(st.val.items()):
                        if kx[1:1 + len(op)] == op and kx[0] in ("sz", "f"): sub.val[(kx[0], prm["id"]) + kx[1 + len(op):]] = v
        return sub, back

    def guards(s, n, st):
        """after a call returns normally, its leading argument checks (if (..) throw) were passed"""
        cf = s.P.callee(n)
        if cf is None or not cf.body or n.get("vrt") or cf.key in s._busy or len(s._busy) > 3: return
        top = cf.body.get("c", [])
        k = ("grd", cf.key)
        if k not in s._rs:
            s._rs[k] = any(x.get("k") == "If" and not x.get("else") and s.throws(x["then"]) for x in top) or any(x.get("k") == "Call" and s.P.callee(x) is not None for x in map(strip, top) if x)
        if not s._rs[k]: return
        s._busy = s._busy | {cf.key}; sv = s.collect; s.collect = False
        try:
            sub, back = s.bindcall(cf, n, st)
            for x in top:
                if x.get("k") == "If" and not x.get("else") and s.throws(x["then"]): s.assume(x["cond"], False, sub)
                elif x.get("k") == "Decl" and all(s.isint(s.P.T(v)) for v in x.get("c", []) if v.get("k") == "Var"):
                    for v in x.get("c", []): s.decl(v, sub)
                elif x.get("k") == "Decl" and all(s.P.T(v).startswith("MML::") and not v.get("c") for v in x.get("c", []) if v.get("k") == "Var"): continue
                elif x.get("k") in ("Call", "Bin") or x.get("k") == "Decl":
                    for y in walk(x):
                        if y.get("k") == "Call" and not y.get("op"): s.guards(y, sub)
                    break
                else: break
            # values of operands first seen inside the callee belong to the caller's operands
            s.unbind(sub, back, st)
        finally: s._busy = s._busy - {cf.key}; s.collect = sv

    def unbind(s, sub, back, st):
        for pre_, op in back:
            for kx, v in sub.val.items():
                if kx[0] in ("sz", "f") and kx[1:2] == pre_:
                    ck = (kx[0],) + op + kx[2:]
                    if ck not in st.val:
                        st.val[ck] = v
                        for sy in v:
                            if sy in s.orig: s.orig[sy] = ck

    def throws(s, n):
        k = n.get("k")
        if k == "Throw": return True
        if k == "Block": return bool(n.get("c")) and s.throws(n["c"][-1])
        return False

    def setdims(s, p, k, d, st):
        if d is None: return s.kill(p, st)
        for kx in [x for x in st.val if x[1:1 + len(p)] == p and x[0] in ("sz", "f")]: del st.val[kx]
        for kx in [x for x in st.es if x[0] == "elem" and x[1:1 + len(p)] == p]: del st.es[kx]
        if k == "std": st.val[("sz",) + p] = d[0]
        elif k == "vec": st.val[("sz",) + p + ("_elems",)] = d[0]
        elif k == "mat" and len(d) == 2: st.val[("f",) + p + ("_rows",)] = d[0]; st.val[("f",) + p + ("_cols",)] = d[1]
        elif k == "sym": st.val[("f",) + p + ("_dim",)] = d[0]

    def kill(s, p, st):
        """everything reachable from path p may have changed"""
        for kx in [x for x in st.val if x[0] in ("sz", "f", "call") and x[1:1 + len(p)] == p]: del st.val[kx]
        if len(p) == 1: st.val.pop(("v", p[0]), None)
        for kx in [x for x in st.es if x[0] == "elem" and x[1:1 + len(p)] == p]: del st.es[kx]

    def isint(s, t):
        t = s.base(t)
        return t in ("int", "unsigned int", "long", "unsigned long", "size_t", "short", "unsigned short", "long long", "unsigned long long", "char", "unsigned char", "bool", "std::size_t")

    # ------------------------------------------------------------ integer expressions
    def num(s, n, st):
        n = strip(n)
        if n is None: return None
        while n.get("k") in ("ICast", "Cast") and n.get("c"): n = strip(n["c"][0])
        c = const(n)
        if c is not None and not isinstance(c, float): return lf(c)
        k = n.get("k"); t = s.P.T(n)
        if not s.isint(t) and "enum" not in t: return None
        if k == "Ref" and n.get("dk") in ("local", "parm", "bind", "slocal"): return s.get(st, ("v", n["id"]), "unsigned" in t)
        if k == "Mem" and n.get("dk") == "field":
            p = s.path(n, st)
            return s.get(st, ("f",) + p) if p else None
        if k == "Bin":
            o = n["op"]
            if o in ("+", "-"):
                a, b = s.num(n["c"][0], st), s.num(n["c"][1], st)
                return add(a, b, 1 if o == "+" else -1) if a is not None and b is not None else None
            if o == "*":
                a, b = s.num(n["c"][0], st), s.num(n["c"][1], st)
                if a is None or b is None: return None
                if isconst(a): return mul(b, cval(a))
                if isconst(b): return mul(a, cval(b))
                key = ("prod", tuple(sorted(((str(x), v) for x, v in a.items()))), tuple(sorted(((str(x), v) for x, v in b.items()))))
                if key[1] > key[2]: key = (key[0], key[2], key[1])
                return s.get(st, key)
            if o in ("/", ">>"):
                a, b = s.num(n["c"][0], st), s.num(n["c"][1], st)
                if a is None or b is None or not isconst(b): return None
                d = cval(b) if o == "/" else 2 ** cval(b)
                if d <= 0: return None
                key = ("div", tuple(sorted((str(x), v) for x, v in a.items())), d)
                new = key not in st.val
                q = s.get(st, key)
                if new and s.entails(st, a):        # a >= 0: d*q <= a <= d*q + d-1
                    st.facts.append(add(a, mul(q, d), -1)); st.facts.append(add(add(mul(q, d), lf(d - 1)), a, -1)); st.facts.append(dict(q))
                return q
            if o == "%":
                a, b = s.num(n["c"][0], st), s.num(n["c"][1], st)
                q = {s.fresh("mod"): 1}
                if a is not None and b is not None and s.entails(st, a): st.facts.append(dict(q)); st.facts.append(add(add(b, lf(-1)), q, -1)); st.facts.append(add(a, q, -1))
                return q
            if o == "=": return s.num(n["c"][1], st)
            return None
        if k == "Un":
            if n["op"] == "-":
                a = s.num(n["c"][0], st); return mul(a, -1) if a is not None else None
            if n["op"] in ("++", "--"):
                return s.num(n["c"][0], st)       # effects applied afterwards by the statement walk
            if n["op"] in ("p++", "p--"): return s.num(n["c"][0], st)
            return None
        if k == "Cond":
            a, b = s.num(n["c"][1], st), s.num(n["c"][2], st)
            if a is not None and a == b: return a
            q = {s.fresh("sel"): 1}
            # bounds that hold in both arms
            if a is not None and b is not None:
                sa = st.copy(); s.assume(n["c"][0], True, sa); sb = st.copy(); s.assume(n["c"][0], False, sb)
                for lo, hi in ((a, b), (b, a)):
                    dd = add(hi, lo, -1)
                    if (lo is a and s.entails(sb, dd)) or (lo is b and s.entails(sa, dd)): st.facts.append(add(q, lo, -1))
                    if (hi is a and s.entails(sb, dd)) or (hi is b and s.entails(sa, dd)): st.facts.append(add(hi, q, -1))
            return q
        if k == "Call":
            fn = nt(n.get("fn", "")); last = fn.split("::")[-1]
            c = n.get("c", [])
            if last in ("min", "max") and fn.startswith("std::") and len(c) >= 2:
                a, b = s.num(c[0], st), s.num(c[1], st)
                if a is None or b is None: return None
                q = {s.fresh(last): 1}
                if last == "min":
                    st.facts.append(add(a, q, -1)); st.facts.append(add(b, q, -1))
                    s.common(st, q, a, b, -1)
                else:
                    st.facts.append(add(q, a, -1)); st.facts.append(add(q, b, -1))
                    s.common(st, q, a, b, 1)
                return q
            o = n.get("obj")
            if o is not None:
                ko = s.kind(s.P.T(strip(o))); sd = s.statdims(s.P.T(strip(o)))
                if last in ("size", "length") and not c and ko in ("std", "vec"):
                    d = s.dims(o, st); return d[0] if d else None
                if last in ("size", "dim", "Dim") and not c and sd and len(sd) == 1: return lf(sd[0])
                if last in ("rows", "RowNum", "cols", "ColNum", "GetNumRows", "GetNumCols") and not c and (ko in ("mat", "sym") or sd and len(sd) == 2):
                    d = s.dims(o, st)
                    return d[0 if last in ("rows", "RowNum", "GetNumRows") else 1] if d else None
                cf = s.P.callee(n)
                if cf is not None and not c and cf.body and len(cf.body.get("c", [])) == 1 and cf.body["c"][0].get("k") == "Return" and cf.body["c"][0].get("c") and not n.get("vrt"):
                    p = s.path(o, st)
                    if p is not None:
                        r = s.getter(cf.body["c"][0]["c"][0], p, st)
                        if r is not None: return r
                if n.get("cst") and not c:
                    p = s.path(o, st)
                    if p is not None: return s.get(st, ("call",) + p + (last,), last in ("getDim", "size", "rows", "cols", "dim", "numVertices", "NumPoints"))
                return None
            return None
        if k == "SizeOf": return None
        return None

    def common(s, st, q, a, b, sgn):
        """bounds of min/max on the other side that follow from the facts (constants and zero)"""
        for z in (lf(0), lf(1), lf(2)):
            if sgn < 0 and s.entails(st, add(a, z, -1)) and s.entails(st, add(b, z, -1)): st.facts.append(add(q, z, -1))
        if sgn > 0:
            for hi in (a, b):
                other = b if hi is a else a
                if s.entails(st, add(hi, other, -1)): st.facts.append(add(hi, q, -1))

    def getter(s, r, p, st):
        """value of a getter's return expression with *this bound to path p"""
        r = strip(r)
        while r is not None and r.get("k") in ("ICast", "Cast") and r.get("c"): r = strip(r["c"][0])
        if r is None: return None
        c = const(r)
        if c is not None and not isinstance(c, float): return lf(c)
        k = r.get("k")
        if k == "Mem" and r.get("dk") == "field":
            ch = []; x = r
            while x is not None and x.get("k") == "Mem" and x.get("dk") == "field": ch.append(x["n"]); x = strip(x["c"][0])
            if x is not None and x.get("k") == "This" and s.isint(s.P.T(r)): return s.get(st, ("f",) + p + tuple(reversed(ch)))
            return None
        if k == "Call" and r.get("obj") is not None and not r.get("c"):
            nm = nt(r.get("fn", "")).split("::")[-1]; ch = []; x = strip(r["obj"])
            t = s.P.T(x)
            while x is not None and x.get("k") == "Mem" and x.get("dk") == "field": ch.append(x["n"]); x = strip(x["c"][0])
            if x is None or x.get("k") != "This": return None
            q = p + tuple(reversed(ch)); ko = s.kind(t)
            if nm in ("size", "length") and ko in ("std", "vec"): return s.pdims(q, ko, st)[0]
            if nm in ("rows", "RowNum", "cols", "ColNum") and ko in ("mat", "sym"): return s.pdims(q, ko, st)[0 if nm in ("rows", "RowNum") else 1]
            cf = s.P.callee(r)
            if cf is not None and not r.get("vrt") and cf.body and len(cf.body.get("c", [])) == 1 and cf.body["c"][0].get("k") == "Return" and cf.body["c"][0].get("c"): return s.getter(cf.body["c"][0]["c"][0], q, st)
        if k == "Bin" and r["op"] in ("+", "-"):
            a, b = s.getter(r["c"][0], p, st), s.getter(r["c"][1], p, st)
            return add(a, b, 1 if r["op"] == "+" else -1) if a is not None and b is not None else None
        return None

    # ------------------------------------------------------------ entailment
    def rel(s, facts, seed, hops=4):
        syms = {x for x in seed if x != ONE}; got = set(); out = []
        for _ in range(hops):
            add_ = set()
            for i, f in enumerate(facts):
                if i in got: continue
                fs = [x for x in f if x != ONE]
                if any(x in syms for x in fs):
                    got.add(i); out.append(f); add_ |= set(fs)
            if add_ <= syms: break
            syms |= add_
        return out[:60]

    def entails(s, st, e, extra=()):
        """facts |- e >= 0"""
        if isconst(e): return cval(e) >= 0
        neg = add(lf(-1), e, -1)
        fs = s.rel(list(extra) + st.facts, e)
        return unsat(fs + [neg])

    # ------------------------------------------------------------ conditions
    def assume(s, n, truth, st):
        k0 = len(st.facts); s.assume_(n, truth, st)
        st.conds += st.facts[k0:]

    def opaque(s, n, st):
        """variables a condition outside the linear fragment depends on, other than as subscripts"""
        out = set(); todo = [n]
        while todo:
            x = strip(todo.pop())
            if x is None: continue
            if x.get("k") == "Idx" or x.get("k") == "Call" and x.get("op") in ("[]", "()"):
                todo.append(x["obj"] if x.get("obj") is not None else x["c"][0]); continue
            if x.get("k") == "Ref" and x.get("id"): out.add(x["id"])
            todo += list(children(x))
        st.unk = st.unk | out

    def signconv(s, n):
        """expression of unsigned type obtained by converting a signed integer"""
        t = s.P.T(n) if n is not None else ""
        while n is not None and n.get("k") in ("ICast", "Cast") and n.get("c"):
            n = n["c"][0]
            t0 = s.P.T(n)
            if "unsigned" in t and s.isint(t0) and "unsigned" not in t0 and const(n) is None: return True
            t = t0
        return False

    def assume_(s, n, truth, st):
        n = strip(n)
        if n is None: return
        k = n.get("k")
        if k == "Un" and n["op"] == "!": return s.assume(n["c"][0], not truth, st)
        if k == "Bin":
            o = n["op"]
            if o == "&&":
                if truth: s.assume(n["c"][0], True, st); s.assume(n["c"][1], True, st)
                else: s.opaque(n, st)
                return
            if o == "||":
                if not truth: s.assume(n["c"][0], False, st); s.assume(n["c"][1], False, st)
                else: s.opaque(n, st)
                return
            if o in ("<", "<=", ">", ">=", "==", "!="):
                if not (s.isint(s.P.T(strip(n["c"][0]))) and s.isint(s.P.T(strip(n["c"][1])))): return s.opaque(n, st)
                a, b = s.num(n["c"][0], st), s.num(n["c"][1], st)
                if a is None or b is None: return s.opaque(n, st)
                if not truth: o = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[o]
                if o in ("<", "<=", ">", ">=", "=="):
                    # compared as unsigned: a smaller-or-equal side that was converted from a signed value is not negative
                    sm, bg, bx = (n["c"][0], b, a) if o in ("<", "<=", "==") else (n["c"][1], a, b)
                    if s.signconv(sm) and not isconst(bx) and s.entails(st, bg): st.facts.append(dict(bx))
                d = add(b, a, -1)
                if o == "<": st.facts.append(add(d, lf(-1)))
                elif o == "<=": st.facts.append(d)
                elif o == ">": st.facts.append(add(mul(d, -1), lf(-1)))
                elif o == ">=": st.facts.append(mul(d, -1))
                elif o == "==": st.facts.append(d); st.facts.append(mul(d, -1))
                elif o == "!=":
                    if s.entails(st, d): st.facts.append(add(d, lf(-1)))
                    elif s.entails(st, mul(d, -1)): st.facts.append(add(mul(d, -1), lf(-1)))
                    else: s.opaque(n, st)
                return
        if k == "Ref" and n.get("id") is not None:
            b = st.es.get(("bool", n["id"]))
            if b is not None: s.assume(b, truth, st)
            else: s.opaque(n, st)
            return
        if k == "Call" and not n.get("vrt") and not n.get("op") and len(s._busy) < 3:
            cf = s.P.callee(n)
            if cf is not None and cf.body and len(cf.body.get("c", [])) == 1 and cf.body["c"][0].get("k") == "Return" and cf.body["c"][0].get("c"):
                sub, back = s.bindcall(cf, n, st)
                bz, s._busy = s._busy, s._busy | {cf.key}
                try: s.assume_(cf.body["c"][0]["c"][0], truth, sub)
                finally: s._busy = bz
                s.unbind(sub, back, st); return
        if k == "Call" and n.get("obj") is not None and nt(n.get("fn", "")).split("::")[-1] in ("empty", "isEmpty", "IsEmpty") and not n.get("c"):
            d = s.dims(n["obj"], st)
            if d: st.facts.append(mul(d[0], -1) if truth else add(d[0], lf(-1)))
            return
        s.opaque(n, st)

    def completes(s, n):
        k = n.get("k") if n else None
        if n is None: return True
        if k in ("Return", "Throw", "Break", "Continue", "Goto"): return False
        if k == "Block": return all(s.completes(x) for x in n.get("c", []))
        if k == "If": return n.get("else") is None or s.completes(n["then"]) or s.completes(n["else"])
        if k == "Try": return s.completes(n["body"]) or any(s.completes(h["body"]) for h in n["h"])
        return True

    # ------------------------------------------------------------ effects
    def mayresize(s, n):
        """may call n change the extent of a container passed by non-const reference (any argument)"""
        cf = s.P.callee(n)
        if cf is None:
            nm = nt(n.get("fn", "")).split("::")[-1]
            if n.get("vrt"): return False                    # interface contract: outputs are pre-sized
            return not nm in ("sort", "reverse", "fill", "iota", "transform", "copy", "min_element", "max_element", "accumulate", "get", "distance", "begin", "end", "stable_sort", "partial_sum", "shuffle", "ref", "nth_element", "pow", "abs", "sqrt") and nm != ""
        if n.get("vrt"): return False
        return s.fnresizes(cf)

    def fnresizes(s, cf):
        if cf.key in s._rs: return s._rs[cf.key]
        s._rs[cf.key] = False
        r = False
        if cf.body:
            ids = {p["id"] for p in cf.params if s.P.T(p).strip().endswith("&") and "const " not in s.P.T(p)}
            for x in walk(cf.body):
                if x.get("k") == "Call":
                    nm = "operator=" if x.get("op") == "=" else nt(x.get("fn", "")).split("::")[-1]
                    if x.get("obj") is not None and nm in RESIZERS:
                        o = strip(x["obj"])
                        while o is not None and o.get("k") == "Mem": o = strip(o["c"][0])
                        if o is not None and o.get("id") in ids: r = True; break
                    if not x.get("op"):
                        for a in x.get("c", []):
                            a = strip(a)
                            if a is not None and a.get("k") == "Ref" and a.get("id") in ids and s.mayresize(x): r = True
        s._rs[cf.key] = r
        return r

    def mods(s, n, st):
        """(ints assigned: id -> set of kinds, paths possibly resized/reassigned) inside n"""
        ints = {}; paths = []; s.pk = pk = {}
        for x in walk(n):
            k = x.get("k")
            if k == "Bin" and x["op"] in ("=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>="):
                t = strip(x["c"][0])
                inc = None
                if x["op"] == "+=":
                    c = const(x["c"][1]); inc = "+" if c is not None and not isinstance(c, float) and c >= 0 else None
                elif x["op"] == "-=":
                    c = const(x["c"][1]); inc = "-" if c is not None and not isinstance(c, float) and c >= 0 else None
                if t is not None and t.get("k") == "Ref": ints.setdefault(t.get("id"), set()).add(inc or "=")
                elif t is not None and t.get("k") == "Mem":
                    p = s.path(t, st)
                    if p: paths.append(p); pk.setdefault(p, set()).add(inc or "=")
            elif k == "Un" and x["op"] in ("++", "--", "p++", "p--"):
                t = strip(x["c"][0])
                if t is not None and t.get("k") == "Ref": ints.setdefault(t.get("id"), set()).add("+" if "+" in x["op"] else "-")
                elif t is not None and t.get("k") == "Mem":
                    p = s.path(t, st)
                    if p: paths.append(p); pk.setdefault(p, set()).add("+" if "+" in x["op"] else "-")
            elif k == "Call":
                nm = "operator=" if x.get("op") == "=" else nt(x.get("fn", "")).split("::")[-1]
                if x.get("obj") is not None and nm in RESIZERS:
                    p = s.path(x["obj"], st)
                    if p: paths.append(p)
                elif x.get("obj") is not None and not x.get("cst") and not x.get("op") and not x.get("stc"):
                    p = s.path(x["obj"], st)
                    if p and not s.kind(s.P.T(strip(x["obj"]))) and not s.selfkeeps(x): paths.append(p)
                for a, pt in zip(x.get("c", []), x.get("pt") or []):
                    if s.P.tc[pt].strip().endswith("&") and not s.P.tc[pt].strip().startswith("const ") and not s.P.tc[pt].endswith("&&"):
                        a2 = strip(a)
                        if a2 is None: continue
                        if a2.get("k") == "Ref" and s.isint(s.P.T(a2)): ints.setdefault(a2.get("id"), set()).add("=")
                        elif s.mayresize(x):
                            p = s.path(a2, st)
                            if p: paths.append(p)
            elif k == "Var" and x.get("id"): 
                ints.setdefault(x["id"], set()).add("=")
        return ints, paths

    def selfkeeps(s, x):
        """non-const member call that changes no integer member and no extent of its object"""
        cf = s.P.callee(x)
        if cf is None or not cf.body: return x.get("vrt") is not None
        k = ("self", cf.key)
        if k in s._rs: return s._rs[k]
        s._rs[k] = True; ok = True
        for y in walk(cf.body):
            kk = y.get("k"); t = None
            if kk == "Bin" and y["op"] in ("=", "+=", "-=", "*=", "/=", "%="): t = y["c"][0]
            elif kk == "Un" and y["op"] in ("++", "--", "p++", "p--"): t = y["c"][0]
            elif kk == "Call" and y.get("obj") is not None and ((y.get("op") == "=") or nt(y.get("fn", "")).split("::")[-1] in RESIZERS): t = y["obj"]
            elif kk == "Call" and not y.get("op") and y.get("obj") is not None and strip(y["obj"]).get("k") == "This" and not y.get("cst"):
                if not s.selfkeeps(y): ok = False
            if t is None: continue
            t = strip(t); o = t
            while o is not None and o.get("k") in ("Mem", "Idx") or o is not None and o.get("k") == "Call" and o.get("obj") is not None:
                o = strip(o["c"][0]) if o.get("k") in ("Mem", "Idx") else strip(o["obj"])
            if o is not None and o.get("k") == "This" and (s.isint(s.P.T(t)) or s.kind(s.P.T(t)) or s.P.T(t).startswith("MML")): ok = False
        s._rs[k] = ok
        return ok

    def havoc_for(s, n, st):
        ints, paths = s.mods(n, st)
        for i, ks in ints.items():
            key = ("v", i); old = st.val.get(key)
            if old is None: continue
            q = {s.fresh("v%s" % i): 1}; st.val[key] = q
            if ks == {"+"}: st.facts.append(add(q, old, -1))
            elif ks == {"-"}: st.facts.append(add(old, q, -1))
        mono = {p: (st.val.get(("f",) + p), ks) for p, ks in s.pk.items() if ks in ({"+"}, {"-"}) and ("f",) + p in st.val and paths.count(p) == len([1 for y in paths if y == p[:len(y)]])}
        for p in paths: s.kill(p, st)
        for p, (old, ks) in mono.items():
            q = {s.fresh("f"): 1}; st.val[("f",) + p] = q
            st.facts.append(add(q, old, -1) if ks == {"+"} else add(old, q, -1))
        if ("t",) in paths and not any(p[:1] == ("t",) and len(p) > 1 for p in paths) and s.fn.cls and s.fn.kind != "ctor":
            for b in s.lineage(nt(s.fn.cls)): s.applyinv(b, ("t",), st)       # own member functions keep the invariants
        for i in ints:
            st.es.pop(("bool", i), None); st.es.pop(("alias", i), None)
        return ints

    # ------------------------------------------------------------ expressions with effects (and access collection)
    def expr(s, n, st):
        if n is None: return
        k = n.get("k")
        if k == "Lambda":
            s.lambdas.append((n, st.copy())); return
        if k == "SizeOf": return
        if k == "Bin" and n["op"] in ("&&", "||"):
            s.expr(n["c"][0], st)
            sub = st.copy(); s.assume(n["c"][0], n["op"] == "&&", sub); s.expr(n["c"][1], sub); return
        if k == "Cond":
            s.expr(n["c"][0], st)
            for i, tr in ((1, True), (2, False)):
                sub = st.copy(); s.assume(n["c"][0], tr, sub); s.expr(n["c"][i], sub)
            for m in (n["c"][1], n["c"][2]): s.havoc_for(m, st)
            return
        if k == "Bin" and n["op"] == "=":
            s.expr(n["c"][1], st); s.lhs(n["c"][0], st)
            t = strip(n["c"][0])
            if s.isint(s.P.T(t)):
                v = s.num(n["c"][1], st)
                if v is None: v = {s.fresh("a"): 1}
                if t.get("k") == "Ref": st.val[("v", t["id"])] = v; st.es.pop(("bool", t["id"]), None)
                elif t.get("k") == "Mem":
                    p = s.path(t, st)
                    if p: st.val[("f",) + p] = v
            return
        if k == "Bin" and n["op"] in ("+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "|=", "&=", "^="):
            s.expr(n["c"][1], st); s.lhs(n["c"][0], st)
            t = strip(n["c"][0])
            if s.isint(s.P.T(t)):
                old = s.num(t, st); r = s.num(n["c"][1], st)
                v = None
                if old is not None and r is not None and n["op"] in ("+=", "-="): v = add(old, r, 1 if n["op"] == "+=" else -1)
                if old is not None and r is not None and n["op"] == "*=" and isconst(r): v = mul(old, cval(r))
                if v is None:
                    v = {s.fresh("a"): 1}
                    if old is not None and n["op"] in ("/=", ">>=") and s.entails(st, old): st.facts.append(dict(v)); st.facts.append(add(old, v, -1))
                if t.get("k") == "Ref": st.val[("v", t["id"])] = v
                elif t.get("k") == "Mem":
                    p = s.path(t, st)
                    if p: st.val[("f",) + p] = v
            return
        if k == "Un" and n["op"] in ("++", "--", "p++", "p--"):
            s.lhs(n["c"][0], st); t = strip(n["c"][0])
            old = s.num(t, st)
            if old is not None:
                v = add(old, lf(1 if "+" in n["op"] else -1))
                if t.get("k") == "Ref": st.val[("v", t["id"])] = v
                elif t.get("k") == "Mem":
                    p = s.path(t, st)
                    if p: st.val[("f",) + p] = v
            return
        if k == "Call" and n.get("op") == "=" and n.get("obj") is not None:
            for a in n.get("c", []): s.expr(a, st)
            s.lhs(n["obj"], st)
            p = s.path(n["obj"], st); kk = s.kind(s.P.T(strip(n["obj"])))
            if p is not None:
                if kk: 
                    d = s.exprdims(n["c"][0], st); s.setdims(p, kk, d, st)
                    s.elem(p, n["c"][0], st)
                else: s.kill(p, st) if not s.statdims(s.P.T(strip(n["obj"]))) else None
            return
        if k in ("Idx",) or k == "Call" and n.get("op") in ("[]", "()") and n.get("obj") is not None:
            s.access(n, st); return
        if k == "Call" and n.get("obj") is not None and not n.get("c") and not n.get("op"):
            nm = nt(n.get("fn", "")).split("::")[-1]
            if nm in ("front", "back", "pop_back", "top") and s.kind(s.P.T(strip(n["obj"]))) in ("std", "vec"):
                s.lhs_or(n["obj"], st)
                d = s.dims(n["obj"], st)
                if d: s.check(n, nm, None, d[0], n["obj"], st, 0, lf(0))
        for y in children(n): s.expr(y, st)
        if k == "Call": s.calleffects(n, st)
        if k in ("Call", "Ctor"): s.guards(n, st)
        if k == "Ctor": s.view(n, st)

    def lhs(s, n, st):
        n = strip(n)
        if n is None: return
        if n.get("k") in ("Ref", "This"): return
        s.expr(n, st)

    def context(s, n, st):
        """analyse the body of a called helper under the facts of this call (results go to s.ctx)"""
        cf = s.P.callee(n)
        if cf is None or cf.key not in s.helpers or not s.collect or s.inctx: return
        sub, back = s.bindcall(cf, n, st.copy())
        sub.tight = []; sub.facts = list(sub.facts); sub.conds = []
        acc, s.acc = s.acc, []; fn, lam, ret, brk = s.fn, s.lambdas, s.onret, s.brk
        s.inctx = True; s.lambdas = []; s.onret = None; s.brk = []
        try: s.stmt(cf.body, sub)
        finally: got, s.acc = s.acc, acc; s.lambdas, s.onret, s.brk = lam, ret, brk; s.inctx = False
        seen = {}
        for a in got: seen.setdefault((cf.key, id(a["node"]), a["dim"], a["cont"], a["idx"]), []).append(a["res"] == "proved")
        for k, v in seen.items(): s.ctx.setdefault(k, []).append(all(v))
        s.ctx.setdefault((cf.key,), []).append(True)

    def calleffects(s, n, st):
        if s.helpers: s.context(n, st)
        nm = nt(n.get("fn", "")).split("::")[-1]; o = n.get("obj"); c = [x for x in n.get("c", [])]
        if o is not None and not n.get("op"):
            kk = s.kind(s.P.T(strip(o)))
            if kk and nm in RESIZERS:
                p = s.path(o, st)
                if p is None: return
                if nm == "reserve" or nm == "shrink_to_fit": return
                if nm in ("resize", "Resize", "assign") and c and s.isint(s.P.T(strip(c[0]))):
                    if kk in ("std", "vec"):
                        e = s.num(c[0], st); s.setdims(p, kk, [e] if e is not None else None, st)
                        if len(c) > 1 and s.kind(s.P.T(strip(c[1]))):
                            d = s.exprdims(c[1], st)
                            if d: st.es[("elem",) + p] = tuple(d)
                    elif kk == "mat" and len(c) > 1:
                        a, b = s.num(c[0], st), s.num(c[1], st); s.setdims(p, kk, [a, b] if a is not None and b is not None else None, st)
                    else: s.kill(p, st)
                elif nm in GROW:
                    d = s.pdims(p, kk, st); s.setdims(p, kk, [add(d[0], lf(1))], st)
                elif nm == "pop_back":
                    d = s.pdims(p, kk, st); s.setdims(p, kk, [add(d[0], lf(-1))], st)
                elif nm == "clear": s.setdims(p, kk, [lf(0)] * (1 if kk != "mat" else 2), st)
                else: s.kill(p, st)
            elif not n.get("cst") and not kk:
                p = s.path(o, st)
                if p is not None and not s.selfkeeps(n):
                    s.kill(p, st)
                    if p != ("t",) or s.fn.kind != "ctor":
                        for b in s.lineage(nt(s.base(s.P.T(strip(o))).replace("*", "").strip())): s.applyinv(b, p, st)
        if not n.get("op") or n.get("op") == "()":
            for a, pt in zip(c, n.get("pt") or []):
                tt = s.P.tc[pt].strip()
                if tt.endswith("&") and not tt.startswith("const ") and not tt.endswith("&&"):
                    a2 = strip(a)
                    if a2 is None: continue
                    if s.isint(s.P.T(a2)) and a2.get("k") == "Ref": st.val[("v", a2["id"])] = {s.fresh("out"): 1}
                    elif s.mayresize(n):
                        p = s.path(a2, st)
                        if p is not None: s.kill(p, st)

    def elem(s, p, init, st):
        """uniform element extents of a vector of containers built from (count, value)"""
        x = strip(init)
        if x is not None and x.get("k") == "Ctor" and not x.get("cp"):
            cc = [y for y in x.get("c", []) if y.get("k") != "DefArg"]
            if len(cc) == 2 and s.kind(s.P.T(strip(cc[1]))):
                d = s.exprdims(cc[1], st)
                if d: st.es[("elem",) + p] = tuple(d)

    def access(s, n, st):
        k = n.get("k")
        if k == "Idx": o, ix = n["c"][0], [n["c"][1]]
        else: o, ix = n["obj"], n.get("c", [])
        for i in ix: s.expr(i, st)
        t = s.P.T(strip(o)); so = strip(o)
        # second subscript of a matrix: A[i][j]
        if k == "Idx" and so is not None and so.get("k") == "Call" and so.get("op") == "[]" and so.get("obj") is not None:
            d = s.dims(so["obj"], st)
            if d and len(d) == 2:
                s.lhs_or(o, st); s.check(n, "index", ix[0], d[1], so["obj"], st, 1); return
        if k == "Idx" and so is not None and so.get("k") == "Idx":
            b = so; idxs = [ix[0]]
            while b is not None and b.get("k") == "Idx": idxs.append(b["c"][1]); b = strip(b["c"][0])
            d = s.statdims(s.P.T(b))
            s.lhs_or(o, st)
            if d and len(d) >= len(idxs): s.check(n, "index", ix[0], lf(d[len(idxs) - 1]), b, st, len(idxs) - 1)
            return
        s.lhs_or(o, st)
        if k == "Call" and n["op"] == "()" and not (s.kind(t) in ("mat", "sym") or s.statdims(t)): 
            s.calleffects(n, st); return
        if len(ix) == 1 and so is not None and so.get("k") == "Mem" and s.flat(n, so, ix[0], st): return
        d = s.dims(o, st)
        if d is None: return
        if len(ix) == 1 and len(d) >= 1: s.check(n, "index", ix[0], d[0], o, st, 0)
        elif len(ix) == len(d):
            for j, (i, dd) in enumerate(zip(ix, d)): s.check(n, "index", i, dd, o, st, j)

    def rowmajor(s, ix, st):
        """(row expression, column expression, stride field name) of a row-major flat index i * F + j, also through an index helper"""
        x = strip(ix)
        while x is not None and x.get("k") in ("ICast", "Cast") and x.get("c"): x = strip(x["c"][0])
        if x is None: return None
        if x.get("k") == "Call" and not x.get("op"):
            cf = s.P.callee(x)
            if cf is None or not cf.body or len(cf.body.get("c", [])) != 1 or cf.body["c"][0].get("k") != "Return": return None
            r = s.rowmajor(cf.body["c"][0]["c"][0], st)
            if r is None: return None
            mp = {p["id"]: a for p, a in zip(cf.params, x.get("c", []))}
            out = []
            for y in r[:2]:
                z = strip(y)
                while z is not None and z.get("k") in ("ICast", "Cast") and z.get("c"): z = strip(z["c"][0])
                if z is None or z.get("k") != "Ref" or z.get("id") not in mp: return None
                out.append(mp[z["id"]])
            return out[0], out[1], r[2]
        if x.get("k") == "Bin" and x["op"] == "+":
            for a, b in ((x["c"][0], x["c"][1]), (x["c"][1], x["c"][0])):
                m = strip(a)
                while m is not None and m.get("k") in ("ICast", "Cast") and m.get("c"): m = strip(m["c"][0])
                if m is None or m.get("k") != "Bin" or m["op"] != "*": continue
                for u, v in ((m["c"][0], m["c"][1]), (m["c"][1], m["c"][0])):
                    w = strip(v)
                    while w is not None and w.get("k") in ("ICast", "Cast") and w.get("c"): w = strip(w["c"][0])
                    if w is not None and w.get("k") == "Mem" and w.get("n") == "_cols" and strip(w["c"][0]).get("k") == "This": return u, b, "_cols"
        return None

    def flat(s, n, so, ix, st):
        """_data[i * _cols + j] inside a matrix is the element (i, j)"""
        b = strip(so["c"][0])
        if b is None or b.get("k") != "This" or s.kind(s.P.T(so)) != "std": return False
        r = s.rowmajor(ix, st)
        if r is None: return False
        d = s.dims(b, st, s.P.T(b).replace("*", "").replace("const ", "").strip())
        if not d or len(d) != 2: return False
        s.check(n, "index", r[0], d[0], b, st, 0)
        if const(r[1]) != 0: s.check(n, "index", r[1], d[1], b, st, 1)          # start of a row: only its address is used
        return True

    def view(s, n, st):
        """a view object on &m._data[idx(a, b)] with extents r, c covers the elements a..a+r-1, b..b+c-1"""
        c = n.get("c", [])
        if len(c) < 3 or "View" not in n.get("cls", ""): return
        a = strip(c[0])
        if a is None or a.get("k") != "Un" or a["op"] != "&": return
        e = strip(a["c"][0])
        if e is None: return
        o = e["c"][0] if e.get("k") == "Idx" else e.get("obj"); ix = (e.get("c") or [None])[-1]
        so = strip(o)
        if so is None or so.get("k") != "Mem" or strip(so["c"][0]).get("k") != "This": return
        b = strip(so["c"][0]); r = s.rowmajor(ix, st); d = s.dims(b, st, s.P.T(b).replace("*", "").replace("const ", "").strip())
        if r is None or not d or len(d) != 2: return
        for j in (0, 1):
            x, k = s.num(r[j], st), s.num(c[1 + j], st)
            if x is None or k is None: continue
            s.check(n, show(r[j]) + " + " + show(c[1 + j]) + " - 1", None, d[j], so["c"][0], st, j, e=add(add(x, k), lf(-1)))

    def lhs_or(s, o, st):
        o = strip(o)
        if o is not None and o.get("k") not in ("Ref", "This"): s.expr(o, st)

    def check(s, n, what, i, d, o, st, dim, e=None):
        if not s.collect or st.dead: return
        if e is None: e = s.num(i, st)
        rec = dict(fn=s.fn, l=n.get("l"), cont=show(o), idx=show(i) if i is not None else what, dim=dim, node=n, t=s.P.T(strip(o)))
        if e is None: rec["res"] = "open"; rec["why"] = "index not linear"; s.acc.append(rec); return
        up = add(add(d, lf(-1)), e, -1)
        lo_ok = s.entails(st, e); up_ok = s.entails(st, up)
        rec["lo"] = lo_ok; rec["up"] = up_ok; rec["e"] = e; rec["d"] = d
        if lo_ok and up_ok: rec["res"] = "proved"; s.acc.append(rec); return
        if any(k[0] == "sz" and k[-1] == "_data" for k in st.val):
            k0 = len(st.facts); s.congr(st)
            if len(st.facts) > k0 and s.entails(st, e) and s.entails(st, up): rec["res"] = "proved"; rec["lo"] = rec["up"] = True; s.acc.append(rec); return
        rec["res"] = "open"; rec["st"] = st
        s.same = False; s.weak = False
        if not up_ok: rec["unrel"] = s.unrelated(st, e, d, [t for t in st.tight if t[1]])
        rec["samecont"] = s.same; rec["weak"] = s.weak
        rec["hi"] = e if up_ok else s.extreme(e, st)
        rec["short"] = s.short(st, e, d, up, lo_ok, up_ok)
        # extreme iterations of the enclosing counted loops
        tights = st.tight
        from itertools import product
        live = [x for x in tights if x[1] is not None and any(sy in s.reach(st, e) for sy in x[2][0]) and x[1] not in st.unk]
        opts = [(None,) + x[2] for x in live]
        if tights:
            # only what holds before the outermost loop, how the values were computed, and the extreme iterations count:
            # a condition inside the loops may be false at the extreme point
            drop = {id(f) for f in st.conds[tights[0][0]:]}
            full, st = st, st.copy(); st.facts = [f for f in st.facts if id(f) not in drop]
        else: full = st
        combos = list(product(*[range(len(o_)) for o_ in opts])) if len(opts) <= 4 else []
        for cb in combos or [()]:
            extra = []
            for o_, ci in zip(opts, cb):
                if o_[ci] is not None: extra += [o_[ci], mul(o_[ci], -1)]
            # with an outer loop at its extreme the inner ones must still run there
            used = [x for x, ci in zip(live, cb) if ci]; ex = []; ok = True
            j = 0; own = set()
            for x, ci in zip(live, cb):
                if j and (x[3] is None or not s.entails(st, x[3], ex)): ok = False; break
                own |= x[4]
                if ci: j = 1; ex += [x[2][ci - 1], mul(x[2][ci - 1], -1)]
            if not ok: continue
            if used:
                lv = {sy for x in used for sy in x[2][0] if sy != ONE}
                if not all(id(f) in own or s.entails(st, f, ex) for f in full.conds[tights[0][0]:] if any(sy in lv for sy in f)): continue
            if not up_ok and s.entails(st, add(lf(-1), up, -1), extra) and not s.infeasible(full, extra, e, d): rec["res"] = "refuted"; rec["side"] = "above"; break
            if not lo_ok and s.entails(st, add(lf(-1), e, -1), extra) and not s.infeasible(full, extra, e, d): rec["res"] = "refuted"; rec["side"] = "below"; break
        s.acc.append(rec)

    def extreme(s, e, st):
        """largest value of index e with its loop variables at the end of their ranges"""
        lvar = {}
        for t in st.tight:
            if t[1] is None or len(t[2]) < 2: continue
            c = [x for x in t[2][0] if x != ONE and t[2][0][x] == 1 and x not in s.orig]
            if c: lvar[c[0]] = t[2]
        hb = dict(e)
        for _ in range(4):
            v = [x for x in hb if x in lvar]
            if not v: break
            x = v[0]; k = hb[x]
            b = lvar[x][1] if k > 0 else lvar[x][0]
            hb = add(add(hb, {x: -k}), add(mul(b, -1), {x: 1}), k)
        return hb

    def short(s, st, e, d, up, lo_ok, up_ok):
        """in range as soon as the operand has 1..3 elements, and nothing on the path speaks about how many it has: least number needed"""
        own = {p["id"] for p in s.fn.params} | {"t"}
        ds = [x for x in d if x != ONE]
        if len(ds) != 1 or d[ds[0]] != 1: return None
        k = s.orig.get(ds[0])
        if not k or k[0] not in ("f", "sz", "v") or k[1] not in own: return None
        for f in st.facts:
            if f and ds[0] in f and any(v < 0 for x, v in f.items() if x != ONE or v < 0) and not all(v > 0 for v in f.values()):
                if set(f) <= {ds[0], ONE}: return None
        for c in (1, 2, 3):
            ex = [add(d, lf(-c))]
            if (lo_ok or s.entails(st, e, ex)) and (up_ok or s.entails(st, up, ex)): return c, k[1]
        return None

    def congr(s, st):
        """flat storage of two matrices of equal dimensions has equal length"""
        g = {}
        for key in list(st.val):
            if key[0] == "sz" and key[-1] == "_data":
                p = key[1:-1]
                r = st.val.get(("f",) + p + ("_rows",)); c = st.val.get(("f",) + p + ("_cols",)); d = st.val.get(("f",) + p + ("_dim",))
                if r is not None and c is not None: g[key] = (r, c)
                elif d is not None: g[key] = (d,)
        ks = sorted(g, key=str)
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                if len(g[a]) != len(g[b]): continue
                if all(s.entails(st, add(x, y, -1)) and s.entails(st, add(y, x, -1)) for x, y in zip(g[a], g[b])):
                    d = add(st.val[a], st.val[b], -1)
                    st.facts += [d, mul(d, -1)]

    def unrelated(s, st, e, d, hits):
        """the extent and the bound of the index come from different operands and nothing on the path compares them"""
        def root(sy):
            k = s.orig.get(sy)
            return k[1] if k and k[0] in ("f", "sz", "v") and len(k) > 1 else None
        own = {p["id"] for p in s.fn.params} | {"t"}
        dr = {root(x) for x in d if x != ONE}
        if not dr or not dr <= own: return None
        lvar = {}; down = set()
        for t in hits:
            if len(t[2]) < 2: continue
            c = [x for x in t[2][0] if x != ONE and t[2][0][x] == 1 and x not in s.orig]
            if c: lvar[c[0]] = t[2][1]
            if c and not isconst({x: v for x, v in t[2][0].items() if x != c[0]}): down.add(c[0])
        # largest value of the index in terms of operand extents
        hb = dict(e); seen = set()
        for _ in range(4):
            v = [x for x in hb if x in lvar and hb[x] > 0]
            if not v: break
            x = v[0]; seen.add(x); k = hb[x]
            b = add(mul(lvar[x], -1), {x: 1})            # bound = cur - (cur - bound)
            hb = add(add(hb, {x: -k}), b, k)
        if isconst(hb) or isconst(add(hb, d, -1)):     # first/last element, or a fixed number of elements: some fact must speak about the extent
            ds = {x for x in d if x != ONE}
            if seen & down: return None
            for f in st.facts:
                if f and ds & set(f) and not (len(f) == 1 and all(v > 0 for v in f.values())) and not any(x in f for x in lvar): return None
            return (sorted(map(str, dr)), ["last" if not isconst(hb) else "const" if seen else "first"])
        if not seen: return None
        hs = {x for x in hb if x != ONE and hb[x] > 0}
        if not hs or any(root(x) is None or root(x) not in own for x in hs): return None
        if hs & set(d): return None
        com = set(d)
        facts = [f for f in st.facts if not any(x in f for x in lvar)]
        for f in s.rel(facts, d, 3): com |= set(f)
        if com & hs:
            # the sizes were compared by a leading check that does not make the one large enough for the other
            two = set(d) | hs
            if len(hs) == 1 and len(two - {ONE}) == 2 and not s.entails(st, add(add(d, hb, -1), lf(-1))):
                rf = [f for f in s.rel(facts, {**d, **hb}, 3) if not (len(f) == 1 and all(v > 0 for v in f.values()))]
                if rf and all(set(f) - {ONE} == two - {ONE} for f in rf) and any(id(f) in {id(g) for g in st.conds} for f in rf): s.weak = True; return (sorted(map(str, dr)), sorted({str(root(x)) for x in hs}))
            return None
        ka = {s.orig[x][:-1] for x in list(hs) + [x for x in d if x != ONE] if x in s.orig}; s.same = len(ka) == 1 and all(s.orig[x][-1] in ("_rows", "_cols") for x in list(hs) + list(d) if x in s.orig)
        return (sorted(map(str, dr)), sorted({str(root(x)) for x in hs}))

    def reach(s, st, e): return {x for x in e} | {x for f in s.rel(st.facts, e, 2) for x in f}

    def infeasible(s, st, extra, e, d):
        seed = dict(e); seed.update(d)
        for x in extra: seed.update(x)
        return unsat(s.rel(list(extra) + st.facts, seed))

    # ------------------------------------------------------------ statements
    def stmt(s, n, st):
        if n is None or st.dead: return st
        k = n.get("k")
        if k == "Block":
            for x in n.get("c", []): st = s.stmt(x, st)
            return st
        if k == "Decl":
            for v in n.get("c", []): s.decl(v, st)
            return st
        if k == "If":
            if n.get("init"): st = s.stmt(n["init"], st)
            if n.get("cv_"): s.decl(n["cv_"], st)
            s.expr(n["cond"], st)
            a = st.copy(); s.assume(n["cond"], True, a); b = st.copy(); s.assume(n["cond"], False, b)
            a = s.stmt(n["then"], a)
            if n.get("else"): b = s.stmt(n["else"], b)
            return s.join(a, b, st)
        if k in ("For", "While", "Do"): return s.loop(n, st)
        if k == "RFor":
            s.expr(n["range"], st)
            s.havoc_for(n["body"], st)
            b = st.copy(); s.decl(n["var"], b, rng=True)
            br = s.brk; s.brk = []
            s.stmt(n["body"], b)
            s.brk = br
            s.havoc_for(n["body"], st)
            return st
        if k == "Switch":
            s.expr(n["cond"], st)
            s.havoc_for(n["body"], st)
            cur = st.copy(); cur.dead = False
            br = s.brk; s.brk = []
            for x in n["body"].get("c", []):
                y = x
                while y is not None and y.get("k") in ("Case", "Default"):
                    cur = st.copy()
                    y = y["c"][0]
                cur = s.stmt(y, cur)
            s.brk = br
            return st
        if k in ("Return", "Throw"):
            for c in n.get("c", []): s.expr(c, st)
            if k == "Return" and s.onret: s.onret(st)
            st.dead = True; return st
        if k in ("Break", "Continue", "Goto"):
            if k == "Break": s.brk.append(st.copy())
            st.dead = True; return st
        if k == "Try":
            pre = st.copy()
            a = s.stmt(n["body"], st)
            outs = [a]
            for h in n["h"]:
                hs = pre.copy(); s.havoc_for(n["body"], hs); outs.append(s.stmt(h["body"], hs))
            r = outs[0]
            for o in outs[1:]: r = s.join(r, o, pre)
            return r
        if k in ("Null",): return st
        if k == "Label":
            for c in n.get("c", []): st = s.stmt(c, st)
            return st
        s.expr(n, st)
        return st

    def decl(s, v, st, rng=False):
        if v.get("k") != "Var": return
        if v.get("binds"):
            for c in v.get("c", []): s.expr(c, st)
            return
        c = v.get("c") or []
        t = s.P.T(v)
        if not rng:
            for x in c: s.expr(x, st)
        p = (v["id"],)
        s.kill(p, st)
        if rng: return
        if s.isint(t) and not t.endswith("&"):
            st.val[("v", v["id"])] = (s.num(c[0], st) if c else None) or ({} if c and const(c[0]) == 0 else {s.fresh(v["n"]): 1})
            if "unsigned" in t and isconst(st.val[("v", v["id"])]) is False: st.facts.append(dict(st.val[("v", v["id"])]))
            if c and s.base(t) == "bool": st.es[("bool", v["id"])] = c[0] if s.stable(c[0], st) else None
            return
        if t.strip().endswith("&") and c:
            q = s.path(c[0], st)
            if q is not None: st.es[("alias", v["id"])] = q; return
        k = s.kind(t)
        if k:
            if c:
                x = strip(c[0])
                d = s.exprdims(c[0], st); s.setdims(p, k, d, st); s.elem(p, c[0], st)
            else: s.setdims(p, k, [lf(0)] * (1 if k in ("std", "vec") else 2), st)
            return
        # a copy of an object has its extents
        x = strip(c[0]) if c else None
        q = nt(s.base(t))
        if x is not None and q in s.P.recs:
            if x.get("k") == "Ctor" and len(x.get("c", [])) == 1: x = strip(x["c"][0])
            if x is not None and nt(s.base(s.P.T(x))) == q:
                o = s.path(x, st)
                if o is not None:
                    if q in s.inv and o != ("t",): s.applyinv(q, o, st)
                    for f in s.fieldvals(s.P.recs[q]): s.get(st, (f[0],) + o + f[1:], True)
                    for kx, vv in list(st.val.items()):
                        if kx[0] in ("sz", "f") and kx[1:1 + len(o)] == o: st.val[(kx[0],) + p + kx[1 + len(o):]] = vv
        if x is not None and q in s.P.recs and x.get("k") == "Ctor" and x.get("c") and not x.get("cp"):
            cf = s.P.callee(x)
            if cf is not None: s.ctorcall(cf, x, p, st)
        for b in s.lineage(q): s.applyinv(b, p, st)

    def ctorcall(s, cf, x, p, st):
        """the object at path p has been built by constructor cf: field values of its initialisers, leading argument checks"""
        if cf.key in s._busy or len(s._busy) > 3 or not cf.body: return
        bz, s._busy = s._busy, s._busy | {cf.key}; sv = s.collect; s.collect = False
        try:
            sub, back = s.bindcall(cf, x, st); s.inits(cf, sub)
            for y in cf.body.get("c", []):
                if y.get("k") == "If" and not y.get("else") and s.throws(y["then"]): s.assume(y["cond"], False, sub)
                else: break
            rest = {"k": "Block", "c": [y for y in cf.body.get("c", [])]}
            for q in s.mods(rest, sub)[1]:
                if q[:1] == ("t",): s.kill(q, sub)
        finally: s._busy = bz; s.collect = sv
        for kx, vv in sub.val.items():
            if kx[0] in ("sz", "f") and kx[1:2] == ("t",): st.val[(kx[0],) + p + kx[2:]] = vv
        s.unbind(sub, [b for b in back if b[0] != ("t",)], st)

    def lineage(s, q):
        """record q and its bases that have invariants"""
        if q in s._lin: return s._lin[q]
        out = [q]; r = s.P.recs.get(q)
        for b in (r["bases"] if r else []):
            bq = nt(s.base(s.P.T(b))) if b.get("t") else b.get("q")
            if bq and bq != q: out += s.lineage(bq)
        s._lin[q] = out
        return out

    def stable(s, n, st): return True

    def loop(s, n, st):
        k = n["k"]
        if n.get("init"): st = s.stmt(n["init"], st)
        entry = st.copy()
        lv = None; step = None
        if k == "For" and n.get("inc") is not None:
            inc = strip(n["inc"])
            if inc.get("k") == "Un" and inc["op"] in ("++", "--", "p++", "p--"): lv = strip(inc["c"][0]); step = 1 if "+" in inc["op"] else -1
            elif inc.get("k") == "Bin" and inc["op"] in ("+=", "-="):
                c_ = const(inc["c"][1]); lv = strip(inc["c"][0])
                step = (c_ if inc["op"] == "+=" else -c_) if isinstance(c_, int) else None
        body = {"k": "Block", "c": [x for x in (n.get("body"), n.get("inc"), n.get("cond")) if x is not None]}
        st0 = st.val.get(("v", lv["id"])) if lv is not None and lv.get("k") == "Ref" else None
        bodymods, _ = s.mods({"k": "Block", "c": [x for x in (n.get("body"), n.get("cond")) if x is not None]}, st)
        old = dict(st.val)
        s.havoc_for(body, st)
        s.floorat(n, body, entry, old, st)
        tight = []
        if lv is not None and lv.get("k") == "Ref" and st0 is not None and lv["id"] not in bodymods and step:
            cur = st.val.get(("v", lv["id"]))
            if step > 0: pass        # havoc_for already recorded >= initial for monotone increments
            first = add(cur, st0, -1)
            tight.append(first)
            if abs(step) == 1 and n.get("cond") is not None:
                hb = s.bound(n["cond"], lv["id"], step, st)
                if hb is not None: tight.append(add(cur, hb, -1))
        b = st.copy(); nc = nc1 = len(st.conds)
        if st.tight: nc = st.tight[0][0]
        sv = s.brk; s.brk = []
        if k != "Do" and n.get("cond") is not None:
            s.expr(n["cond"], b); s.assume(n["cond"], True, b)
        b.tight.append((nc, lv["id"] if tight else None, tuple(tight) or ({},), add(tight[0], tight[1], -1) if len(tight) == 2 and step > 0 else add(tight[1], tight[0], -1) if len(tight) == 2 else None, frozenset(id(f) for f in b.conds[nc1:])))
        b = s.stmt(n["body"], b)
        if k == "For" and n.get("inc") is not None and not b.dead:
            s.expr(n["inc"], b)
        if k == "Do" and n.get("cond") is not None and not b.dead: s.expr(n["cond"], b)
        brks = s.brk; s.brk = sv
        out = st.copy()
        if n.get("cond") is not None and not any(x.get("k") == "Bool" and x["v"] for x in [strip(n["cond"])]):
            s.assume(n["cond"], False, out)
        elif not brks: out.dead = True
        for x in brks: 
            out = s.join(out, x, st) if not out.dead else x
        out.tight = list(entry.tight)
        return out

    def floorat(s, n, body, entry, old, st):
        """while (x > c) { .. x--; .. }: x >= c at the loop head once it was on entry"""
        if n.get("cond") is None or n["k"] == "Do": return
        sites = {}
        inner = {id(y) for x in walk(body, False) if x.get("k") in ("For", "While", "Do", "RangeFor") for y in walk(x)}
        for x in walk(body):
            if x.get("k") == "Un" and x["op"] in ("--", "p--"):
                t = strip(x["c"][0])
                key = ("v", t["id"]) if t.get("k") == "Ref" and t.get("id") is not None else (("f",) + s.path(t, st)) if t.get("k") == "Mem" and s.path(t, st) else None
                if key: sites.setdefault(key, []).append(id(x) in inner)
        todo = []
        for key, w in sites.items():
            q = st.val.get(key)
            if w == [False] and q is not None and key in old and old[key] is not q and len(q) == 1: todo.append((key, q))
        if not todo: return
        b = st.copy(); sv = s.collect; s.collect = False
        try: s.assume(n["cond"], True, b)
        finally: s.collect = sv
        for key, q in todo:
            if not any(f == add(old[key], q, -1) for f in st.facts): continue      # only decremented
            for c in (2, 1, 0):
                if s.entails(entry, add(old[key], lf(-c))) and s.entails(b, add(q, lf(-c - 1))): st.facts.append(add(q, lf(-c))); break

    def bound(s, cond, vid, step, st):
        """last value of loop variable vid allowed by the loop condition (unit step)"""
        c = strip(cond)
        if c is None or c.get("k") != "Bin" or c["op"] not in ("<", "<=", ">", ">="): return None
        a, b = strip(c["c"][0]), strip(c["c"][1]); o = c["op"]
        if b is not None and b.get("id") == vid and b.get("k") == "Ref": a, b = b, a; o = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[o]
        if a is None or a.get("k") != "Ref" or a.get("id") != vid: return None
        e = s.num(b, st)
        if e is None: return None
        if step > 0 and o in ("<", "<="): return add(e, lf(-1)) if o == "<" else e
        if step < 0 and o in (">", ">="): return add(e, lf(1)) if o == ">" else e
        return None

    def join(s, a, b, pre):
        if a.dead: b.tight = list(pre.tight); return b
        if b.dead: a.tight = list(pre.tight); return a
        k0 = len(pre.conds)
        r = State(); r.ver = dict(a.ver); r.tight = list(pre.tight); r.conds = list(pre.conds); r.unk = a.unk | b.unk
        fa = {norm(f) for f in a.facts}; fb = {norm(f) for f in b.facts}
        both = fa & fb
        seen = set()
        for f in a.facts:
            t = norm(f)
            if t in both and t not in seen: r.facts.append(f); seen.add(t)
        # facts of one side that hold on the other as well
        for x, y, fx in ((a, b, fb), (b, a, fa)):
            for f in x.facts[len(pre.facts):]:
                t = norm(f)
                if t in seen: continue
                if all(sy == ONE or any(sy in e for e in y.facts) or True for sy in f) and s.entails(y, f): r.facts.append(f); seen.add(t)
        for key in set(a.val) | set(b.val):
            va, vb = a.val.get(key), b.val.get(key)
            if va is None or vb is None:
                continue
            if va == vb: r.val[key] = va
            else:
                q = {s.fresh("phi"): 1}; r.val[key] = q
                d = add(va, vb, -1)
                for lo, hi in ((va, vb), (vb, va)):
                    dd = add(hi, lo, -1)
                    oth = b if hi is vb else a
                    if s.entails(oth, dd): r.facts.append(add(q, lo, -1))
                    oth2 = a if lo is va else b
                    if s.entails(oth2, dd): r.facts.append(add(hi, q, -1))
                for z in (0, 1):
                    if s.entails(a, add(va, lf(-z))) and s.entails(b, add(vb, lf(-z))): r.facts.append(add(q, lf(-z)))
                # upper bounds known for one value that also bound the other
                for x, vx, y, vy in ((a, va, b, vb), (b, vb, a, va)):
                    for f in x.facts:
                        if len(f) <= 4 and any(sy in f and f[sy] < 0 for sy in vx if sy != ONE) and len([sy for sy in vx if sy != ONE]) == 1:
                            sy = [z for z in vx if z != ONE][0]
                            if vx.get(sy) != 1: continue
                            # f: rest - k*sy >= 0 with k = 1
                            if f.get(sy) != -1: continue
                            up = add(add(f, {sy: 1}), lf(cval(vx)))        # vx <= up
                            if s.entails(y, add(up, vy, -1)): r.facts.append(add(up, q, -1))
        for key in a.es:
            if key in b.es and (a.es[key] == b.es[key]): r.es[key] = a.es[key]
        return r

    # ------------------------------------------------------------ entry
    brk = []
    onret = None

    def inits(s, f, st):
        for i in f.get("inits") or []:
            for c in i.get("c") or []:
                s.expr(c, st)
                if i.get("b") is not None or i.get("dele"):
                    x = strip(c); cf = s.P.callee(x) if x is not None and x.get("k") == "Ctor" else None
                    if cf is not None and not x.get("cp"):
                        s.ctorcall(cf, x, ("t",), st)
                        for b in s.lineage(nt(s.base(s.P.T(x)))): s.applyinv(b, ("t",), st)
                if i.get("m"):
                    p = ("t", i["m"]); k = s.kind(s.P.T(strip(c)))
                    if k: s.setdims(p, k, s.exprdims(c, st), st); s.elem(p, c, st)
                    elif s.isint(s.P.T(strip(c))):
                        v = s.num(c, st)
                        if v is not None: st.val[("f",) + p] = v

    def run(s, f):
        s.fn = f; s.lambdas = []; s.brk = []
        st = State()
        for p in f.params:
            if s.isint(s.P.T(p)) and "unsigned" in s.P.T(p): s.get(st, ("v", p["id"]), True)
        if f.cls and f.kind != "ctor":
            for b in s.lineage(nt(f.cls)): s.applyinv(b, ("t",), st)
        for p in f.params:
            for c in s.lineage(nt(s.base(s.P.T(p)).replace("&", "").strip())): s.applyinv(c, (p["id"],), st)
        if f.kind == "ctor":
            s.inits(f, st)
        out = s.stmt(f.body, st)
        if s.onret and not out.dead: s.onret(out)
        done = 0
        while done < len(s.lambdas) and done < 200:
            L, ls = s.lambdas[done]; done += 1
            multi = self_assigned(f.body)
            for i in multi: ls.val.pop(("v", i), None)
            ls.tight = []
            for p in L.get("params", []): s.kill((p["id"],), ls)
            s.onret, sv = None, s.onret
            s.stmt(L["body"], ls)
            s.onret = sv

    # ------------------------------------------------------------ class invariants
    def fieldvals(s, r):
        """invariant candidates of a record: integer members and extents of container members"""
        out = []
        for f in r["fields"]:
            if f.get("pub"): continue
            t = s.P.T(f); b = s.base(t).split("<")[0].split("::")[-1]
            if s.isint(t) and s.base(t) != "bool": out.append(("f", f["n"]))
            elif s.statdims(t): continue
            elif b == "Vector": out.append(("sz", f["n"], "_elems"))
            elif b == "Matrix": out += [("f", f["n"], "_rows"), ("f", f["n"], "_cols")]
            elif b == "MatrixSym": out.append(("f", f["n"], "_dim"))
            elif s.kind(t) == "std" or s.base(t).startswith(("std::vector", "vector<")): out.append(("sz", f["n"]))
        return out

    def infer(s):
        """equalities value(a) = value(b) + c between integer members and extents that every constructor establishes and no
        member function breaks (greatest fixpoint)"""
        s.collect = False; s.inv = {}; dead = {}
        cand = {}
        for cls, fns in s.P.bycls.items():
            c = nt(cls)
            r = s.P.recs.get(c)
            if r is None or r.get("agg") and not any(f.kind == "ctor" for f in fns): continue
            vals = s.fieldvals(r)
            if not vals or len(vals) > 60: continue
            eqs = None
            for f in sorted(fns, key=lambda f: f.key):
                if f.kind != "ctor" or not f.body or any(i.get("dele") for i in f.get("inits") or []) : continue
                if f.params and len(f.params) == 1 and nt(s.base(s.P.T(f.params[0])).replace("&", "").strip()) == c: continue     # copies/moves keep them
                got = None
                def ret(st):
                    nonlocal got
                    v = {x: st.val.get((x[0], "t") + x[1:]) for x in vals}
                    e = set()
                    if eqs is not None or got is not None:
                        src = got if got is not None else eqs
                        if got is not None and eqs is not None: src = got & eqs
                        for a, b, k in src:
                            vb = lf(b) if k == "min" else v[b]
                            if v[a] is None or vb is None: continue
                            if s.holds(st, v[a], vb, k): e.add((a, b, k))
                    else:
                        for i, a in enumerate(vals):
                            tmpl = any(ch.isdigit() for ch in r.get("targs", ""))     # facts about one instance are not facts about the template
                            if v[a] is not None and tmpl and isconst(v[a]): continue
                            if v[a] is not None and not tmpl:
                                for m in (4, 3, 2, 1, 0):
                                    if (m or a[0] == "f" and len(a) == 2) and s.entails(st, add(v[a], lf(-m))): e.add((a, m, "min"))
                            for b in vals[i + 1:]:
                                if v[a] is None or v[b] is None: continue
                                d = add(v[a], v[b], -1)
                                if isconst(d): 
                                    if abs(cval(d)) <= 2: e.add((a, b, cval(d)))
                                    continue
                                for k in (0, 1, -1):
                                    dd = add(d, lf(-k))
                                    if s.entails(st, dd) and s.entails(st, mul(dd, -1)): e.add((a, b, k)); break
                                else:
                                    if a[0] == b[0] == "f" and len(a) == len(b) == 2:
                                        if s.entails(st, d): e.add((a, b, "ge"))
                                        elif s.entails(st, mul(d, -1)): e.add((b, a, "ge"))
                    got = e
                s.onret = ret
                try: s.run(f)
                finally: s.onret = None
                if got is not None: eqs = got
            if eqs: cand[c] = eqs
        for _ in range(6):
            s.inv = {c: sorted(e, key=str) for c, e in cand.items()}; ch = False
            for c in sorted(cand):
                fns = [f for cls, fs in s.P.bycls.items() if c in s.lineage(nt(cls)) for f in fs]
                for f in sorted(fns, key=lambda f: f.key):
                    if f.kind == "ctor" or not f.body or f.get("cst") or f.get("stc"): continue
                    bad = set()
                    def ret(st):
                        for a, b, k in cand[c]:
                            va = st.val.get((a[0], "t") + a[1:]); vb = lf(b) if k == "min" else st.val.get((b[0], "t") + b[1:])
                            if va is None and (vb is None or k == "min") and not any(x[1:2] == ("t",) and x[2:3] in ((a[1],), (b[1],) if k != "min" else ()) for x in touched): continue
                            if va is None or vb is None: bad.add((a, b, k)); continue
                            if not s.holds(st, va, vb, k): bad.add((a, b, k))
                    touched = [("f",) + p for p in s.mods(f.body, State())[1]]
                    if not any(len(x) == 2 or x[2] in {y[1] for e in cand[c] for y in e[:2] if isinstance(y, tuple)} for x in touched if x[1] == "t"): continue
                    s.onret = ret
                    try: s.run(f)
                    finally: s.onret = None
                    if bad:
                        weak = {w for a, b, k in bad if k == 0 for w in ((a, b, "ge"), (b, a, "ge"))} - dead.setdefault(c, set())
                        dead[c] |= bad
                        cand[c] = cand[c] - bad | weak; ch = True
            if not ch: break
        s.inv = {c: sorted(e, key=str) for c, e in cand.items() if e}
        s.collect = True

    def applyinv(s, cls, p, st):
        for a, b, c in s.inv.get(cls, ()):   # value(a) = value(b) + c
            nn = lambda x: x[0] == "sz" or x[-1] in ("_rows", "_cols")
            va = s.get(st, (a[0],) + p + a[1:], nn(a)); vb = lf(b) if c == "min" else s.get(st, (b[0],) + p + b[1:], nn(b))
            s.learn(st, va, vb, c)

    def learn(s, st, a, b, c):
        d = add(add(a, b, -1), lf(0 if c in ("ge", "min") else -c)); st.facts.append(d)
        if c not in ("ge", "min"): st.facts.append(mul(d, -1))

    def holds(s, st, a, b, c):
        d = add(add(a, b, -1), lf(0 if c in ("ge", "min") else -c))
        return s.entails(st, d) and (c in ("ge", "min") or s.entails(st, mul(d, -1)))


def self_assigned(body, _c={}):
    if id(body) in _c: return _c[id(body)]
    out = set()
    for x in walk(body):
        t = None
        if x.get("k") == "Bin" and x["op"] in ("=", "+=", "-=", "*=", "/="): t = strip(x["c"][0])
        elif x.get("k") == "Un" and x["op"] in ("++", "--", "p++", "p--"): t = strip(x["c"][0])
        if t is not None and t.get("k") == "Ref": out.add(t.get("id"))
    _c[id(body)] = out
    return out
