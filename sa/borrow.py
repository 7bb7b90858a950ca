"""Borrow (points-to-storage) analysis: which storage each value may refer to, with per-function summaries.

Roots
  ("R", i)      the storage reference/pointer parameter i designates      ("V", i)  whatever the value of parameter i itself refers to
  ("TH",)       heap storage owned by *this (follows a move, not a copy)
  ("T",)        the storage of *this                                      ("TV",)   whatever the value of *this refers to
  ("L", id, n)  a local variable or by-value parameter of the function    ("X", l)  a temporary that dies with its full expression
Values of types that cannot hold a reference (numbers, strings, vectors of numbers, ...) have no roots.
Assignments accumulate (flow-insensitive), so the sets over-approximate."""
import re
from .core import *

HOLD = ("(lambda", "std::function<", "_iterator", "string_view", "std::span<", "reference_wrapper<", "std::thread", "initializer_list<", "std::_Bind")
SELFREF = {"operator[]", "at", "front", "back", "begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "c_str", "value", "get", "find", "lower_bound", "upper_bound",
           "operator*", "operator->", "first", "second", "top", "emplace_back", "emplace", "insert", "operator=", "operator+=", "operator<<", "operator>>", "append", "push_back", "erase", "str_view", "operator++", "operator--",
           "operator basic_string_view"}
ARGREF = {"std::move", "std::forward", "std::min", "std::max", "std::clamp", "std::get", "std::as_const", "std::ref", "std::cref", "std::addressof", "std::next", "std::prev", "std::begin", "std::end", "std::any_cast"}
PUT = {"push_back", "emplace_back", "insert", "emplace", "assign", "operator=", "push", "reset", "push_front", "swap"}
E0 = frozenset()
HEAP = tuple(p + x for p in ("", "std::") for x in ("vector<", "deque<", "list<", "map<", "unordered_map<", "set<", "unordered_set<", "unique_ptr<", "shared_ptr<", "queue<", "stack<", "priority_queue<"))


def heap(rs): return frozenset(("TH",) if r == ("T",) else r for r in rs)


class Borrow:
    def __init__(s, P):
        s.P = P; s._c = {}; s.sum = {}; s.via = {}
        s.rec_hold = set()
        while True:
            n = len(s.rec_hold); s._c = {}
            for r in P.recs.values():
                q = nt(r["q"])
                if q in s.rec_hold: continue
                fs = r.get("fields", [])
                if any(f.get("ref") or s.holds(P.T(f)) for f in fs) or any(nt(b.get("q") or "") in s.rec_hold for b in r.get("bases", [])): s.rec_hold.add(q)
            if len(s.rec_hold) == n: break
        s._c = {}
        s.fields = {}
        for r in P.recs.values():
            s.fields.setdefault(nt(r["q"]), {}).update({f["n"]: f for f in r.get("fields", [])})
        s.solve()

    # ---- which types can hold a borrow
    def holds(s, t):
        if t in s._c: return s._c[t]
        x = t.replace("const ", "").strip()
        s._c[t] = False
        if x.endswith("&"): r = True
        elif re.fullmatch(r"char\s*(const)?\s*\*(const)?", x): r = True
        else:
            r = "*" in re.sub(r"\([*&]\)\([^)]*\)", "", x) or any(h in x for h in HOLD)
            if not r:
                for w in re.findall(r"[A-Za-z_][\w:]*", x):
                    if w in s.rec_hold: r = True; break
        s._c[t] = r
        return r

    # ---- summaries: dict(ret=roots, put={dest: roots})
    def solve(s):
        work = list(s.P.fns)
        deps = {}
        order = {k: i for i, k in enumerate(work)}
        pend = dict.fromkeys(work); n = 0
        while pend:
            k = next(iter(pend)); pend.pop(k); n += 1
            if n > 200000: raise Broken("borrow: no fixpoint")
            f = s.P.fns[k]
            a = Fun(s, f); new = a.run()
            for c in a.calls: deps.setdefault(c, set()).add(k)
            if new != s.sum.get(k):
                s.sum[k] = new
                for d in deps.get(k, ()): pend[d] = None

    def of(s, k): return s.sum.get(k)


class Fun:
    """one function (lambda bodies included): environments of locals, returned roots, stores into parameters and *this"""
    def __init__(s, B, f):
        s.B = B; s.P = B.P; s.f = f; s.env = {}; s.put = {}; s.ret = set(); s.calls = set(); s.lret = []; s.rets = []; s.vars = []; s.puts = []
        s.par = {p["id"]: i for i, p in enumerate(f.params)}; s.rng = []
        s.isref = {}; s.names = {}
        for p in f.params: s.names[p["id"]] = p["n"]

    def run(s):
        f = s.f
        P = s.P
        bodies = []
        for _ in range(6):
            before = (sum(len(v) for v in s.env.values()), sum(len(v) for v in s.put.values()))
            s.memo = {}; s.ret = set(); s.rets = []; s.vars = []; s.puts = []; s.lret = []; s.rng = []
            for i in f.get("inits") or []: s.init(i)
            if f.body: s.stmt(f.body, f.get("ret"), None)
            if before == (sum(len(v) for v in s.env.values()), sum(len(v) for v in s.put.values())): break
        return (frozenset(s.ret), tuple(sorted((k, tuple(sorted(v, key=str))) for k, v in s.put.items())))

    # ---- environment
    def is_ref_par(s, i):
        t = s.P.T(s.f.params[i]); return t.endswith("&") or t.endswith("&&")

    def store_of(s, n):
        """storage a variable reference designates"""
        i = n["id"]
        if i in s.par:
            k = s.par[i]
            return frozenset([("R", k)]) if s.is_ref_par(k) else frozenset([("L", i, n["n"])])
        if s.isref.get(i): return frozenset(s.env.get(i, E0))
        if n.get("dk") in ("global", "slocal"): return frozenset([("G", n.get("q") or n["n"])])
        if n.get("dk") in ("local", "parm", "bind"): return frozenset([("L", i, n["n"])])
        return E0

    def content(s, r):
        if r[0] == "R": return frozenset([("V", r[1])]) if s.B.holds(s.P.T(s.f.params[r[1]]).rstrip("&").strip()) else E0
        if r[0] in ("T", "TH"): return frozenset([("TV",)])
        if r[0] == "L":
            k = s.par.get(r[1])
            if k is not None: return frozenset([("V", k)]) | frozenset(s.env.get(r[1], E0)) if s.B.holds(s.P.T(s.f.params[k])) else frozenset(s.env.get(r[1], E0))
            return frozenset(s.env.get(r[1], E0))
        return frozenset([r]) if r[0] in ("V", "TV") else E0

    def contents(s, rs):
        o = set()
        for r in rs: o |= s.content(r)
        return frozenset(o)

    def store(s, dests, vals, n, what=""):
        """a value with roots vals is stored inside the storage dests"""
        if not vals: return
        for d in dests:
            if d[0] == "L" and d[1] not in s.par: s.env.setdefault(d[1], set()).update(vals)
            elif d[0] == "L": s.env.setdefault(d[1], set()).update(vals)
            elif d[0] == "TH": d = ("T",)
            if d[0] in ("R", "T", "G", "V", "TV"):
                s.put.setdefault(d, set()).update(vals); s.puts.append((d, vals, n, what))

    def init(s, i):
        x = (i.get("c") or [None])[0]
        if x is None: return
        if "m" in i:
            f = s.B.fields.get(nt(s.f.cls or ""), {}).get(i["m"])
            if f is None: return
            ref = f.get("ref") or s.P.T(f).endswith("&")
            v = s.lv(x) if ref else s.val(x)
            if not (ref or s.B.holds(s.P.T(f))): v = E0
            s.store({("T",)}, v, x, i["m"])
        else:                                                      # base or delegating initialiser: its stores into *this
            v = s.val(x)
            s.store({("T",)}, v, x, "base")

    # ---- statements
    def stmt(s, n, rt, lam):
        if n is None: return
        k = n.get("k")
        if k == "Var": return s.var(n)
        if k == "Decl":
            for v in n["c"]: s.var(v)
            return
        if k == "Return":
            if n.get("c"):
                x = n["c"][0]; t = s.P.T(rt) if rt is not None else s.P.T(x)
                v = s.lv(x) if t.endswith("&") else (s.val(x) if s.B.holds(t) else s.val(x) and E0)
                if lam is None: s.ret |= v; s.rets.append((n, v))
                else: s.lret.append((n, v, lam)); lam["_r"] = lam.get("_r", E0) | v
            return
        if k == "RFor":
            r = n["range"]; s.rng.append((n, s.lv(r), r))
            v = n["var"]; vr = s.P.T(v).endswith("&")
            if vr: s.isref[v["id"]] = 1; s.env.setdefault(v["id"], set()).update(x for x in s.lv(r) if x[0] != "X")
            elif s.B.holds(s.P.T(v)): s.env.setdefault(v["id"], set()).update(s.val(r) | (s.contents(s.lv(r))))
            return s.stmt(n.get("body"), rt, lam)
        if k in ("Block", "If", "For", "While", "Do", "Switch", "Case", "Default", "Try", "Catch", "Label"):
            for c in children(n): s.stmt(c, rt, lam)
            return
        s.val(n)

    def var(s, v):
        P = s.P; t = P.T(v); s.names[v["id"]] = v["n"]
        if v.get("static"):
            if v.get("c"): s.val(v["c"][0])
            return
        if v.get("binds"):
            for b in v["binds"]: s.isref[b["id"]] = 1
        if not v.get("c"): return
        x = v["c"][0]
        if t.endswith("&"):
            s.isref[v["id"]] = 1
            r = s.lv(x, ext=True)
            s.vars.append((v, r)); s.env.setdefault(v["id"], set()).update(r)
            s.val(x)
            if x.get("mt") or v.get("mt"):
                s.isref[v["id"]] = 0; s.env[v["id"]] = set(s.val(x))
        else:
            r = s.val(x)
            if not s.B.holds(t): r = E0
            s.vars.append((v, r)); s.env.setdefault(v["id"], set()).update(r)
        for b in v.get("binds") or []: s.env.setdefault(b["id"], set()).update(r)

    # ---- storage an lvalue designates
    def lv(s, n, ext=False):
        if n is None: return E0
        k = (id(n), 1, ext)
        if k not in s.memo: s.memo[k] = s._lv(n, ext)
        return s.memo[k]

    def _lv(s, n, ext):
        if n.get("mt") and not (ext or n.get("mt") == 2):
            if n.get("k") not in ("Lambda",) and not n.get("c") and not n.get("obj") and n.get("k") in ("Int", "Float", "Bool", "Null"): return frozenset([("X", n["l"])])
            s.val(n); return frozenset([("X", n["l"])])
        k = n.get("k"); c = n.get("c", [])
        if k in ("ICast", "DefArg", "DefInit", "Cast"): return s.lv(c[0]) if c else E0
        if k == "Ref": return s.store_of(n) if "id" in n else E0
        if k == "This": return frozenset([("T",)])
        if k == "Mem":
            if not c: return E0
            if n.get("dk") not in ("field", None): return E0
            f = s.B.fields.get(nt(n.get("own") or ""), {}).get(n["n"])
            isr = f is not None and (f.get("ref") or s.P.T(f).endswith("&"))
            b = (s.val(c[0]) if n.get("arrow") and c[0].get("k") != "This" else s.lv(c[0]) if c[0].get("k") != "This" else frozenset([("T",)]))
            return s.contents(b) if isr else b
        if k == "Idx": return (s.lv(c[0]) if "[" in s.P.T(c[0]) else s.val(c[0]))
        if k == "Un" and n["op"] == "*":
            return frozenset([("T",)]) if c[0].get("k") == "This" else s.val(c[0])
        if k == "Un": return s.lv(c[0])
        if k == "Cond": s.val(c[0]); return s.lv(c[1]) | s.lv(c[2])
        if k == "Bin":
            if n["op"] == ",": s.val(c[0]); return s.lv(c[1])
            s.val(n)
            return s.lv(c[0]) if n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") else E0
        if k == "Call": return s.call(n, True)
        if k == "Ctor" and n.get("cp") and c: return s.lv(c[0])
        if k == "InitList" and len(c) == 1: return s.lv(c[0])
        s.val(n)
        return E0

    # ---- roots of a value
    def val(s, n):
        if n is None: return E0
        k = (id(n), 0)
        if k not in s.memo: s.memo[k] = s._val(n)
        return s.memo[k]

    def _val(s, n):
        k = n.get("k"); c = n.get("c", [])
        if k in ("Int", "Float", "Bool", "Str", "Char", "Null"): return E0
        if k == "Lambda": return s.lam(n)
        if k == "Call": return s.call(n, False)
        if k == "Ctor": return s.ctor(n)
        if k == "This": return frozenset([("T",)])
        if k == "Un" and n["op"] == "&": return s.lv(c[0])
        if k == "Un" and n["op"] == "*": return s.contents(s.lv(n)) if s.B.holds(s.P.T(n)) else s.val(c[0]) and E0
        if k == "Bin":
            op = n["op"]
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                r = s.val(c[1]); d = s.lv(c[0])
                if op == "=" and s.B.holds(s.P.T(c[0])):
                    l = c[0]
                    if l.get("k") == "Ref" and not s.isref.get(l.get("id")): s.store(d, r, n)
                    else: s.store(d, r, n, l.get("n", ""))
                return r
            a = s.val(c[0]); b = s.val(c[1])
            return (b if op == "," else a | b) if s.B.holds(s.P.T(n)) else E0
        if k == "Cond": s.val(c[0]); return s.val(c[1]) | s.val(c[2])
        if k in ("InitList",):
            o = set()
            for x in c:
                if x is None: continue
                o |= s.val(x)
                if x.get("mt"): o |= s.lv(x)
            # aggregates with reference members
            r = s.P.recs.get(nt(s.P.T(n).replace("const ", "")))
            if r:
                for f, x in zip(r.get("fields", []), c):
                    if x is not None and (f.get("ref") or s.P.T(f).endswith("&")): o |= s.lv(x)
            return frozenset(o) if s.B.holds(s.P.T(n)) else E0
        if k in ("Ref", "Mem", "Idx"):
            t = s.P.T(n)
            if k == "Ref" and "id" not in n: return E0
            if "[" in t and k != "Ref": return s.lv(n)
            if k == "Ref" and re.search(r"\[\d*\]$", t): return s.lv(n)
            r = s.lv(n)
            return s.contents(r) if s.B.holds(t) else E0
        if k in ("ICast", "DefArg", "DefInit", "Cast"):
            return s.val(c[0]) if c else E0
        o = set()
        for x in children(n):
            o |= s.val(x)
        return frozenset(o) if k in ("New", "Other", "Throw") else E0

    def lam(s, n):
        o = set()
        ci = n.get("ci") or []
        for j, q in enumerate(n.get("caps", [])):
            if q["n"] == "this":
                if q.get("ref"): o.add(("T",))
                else: o.add(("TV",))
            elif q.get("ref"):
                o |= s.store_of({"id": q["id"], "n": q["n"], "dk": "local"}) if q.get("id") is not None else E0
            else:
                if j < len(ci) and ci[j] is not None: o |= s.val(ci[j])
                o |= s.content(("L", q["id"], q["n"])) if q["id"] not in s.par and not s.isref.get(q["id"]) else s.contents(s.store_of({"id": q["id"], "n": q["n"], "dk": "local"}))
        if not n.get("_b"):
            for p in n.get("params", []): s.names[p["id"]] = p["n"]
        # parameters of the lambda: references refer outward (unknown storage), values are the lambda's locals
        for p in n.get("params", []):
            if s.P.T(p).endswith("&"): s.isref[p["id"]] = 1
        lam = {"n": n}
        s.stmt(n.get("body"), None, lam)
        return frozenset(o)

    def args(s, n, f):
        """per parameter: (storage roots, value roots)"""
        out = []
        for i, a in enumerate(n.get("c", [])):
            if a is None: out.append((E0, E0)); continue
            v = s.val(a); l = s.lv(a)
            out.append((l, v))
        return out

    def subst(s, roots, a, obj):
        o = set()
        for r in roots:
            if r[0] == "R":
                if r[1] < len(a): o |= a[r[1]][0]
            elif r[0] == "V":
                if r[1] < len(a): o |= a[r[1]][1] | s.contents(a[r[1]][0])
            elif r[0] == "T": o |= obj[0]
            elif r[0] == "TH": o |= heap(obj[0])
            elif r[0] == "TV": o |= obj[1]
        return frozenset(o)

    def call(s, n, want_lv):
        P = s.P; f = P.callee(n); ob = n.get("obj"); fn = n.get("fn") or ""; short = fn.split("::")[-1] if fn else ""
        if fn and "operator" in fn: short = fn[fn.rindex("operator"):]
        olv, ov = E0, E0
        if ob is not None:
            ot = P.T(ob)
            if ot.rstrip().endswith("*") and ob.get("k") != "This": olv = s.val(ob); ov = s.contents(olv)
            elif ob.get("k") == "This": olv = frozenset([("T",)]); ov = frozenset([("TV",)])
            else: olv = s.lv(ob); ov = s.val(ob) | s.contents(olv)
        a = s.args(n, f)
        if n.get("callee") is not None: s.val(n["callee"])
        hold = s.B.holds(P.T(n))
        if f is not None:
            s.calls.add(f.key)
            sm = s.B.of(f.key)
            if sm is None: return E0
            for d, vs in sm[1]:
                dd = s.subst([d], a, (olv, ov)); s.store(dd, s.subst(vs, a, (olv, ov)), n, short)
            r = s.subst(sm[0], a, (olv, ov))
            retref = P.T(f.get("ret")).endswith("&")
            if retref: return r if want_lv else (s.contents(r) if hold else E0)
            return E0 if want_lv else (r if hold else E0)
        # outside the repository
        if ob is not None and short in PUT and s.B.holds(P.T(ob)):
            vs = set()
            for l, v in a: vs |= v
            s.store(olv, frozenset(vs), n, short)
        if not fn and n.get("callee") is None: return E0
        if fn in ARGREF or fn.split("<")[0] in ARGREF:
            if fn in ("std::ref", "std::cref", "std::addressof", "std::begin", "std::end"):
                return a[0][0] if a else E0
            o = set()
            for l, v in a: o |= l if want_lv else (v if not fn.startswith(("std::next", "std::prev")) else v)
            return frozenset(o) if (want_lv or hold) else E0
        if ob is not None:
            ot = P.T(ob)
            ptrish = ot.replace("const ", "").startswith(("std::unique_ptr<", "std::shared_ptr<", "unique_ptr<", "shared_ptr<")) or "_iterator" in ot or ot.rstrip().endswith("*")
            if ot.replace("const ", "").startswith(HEAP) or ptrish: olv = heap(olv)
            if short in SELFREF or short.startswith("operator"):
                if want_lv: return ov if ptrish else olv
                if short in ("operator[]", "at", "front", "back", "top", "operator*", "value"): return ov if hold else E0
                if short in ("operator()",): return E0
                if ptrish and short in ("get", "operator->"): return ov
                return (olv | ov) if hold else E0
            if want_lv: return olv
            return (olv | ov) if hold else E0
        if want_lv:
            return a[0][0] if a and fn.startswith("std::") and short.startswith(("operator<<", "operator>>", "getline")) else E0
        if hold:
            o = set()
            for l, v in a: o |= v
            return frozenset(o)
        return E0

    def ctor(s, n):
        P = s.P; f = P.callee(n); c = n.get("c", [])
        if n.get("cp") and len(c) == 1 and (f is None or f.get("dft")):
            return s.val(c[0]) | (s.contents(s.lv(c[0])) if s.B.holds(P.T(n)) else E0)
        a = s.args(n, f)
        if f is not None:
            s.calls.add(f.key); sm = s.B.of(f.key)
            if sm is None: return E0
            o = set()
            for d, vs in sm[1]:
                if d == ("T",): o |= s.subst([v for v in vs if v[0] not in ("T", "TV", "TH")], a, (E0, E0))
                else: s.store(s.subst([d], a, (E0, E0)), s.subst(vs, a, (E0, E0)), n, "constructor")
            return frozenset(o) if s.B.holds(P.T(n)) else E0
        if not s.B.holds(P.T(n)): return E0
        o = set(); cls = n.get("cls") or ""
        for l, v in a:
            o |= v
            if any(x in cls for x in ("string_view", "span", "reference_wrapper")): o |= l
        return frozenset(o)


_b = None


def borrow():
    global _b
    if _b is None: _b = Borrow(program())
    return _b
