"""C16 in-place operations give the same result when an argument is the object itself or a part of it.

For every mutating method (and every free compound operator) with a const-reference parameter that may designate the object itself (same class)
or something stored inside it (a type the object holds and hands out references to), the writes into the object and the reads through the
parameter are enumerated in evaluation order, calls on either of them inlined, and each (write, later read) pair is judged:
a read through the parameter of a place an earlier write may have changed is a hazard."""
import re
from .core import *
from .borrow import HEAP

GROW = {"push_back", "emplace_back", "insert", "emplace", "erase", "pop_back", "clear", "resize", "assign", "reserve", "swap", "shrink_to_fit", "push", "pop", "push_front", "pop_front", "append"}
SHAPE = {"size", "empty", "capacity", "max_size", "length"}
ITER = {"begin", "end", "data", "cbegin", "cend", "rbegin", "rend", "c_str"}
ELEMF = {"operator[]", "at", "front", "back", "operator()", "top", "get", "value"}
OUTA = {"fill": "all", "fill_n": "all", "generate": "all", "for_each": "all", "sort": "all", "reverse": "all", "rotate": "all", "iota": "all", "replace": "all", "copy": "last", "transform": "tr", "copy_n": "last", "swap": "all",
        "swap_ranges": "all", "iter_swap": "all", "remove": "all", "remove_if": "all", "unique": "all", "exchange": "first", "memcpy": "first", "memmove": "first", "memset": "first", "move": "last3", "partial_sum": "last", "copy_backward": "last"}
ASG = {"=", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "<<=", ">>="}
MAXD = 6


def base(t):
    t = t.strip()
    while t.endswith("&"): t = t[:-1].strip()
    if t.startswith("const "): t = t[6:]
    if t.endswith(" const"): t = t[:-6]
    return t.strip()


class Holds:
    """which types may contain an object of which type"""
    def __init__(s, P):
        s.P = P; s.rec = {}; s.m = {}
        for r in P.recs.values(): s.rec.setdefault(r["q"], r); s.rec.setdefault(nt(r["q"]), r)

    def has(s, T, B, d=0):
        T = base(T)
        if T == B: return True
        k = (T, B)
        if k in s.m: return s.m[k]
        s.m[k] = False
        if d > 6: return False
        r = False
        m = re.match(r"(.*)\[\d*\]$", T)
        if m: r = s.has(m.group(1), B, d + 1)
        elif "*" in T or "function<" in T: r = False
        elif "<" in T:
            a = T[T.index("<") + 1:T.rindex(">")]
            r = any(s.has(x, B, d + 1) for x in targs(a))
        if not r:
            c = s.rec.get(T) or s.rec.get(nt(T)) or s.rec.get("MML::" + nt(T))
            if c is not None:
                r = any(s.has(s.P.T(f), B, d + 1) for f in c.get("fields", []) if not f.get("ref")) or any(s.has(b.get("q") or "", B, d + 1) for b in c.get("bases", []))
        s.m[k] = r
        return r


def targs(a):
    o = []; d = 0; cur = ""
    for ch in a:
        if ch in "<(": d += 1
        elif ch in ">)": d -= 1
        if ch == "," and d == 0: o.append(cur.strip()); cur = ""
        else: cur += ch
    o.append(cur.strip())
    return [x for x in o if x]


class Ev:
    __slots__ = ("pos", "w", "path", "how", "loops", "br", "node", "ty", "rhs", "na", "fn")


class Walk:
    def __init__(s, P, H, f, selfpar=None):
        s.P = P; s.H = H; s.f = f; s.ev = []; s.pos = 0; s.loops = (); s.br = (); s.na = frozenset(); s.bad = []; s.stack = []; s.lams = {}; s.vals = {}
        env = {"this": ("this", (), None)}
        for i, p in enumerate(f.params):
            t = s.P.T(p)
            if i == selfpar: env[p["id"]] = ("this", (), None)
            elif t.endswith("&") and not t.endswith("&&"): env[p["id"]] = ("p%d" % i, (), None)
        s.cur = f
        s.stm(f.body, env)

    # ---------------- texts
    def txt(s, n, env, d=0):
        if n is None or d > 30: return "?"
        n = strip(n); k = n.get("k"); c = n.get("c", [])
        if "cv" in n: return str(n["cv"])
        if k == "Int": return str(n.get("v", n.get("val", "i%s" % n.get("l"))))
        if k == "This": return "@" if env.get("this") else "this"
        if k == "Ref":
            i = n.get("id")
            v = env.get(i)
            if isinstance(v, str): return v
            if isinstance(v, tuple): return "@" + "".join("." + x for x in v[1]) + ("" if v[2] is None else "[" + v[2] + "]")
            return "%s#%s" % (n["n"], i)
        if k == "Mem": return (s.txt(c[0], env, d + 1) if c else "@") + "." + n["n"]
        if k == "Call" or k == "Ctor":
            g = s.P.callee(n)
            if g is not None and g.body and d < 12:
                r = single(g)
                if r is not None:
                    e2 = {}
                    if n.get("obj") is not None: e2["this"] = s.lv(n["obj"], env)
                    for p, a in zip(g.params, n.get("c", [])): e2[p["id"]] = s.txt(a, env, d + 1)
                    if n.get("obj") is None or e2["this"] is not None: return s.txt(r, e2, d + 1)
            return "%s(%s)" % ((n.get("fn") or "?").split("::")[-1], ",".join(([s.txt(n["obj"], env, d + 1)] if n.get("obj") is not None else []) + [s.txt(x, env, d + 1) for x in c]))
        return "(%s %s)" % (n.get("op", k), ",".join(s.txt(x, env, d + 1) for x in children(n)))

    # ---------------- places
    def lv(s, n, env, d=0):
        """(object, field path, index text) an expression designates; None when it is neither the object nor the parameter"""
        if n is None or d > 40: return None
        k = n.get("k"); c = n.get("c", [])
        if k in ("ICast", "Cast", "DefArg", "DefInit"):
            return s.lv(c[0], env, d + 1) if c else None
        if k == "Ref":
            v = env.get(n.get("id"))
            return v if isinstance(v, tuple) else None
        if k == "This": return env.get("this")
        if k == "Mem":
            b = s.lv(c[0], env, d + 1) if c else env.get("this")
            return None if b is None else (b[0], b[1] + (n["n"],), b[2])
        if k == "Idx":
            b = s.lv(c[0], env, d + 1)
            return None if b is None else idx(b, s.txt(c[1], env))
        if k == "Un" and n["op"] in ("*", "&"):
            return s.lv(c[0], env, d + 1)
        if k == "Un": return s.lv(c[0], env, d + 1)
        if k == "Bin" and n["op"] in ("+", "-") and c:
            b = s.lv(c[0], env, d + 1)
            return None if b is None or "*" not in s.P.T(n) and "iterator" not in s.P.T(n) else idx(b, s.txt(c[1], env))
        if k == "Bin" and n["op"] == ",": return s.lv(c[1], env, d + 1)
        if k == "Bin" and n["op"] in ASG: return s.lv(c[0], env, d + 1)
        if k == "Cond":
            a, b = s.lv(c[1], env, d + 1), s.lv(c[2], env, d + 1)
            return a if a == b else (a and (a[0], (), None)) or (b and (b[0], (), None))
        if k == "Call":
            fn = last(n); o = n.get("obj")
            g = s.P.callee(n); t = s.P.T(n)
            if g is not None and g.body and (refret(s.P, g)):
                e2 = s.bind(g, n, env)
                rs = [x["c"][0] for x in walk(g.body, False) if x.get("k") == "Return" and x.get("c")]
                out = [s.lv(r, e2, d + 1) for r in rs]
                if out and all(x == out[0] for x in out): return out[0]
                out = [x for x in out if x is not None]
                return (out[0][0], (), None) if out else None
            if o is not None:
                b = s.lv(o, env, d + 1)
                if b is None: return None
                if n.get("op") == "[]" or fn in ("at", "operator[]"): return idx(b, s.txt(c[0], env) if c else "?")
                if fn in ("front",): return idx(b, "0")
                if fn in ("back",): return idx(b, "back")
                if fn in ITER: return idx(b, "~") if b[2] is None or not b[2].endswith("~") else b
                if n.get("op") in ("*", "->", "++", "--", "p++", "p--", "+", "-", "+=", "-="): return b
                if n.get("op") == "=" or fn.startswith("operator"): return b if t.endswith("&") or True else None
                return None
            if n.get("op") in ("*", "+", "-") and c and "iterator" in (n.get("fn") or ""): return s.lv(c[0], env, d + 1)
            if nt(n.get("fn") or "") in ("std::move", "std::forward", "std::begin", "std::end", "std::next", "std::data", "std::addressof", "std::as_const"):
                b = s.lv(c[0], env, d + 1) if c else None
                return idx(b, "~") if b is not None and fn in ("begin", "end", "data") else b
            if nt(n.get("fn") or "") == "std::get" and c:
                b = s.lv(c[0], env, d + 1); return None if b is None else idx(b, "g%s" % n.get("l"))
            return None
        if k == "Ctor" and n.get("cp") and c and "iterator" in s.P.T(n): return s.lv(c[0], env, d + 1)
        return None

    def bind(s, g, n, env):
        e2 = {}
        if n.get("obj") is not None: e2["this"] = s.lv(n["obj"], env)
        elif g.cls and not g.get("stc") and n.get("k") == "Call": e2["this"] = env.get("this")
        for p, a in zip(g.params, n.get("c", [])):
            if a is None: continue
            t = s.P.T(p)
            v = s.lv(a, env) if (t.endswith("&") or "*" in t or "iterator" in t) else None
            e2[p["id"]] = v if v is not None else s.txt(a, env)
        return e2

    # ---------------- events
    def emit(s, w, path, how, n, ty="", rhs=None):
        e = Ev(); s.pos += 1
        e.pos = s.pos; e.w = w; e.path = path; e.how = how; e.loops = s.loops; e.br = s.br; e.node = n; e.ty = ty; e.rhs = rhs; e.na = s.na; e.fn = s.cur
        s.ev.append(e)

    def loop(s, n, env, parts):
        mod = set()
        for x in walk(n):
            k = x.get("k")
            tg = None
            if k == "Bin" and x["op"] in ASG: tg = x["c"][0]
            elif k == "Un" and ("++" in x["op"] or "--" in x["op"]): tg = x["c"][0]
            elif k == "Call" and x.get("op") in ("++", "--", "p++", "p--", "+=", "-="): tg = x.get("obj") or (x.get("c") or [None])[0]
            elif k == "Var" and n.get("k") == "RFor" and x is n.get("var"): mod.add(x["id"])
            if tg is not None:
                tg = strip(tg)
                if tg.get("k") == "Ref" and "id" in tg: mod.add(tg["id"])
        sv = s.loops; s.loops = sv + ((id(n) ^ (len(s.stack) << 3), frozenset(mod)),)
        for p in parts: s.stm(p, env)
        s.loops = sv

    def guard(s, n, env):
        """parameters a condition proves distinct from the object: (when true, when false)"""
        n = strip(n); k = n.get("k")
        if k == "Un" and n["op"] == "!":
            a, b = s.guard(n["c"][0], env); return b, a
        if k == "Bin" and n["op"] in ("==", "!="):
            a, b = [s.addr(x, env) for x in n["c"]]
            if a and b and a != b and "this" in (a, b):
                p = frozenset([b if a == "this" else a])
                return (frozenset(), p) if n["op"] == "==" else (p, frozenset())
        if k == "Bin" and n["op"] == "&&":
            a, b = s.guard(n["c"][0], env), s.guard(n["c"][1], env)
            return a[0] | b[0], frozenset()
        if k == "Bin" and n["op"] == "||":
            a, b = s.guard(n["c"][0], env), s.guard(n["c"][1], env)
            return frozenset(), a[1] | b[1]
        return frozenset(), frozenset()

    def addr(s, n, env):
        n = strip(n)
        x = None
        if n.get("k") == "This": x = env.get("this")
        elif n.get("k") == "Un" and n["op"] == "&": x = s.lv(n["c"][0], env)
        elif n.get("k") == "Call" and nt(n.get("fn") or "") == "std::addressof": x = s.lv(n["c"][0], env)
        return x[0] if x is not None and not x[1] and x[2] is None else None

    def stm(s, n, env):
        if n is None: return
        k = n.get("k")
        if k == "Block":
            sv = s.na
            for c in n["c"]: s.stm(c, env)
            s.na = sv; return
        if k == "Decl":
            for v in n["c"]: s.var(v, env)
            return
        if k == "Var": return s.var(n, env)
        if k == "If":
            if n.get("init"): s.stm(n["init"], env)
            if n.get("cv_"): s.var(n["cv_"], env)
            t, e = s.guard(n["cond"], env) if n.get("cond") else (frozenset(), frozenset())
            s.read(n["cond"], env)
            sv = s.na; b = s.br
            s.na = sv | t; s.br = b + ((id(n), 0),); s.stm(n["then"], env)
            s.na = sv | e; s.br = b + ((id(n), 1),); s.stm(n.get("else"), env)
            s.na = sv; s.br = b
            if exits(n["then"]): s.na = s.na | e
            if exits(n.get("else")): s.na = s.na | t
            return
        if k == "For":
            s.stm(n.get("init"), env); s.loop(n, env, [n.get("cond"), n.get("body"), n.get("inc")]); return
        if k == "While": s.loop(n, env, [n.get("cond"), n.get("body")]); return
        if k == "Do": s.loop(n, env, [n.get("body"), n.get("cond")]); return
        if k == "RFor":
            b = s.lv(n["range"], env)
            v = n["var"]
            if b is not None and s.P.T(v).endswith("&"): env[v["id"]] = idx(b, "~")
            elif b is None: s.read(n["range"], env)
            if b is not None and not s.P.T(v).endswith("&"):
                s.loop(n, env, [{"k": "_rd", "p": idx(b, "~"), "n": n["range"], "l": n.get("l")}, n.get("body")])
            else: s.loop(n, env, [n.get("body")])
            return
        if k == "Return":
            if n.get("c"):
                r = s.cur.get("ret")
                if r is not None and s.P.T(r).endswith("&"): s.touch(n["c"][0], env)
                else: s.read(n["c"][0], env)
            return
        if k in ("Throw", "Null", "Break", "Continue"): return          # a read on the way to an exception does not reach the result
        if k == "Try":
            s.stm(n.get("body"), env)
            for h in n.get("h", []): s.stm(h.get("body"), env)
            return
        if k in ("Switch", "Case", "Default", "Label"):
            for c in children(n): s.stm(c, env)
            return
        if k == "_rd": return s.emit(False, n["p"], "elem", n["n"])
        s.read(n, env, False)

    def var(s, v, env):
        if not v.get("c"): return
        x = v["c"][0]; t = s.P.T(v)
        y = strip(x)
        if y.get("k") == "Lambda": s.lams[v["id"]] = (y, env); return s.caps(y, env)
        if t.endswith("&") or ("*" in t and "function" not in t) or "iterator" in t:
            b = s.lv(x, env)
            s.touch(x, env)
            if b is not None and not (x.get("mt")): env[v["id"]] = b
            return
        s.read(x, env)

    def caps(s, n, env):
        for j, q in enumerate(n.get("caps", [])):
            if q["n"] != "this" and not q.get("ref"):
                b = env.get(q.get("id"))
                if isinstance(b, tuple): s.emit(False, b, "field", n)

    def lambody(s, n, env):
        e2 = dict(env)
        for q in n.get("caps", []):
            if q["n"] != "this" and not q.get("ref") and q.get("id") in e2: e2[q["id"]] = "cap#%s" % q["id"]
        s.stm(n.get("body"), e2)

    def touch(s, n, env):
        """evaluate an expression whose value (a reference) is not read: only what it needs on the way"""
        n0 = n
        n = strip(n); k = n.get("k"); c = n.get("c", [])
        if k in ("Ref", "This"): return
        if k == "Mem":
            if c: s.touch(c[0], env)
            return
        if k == "Idx": s.touch(c[0], env); s.read(c[1], env); return
        if k == "Un" and n["op"] in ("*", "&"): return s.touch(c[0], env)
        if k == "Call" and s.lv(n, env) is not None and n.get("op") not in ASG and n.get("op") not in ("++", "--", "p++", "p--") and not (n.get("fn") or "").split("::")[-1] in GROW:
            g = s.P.callee(n)
            if n.get("obj") is not None: s.touch(n["obj"], env)
            for a in c:
                (s.touch if s.lv(a, env) is not None and g is not None else s.read)(a, env)
            if g is not None and mutates(s.P, g): s.call(n, env, True)
            return
        s.read(n0, env, False)

    def read(s, n, env, val=True):
        if n is None: return
        k = n.get("k"); c = n.get("c", [])
        if k in ("ICast", "DefArg", "DefInit", "Cast"):
            if c: s.read(c[0], env, val)
            return
        if k in ("Ref", "Mem", "Idx", "This"):
            p = s.lv(n, env)
            if k == "Idx": s.touch(c[0], env); s.read(c[1], env)
            elif k == "Mem" and c: s.touch(c[0], env)
            if p is not None and (p[1] or p[2] is not None or k == "Ref") and val and not isptr(s.P.T(n)): s.emit(False, p, "field" if p[2] is None else "elem", n)
            elif p is None and k not in ("Ref", "This"): pass
            return
        if k == "Un":
            if n["op"] in ("++", "--", "p++", "p--"):
                p = s.lv(c[0], env); s.touch(c[0], env)
                if p is not None and not isptr(s.P.T(c[0])):
                    s.emit(False, p, "elem" if p[2] is not None else "field", n); s.emit(True, p, "elem" if p[2] is not None else "field", n, s.P.T(c[0]))
                return
            if n["op"] == "*" and s.lv(n, env) is not None:
                s.touch(c[0], env); p = s.lv(n, env)
                if val: s.emit(False, p, "elem" if p[2] is not None else "field", n)
                return
            if n["op"] == "&": return s.touch(c[0], env)
            return s.read(c[0], env)
        if k == "Bin" and n["op"] in ASG: return s.assign(n, c[0], c[1], n["op"], env)
        if k == "Bin" and n["op"] in ("&&", "||"):
            s.read(c[0], env); s.read(c[1], env); return
        if k == "Bin" and n["op"] in ("==", "!=") and any(s.addr(x, env) for x in c): return
        if k == "Lambda": return s.caps(n, env)
        if k in ("Call", "Ctor"): return s.call(n, env, val)
        if k == "Cond":
            s.read(c[0], env); s.read(c[1], env, val); s.read(c[2], env, val); return
        if k == "Throw": return
        if k in ("Block", "Decl", "Var", "If", "For", "While", "Do", "RFor", "Return", "Try", "Switch", "Case", "Default", "_rd"): return s.stm(n, env)
        for x in children(n): s.read(x, env)

    def assign(s, n, l, r, op, env):
        s.read(r, env)
        p = s.lv(l, env)
        s.touch(l, env)
        if p is None or isptr(s.P.T(l)):
            if p is None and strip(l).get("k") not in ("Ref",): s.read(l, env, False)
            q = strip(l)
            if isptr(s.P.T(l)) and q.get("k") == "Ref" and "id" in q:
                b = s.lv(r, env)
                if b is not None: env[q["id"]] = b
            return
        how = "elem" if p[2] is not None else "field"
        if op != "=": s.emit(False, p, how, l)
        s.emit(True, p, how, n, s.P.T(l), s.source(p, r, env) if op == "=" else None)

    def place(s, n, env):
        b = s.lv(n, env)
        if b is None and n is not None:
            x = strip(n); g = s.P.callee(x) if x.get("k") == "Call" else None
            if g is not None and g.body and single(g) is not None: b = s.lv(single(g), s.bind(g, x, env))
        return b

    def source(s, p, r, env):
        """the place an assigned value is taken from; min/max of the target and another place count as that place (idempotent)"""
        b = s.place(r, env)
        if b is None:
            x = strip(r); c = x.get("c", [])
            if x.get("k") == "Call" and nt(x.get("fn") or "") in ("std::min", "std::max", "fmin", "fmax", "std::fmin", "std::fmax") and len(c) >= 2: two = c[:2]
            elif x.get("k") == "Cond": two = c[1:3]
            else: two = []
            ps = [s.place(y, env) for y in two]
            if p in ps: b = next((y for y in ps if y != p and y is not None), None)
        return (b, None)

    def call(s, n, env, val):
        c = n.get("c", []); o = n.get("obj"); fn = last(n); full = n.get("fn") or ""; op = n.get("op"); k = n["k"]
        g = s.P.callee(n)
        if k == "Call" and o is not None and strip(o).get("k") == "Ref" and strip(o).get("id") in s.lams and op == "()":
            for a in c: s.read(a, env)
            ln, le = s.lams[strip(o)["id"]]
            if len(s.stack) < MAXD: s.stack.append("lam"); s.lambody(ln, env); s.stack.pop()
            return
        ob = s.lv(o, env) if o is not None else None
        if g is not None and g.body and len(s.stack) < MAXD and g.key not in s.stack and (ob is not None or any(a is not None and s.lv(a, env) is not None for a in c) or (o is None and k == "Call" and g.cls and not g.get("stc") and env.get("this"))):
            if k == "Ctor" and n.get("cp") and c:                     # a copy of the object or of the parameter
                p = s.lv(c[0], env); s.touch(c[0], env)
                if p is not None: s.emit(False, p, "field" if p[2] is None else "elem", n)
                return
            if k == "Ctor":
                for a in c:
                    if a is not None: s.read(a, env)
                return
            if g.get("as") in ("copy", "move") and not ob == env.get("_never"):
                pass
            e2 = s.bind(g, n, env)
            for p, a in zip(g.params, c):
                if a is None: continue
                if isinstance(e2.get(p["id"]), tuple): s.touch(a, env)
                else: s.read(a, env)
            if o is not None: s.touch(o, env)
            sv = s.cur, s.na; s.stack.append(g.key); s.cur = g
            s.stm(g.body, e2)
            s.stack.pop(); s.cur, s.na = sv
            if val and refret(s.P, g):
                p = s.lv(n, env)
                if p is not None and (p[1] or p[2] is not None): s.emit(False, p, "elem" if p[2] is not None else "field", n)
            return
        if op in ASG and o is not None and len(c) == 1: return s.assign(n, o, c[0], op, env)
        if op in ("++", "--", "p++", "p--") and o is not None: return s.touch(o, env)
        if ob is not None and (g is None or not g.body):
            if fn in GROW and k == "Call":
                rng = [a for a in c if a is not None and isptr(s.P.T(a)) and s.lv(a, env) is not None and s.lv(a, env)[0] != "this"]
                for a in c:
                    if a is not None and not (isptr(s.P.T(a)) and s.lv(a, env) is not None): s.read(a, env)
                for a in rng:
                    p = s.lv(a, env); s.emit(False, p, "elem", a)
                own = any(mentions(s, a, env) for a in c if a is not None)
                s.emit(True, ob, "shape" if fn != "assign" or rng else "field", n, s.P.T(o), ("keep", None) if fn == "resize" and own else (s.lv(c[-1], env), None) if fn in ("assign",) and not rng and c else None)
                if fn in ("insert", "assign"):
                    for a in rng:
                        p = s.lv(a, env); s.emit(False, p, "elem", a)
                return
            if fn in SHAPE or fn in ITER:
                s.touch(o, env); s.emit(False, ob, "shape", n); return
            if s.lv(n, env) is not None:
                s.touch(o, env)
                for a in c: s.read(a, env)
                p = s.lv(n, env)
                if val and not isptr(s.P.T(n)): s.emit(False, p, "elem" if p[2] is not None else "field", n)
                return
            for a in c: s.read(a, env)
            s.emit(False, ob, "field", n); return
        if nt(full).startswith("std::") and (nt(fn) in OUTA) or full in ("memcpy", "memset", "memmove"):
            lams = [strip(a) for a in c if a is not None and strip(a).get("k") == "Lambda"]
            ps = [(a, s.lv(a, env)) for a in c if a is not None]
            for a, p in ps:
                if p is None and strip(a).get("k") != "Lambda": s.read(a, env)
                elif p is not None: s.touch(a, env)
            if any(p is not None for a, p in ps):
                m = OUTA.get(nt(fn), "first"); args = [(a, p) for a, p in ps if strip(a).get("k") != "Lambda"]
                outs = {"all": range(len(args)), "last": [len(args) - 1], "first": [0], "last3": [len(args) - 1] if len(args) > 2 else [], "tr": [len(args) - 1]}[m]
                for L in lams: s.caps(L, env)
                sv = s.loops; s.loops = sv + ((id(n), frozenset()),)
                for j, (a, p) in enumerate(args):
                    if p is not None and not (fn == "fill" and j == 2): s.emit(False, p, "elem", a)
                for L in lams: s.lambody(L, env)
                for j, (a, p) in enumerate(args):
                    if p is None or j not in outs: continue
                    if fn in ("fill", "fill_n", "replace") and not isptr(s.P.T(a)): continue
                    src = args[-1][1] if fn in ("fill", "fill_n") else None
                    s.emit(True, p, "elem", n, elemty(s.P.T(a)), (src, None) if src is not None else None)
                s.loops = sv
            return
        if o is not None: s.read(o, env)
        for a in c:
            if a is None: continue
            if strip(a).get("k") == "Lambda": s.caps(strip(a), env); s.lambody(strip(a), env); continue
            p = s.lv(a, env)
            s.read(a, env)
            if p is not None and not p[1] and p[2] is None and p[0] != "this" and strip(a).get("k") not in ("Ref",): s.emit(False, p, "field", a)


def mentions(s, n, env):
    for x in walk(n):
        if x.get("k") in ("Ref", "This"):
            p = s.lv(x, env)
            if p is not None and p[0] != "this": return True
    return False


def last(n):
    q = n.get("fn") or ""
    if "operator" in q: return q[q.rindex("operator"):]
    return nt(q).split("::")[-1]


def isptr(t):
    t = t.strip()
    return ("*" in t.replace("(*)", "") and "<" not in t.split("*")[0]) or "_iterator" in t or t.endswith("*") or t.endswith("* const")


def elemty(t):
    if "iterator" not in t and "*" in t: return base(re.sub(r"\s*\*\s*(const)?", "", t))
    m = re.search(r"__normal_iterator<(?:const )?([\w:<>, ]+?) \*", t)
    return base(m.group(1)) if m else base(t)


def idx(b, t): return (b[0], b[1], t if b[2] is None else b[2] + "][" + t)


def refret(P, g):
    r = g.get("ret"); t = P.T(r) if r is not None else ""
    return t.endswith("&") or isptr(t)


def single(g):
    """the expression of a function that only returns one"""
    b = g.body
    if b is None: return None
    st = [x for x in b.get("c", []) if not (x.get("k") == "If" and not x.get("else") and exits(x["then"]) and not any(y.get("k") == "Return" for y in walk(x["then"]))) and x.get("k") != "Null"]
    return st[0]["c"][0] if len(st) == 1 and st[0].get("k") == "Return" and st[0].get("c") else None


def exits(n):
    if n is None: return False
    k = n.get("k")
    if k in ("Return", "Throw"): return True
    if k == "Block": return any(exits(x) for x in n["c"])
    if k == "If": return n.get("else") is not None and exits(n["then"]) and exits(n["else"])
    return False


_mut = {}


def mutates(P, g):
    if g.key not in _mut:
        _mut[g.key] = False
        r = False
        for x in walk(g.body) if g.body else ():
            k = x.get("k")
            if (k == "Bin" and x["op"] in ASG) or (k == "Un" and ("++" in x["op"] or "--" in x["op"])) or (k == "Call" and (x.get("op") in ASG or (x.get("fn") or "").split("::")[-1] in GROW)): r = True
        _mut[g.key] = r
    return _mut[g.key]


# ---------------------------------------------------------------- judging
def overlap(w, r):
    """may the places coincide when the parameter is the object?  None: no; "same": the same element text; "may" """
    a, b = w.path[1], r.path[1]
    m = min(len(a), len(b))
    if a[:m] != b[:m]: return None
    if len(a) != len(b): return "may"                                   # a whole and a part of it
    if w.how == "elem" and r.how == "shape": return None
    if w.how == "elem" and r.how == "elem" and w.path[2] is not None and r.path[2] is not None:
        if w.path[2] == r.path[2]: return "same"
        if w.path[2].count("][") == r.path[2].count("]["):
            for x, y in zip(w.path[2].split("]["), r.path[2].split("][")):
                if re.fullmatch(r"-?\d+", x) and re.fullmatch(r"-?\d+", y) and x != y: return None
        return "may"
    return "may"


def later(w, r):
    """the read can happen after the write: in the same pass, or in a later pass of a loop around both; returns the sets of loops to excuse"""
    common = []
    for x, y in zip(w.loops, r.loops):
        if x[0] != y[0]: break
        common.append(x)
    bx = dict(w.br); excl = any(i in bx and bx[i] != sd for i, sd in r.br)
    return (w.pos < r.pos and not excl), common


def judge_self(W, p):
    """hazards when parameter p is the object itself"""
    out = []; n = 0
    ws = [e for e in W.ev if e.w and e.path[0] == "this" and p not in e.na]
    rs = [e for e in W.ev if not e.w and e.path[0] == p and p not in e.na]
    for w in ws:
        if w.rhs is not None:
            if w.rhs[0] == "keep": continue
            if w.rhs[0] is not None and w.rhs[0][1:] == w.path[1:]: continue      # x.f = p.f: unchanged when p is x
        for r in rs:
            n += 1
            o = overlap(w, r)
            if o is None: continue
            fwd, common = later(w, r)
            if o == "same":
                t = w.path[2] or ""
                if fwd and not whole_loops_only(w, r): out.append((w, r)); continue
                bad = [l for l in common if not ("~" in t or any("#%s" % i in t for i in l[1]))]
                if bad: out.append((w, r))
                continue
            if fwd or common: out.append((w, r))
    return n, out


def whole_loops_only(w, r): return False


def judge_part(W, p, B, H):
    """hazards when parameter p is a part of the object: an element, or a field the class hands out"""
    out = []; n = 0
    big = boxlike(B)

    def hits(e):
        t = base(e.ty)
        if H.has(t, B):                                                  # the changed place contains (or is) a B
            return not (big and t == B and e.how != "shape")             # a whole container member is not an element
        return not big and "::" in B and H.has(B, t) and len(e.path[1]) > 1        # a member of a B stored in the object
    ws = [e for e in W.ev if e.w and e.path[0] == "this" and hits(e)]
    rs = [e for e in W.ev if not e.w and e.path[0] == p]
    for w in ws:
        inner = not H.has(base(w.ty), B)
        src = w.rhs[0] if w.rhs is not None and w.rhs[0] != "keep" else None
        if src is not None and src[0] == p:
            if not src[1] and src[2] is None: continue                   # x = p: p keeps its value
            if inner and w.path[1][-len(src[1]):] == src[1]: continue     # x.f = p.f
        for r in rs:
            n += 1
            if inner and r.path[1] and w.path[1][-len(r.path[1]):] != r.path[1]: continue
            fwd, common = later(w, r)
            if fwd or common: out.append((w, r))
    return n, out


def boxlike(B): return B.startswith("std::") and not B.startswith("std::complex") or nt(B).split("::")[-1] in ("Vector", "VectorN", "Matrix", "MatrixNM", "Polynom")


def exposed(P, H, cls, B, memo={}):
    """the object holds values of type B and hands out references to them (public field, reference- or iterator-returning accessor)"""
    k = (cls, B)
    if k in memo: return memo[k]
    r = P.recs.get(cls); ok = False
    if r is not None:
        for f in r.get("fields", []):
            if f.get("pub") and H.has(P.T(f), B): ok = True
        for g in P.bycls.get(cls, []):
            t = P.T(g.get("ret")) if g.get("ret") is not None else ""
            if g.get("acc") not in (None, "public") or (g.n.startswith("operator") and g.n not in ("operator[]", "operator()", "operator*", "operator->")): continue
            if (t.endswith("&") and nt(base(t)).split("::")[-1] != nt(cls).split("::")[-1] and H.has(base(t), B)) or (isptr(t) and H.has(elemty(t), B)): ok = True
    memo[k] = ok
    return ok


def run(ck):
    P = program(); H = Holds(P)
    nf = npar = ns = ne = npair = 0; seen = set()
    for f in P.fns.values():
        if not f.body or f.kind in ("ctor", "dtor"): continue
        sp = None
        if f.kind == "method" or f.cls:
            if f.get("cst") or f.get("stc"):
                if not (f.get("stc")): continue
                if not f.n.startswith("operator"): continue
        if not f.cls or f.get("stc"):
            if not (f.n.startswith("operator") and f.n.endswith("=") and f.n not in ("operator==", "operator!=", "operator<=", "operator>=")): continue
            if not f.params or not P.T(f.params[0]).endswith("&") or P.T(f.params[0]).startswith("const"): continue
            sp = 0
        me = nt(f.cls) if f.cls and sp is None else (nt(base(P.T(f.params[0]))) if sp == 0 else None)
        if me is None: continue
        cand = []
        for i, p in enumerate(f.params):
            if i == sp: continue
            t = P.T(p)
            if not t.endswith("&") or t.endswith("&&") or not t.startswith("const "): continue
            b = base(t)
            if nt(b).split("::")[-1] == me.split("::")[-1]: cand.append((i, "self", b))
            elif f.cls and exposed(P, H, f.cls, b): cand.append((i, "part", b))
            elif sp == 0: cand.append((i, "part", b))
        if not cand: continue
        W = Walk(P, H, f, sp)
        if not any(e.w and e.path[0] == "this" for e in W.ev): continue
        nf += 1
        for i, how, b in cand:
            npar += 1; p = "p%d" % i
            if how == "self": n, hz = judge_self(W, p); ns += 1
            else: n, hz = judge_part(W, p, b, H); ne += 1
            npair += n
            # an object of the same class may also be stored inside this one only through containers of itself: not representable by value
            name = f.params[i]["n"]
            if hz:
                w, r = hz[0]
                fld = ".".join(w.path[1]) or "the object"
                ck.bad("%s(%s): %s is read after %s was changed" % (nt(f.q), b, name, fld), "%s:%d" % (r.fn.f, r.node.get("l") or f.l),
                       "%s changes %s (line %s) and reads its argument %s afterwards (%s): when the argument is %s, the result is computed from the changed value"
                       % (f.q, fld, w.node.get("l"), name, show(r.node)[:60], "the object itself" if how == "self" else "one of the object's own elements"))
            else: ck.good("%s: %s" % (f.q, name))
    ck.floor("mutating_operations", nf, 25); ck.floor("parameters_of_the_same_class", ns, 15)
    ck.cov.update(parameters=npar, parameters_of_a_contained_type=ne, write_read_pairs=npair)
    return ck
