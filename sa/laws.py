"""Laws between the formulas of a class, stated over the closed terms its members reduce to (see sa/affine.py, sa/calc.py)."""
import math
from . import affine, calc
from .affine import P, V, Obj, A, C, ZERO, ONE, Give, Ref, Ptr, at, vget, pshow, _atoms
from .calc import *
from .c12_calc import Run, Judge, ERRS, Und, cell
from .core import nt, walk


OPAQUE = ("MML::RectSurface3D", "MML::TriangleSurface3D")     # faces of a body, left out of the laws of its measures


class Undecided(Exception): pass


class Empty(Exception):
    """no value in this case: the construction or call is rejected"""


def num_(x):
    if isinstance(x, W): x = x.v
    if isinstance(x, P): return x
    if isinstance(x, (int, float)): return C(x)
    raise Undecided("not a number: %s" % (x,))


def F(name):
    def f(*a): return W(None, call(name, *[num_(x) for x in a]))
    return f


sin, cos, tan, sqrt, acos, asin, atan, atan2, absv, exp, log, cbrt = [F(n) for n in ("sin", "cos", "tan", "sqrt", "acos", "asin", "atan", "atan2", "abs", "exp", "log", "cbrt")]
minv, maxv = F("min"), F("max")


class W:
    """a term or an object of the analysed program"""
    def __init__(s, L, v): s.L = L; s.v = v

    def __add__(s, o): return s.op("+", o) if isinstance(s.v, (V, Obj)) else W(s.L, add(num_(s), num_(o)))
    def __radd__(s, o): return W(s.L, add(num_(o), num_(s)))
    def __sub__(s, o): return s.op("-", o) if isinstance(s.v, (V, Obj)) else W(s.L, add(num_(s), mul(C(-1), num_(o))))
    def __rsub__(s, o): return W(s.L, add(num_(o), mul(C(-1), num_(s))))
    def __mul__(s, o): return s.op("*", o) if isinstance(s.v, (V, Obj)) else W(s.L, mul(num_(s), num_(o)))
    def __rmul__(s, o): return W(s.L, mul(num_(o), num_(s)))
    def __neg__(s): return s.op("-") if isinstance(s.v, (V, Obj)) else W(s.L, mul(C(-1), num_(s)))
    def __truediv__(s, o): return s.op("/", o) if isinstance(s.v, (V, Obj)) else W(s.L, mul(num_(s), inv(num_(o))))
    def __rtruediv__(s, o): return W(s.L, mul(num_(o), inv(num_(s))))

    def __pow__(s, n):
        r = W(s.L, ONE)
        for _ in range(n): r = r * s
        return r

    def op(s, o, *a): return s.L.method(s, "operator" + o, a)

    def __getitem__(s, i):
        if isinstance(s.v, V):
            x = vget(s.v, (C(i),) if not isinstance(i, tuple) else tuple(C(j) for j in i))
            return W(s.L, x)
        if s.L is None or s.L.dry: return s
        return s.L.method(s, "operator[]", (i,))

    def __call__(s, *a): return s.L.method(s, "operator()", a)

    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        return lambda *a: s.L.method(s, n, a)


class Law:
    """one evaluation of one law in one case"""
    def __init__(s, prog, split, opaque=(), dom=None):
        s.R = Run(prog, split, opaque, steps=400000); s.R.E.mmterm = True; s.R.E.opaquecls = OPAQUE; s.R.E.partcls = ("MML::Triangle3D",); s.prog = prog; s.dom = {} if dom is None else dom; s.req = {}; s.where = None; s.fn = None; s.n = 0; s.types = {}

    def open(s): s.R.E.opaquecls = ()

    # ------------------------------------------------------ symbols
    def sym(s, n, d=None):
        p = A("sym", n)
        if d is not None: s.dom[p.single()] = d
        return W(s, p)

    def pos(s, *ns):
        r = [s.sym(n, "+") for n in ns]
        return r[0] if len(r) == 1 else r

    def rng(s, n, a, b): return s.sym(n, (a, b))

    def vec(s, t, *xs):
        """fixed-size vector of class t with the given components"""
        v = V(ZERO, tuple(((C(i),), num_(x)) for i, x in enumerate(xs)))
        w = W(s, v); w.__dict__["t"] = t
        return w

    def list(s, xs):
        """list of known length"""
        return W(s, V(ZERO, tuple(((C(i),), x.v if isinstance(x, W) else num_(x)) for i, x in enumerate(xs)), ("len", len(xs))))

    def vsym(s, t, n, k): return s.vec(t, *[s.sym("%s%d" % (n, i)) for i in range(k)])

    def require(s, x):
        """the law is stated for arguments where x > 0"""
        p = num_(x); lead = p.m[min(p.m)]; k = ("pos", P({m: c / lead for m, c in p.m.items()})); b = lead > 0
        sp = s.R.E.split
        if sp is None: return
        if sp.setdefault(k, b) != b: raise Empty()

    # ------------------------------------------------------ calls
    def cls(s, name):
        if not isinstance(name, str): return name
        for c in (name, "MML::" + name):
            if c in s.prog.bycls: return c
        c = [c for c in s.prog.bycls if nt(c) in (name, "MML::" + name)]
        if c: return min(c, key=len)
        raise Undecided("no class " + name)

    def chain(s, c):
        out = [c]; todo = [c]
        while todo:
            c = todo.pop(0)
            for b in (s.prog.recs.get(c) or s.prog.recs.get(nt(c)) or {}).get("bases") or []:
                q = (b.get("t") or b.get("q")) if isinstance(b, dict) else b
                q = str(s.prog.tc.get(q, q)); 
                for k in (q, nt(q)):
                    if k in s.prog.bycls or k in s.prog.recs:
                        if k not in out: out.append(k); todo.append(k)
        return out

    def fits(s, v, t):
        b = nt(t.replace("const ", "").rstrip("&* ").strip()); k = s.R.E.kindof(t)
        if isinstance(v, P): return 2 if k == "num" else 0
        if isinstance(v, V): return 0 if k != "vec" else 1
        if isinstance(v, Obj): return 3 if nt(v.cls) == b else 1 if b in [nt(c) for c in s.chain(v.cls)] else 0
        return 1 if k == "obj" else 0

    def resolve(s, cands, args):
        best = None
        for f in cands:
            if f.get("dep") or len(args) > len(f.params): continue
            if any(p.get("def") is None for p in f.params[len(args):]): continue
            sc = 0
            for a, p in zip(args, f.params):
                q = s.fits(a.v if isinstance(a, W) else a, s.prog.T(p))
                t = a.__dict__.get("t") if isinstance(a, W) else None
                if q and t: q = 3 if nt(s.prog.T(p).replace("const ", "").rstrip("& ")).endswith(t) else q
                if not q: sc = None; break
                sc += q
            if sc is None: continue
            sc = (sc, -len(f.params), not str(s.prog.tc.get(f.get("ret"), "")).endswith("&"))
            if best is None or sc > best[0]: best = (sc, f)
        if best is None: raise Undecided("no overload of %s for %d arguments" % (cands[0].q if cands else "?", len(args)))
        return best[1]

    def args(s, a): return [x if isinstance(x, W) else W(s, C(x)) if isinstance(x, (int, float)) else W(s, x) for x in a]

    def run(s, f, args, th):
        if s.where is None and s.n >= 0 and s.want: s.where = f.where; s.fn = f
        if f.body is None and not f.get("inits"): raise Undecided("%s has no body" % f.q)
        E = s.R.E; vals = []; st = s.R.st; E.n = 0
        for i, p in enumerate(f.params):
            t = s.prog.T(p)
            if i >= len(args):
                v, st2 = E.ev(p["def"], dict(st), (0,), None, affine.Ctx()); v = E.rv(v, None) if False else v
                if isinstance(v, tuple) and v and v[0] == "loc": v = E.read(st2, v[1], t)
                if not isinstance(v, (P, V, Obj)) and not t.endswith("*"): raise Undecided("default argument %r" % (v,))
            else: v = args[i].v
            if t.endswith("&") or t.endswith("&&"):
                s.n += 1; st[("obj", "a%d" % s.n)] = v; loc = (("obj", "a%d" % s.n), ())
                vals.append(Ref(loc)); args_i = loc
                if i < len(args): args[i].__dict__["loc"] = loc
            elif t.endswith("*") and i < len(args) and not isinstance(v, Ptr):
                s.n += 1; st[("obj", "a%d" % s.n)] = v; loc = (("obj", "a%d" % s.n), ()); vals.append(Ptr(loc)); args[i].__dict__["loc"] = loc
            else: vals.append(v)
        v, st2, fr = E.run(f, vals, th, st)
        if st2 is None: raise Empty()
        if isinstance(v, tuple) and v and v[0] == "loc": v = E.read(st2, v[1], None)
        s.R.st = {k: x for k, x in st2.items() if k[0] == "obj"}
        for a in args:
            if isinstance(a, W) and "loc" in a.__dict__: a.__dict__["after"] = s.R.st.get(a.__dict__["loc"][0])
        if not isinstance(v, (P, V, Obj)) and v is not None: raise Undecided("value of %s" % f.q)
        return v

    want = dry = False

    def out(s, w):
        if s.dry: return W(s, A('sym', 'dry'))
        """content of an output argument after the call"""
        v = w.__dict__.get("after")
        if not isinstance(v, (P, V, Obj)): raise Undecided("output argument")
        return W(s, v)

    def typed(s, f, v):
        w = W(s, v)
        rt = nt(str(s.prog.tc.get(f.get("ret"), "")).replace("const ", "").rstrip("& "))
        if isinstance(v, V): w.__dict__["t"] = rt.split("::")[-1]; w.__dict__["cls"] = rt
        return w

    def new(s, name, *a):
        if s.dry: return W(s, A('sym', 'dry'))
        c = s.cls(name); E = s.R.E; a = s.args(a)
        cs = [f for f in s.prog.bycls.get(c, []) if f.kind == "ctor" and not f.get("copy") and (f.body is not None or f.get("inits"))]
        f = s.ctor = s.resolve(cs, a)
        s.n += 1; key = ("obj", "o%d" % s.n)
        isv = E.kindof(c) == "vec"
        s.R.st[key] = V(ZERO) if isv else Obj(c, "o%d" % s.n, E.defaults(c, {}, (0,), None, affine.Ctx()))
        E.n = 0
        fr = {}
        vals = []
        for i, p in enumerate(f.params):
            if i < len(a): v = a[i].v
            else:
                v, _ = E.ev(p["def"], dict(s.R.st), (0,), None, affine.Ctx())
                if isinstance(v, tuple) and v and v[0] == "loc": v = E.read(s.R.st, v[1], s.prog.T(p))
            fr[(-1, p["id"])] = v
        st = dict(s.R.st); st.update(fr)
        v, st2 = E.body(f, f.body, st, (-1,), (key, ()), f.get("inits") or [])
        if st2 is None: raise Empty()
        s.R.st = {k: x for k, x in st2.items() if k[0] == "obj"}
        w = W(s, s.R.st[key])
        if isv: w.__dict__["t"] = nt(c).split("::")[-1]; w.__dict__["cls"] = c
        return w

    def clsof(s, w):
        if isinstance(w.v, Obj): return w.v.cls
        if "cls" in w.__dict__: return s.cls(w.__dict__["cls"])
        if "t" in w.__dict__: return s.cls(w.__dict__["t"])
        raise Undecided("method of a term")

    def method(s, w, n, a):
        if s.dry: return W(s, A('sym', 'dry'))
        a = s.args(a); c = s.clsof(w)
        for k in s.chain(c):
            cs = [f for f in s.prog.bycls.get(k, []) if f.n == n and f.kind != "ctor" and not f.get("lam") and (f.body is not None)]
            if cs: break
        else:
            fs = [f for f in s.prog.fns.values() if f.n == n and not f.cls and len(f.params) == len(a) + 1 and f.body is not None and not f.get("dep")]
            if fs: f = s.resolve(fs, [w] + a); return s.typed(f, s.run(f, [w] + a, None))
            raise Undecided("%s has no %s" % (c, n))
        try: f = s.resolve(cs, a)
        except Undecided:
            fs = [f for f in s.prog.fns.values() if f.n == n and (not f.cls or len(f.params) == len(a) + 1) and f.body is not None and not f.get("dep")]
            f = s.resolve(fs, [w] + a)
            return s.typed(f, s.run(f, [w] + a, None))
        s.n += 1; key = ("obj", "t%d" % s.n); s.R.st[key] = w.v
        v = s.run(f, a, (key, ()))
        w.__dict__["after"] = s.R.st.get(key)
        return s.typed(f, v) if v is not None else W(s, s.R.st.get(key))

    def mut(s, w, n, *a):
        """object left behind by a mutating call"""
        if s.dry: return w
        s.method(w, n, a)
        x = W(s, w.__dict__["after"])
        for k in ("t", "cls"):
            if k in w.__dict__: x.__dict__[k] = w.__dict__[k]
        return x

    def sta(s, c, n, *a):
        if s.dry: return W(s, A('sym', 'dry'))
        c = s.cls(c); a = s.args(a)
        f = s.resolve([f for f in s.prog.bycls.get(c, []) if f.n == n and f.body is not None], a)
        return s.typed(f, s.run(f, a, None))

    def free(s, q, *a):
        if s.dry: return W(s, A('sym', 'dry'))
        a = s.args(a)
        fs = [f for f in s.prog.fns.values() if f.q.endswith("::" + q) and f.body is not None and not f.get("dep") and not f.get("lam")]
        if not fs: raise Undecided("no function " + q)
        f = s.resolve(fs, a)
        return s.typed(f, s.run(f, a, None))

    def field(s, w, n):
        if s.dry: return W(s, A('sym', 'dry'))
        v = w.v if isinstance(w, W) else w
        x = s.R.E.readin(s.R.st, v, (("f", n),), None)
        return W(s, x)


def evaluate(prog, J, name, law, opaque=(), bank=512):
    """every obligation of a law, in every consistent case of the branches its members take"""
    def labels():
        L = Law(prog, None, opaque); L.dry = True
        return [it[0] for it in law(L)]
    try: labs = labels()
    except Exception as e: raise AssertionError("law %s: %s" % (name, e))
    dom = {}; bank = Bank(dom, bank)
    for k, lab in enumerate(labs):
        key = "%s: %s" % (name, lab)
        def run(split):
            L = Law(prog, split, opaque, dom)
            try:
                for j, it in enumerate(law(L)):
                    if j == k:
                        L.want = True
                        return L, it[1](), (it[2] if len(it) > 2 else "eq")
            except Empty: return None
            except (Undecided,) + ERRS as e:
                J.und.append("%s: %s %s" % (key, type(e).__name__, str(e)[:140])); return None
        n0 = J.n
        try:
            for case, r in cases(run, 256, bank):
                if r is None: continue
                L, res, kind = r
                try:
                    if kind == "eq":
                        pairs = res if isinstance(res, list) else [res]
                        for got, want in pairs: J.eq("%s %s" % (name, lab), L.where or "?", key, num_(got), num_(want), case, L.dom)
                    else: iff(J, "%s %s" % (name, lab), L.where or "?", key, res, case, L.dom)
                except (Undecided,) + ERRS as e: J.und.append("%s: %s %s" % (key, type(e).__name__, str(e)[:140]))
        except ERRS as e: J.und.append("%s: %s %s" % (key, type(e).__name__, str(e)[:140]))
        J.per[key] = J.n - n0


def iff(J, key, where, what, res, case, dom):
    """a predicate's constant outcome in this case against the sign of a term at the case's points"""
    got, cond = res; b = num_(got).const(); conds = [num_(c) for c in (cond if isinstance(cond, list) else [cond])]
    if b is None: raise Undecided("predicate without a definite outcome")
    ps = points(conds, case, domain=dom, want=12)
    if not ps: J.empty += 1; return
    bad = []; n = 0
    for env in ps:
        vs = [num(c, env) for c in conds]
        if any(abs(v) < 1e-4 * (1 + g) for v, g in vs): continue
        n += 1
        if all(v > 0 for v, g in vs) != bool(b): bad.append(env)
    if not n: J.empty += 1; return
    if bad: J.ch.bad(key, where, "%s: answers %s although the opposite holds (at %s)" % (what, bool(b), showpoint(bad[0])[:200]))
    else: J.n += 1; J.ch.good(what)
