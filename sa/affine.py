"""Abstract interpretation over linear/polynomial forms.

Each scalar expression of a function body is mapped to an exact Laurent polynomial over symbolic atoms (parameters,
uninterpreted results of opaque calls such as f(x+h) or derivs(t,x), elements of vectors at a generic index).  Control
flow is joined (never enumerated, never handed to a solver): values that differ at a join, or that change in a loop with an
unknown trip count, become fresh atoms, about which nothing can be concluded.  Loops with constant trip counts are unrolled,
calls to functions with a body (and lambdas) are evaluated in place, so that extracting or inlining a helper does not change
the computed form."""
import re
from fractions import Fraction
import math
from .core import *

MAXTERMS = 600
VECCLS = ("MML::Vector", "MML::VectorN", "MML::Matrix", "MML::MatrixNM", "MML::MatrixSym", "MML::MatrixTridiag",
          "std::vector", "std::array", "MML::VectorView")
FIXED = ("MML::VectorN", "MML::MatrixNM")


class Give(Exception):
    pass


# ------------------------------------------------------------------ atoms and polynomials
_atoms = []
_aid = {}


def atom_id(key):
    i = _aid.get(key)
    if i is None:
        i = len(_atoms); _atoms.append(key); _aid[key] = i
    return i


class P:
    """Laurent polynomial; m: {monomial: Fraction}, monomial = tuple of (atom id, exponent)"""
    __slots__ = ("m", "_h")

    def __init__(s, m): s.m = m; s._h = None

    def __eq__(s, o): return isinstance(o, P) and s.m == o.m

    def __ne__(s, o): return not s == o

    def __hash__(s):
        if s._h is None: s._h = hash(frozenset(s.m.items()))
        return s._h

    def const(s):
        if not s.m: return Fraction(0)
        if len(s.m) == 1 and () in s.m: return s.m[()]
        return None

    def atoms(s):
        return {a for mo in s.m for a, e in mo}

    def single(s):
        """atom id if the polynomial is exactly one atom"""
        if len(s.m) == 1:
            (mo, c), = s.m.items()
            if c == 1 and len(mo) == 1 and mo[0][1] == 1: return mo[0][0]
        return None

    def __repr__(s): return pshow(s)


def C(v): return P({(): Fraction(v)} if v else {})
def A(*key): return P({((atom_id(key), 1),): Fraction(1)})


ZERO = P({}); ONE = C(1)


def padd(a, b, k=1):
    m = dict(a.m)
    for mo, c in b.m.items():
        v = m.get(mo, 0) + k * c
        if v: m[mo] = v
        else: m.pop(mo, None)
    if len(m) > MAXTERMS: raise Give("polynomial too large")
    return P(m)


def mmul(x, y):
    if not x: return y
    if not y: return x
    d = dict(x)
    for a, e in y:
        v = d.get(a, 0) + e
        if v: d[a] = v
        else: d.pop(a, None)
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a.m) * len(b.m) > 20000: raise Give("polynomial too large")
    m = {}
    for x, c in a.m.items():
        for y, d in b.m.items():
            k = mmul(x, y); v = m.get(k, 0) + c * d
            if v: m[k] = v
            else: m.pop(k, None)
    if len(m) > MAXTERMS: raise Give("polynomial too large")
    return P(m)


def pinv(a):
    if not a.m: return None
    if len(a.m) == 1:
        (mo, c), = a.m.items()
        return P({tuple((x, -e) for x, e in mo): 1 / c})
    # normalise so that equal divisors up to a factor share the atom
    lead = a.m[min(a.m)]
    n = P({k: v / lead for k, v in a.m.items()})
    return P({((atom_id(("poly", n)), -1),): 1 / lead})


def pdiv(a, b):
    if b.m and len(b.m) > 1 and a.m and len(a.m) == len(b.m):
        k = next(iter(a.m)); 
        if k in b.m:
            r = a.m[k] / b.m[k]
            if all(x in b.m and b.m[x] * r == v for x, v in a.m.items()): return C(r)
    i = pinv(b)
    return None if i is None else pmul(a, i)


def ppow(a, n):
    if n < 0:
        i = pinv(a)
        return None if i is None else ppow(i, -n)
    r = ONE
    for _ in range(n): r = pmul(r, a)
    return r


def pshow(p):
    if not p.m: return "0"
    o = []
    for mo, c in sorted(p.m.items(), key=lambda kv: str(kv[0]))[:12]:
        f = "*".join(ashow(a) + ("" if e == 1 else "^%d" % e) for a, e in mo)
        cs = str(c) if c.denominator < 10000 else "%.12g" % float(c)
        o.append(cs if not f else f if c == 1 else cs + "*" + f)
    return " + ".join(o) + (" + ..." if len(p.m) > 12 else "")


def vshow(v):
    if isinstance(v, P): return pshow(v)
    if isinstance(v, V): return "{%s%s}" % (vshow(v.gen), "".join("; [%s]=%s" % (",".join(map(vshow, k)), vshow(x)) for k, x in v.upd))
    if isinstance(v, tuple): return "(%s)" % ",".join(map(vshow, v))
    return str(v)


def ashow(a):
    k = _atoms[a]
    if k[0] == "sym": return str(k[1])
    if k[0] == "idx": return "#%d" % k[1]
    if k[0] == "loop": return "i%d" % k[1]
    if k[0] == "other": return "visited%d" % k[1]
    if k[0] == "el": return "%s[%s]" % (vshow(k[1]), ",".join(map(vshow, k[2])))
    if k[0] == "call": return "%s(%s)" % (k[1].split("::")[-1], ",".join(map(vshow, k[2:])))
    if k[0] == "poly": return "(%s)" % pshow(k[1])
    return "?%s" % (k[1],) if k[0] == "?" else "%s" % (k,)


_fresh = [0]
PHI = {}      # atom id -> alternatives joined


def fresh(why="?"):
    _fresh[0] += 1
    return A("?", _fresh[0], why)


def subst(v, mp, memo=None):
    """replace atoms (id -> P) everywhere, also inside structured atoms"""
    if memo is None: memo = {}
    if isinstance(v, P):
        if not v.m: return v
        r = memo.get(v)
        if r is not None: return r
        hit = False; out = ZERO
        for mo, c in v.m.items():
            t = P({(): c}); ch = False; keep = []
            for a, e in mo:
                na = suba(a, mp, memo)
                if na is None: keep.append((a, e))
                else:
                    ch = True
                    q = ppow(na, e)
                    if q is None: q = fresh("div0")
                    t = pmul(t, q)
            if keep: t = pmul(t, P({tuple(keep): Fraction(1)}))
            hit |= ch
            out = padd(out, t)
        if not hit: out = v
        memo[v] = out
        return out
    if isinstance(v, V):
        if any(_atoms[a][0] == "idx" for a in mp):      # the index of a nested vector is its own bound variable
            mp = {a: x for a, x in mp.items() if _atoms[a][0] != "idx"}; memo = {}
            if not mp: return v
        return V(subst(v.gen, mp, memo) if v.gen is not None else None,
                 tuple((tuple(subst(k, mp, memo) for k in ks), subst(x, mp, memo)) for ks, x in v.upd), v.name)
    if isinstance(v, tuple):
        return tuple(subst(x, mp, memo) for x in v)
    return v


def suba(a, mp, memo):
    if a in mp: return mp[a]
    k = _atoms[a]
    if k[0] in ("sym", "idx", "loop", "?", "other"): return None
    mk = ("a", a)
    if mk in memo: return memo[mk]
    nk = tuple(subst(x, mp, memo) for x in k)
    r = None
    if nk != k:
        r = A(*nk)
    memo[mk] = r
    return r


# ------------------------------------------------------------------ aggregate values
class V:
    """indexable value: generic element `gen` (in terms of idx atoms) overridden at the keys in upd; immutable"""
    __slots__ = ("gen", "upd", "name", "_h")

    def __init__(s, gen, upd=(), name=None): s.gen = gen; s.upd = upd; s.name = name; s._h = None

    def norm(s):
        return (s.gen, frozenset((k, x) for k, x in s.upd if at(s.gen, k) != x))

    def __eq__(s, o): return isinstance(o, V) and s.norm() == o.norm()

    def __ne__(s, o): return not s == o

    def __hash__(s):
        if s._h is None: s._h = hash(s.norm())
        return s._h

    def __repr__(s): return vshow(s)


class Obj:
    __slots__ = ("cls", "name", "f", "_h")

    def __init__(s, cls, name, f): s.cls = cls; s.name = name; s.f = f; s._h = None

    def __eq__(s, o): return isinstance(o, Obj) and s.cls == o.cls and s.name == o.name and s.f == o.f

    def __ne__(s, o): return not s == o

    def __hash__(s):
        if s._h is None: s._h = hash((s.cls, s.name, frozenset(s.f.items())))
        return s._h

    def __repr__(s): return "%s<%s>" % (s.name, ",".join("%s=%s" % kv for kv in s.f.items()))


class Lam:
    __slots__ = ("node", "frames", "this")

    def __init__(s, node, frames, this): s.node = node; s.frames = frames; s.this = this

    def __eq__(s, o): return isinstance(o, Lam) and s.node is o.node and s.frames == o.frames

    def __hash__(s): return hash((id(s.node), s.frames))


class Ptr:
    __slots__ = ("loc",)

    def __init__(s, loc): s.loc = loc

    def __eq__(s, o): return isinstance(o, Ptr) and s.loc == o.loc

    def __hash__(s): return hash(("ptr", s.loc))

    def __repr__(s): return "ptr%s" % (s.loc,)


class Ref:
    """store entry that aliases another location"""
    __slots__ = ("loc",)

    def __init__(s, loc): s.loc = loc

    def __eq__(s, o): return isinstance(o, Ref) and s.loc == o.loc

    def __hash__(s): return hash(("ref", s.loc))


NULL = Ptr(None)
UNK = ("unk",)


def idx(d): return A("idx", d)


def at(gen, key):
    if gen is None: return None
    if not isinstance(gen, P): return gen
    return subst(gen, {atom_id(("idx", d)): k for d, k in enumerate(key)})


def isloop(p):
    a = p.single()
    return a if a is not None and _atoms[a][0] == "loop" else None


def loops_in(p):
    return [a for a in p.atoms() if _atoms[a][0] == "loop"]


def unify(pat, key):
    """pat: stored key; key: read key.  Returns substitution or None.  A bare loop index in the pattern stands for every index."""
    mp = {}
    if len(pat) != len(key): return None
    for p, k in zip(pat, key):
        if p == k: continue
        a = isloop(p)
        if a is not None:
            if a in mp and mp[a] != k: return None
            mp[a] = k; continue
        la = loops_in(p); lk = loops_in(k)
        if len(la) == 1 and len(lk) == 1:
            r = subst(p, {la[0]: P({((lk[0], 1),): Fraction(1)})})
            if r == k:
                mp[la[0]] = P({((lk[0], 1),): Fraction(1)}); continue
        return None
    return mp


def vget(v, key):
    for k, x in reversed(v.upd):
        if k == key: return x
    for k, x in reversed(v.upd):
        mp = unify(k, key)
        if mp is not None: return subst(x, mp) if isinstance(x, (P, V)) else x
    for k, x in reversed(v.upd):          # rows assigned as a whole
        if len(k) < len(key) and isinstance(x, V):
            if k == key[:len(k)]: return vget(x, key[len(k):])
            mp = unify(k, key[:len(k)])
            if mp is not None: return vget(subst(x, mp), key[len(k):])
    if v.gen is None: return None
    return at(v.gen, key)


def bare(k): return all(isloop(p) is not None for p in k)


def vset(v, key, x):
    for n_, (k, y) in enumerate(v.upd):
        if len(k) < len(key) and isinstance(y, V) and k == key[:len(k)]:
            u = list(v.upd); u[n_] = (k, vset(y, key[len(k):], x))
            return V(v.gen, tuple(u), v.name)
    u = []
    for k, y in v.upd:
        if k == key: continue
        if bare(key) and len(k) == len(key):
            # a full sweep replaces everything except the sections addressed by an offset (second halves)
            if all(p.const() is not None or isloop(p) is not None for p in k): continue
        u.append((k, y))
    u.append((key, x))
    if len(u) > 400: raise Give("too many elements")
    return V(v.gen, tuple(u), v.name)


def symvec(name, depth=1):
    return V(A("el", name, tuple(idx(d) for d in range(depth))), (), name)


# ------------------------------------------------------------------ the evaluator
class Ret:
    pass


class Ctx:
    def __init__(s): s.returns = []; s.brk = None; s.cont = None


PURE1 = {"sqrt": math.sqrt, "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan, "atan": math.atan,
         "asin": math.asin, "acos": math.acos, "fabs": abs, "abs": abs, "floor": math.floor, "ceil": math.ceil, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
         "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "log10": math.log10, "log2": math.log2}


class Eval:
    def __init__(s, prog, steps=60000, opaque=()):
        s.p = prog; s.n = 0; s.maxn = steps; s.nf = 0; s.depth = 0; s.stack = []; s.opaque = opaque
        s.gv = {}
        for v in prog.vars: s.gv.setdefault(v["id"], v)
        s.gq = {}
        for v in prog.vars: s.gq.setdefault(v["q"], v)
        s.lookguard = set()
        s.loopmod = []
        s.loopdepth = 0
        s.incatch = 0
        s.gcache = {}
        s.fixmemo = {}
        s.fnode = {}
        s.distinct = set()      # integer symbols assumed pairwise different
        s.notes = []
        s.abstrace = []; s.made = []
        s.inlined = set()

    peel = peeled = False
    maxsplit = 10
    mmterm = False        # minima, maxima and absolute values stay terms instead of being decided case by case
    made = ()
    partcls = ()          # classes whose objects, added to a list, are noted by their arguments
    opaquecls = ()        # classes whose objects are left unanalysed
    fixed = False         # classes derived from fixed-size vectors count as vectors, and their methods are entered

    def isfixed(s, b):
        """class without data of its own derived from a fixed-size vector"""
        if b in FIXED: return True
        if b not in s.fixmemo:
            r = s.p.recs.get(b); s.fixmemo[b] = False
            if r is not None and not r["fields"]:
                s.fixmemo[b] = any(s.isfixed(nt(x.get("q") or "") if isinstance(x, dict) else nt(str(x))) for x in r.get("bases") or [])
        return s.fixmemo[b]

    def isfixedT(s, t):
        return s.fixed and s.isfixed(nt(t.replace("const ", "").rstrip("&* ").strip()))
    split = None          # case mode: {sign/truth key: bool}; unknown branch conditions are decided case by case instead of joined

    def decide(s, key):
        if s.split is None: return None
        if key not in s.split:
            b = getattr(s.split, "bank", None)
            if b is not None:
                from . import calc
                try: v = b.force(s.split, key)
                except calc.Lost: v = None
                if v is not None: s.split[key] = v; s.split.forced.add(key); return v
            if len(s.split) - len(getattr(s.split, "forced", ())) >= s.maxsplit: raise Give("too many cases")
            s.split[key] = True
        return s.split[key]

    def simple(s, d):
        """squared roots resolved, so that a difference that vanishes identically is seen to"""
        if any(e >= 2 and _atoms[a][0] == "call" and _atoms[a][1] == "sqrt" for mo in d.m for a, e in mo):
            from . import calc
            try: return calc.reduce(d)
            except Give: pass
        return d

    def vanishes(s, d):
        """identically zero, written as a sum that only cancels over a common denominator"""
        if len(d.m) > 200 or not any(_atoms[a][0] == "poly" for a in d.atoms()): return False
        from . import calc
        b = getattr(s.split, "bank", None)
        try:
            for e in (b.envs[:3] if b is not None else ()):
                v, g = b.at(e, d)
                if abs(v) > 1e-9 * g: return False
        except (ValueError, ZeroDivisionError, OverflowError, TypeError, calc.Lost): pass
        return calc.identical(d, ZERO)

    def sign(s, d):
        """sign of a nonzero generic value in the current case (None: not in case mode)"""
        if s.split is None or not isinstance(d, P): return None
        d = s.simple(d)
        c = d.const()
        if c is not None: return (c > 0) - (c < 0)
        if any(_atoms[a][0] == "?" for a in d.atoms()): return None
        lead = d.m[min(d.m)]
        r = s.decide(("pos", P({k: v / lead for k, v in d.m.items()})))
        return (1 if r else -1) * (1 if lead > 0 else -1)

    def generic(s, op, d, isint):
        """truth of d op 0 in the current case; equalities of reals hold for no generic point"""
        if s.split is None or any(_atoms[a][0] == "?" for a in d.atoms()): return None
        d = s.simple(d); c = d.const()
        if c is not None: return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
        if isint and op in ("==", "!="):
            lead = d.m[min(d.m)]
            r = s.decide(("zero", P({k: v / lead for k, v in d.m.items()})))
            return r if op == "==" else not r
        if op in ("==", "!="): return op == "!="
        g = s.sign(d)
        return None if g is None else g < 0 if op[0] == "<" else g > 0

    def tick(s):
        s.n += 1
        if s.n > s.maxn: raise Give("step budget")

    # -------------------------------------------------- types
    def kindof(s, t):
        """'num' | 'vec' | 'ptr' | 'obj' by canonical type"""
        t = t.replace("const ", "").replace("volatile ", "").strip()
        while t.endswith("&"): t = t[:-1].strip()
        if t.endswith("const"): t = t[:-5].strip()
        if t.endswith("*"): return "ptr"
        if t.endswith("]"): return "vec"
        b = nt(t)
        if b in VECCLS: return "vec"
        if s.fixed and s.isfixed(b): return "vec"
        if b in ("double", "float", "long double", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long",
                 "bool", "char", "short", "unsigned char", "unsigned short", "signed char"): return "num"
        if b in s.p.enums: return "num"
        return "obj"

    def sym(s, name, t):
        k = s.kindof(t)
        if k == "num": return A("sym", name)
        if k == "vec": return symvec(name, 1)
        if k == "ptr": return ("uptr", name)
        return Obj(nt(t.replace("const ", "").rstrip("&* ").strip()), name, {})

    # -------------------------------------------------- store: dict (root) -> value; loc = (root, path); path items ('f',name)|('e',key)
    def deref(s, st, loc):
        """follow reference entries at the root"""
        for _ in range(20):
            root, path = loc
            v = st.get(root)
            if isinstance(v, Ref):
                loc = (v.loc[0], v.loc[1] + path)
            else: return loc
        raise Give("reference cycle")

    def read(s, st, loc, t=None):
        if loc is None: return fresh("noloc")
        loc = s.deref(st, loc)
        root, path = loc
        v = st.get(root)
        if v is None: return s.mk(fresh("uninit"), t)
        return s.readin(st, v, path, t, root)

    def mk(s, f, t):
        if t is None: return f
        k = s.kindof(t)
        if k == "num": return f
        nm = "?%d" % s.bump()
        if k == "vec": return symvec(nm)
        if k == "ptr": return ("uptr", nm)
        return Obj(nt(t), nm, {})

    def bump(s):
        _fresh[0] += 1
        return _fresh[0]

    def readin(s, st, v, path, t, root=None):
        i = 0
        while i < len(path):
            k, a = path[i]
            if isinstance(v, Ref):
                return s.read(st, (v.loc[0], v.loc[1] + path[i:]), t)
            if k == "f":
                if s.fixed and isinstance(v, V) and a.startswith("_val"): i += 1; continue
                if not isinstance(v, Obj): return s.mk(fresh("field of non-object"), t)
                if a not in v.f:
                    last = i == len(path) - 1
                    ft = s.fieldtype(v.cls, a) or (t if last else None)
                    if ft is None:
                        return s.mk(fresh("field"), t)
                    nv = s.constfield(v.cls, a)
                    if nv is None: nv = s.sym((v.name, a), ft)
                    v = nv
                else: v = v.f[a]
                root = (root, a)
                i += 1
            else:
                key = [a]; j = i + 1
                while j < len(path) and path[j][0] == "e": key.append(path[j][1]); j += 1
                if isinstance(v, tuple) and v and v[0] == "uptr":
                    v = symvec(v[1])
                if not isinstance(v, V): return s.mk(fresh("element of non-vector"), t)
                key = tuple(key)
                if s.loopmod:
                    for md in s.loopmod:
                        ks = md.get(root)
                        if ks is not None and key not in ks and not all(q.const() is not None for q in key) and v is not None:
                            if any(loops_in(q) for q in key): return s.mk(fresh("recurrence"), t)
                if j == len(path) and len(key) and t is not None and s.kindof(t) == "vec":
                    # a row: generic over one more index
                    return s.row(v, key)
                r = vget(v, key)
                if r is None: return s.mk(fresh("element"), t)
                v = r; i = j
        if isinstance(v, Ref): return s.read(st, v.loc, t)
        return v

    def row(s, v, key):
        n = len(key)
        g = None
        if isinstance(v.gen, P):
            g = subst(v.gen, {**{atom_id(("idx", d)): k for d, k in enumerate(key)}, atom_id(("idx", n)): idx(0)})
        elif v.gen is not None: g = v.gen
        if isinstance(g, P) and not any(_atoms[a] == ("idx", 0) for a in g.atoms()) and isinstance(v.gen, P):
            # vector of vectors whose depth was unknown
            sg = v.gen.single()
            if sg is not None and _atoms[sg][0] == "el" and len(_atoms[sg][2]) == 1:
                g = A("el", _atoms[sg][1], tuple(key) + (idx(0),))
        u = []
        for k, x in v.upd:
            if k == key and isinstance(x, V): return x
        for k, x in v.upd:
            if k[:n] == key and len(k) > n: u.append((k[n:], x))
            elif len(k) > n:
                mp = unify(k[:n], key)
                if mp is not None: u.append((subst(k[n:], mp), subst(x, mp)))
        return V(g, tuple(u))

    def constfield(s, cls, name):
        """value of a member that keeps its in-class initialiser (no member function writes it)"""
        r = s.p.recs.get(cls)
        f = next((f for f in r["fields"] if f["n"] == name), None) if r else None
        if f is None or not f.get("ini") or not f.get("c"): return None
        from .effects import effects
        e = effects()
        for g in s.p.bycls.get(cls, []):
            if ("this", name) in e.sum.get(g.key, ()): return None
        v, _ = s.ev(f["c"][0], {}, (0,), None, Ctx())
        return v

    def fieldtype(s, cls, name):
        st = [cls]; seen = set()
        while st:
            c = st.pop()
            if c in seen: continue
            seen.add(c)
            r = s.p.recs.get(c) or s.p.recs.get(nt(c))
            if r is None: continue
            for f in r["fields"]:
                if f["n"] == name: return s.p.tc.get(f["t"], "?")
            for b in r.get("bases") or []:
                st.append(nt(b.get("q") or b.get("n") or "") if isinstance(b, dict) else nt(str(b)))
        return None

    def write(s, st, loc, v):
        if loc is None: return
        loc = s.deref(st, loc)
        root, path = loc
        cur = st.get(root)
        st[root] = s.writein(st, cur, path, v)

    def writein(s, st, cur, path, v):
        if not path: return v
        if isinstance(cur, Ref):
            s.write(st, (cur.loc[0], cur.loc[1] + path), v); return cur
        k, a = path[0]
        if k == "f":
            if s.fixed and isinstance(cur, V) and a.startswith("_val"): return s.writein(st, cur, path[1:], v)
            if not isinstance(cur, Obj): cur = Obj("?", "?%d" % s.bump(), {})
            sub = cur.f.get(a)
            if sub is None and len(path) > 1:
                sub = s.readin(st, cur, path[:1], None)
            nf = dict(cur.f); nf[a] = s.writein(st, sub, path[1:], v)
            return Obj(cur.cls, cur.name, nf)
        key = [a]; j = 1
        while j < len(path) and path[j][0] == "e": key.append(path[j][1]); j += 1
        if isinstance(cur, tuple) and cur and cur[0] == "uptr": cur = symvec(cur[1])
        if not isinstance(cur, V): cur = symvec("?%d" % s.bump())
        if j < len(path):
            sub = vget(cur, tuple(key))
            return vset(cur, tuple(key), s.writein(st, sub, path[j:], v))
        key = tuple(key)
        return vset(cur, key, v)


    # -------------------------------------------------- joins
    def join(s, a, b):
        """two states"""
        if a is None: return b
        if b is None: return a
        r = {}
        for k in a.keys() | b.keys():
            x = a.get(k); y = b.get(k)
            if x is None or y is None:
                r[k] = x if y is None else y      # declared on one side only: dead afterwards
                continue
            r[k] = x if x is y else s.joinv(x, y)
        return r

    def joinv(s, x, y):
        if x is y or (type(x) == type(y) and x == y): return x
        if isinstance(x, Obj) and isinstance(y, Obj):
            f = {}
            for k in x.f.keys() | y.f.keys():
                xa = x.f.get(k); ya = y.f.get(k)
                if xa is None or ya is None:
                    o = x if xa is None else y
                    ft = s.fieldtype(o.cls, k)
                    if ft is None:
                        f[k] = xa if ya is None else ya; f[k] = s.havocv(f[k]); continue
                    d = s.sym((o.name, k), ft)
                    xa = d if xa is None else xa; ya = d if ya is None else ya
                f[k] = s.joinv(xa, ya)
            return Obj(x.cls, x.name if x.name == y.name else "?%d" % s.bump(), f)
        if isinstance(x, V) and isinstance(y, V):
            keys = []
            for k, _ in x.upd + y.upd:
                if k not in keys: keys.append(k)
            g = x.gen if x.gen == y.gen else s.phi(x.gen, y.gen, True)
            u = []
            for k in keys:
                xa = vget(x, k); ya = vget(y, k)
                u.append((k, s.joinv(xa, ya) if xa is not None and ya is not None else fresh("join")))
            return V(g, tuple(u), x.name if x.name == y.name else None)
        if isinstance(x, P) and isinstance(y, P): return s.phi(x, y, False)
        return s.havocv(x)

    def phi(s, x, y, gen):
        _fresh[0] += 1
        if gen:
            nm = "?%d" % _fresh[0]
            r = A("el", nm, (idx(0),))
            PHI[nm] = (x, y)
        else:
            r = A("?", _fresh[0], "phi")
            PHI[r.single()] = (x, y)
        return r

    def havocv(s, v):
        if isinstance(v, P): return fresh("havoc")
        if isinstance(v, V):
            d = 1
            if v.upd: d = max(len(k) for k, _ in v.upd)
            return symvec("?%d" % s.bump(), d)
        if isinstance(v, Obj): return Obj(v.cls, "?%d" % s.bump(), {k: (x if isinstance(x, Ref) else s.havocv(x)) for k, x in v.f.items()})
        if isinstance(v, Ptr): return ("uptr", "?%d" % s.bump())
        if isinstance(v, (Lam, Ref)): return v
        if isinstance(v, tuple): return ("uptr", "?%d" % s.bump())
        return v

    # -------------------------------------------------- function calls
    def run(s, f, args, this=None, st=None):
        """evaluate function f with argument values (by parameter); returns (value, state)"""
        st = dict(st or {})
        s.nf += 1; fr = s.nf
        for p, a in zip(f.params, args):
            st[(fr, p["id"])] = a
        if this is not None and ("this", fr) not in st: pass
        s.stack.append(f.key)
        try: v, st2 = s.body(f, f.body, st, (fr,), this)
        finally: s.stack.pop()
        if isinstance(v, tuple) and v and v[0] == "loc": v = s.read(st2, v[1], s.p.tc.get(f.get("ret"), None))
        return v, st2, fr

    def body(s, f, body, st, frames, this, inits=None):
        s.depth += 1
        if s.depth > 40: s.depth -= 1; raise Give("call depth")
        cx = Ctx()
        try:
            if inits:
                st = s.doinits(f, inits, st, frames, this, cx)
            out = s.stmt(body, st, frames, this, cx) if body is not None else st
        finally:
            s.depth -= 1
        rs = [(v, q) for v, q, c in cx.returns if not c] or ([(v, q) for v, q, c in cx.returns] if out is None else [])
        rs = [(s.rv(v, q), q) for v, q in rs]
        if out is not None: rs.append((None, out))
        if s.depth == 0: s.exits = rs
        if not rs: return None, None
        v, q = rs[0]
        for v2, q2 in rs[1:]:
            if v is None: v = v2
            elif v2 is not None: v = s.joinret(v, v2)
            q = s.join(q, q2)
        return v, q

    def rv(s, v, q):
        """returned locations of local objects are read before the frames disappear (references to outer objects stay locations)"""
        return v

    def joinret(s, a, b):
        if isinstance(a, tuple) and a and a[0] == "loc" or isinstance(b, tuple) and b and b[0] == "loc":
            return a if a == b else fresh("join")
        return s.joinv(a, b) if type(a) == type(b) else fresh("join")

    def doinits(s, f, inits, st, frames, this, cx):
        for i in inits:
            if s.fixed and i.get("bq") and i.get("c") and isinstance(st.get(this[0]), V) and not this[1]:
                v, st = s.ev(i["c"][0], st, frames, this, cx)
                if st is None: return None
                st = dict(st)
                if isinstance(v, V): st[this[0]] = v
                continue
            if s.split is not None and not i.get("m") and i.get("c"):        # delegating constructor or base part
                n = strip(i["c"][0]); g = s.p.fns.get(n.get("ck")) if n.get("ck") else None
                if n["k"] == "Ctor" and g is not None and g.kind == "ctor" and (g.get("inits") or g.body) and s.depth < 30 and g.key not in s.stack:
                    s.nf += 1; nf = s.nf
                    st = s.bind(g.params, n.get("c", []), st, frames, this, cx, nf)
                    if st is None: return None
                    s.stack.append(g.key)
                    try: _, st = s.body(g, g.body, st, (nf,), this, g.get("inits") or [])
                    finally: s.stack.pop()
                    if st is None: return None
                continue
            if i.get("m") and i.get("c"):
                ft = s.fieldtype(f.cls or "", i["m"])
                isref = ft is not None and ft.endswith("&")
                if isref:
                    loc, st = s.lval(i["c"][0], st, frames, this, cx)
                    if loc is not None:
                        s.write(st, (this[0], this[1] + (("f", i["m"]),)), Ref(loc)); continue
                v, st = s.ev(i["c"][0], st, frames, this, cx)
                if st is None: return None
                if ft is not None and s.kindof(ft) == "vec" and not isinstance(v, V): v = symvec("?%d" % s.bump())
                s.write(st, (this[0], this[1] + (("f", i["m"]),)), v)
        return st

    # -------------------------------------------------- statements
    def stmt(s, n, st, fr, th, cx):
        if st is None or n is None: return st
        s.tick()
        k = n["k"]
        m = getattr(s, "s_" + k, None)
        if m is not None: return m(n, st, fr, th, cx)
        v, st = s.ev(n, st, fr, th, cx)
        return st

    def s_Block(s, n, st, fr, th, cx):
        for c in n.get("c", []):
            st = s.stmt(c, st, fr, th, cx)
            if st is None: return None
        return st

    def s_Decl(s, n, st, fr, th, cx):
        for c in n.get("c", []):
            if c["k"] == "Var": st = s.s_Var(c, st, fr, th, cx)
            if st is None: return None
        return st

    def s_Var(s, c, st, fr, th, cx):
        t = s.p.T(c)
        key = (fr[0], c["id"])
        st = dict(st)
        if c.get("c"):
            ini = c["c"][0]
            if t.endswith("&"):
                loc, st = s.lval(ini, st, fr, th, cx)
                if st is None: return None
                if loc is not None:
                    st[key] = Ref(s.deref(st, loc)); return st
            v, st = s.ev(ini, st, fr, th, cx)
            if st is None: return None
            st = dict(st)
            if isinstance(v, tuple) and v and v[0] == "loc": v = s.read(st, v[1], t)
            if s.kindof(t) == "vec" and not isinstance(v, V): v = symvec("?%d" % s.bump())
            if s.kindof(t) == "num" and not isinstance(v, P): v = fresh("init")
            st[key] = v
        else:
            st[key] = s.mk(fresh("uninit"), t)
        return st

    def s_Return(s, n, st, fr, th, cx):
        v = None
        if n.get("c"):
            if n.get("_ref"): pass
            v, st = s.ev(n["c"][0], st, fr, th, cx, want_loc=True)
            if st is None: return None
        cx.returns.append((v, st, s.incatch))
        return None

    def s_If(s, n, st, fr, th, cx):
        if n.get("init"): st = s.stmt(n["init"], st, fr, th, cx)
        if st is None: return None
        if n.get("cv_"):
            st = s.stmt(n["cv_"], st, fr, th, cx)
            if st is None: return None
        v, st = s.ev(n["cond"], st, fr, th, cx) if n.get("cond") else (None, st)
        if st is None: return None
        b = s.truth(v)
        a = s.stmt(n.get("then"), dict(st), fr, th, cx) if b is not False else None
        e = (s.stmt(n.get("else"), dict(st), fr, th, cx) if n.get("else") else st) if b is not True else None
        return s.join(a, e)

    def truth(s, v):
        if isinstance(v, P):
            c = v.const()
            return None if c is None else c != 0
        if isinstance(v, Ptr): return v.loc is not None
        return None

    def s_Throw(s, n, st, fr, th, cx): return None

    def s_Break(s, n, st, fr, th, cx):
        cx.brk.append(st); return None

    def s_Continue(s, n, st, fr, th, cx):
        cx.cont.append(st); return None

    def s_Try(s, n, st, fr, th, cx):
        out = s.stmt(n.get("body"), dict(st), fr, th, cx)
        # handlers run after a failure: their results are not the computed value; a path that falls through is joined
        for h in n.get("h", []):
            s.incatch += 1
            try:
                hst = {k: v for k, v in st.items()}
                r = s.stmt(h.get("body"), hst, fr, th, cx)
            finally: s.incatch -= 1
            if r is not None: out = s.join(out, r)
        return out

    def s_Switch(s, n, st, fr, th, cx):
        v, st = s.ev(n["cond"], st, fr, th, cx)
        if st is None: return None
        obrk, cx.brk = cx.brk, []
        cur = None; hasdef = False; items = n["body"].get("c", []) if n.get("body") else []
        c0 = v.const() if isinstance(v, P) else None
        for it in items:
            x = it
            while x is not None and x["k"] in ("Case", "Default"):
                if x["k"] == "Default": hasdef = True; cur = s.join(cur, dict(st))
                else:
                    cv = const(x.get("v")) if x.get("v") else None
                    if c0 is None or cv is None or c0 == cv: cur = s.join(cur, dict(st))
                x = x["c"][0] if x.get("c") else None
            if cur is not None and x is not None: cur = s.stmt(x, cur, fr, th, cx)
        out = cur if hasdef else s.join(cur, st)
        for b in cx.brk: out = s.join(out, b)
        cx.brk = obrk
        return out

    # ---- loops
    def iterate(s, st, fr, th, cx, cond, body, inc, dowhile=False, once=None):
        """general loop with unknown trip count"""
        obrk, ocont = cx.brk, cx.cont
        if s.split is not None:
            sp, s.split = s.split, None
            try: return s.iterate(st, fr, th, cx, cond, body, inc, dowhile, once)
            finally: s.split = sp
        # pass 1: discover what changes
        def one(st0):
            cx.brk = []; cx.cont = []
            s1 = st0; cf = None
            if cond is not None and not dowhile:
                v, s1 = s.ev(cond, s1, fr, th, cx)
                if s1 is None: return None, []
                b = s.truth(v)
                cf = s1 if b is not True else None
                if b is False: return None, [cf]
            s2 = s.stmt(body, dict(s1), fr, th, cx)
            for c in cx.cont: s2 = s.join(s2, c)
            if s2 is not None and inc is not None: _, s2 = s.ev(inc, s2, fr, th, cx)
            ex = list(cx.brk)
            if dowhile and s2 is not None:
                v, s2 = s.ev(cond, s2, fr, th, cx)
                if s2 is not None and s.truth(v) is not True: ex.append(s2)
            if cf is not None: ex.append(cf)
            return s2, ex
        nret = len(cx.returns)
        if s.peel:                                   # only what a second iteration does, starting from the exact state the first one leaves
            s.peel = False; s.peeled = True
            s1, _ = one(dict(st))
            if s1 is None: raise Give("no second iteration")
            del cx.returns[nret:]
            s2, ex = one(dict(s1))
            cx.brk, cx.cont = obrk, ocont
            out = None
            for e in ex: out = s.join(out, e)
            return out
        mod = set()
        head = dict(st)
        for it in range(3):
            del cx.returns[nret:]
            s2, ex = one(dict(head))
            new = set()
            if s2 is not None:
                for k in head:
                    if k in s2 and s2[k] is not head[k] and s2[k] != head[k] and k not in mod: new.add(k)
            if not new: break
            mod |= new
            for k in new: head[k] = s.havocchanged(head[k], s2[k])
        else:
            pass
        cx.brk, cx.cont = obrk, ocont
        out = None
        for e in ex: out = s.join(out, e)
        return out

    def havocchanged(s, a, b):
        if isinstance(a, Obj) and isinstance(b, Obj):
            f = dict(a.f)
            for k in b.f:
                if k not in a.f:
                    ft = s.fieldtype(a.cls, k)
                    f[k] = s.havocv(b.f[k])
                elif a.f[k] != b.f[k]: f[k] = s.havocchanged(a.f[k], b.f[k])
            return Obj(a.cls, a.name, f)
        return s.havocv(a)

    def s_While(s, n, st, fr, th, cx):
        return s.iterate(st, fr, th, cx, n.get("cond"), n.get("body"), None)

    def s_Do(s, n, st, fr, th, cx):
        return s.iterate(st, fr, th, cx, n.get("cond"), n.get("body"), None, dowhile=True)

    def s_For(s, n, st, fr, th, cx):
        st = dict(st)
        if n.get("init"): st = s.stmt(n["init"], st, fr, th, cx)
        if st is None: return None
        cond, inc, body = n.get("cond"), n.get("inc"), n.get("body")
        # constant trip count: unroll
        obrk, ocont = cx.brk, cx.cont
        cur = dict(st); done = []
        n0 = s.n
        for it in range(200):
            cx.brk, cx.cont = [], []
            b = None
            if cond is None: break
            sp, s.split = s.split, None
            try: v, c2 = s.ev(cond, cur, fr, th, cx)
            finally: s.split = sp
            b = s.truth(v)
            if b is None or c2 is None: break
            if b is False:
                cx.brk, cx.cont = obrk, ocont
                out = cur
                for d in done: out = s.join(out, d)
                return out
            c2 = s.stmt(body, dict(c2), fr, th, cx)
            for q in cx.cont: c2 = s.join(c2, q)
            done += cx.brk
            if c2 is None:
                cx.brk, cx.cont = obrk, ocont
                out = None
                for d in done: out = s.join(out, d)
                return out
            if inc is not None: _, c2 = s.ev(inc, c2, fr, th, cx)
            cur = c2
        cx.brk, cx.cont = obrk, ocont
        if b is not None and cond is not None: raise Give("long loop")
        return s.symloop(n, cur if it == 0 else s.merge(st, cur), fr, th, cx, done)

    def merge(s, a, b): return b

    def loopvar(s, n, st, fr):
        """location root of the index variable and its bounds, for `for (i = a; i < b; ++i)` shapes"""
        inc = strip(n.get("inc")) if n.get("inc") else None
        cond = strip(n.get("cond")) if n.get("cond") else None
        if inc is None or cond is None: return None
        v = None
        if inc["k"] == "Un" and inc["op"] in ("++", "p++", "--", "p--"): v = strip(inc["c"][0])
        elif inc["k"] == "Bin" and inc["op"] in ("+=", "-=") and const(inc["c"][1]) == 1: v = strip(inc["c"][0])
        if v is None or v["k"] != "Ref": return None
        for f in fr:
            if (f, v["id"]) in st: return (f, v["id"])
        return None

    def symloop(s, n, st, fr, th, cx, done):
        if s.split is not None:
            sp, s.split = s.split, None
            try: return s.symloop(n, st, fr, th, cx, done)
            finally: s.split = sp
        lv = s.loopvar(n, st, fr)
        body, inc, cond = n.get("body"), n.get("inc"), n.get("cond")
        hasbrk = any(x["k"] == "Break" for x in walk(body)) if body else False
        if lv is None:
            return s.iterate(st, fr, th, cx, cond, body, inc)
        st = dict(st); start = st.get(lv)
        st = s.sweep(lv, start, st, fr, th, cx, body, lambda q: s.bnd(cond, lv, q, fr, th, cx))
        return st

    def bnd(s, cond, lv, st, fr, th, cx):
        c = strip(cond)
        if c["k"] == "Bin" and c["op"] in ("<", "<=", "!=", ">", ">="):
            for a, b in ((0, 1), (1, 0)):
                x = strip(c["c"][a])
                if x["k"] == "Ref" and x.get("id") == lv[1]:
                    v, _ = s.ev(c["c"][b], dict(st), fr, th, cx)
                    return v if isinstance(v, P) else None
        return None

    def sweep(s, lv, start, st, fr, th, cx, body, bound):
        """one generic iteration: the index is an arbitrary one, effects on other scalars are lost, element writes are kept"""
        s.loopdepth += 1
        try:
            b = bound(st)
            la = A("loop", s.loopdepth, start if isinstance(start, P) else None, b)
            obrk, ocont = cx.brk, cx.cont
            nret = len(cx.returns)
            head = dict(st); head[lv] = la
            head0 = dict(head)
            mod = {}
            ex = []
            s2 = None
            for it in range(4):
                del cx.returns[nret:]
                cx.brk, cx.cont = [], []
                s.loopmod.append(mod)
                try: s2 = s.stmt(body, dict(head), fr, th, cx)
                finally: s.loopmod.pop()
                for c in cx.cont: s2 = s.join(s2, c)
                ex = list(cx.brk)
                if s2 is None: break
                new = False
                for k in head0:
                    if k == lv or k not in s2: continue
                    nv = s.loopmerge(head[k], s2[k], la, mod, k)
                    if nv is not head[k] and nv != head[k]: head[k] = nv; new = True
                if not new: break
            cx.brk, cx.cont = obrk, ocont
            out = None
            if s2 is not None:
                out = dict(s2)
                # values carried around the loop (not element sweeps) are those of the loop head
                for k in head0:
                    if k in s2 and k != lv: out[k] = s.aftersweep(head[k], s2[k], la)
                out[lv] = b if isinstance(b, P) else fresh("loop exit")
            if ex:
                for e in ex: out = s.join(out, e)
            if out is None: out = dict(head)
            return out
        finally: s.loopdepth -= 1

    def loopmerge(s, h, v, la, mod, root):
        """what the loop head must assume about an entry whose value changed in the body"""
        if h is v or h == v: return h
        if isinstance(h, V) and isinstance(v, V):
            ok = h.gen == v.gen
            hk = dict(h.upd)
            keys = []
            for k, x in v.upd:
                if k in hk and hk[k] == x: continue
                if not any(la.single() in q.atoms() for q in k): ok = False
                keys.append(k)
            if ok:
                mod.setdefault(root, set()).update(keys)
                # elements visited by earlier iterations keep what this iteration leaves behind
                ot = A("other", s.loopdepth); mp = {la.single(): ot}
                u = list(h.upd)
                for k in keys:
                    if not isinstance(vget(v, k), P) or vget(h, k) == vget(v, k): continue
                    ko = tuple(subst(q, mp) for q in k); xo = subst(vget(v, k), mp)
                    if (ko, xo) not in u: u = [y for y in u if y[0] != ko] + [(ko, xo)]
                if len(u) != len(h.upd) or any(a != b for a, b in zip(u, h.upd)):
                    if not hasattr(s, "otherdone"): s.otherdone = {}
                    c = s.otherdone[(root, id(la))] = s.otherdone.get((root, id(la)), 0) + 1
                    if c <= 2: return V(h.gen, tuple(u), h.name)
                return h
            return s.havocv(h)
        if isinstance(h, Obj) and isinstance(v, Obj):
            f = dict(h.f); ch = False
            for k, x in v.f.items():
                if k not in f:
                    ft = s.fieldtype(h.cls, k)
                    if isinstance(x, V) and ft: f[k] = s.loopmerge(s.sym((h.name, k), ft), x, la, mod, (root, k))
                    else: f[k] = s.havocv(x)
                    ch = True
                else:
                    y = s.loopmerge(f[k], x, la, mod, (root, k))
                    if y is not f[k]: f[k] = y; ch = True
            return Obj(h.cls, h.name, f) if ch else h
        if isinstance(h, P):
            a = h.single()
            if a is not None and _atoms[a][0] == "?" : return h
        elif isinstance(h, (Ptr, Ref, Lam, tuple)): return s.havocv(h)
        return s.havocv(h)

    def aftersweep(s, h, v, la):
        if (h is v or h == v) and not isinstance(v, (V, Obj)): return v
        if isinstance(h, V) and isinstance(v, V):
            oid = atom_id(("other", s.loopdepth))
            if any(oid in q.atoms() for k, _ in v.upd for q in k):
                v = V(v.gen, tuple((k, x) for k, x in v.upd if not any(oid in q.atoms() for q in k)), v.name)
            return v
        if isinstance(h, Obj) and isinstance(v, Obj):
            f = {}
            for k, x in v.f.items():
                f[k] = s.aftersweep(h.f[k], x, la) if k in h.f else x
            return Obj(v.cls, v.name, f)
        return s.havocv(h)

    def s_RFor(s, n, st, fr, th, cx):
        rng = n.get("range"); var = n.get("var"); body = n.get("body")
        loc, st = s.lval(rng, dict(st), fr, th, cx)
        if st is None: return None
        if loc is None:
            v, st = s.ev(rng, st, fr, th, cx)
            st = dict(st); key = ("tmp", s.bump()); st[key] = v if isinstance(v, V) else symvec("?%d" % s.bump()); loc = (key, ())
        loc = s.deref(st, loc)
        lv = (fr[0], "rf%d" % s.bump())
        st = dict(st); st[lv] = ZERO
        vk = (fr[0], var["id"])
        isref = s.p.T(var).endswith("&")

        class _B: pass
        fake = {"k": "_RBody", "vk": vk, "loc": loc, "lv": lv, "isref": isref, "body": body, "t": var.get("t"), "l": n.get("l", 0)}
        return s.sweep(lv, ZERO, st, fr, th, cx, fake, lambda q: None)

    def s__RBody(s, n, st, fr, th, cx):
        st = dict(st)
        loc = (n["loc"][0], n["loc"][1] + (("e", st[n["lv"]]),))
        if n["isref"]: st[n["vk"]] = Ref(loc)
        else: st[n["vk"]] = s.read(st, loc, s.p.T(n))
        return s.stmt(n["body"], st, fr, th, cx)

    # -------------------------------------------------- lvalues
    def lval(s, n, st, fr, th, cx):
        """location denoted by an expression or None; returns (loc, state)"""
        s.tick()
        k = n["k"]
        if k in ("ICast", "Cast", "DefArg", "DefInit") and n.get("c"):
            if k == "ICast" and n.get("ck") in ("IntegralToFloating", "FloatingToIntegral", "IntegralCast", "FloatingCast", "LValueToRValue2"): return None, st
            if k == "Cast" and n.get("cs") == "CXXDynamicCastExpr": return None, st
            if k == "Cast" and s.kindof(s.p.T(n)) == "num" and s.p.T(n) != s.p.T(n["c"][0]): return None, st
            return s.lval(n["c"][0], st, fr, th, cx)
        if k == "Ref":
            if n.get("dk") in ("local", "parm", "bind", None) or "id" in n:
                for f in fr:
                    if (f, n["id"]) in st: return ((f, n["id"]), ()), st
                g = s.gv.get(n["id"]) or s.gq.get(n.get("q"))
                if g is not None:
                    key = ("g", g["id"])
                    if key not in st:
                        st = dict(st); st[key] = s.gval(g)
                    return (key, ()), st
            return None, st
        if k == "This": return None, st
        if k == "Mem":
            b = n["c"][0] if n.get("c") else None
            if n.get("dk") == "static" or b is None:
                g = s.gq.get(n.get("q") or "")
                if g is not None:
                    key = ("g", g["id"])
                    if key not in st: st = dict(st); st[key] = s.gval(g)
                    return (key, ()), st
            if b is None: return None, st
            if strip(b)["k"] == "This" or b["k"] == "This":
                if th is None: return None, st
                return (th[0], th[1] + (("f", n["n"]),)), st
            if n.get("arrow"):
                v, st = s.ev(b, st, fr, th, cx)
                if st is None: return None, None
                if isinstance(v, Ptr) and v.loc is not None: return (v.loc[0], v.loc[1] + (("f", n["n"]),)), st
                return None, st
            loc, st = s.lval(b, st, fr, th, cx)
            if st is None: return None, None
            if loc is None:
                v, st = s.ev(b, st, fr, th, cx)
                if st is None: return None, None
                st = dict(st); key = ("tmp", s.bump()); st[key] = v; loc = (key, ())
            return (loc[0], loc[1] + (("f", n["n"]),)), st
        if k == "Idx":
            return s.elem(n["c"][0], [n["c"][1]], st, fr, th, cx)
        if k == "Un" and n["op"] == "*":
            x = strip(n["c"][0])
            if x["k"] == "This": return th, st
            v, st = s.ev(n["c"][0], st, fr, th, cx)
            if st is None: return None, None
            if isinstance(v, Ptr) and v.loc is not None: return v.loc, st
            return None, st
        if k == "Un" and n["op"] in ("++", "--"):
            _, st = s.ev(n, st, fr, th, cx)
            if st is None: return None, None
            return s.lval(n["c"][0], st, fr, th, cx)
        if k == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            _, st = s.ev(n, st, fr, th, cx)
            if st is None: return None, None
            return s.lval(n["c"][0], st, fr, th, cx)
        if k == "Call":
            fn = n.get("fn") or ""
            if fn in ("std::move", "std::forward") and n.get("c"): return s.lval(n["c"][0], st, fr, th, cx)
            if s.iselem(n): return s.elem(n["obj"] if n.get("obj") else n["c"][0], n["c"] if n.get("obj") else n["c"][1:], st, fr, th, cx)
            v, st = s.call(n, st, fr, th, cx, want_loc=True)
            if st is None: return None, None
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "loc": return v[1], st
            if v is None: return None, st
            st = dict(st); key = ("tmp", s.bump()); st[key] = v
            return (key, ()), st
        return None, st

    def iselem(s, n):
        if n["k"] != "Call": return False
        cls = n.get("cls") or ""
        if cls in VECCLS or s.kindof(s.p.T(n["obj"]) if n.get("obj") else "?") == "vec":
            if n.get("op") in ("[]", "()"): return True
            if (n.get("fn") or "").split("::")[-1] == "at": return True
        return False

    def elem(s, base, idxs, st, fr, th, cx):
        loc, st = s.lval(base, st, fr, th, cx)
        if st is None: return None, None
        if loc is None:
            v, st = s.ev(base, st, fr, th, cx)
            if st is None: return None, None
            if isinstance(v, Ptr) and v.loc is not None: loc = v.loc
            else:
                if isinstance(v, tuple) and v and v[0] == "uptr": v = symvec(v[1])
                st = dict(st); key = ("tmp", s.bump()); st[key] = v; loc = (key, ())
        else:
            # pointer variable indexed as an array
            cur = s.read(st, loc, s.p.T(base))
            if isinstance(cur, Ptr) and cur.loc is not None: loc = cur.loc
            elif isinstance(cur, tuple) and cur and cur[0] == "uptr":
                st = dict(st); key = ("up", cur[1])
                if key not in st: st[key] = symvec(cur[1])
                loc = (key, ())
        path = loc[1]
        for i in idxs:
            v, st = s.ev(i, st, fr, th, cx)
            if st is None: return None, None
            if not isinstance(v, P): v = fresh("index")
            path = path + (("e", v),)
        return (loc[0], path), st

    # -------------------------------------------------- expressions
    def ev(s, n, st, fr, th, cx, want_loc=False):
        """returns (value, state)"""
        s.tick()
        k = n["k"]
        if k in ("ICast", "Cast", "DefArg", "DefInit"):
            if not n.get("c"): return s.mk(fresh("cast"), s.p.T(n)), st
            if n.get("ck") == "NullToPointer": return NULL, st
            v, st = s.ev(n["c"][0], st, fr, th, cx, want_loc)
            if st is None: return None, None
            if n.get("ck") == "FloatingToIntegral" or (k == "Cast" and isinstance(v, P) and s.isint(s.p.T(n)) and not s.isint(s.p.T(n["c"][0]))):
                if isinstance(v, tuple) and v[0] == "loc": v = s.read(st, v[1], s.p.T(n["c"][0]))
                c = v.const() if isinstance(v, P) else None
                if c is not None: return C(int(c)), st
                return A("call", "int", v) if isinstance(v, P) else fresh("int"), st
            if n.get("ck") == "PointerToBoolean":
                b = s.truth(v)
                return (C(int(b)) if b is not None else fresh("null?")), st
            if k == "Cast" and s.kindof(s.p.T(n)) == "num" and not isinstance(v, P) and not (isinstance(v, tuple) and v and v[0] == "loc"): v = fresh("cast")
            return v, st
        if k == "Int": return C(int(n["v"])), st
        if k == "Bool": return C(int(n["v"])), st
        if k == "Char": return C(int(n["v"])), st
        if k == "Float": return C(flit(n)), st
        if k == "Null": return NULL, st
        if k == "Ref" and n.get("dk") == "fn" and s.fixed:
            f = s.p.fns.get(n.get("ck")) if n.get("ck") else None
            if f is not None and f.body is not None and n.get("stc", 1):
                if f.key not in s.fnode: s.fnode[f.key] = {"k": "Lambda", "params": f.params, "body": f.body}
                return Lam(s.fnode[f.key], (), None), st
        if k in ("Ref", "Mem", "Idx"):
            # arrays and objects with known contents are read from the store, named constants from their value
            if "cv" in n and k == "Ref" and n.get("dk") in ("enum",):
                return C(cvnum(n["cv"])), st
            loc, st2 = s.lval(n, st, fr, th, cx)
            if st2 is None: return None, None
            if loc is not None:
                if want_loc: return ("loc", loc), st2
                v = s.read(st2, loc, s.p.T(n))
                if "cv" in n and isinstance(v, P) and any(_atoms[a][0] in ("?", "sym", "call", "poly") for a in v.atoms()): v = C(cvnum(n["cv"]))
                return v, st2
            if "cv" in n: return C(cvnum(n["cv"])), st2
            return s.mk(fresh("ref " + n.get("n", "?")), s.p.T(n)), st2
        if k == "This":
            return (Ptr(th) if th is not None else ("uptr", "this")), st
        if k == "Un": return s.e_Un(n, st, fr, th, cx)
        if k == "Bin": return s.e_Bin(n, st, fr, th, cx)
        if k == "Cond":
            v, st = s.ev(n["c"][0], st, fr, th, cx)
            if st is None: return None, None
            b = s.truth(v)
            if b is True: return s.ev(n["c"][1], st, fr, th, cx)
            if b is False: return s.ev(n["c"][2], st, fr, th, cx)
            x, s1 = s.ev(n["c"][1], dict(st), fr, th, cx)
            y, s2 = s.ev(n["c"][2], dict(st), fr, th, cx)
            if s1 is None: return y, s2
            if s2 is None: return x, s1
            return s.joinv(x, y) if type(x) == type(y) else s.joinptr(x, y), s.join(s1, s2)
        if k == "Lambda": return Lam(n, fr, th), st
        if k in ("Ctor",): return s.ctor(n, st, fr, th, cx)
        if k == "InitList":
            t = s.p.T(n)
            if s.kindof(t) == "vec" or "initializer_list" in t:
                u = []
                if len(n.get("c", [])) == 1 and s.p.T(n["c"][0]).replace("const ", "") == t.replace("const ", ""): return s.ev(n["c"][0], st, fr, th, cx)
                for i, c in enumerate(n.get("c", [])):
                    v, st = s.ev(c, st, fr, th, cx)
                    if st is None: return None, None
                    if isinstance(v, V) and not v.gen_is_sym() if hasattr(v, "gen_is_sym") else False: pass
                    if isinstance(v, V):
                        for kk, x in v.upd: u.append(((C(i),) + kk, x))
                    else: u.append(((C(i),), v))
                return V(ZERO, tuple(u)), st
            if s.kindof(t) == "num":
                if n.get("c"): return s.ev(n["c"][0], st, fr, th, cx)
                return ZERO, st
            if s.kindof(t) == "ptr": return NULL, st
            r = s.p.recs.get(nt(t)) or s.p.recs.get(t)
            f = {}
            fl = [x["n"] for x in r["fields"]] if r else []
            for i, c in enumerate(n.get("c", [])):
                v, st = s.ev(c, st, fr, th, cx)
                if st is None: return None, None
                if i < len(fl): f[fl[i]] = v
            return Obj(nt(t), "?%d" % s.bump(), f), st
        if k == "ZeroInit":
            return (ZERO if s.kindof(s.p.T(n)) == "num" else V(ZERO) if s.kindof(s.p.T(n)) == "vec" else s.mk(fresh("zero"), s.p.T(n))), st
        if k == "Call":
            if s.iselem(n):
                loc, st = s.lval(n, st, fr, th, cx)
                if st is None: return None, None
                if want_loc and loc is not None: return ("loc", loc), st
                return s.read(st, loc, s.p.T(n)), st
            v, st = s.call(n, st, fr, th, cx, want_loc)
            if st is None: return None, None
            if isinstance(v, tuple) and v and v[0] == "loc" and not want_loc: v = s.read(st, v[1], s.p.T(n))
            if v is None: v = s.mk(fresh("void"), s.p.T(n))
            return v, st
        if k == "Throw": return None, None
        for c in children(n):
            if c["k"] in ("Block",): continue
            _, st = s.ev(c, st, fr, th, cx)
            if st is None: return None, None
        return s.mk(fresh(k), s.p.T(n)), st

    def joinptr(s, x, y):
        return ("uptr", "?%d" % s.bump())

    def isint(s, t):
        t = t.replace("const ", "").replace("&", "").strip()
        return t in ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "char", "short", "bool", "unsigned char", "unsigned short")

    def gval(s, g):
        i = g["id"]
        if i in s.gcache: return s.gcache[i]
        s.gcache[i] = s.sym(("global", g["q"]), s.p.T(g))
        if g.get("c") and (g.get("cexpr") or g.get("const") or s.fixed and g.get("smem") and g.get("inl")):
            v, st = s.ev(g["c"][0], {}, (0,), None, Ctx())
            if v is not None and not (isinstance(v, tuple) and v[0] == "loc"): s.gcache[i] = v
        return s.gcache[i]

    def e_Un(s, n, st, fr, th, cx):
        op = n["op"]; c = n["c"][0]
        if op == "&":
            loc, st = s.lval(c, st, fr, th, cx)
            if st is None: return None, None
            return (Ptr(s.deref(st, loc)) if loc is not None else ("uptr", "?%d" % s.bump())), st
        if op == "*":
            loc, st = s.lval(n, st, fr, th, cx)
            if st is None: return None, None
            return s.read(st, loc, s.p.T(n)) if loc is not None else s.mk(fresh("deref"), s.p.T(n)), st
        if op in ("++", "--", "p++", "p--"):
            loc, st = s.lval(c, st, fr, th, cx)
            if st is None: return None, None
            v = s.read(st, loc, s.p.T(c)); st = dict(st)
            nv = padd(v, ONE, 1 if "+" in op else -1) if isinstance(v, P) else s.havocv(v)
            if loc is not None: s.write(st, loc, nv)
            return (v if op.startswith("p") else nv), st
        v, st = s.ev(c, st, fr, th, cx)
        if st is None: return None, None
        if op == "-" and isinstance(v, P): return padd(ZERO, v, -1), st
        if op == "-" and isinstance(v, V): return s.vmap(lambda x: padd(ZERO, x, -1), v), st
        if op == "+": return v, st
        if op == "!":
            b = s.truth(v)
            return (C(int(not b)) if b is not None else fresh("!")), st
        return fresh(op), st

    def vmap(s, f, v):
        if not isinstance(v.gen, P) and v.gen is not None or any(not isinstance(x, P) for _, x in v.upd): return symvec("?%d" % s.bump())
        return V(f(v.gen) if v.gen is not None else None, tuple((k, f(x)) for k, x in v.upd))

    def vzip(s, f, a, b):
        keys = []
        for k, _ in a.upd + b.upd:
            if k not in keys: keys.append(k)
        if not isinstance(a.gen, P) or not isinstance(b.gen, P): return symvec("?%d" % s.bump())
        u = []
        for k in keys:
            x, y = vget(a, k), vget(b, k)
            if not isinstance(x, P) or not isinstance(y, P): return symvec("?%d" % s.bump())
            u.append((k, f(x, y)))
        return V(f(a.gen, b.gen), tuple(u))

    def arith(s, op, a, b, inttype):
        if isinstance(a, V) or isinstance(b, V):
            if isinstance(a, V) and isinstance(b, V):
                if op in ("+", "-"): return s.vzip(lambda x, y: s.arith(op, x, y, False), a, b)
                return fresh("vec" + op)
            if isinstance(a, V) and isinstance(b, P) and op in ("*", "/"): return s.vmap(lambda x: s.arith(op, x, b, False), a)
            if isinstance(b, V) and isinstance(a, P) and op == "*": return s.vmap(lambda x: s.arith(op, a, x, False), b)
            return symvec("?%d" % s.bump())
        if not isinstance(a, P) or not isinstance(b, P): return fresh(op)
        try:
            if op == "+": return padd(a, b)
            if op == "-": return padd(a, b, -1)
            if op == "*": return pmul(a, b)
            if op == "/" and not inttype:
                r = pdiv(a, b)
                return r if r is not None else fresh("div0")
        except Give:
            if s.split is None: return fresh("too large")
            from . import calc          # the operands become terms of their own
            w = lambda p: A("poly", p) if len(p.m) > 3 else p
            try: return calc.add(a, b) if op == "+" else calc.add(a, pmul(C(-1), b)) if op == "-" else calc.mul(a, b) if op == "*" else pdiv(w(a), w(b)) or fresh("div0")
            except Give: return fresh("too large")
        ca, cb = a.const(), b.const()
        if op == "/":
            if inttype:
                if ca is not None and cb: return C(int(ca / cb))
                return A("call", "idiv", a, b)
            r = pdiv(a, b)
            return r if r is not None else fresh("div0")
        if op == "%":
            if ca is not None and cb: return C(math.fmod(int(ca), int(cb)))
            return A("call", "mod", a, b)
        if ca is not None and cb is not None and ca.denominator == 1 and cb.denominator == 1:
            x, y = int(ca), int(cb)
            try:
                return C({"<<": lambda: x << y, ">>": lambda: x >> y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]())
            except KeyError: pass
        return fresh(op)

    def e_Bin(s, n, st, fr, th, cx):
        op = n["op"]; l, r = n["c"][0], n["c"][1]
        if op in ("&&", "||"):
            v, st = s.ev(l, st, fr, th, cx)
            if st is None: return None, None
            b = s.truth(v)
            if b is (op == "||"): return C(int(b)), st
            w, s2 = s.ev(r, dict(st), fr, th, cx)
            if b is None:
                if s2 is None: return fresh(op), st
                return fresh(op), s.join(st, s2)
            return w, s2
        if op == ",":
            _, st = s.ev(l, st, fr, th, cx)
            if st is None: return None, None
            return s.ev(r, st, fr, th, cx)
        if op == "=":
            v, st = s.ev(r, st, fr, th, cx)
            if st is None: return None, None
            loc, st = s.lval(l, st, fr, th, cx)
            if st is None: return None, None
            st = dict(st)
            if loc is not None:
                if isinstance(v, tuple) and v and v[0] == "loc": v = s.read(st, v[1], s.p.T(r))
                s.write(st, loc, v)
            return v, st
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            v, st = s.ev(r, st, fr, th, cx)
            if st is None: return None, None
            loc, st = s.lval(l, st, fr, th, cx)
            if st is None: return None, None
            cur = s.read(st, loc, s.p.T(l)) if loc is not None else fresh("lhs")
            nv = s.arith(op[:-1], cur, v, s.isint(s.p.T(l)) and s.isint(s.p.T(r)))
            st = dict(st)
            if loc is not None: s.write(st, loc, nv)
            return nv, st
        a, st = s.ev(l, st, fr, th, cx)
        if st is None: return None, None
        b, st = s.ev(r, st, fr, th, cx)
        if st is None: return None, None
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ("==", "!="):
                if a.loc is None or b.loc is None or a.loc == b.loc:
                    e = a.loc == b.loc
                    return C(int(e if op == "==" else not e)), st
            if isinstance(a, P) and isinstance(b, P):
                d = padd(a, b, -1)
                if op in ("==", "!=") and len(d.m) == 2 and d.atoms() <= s.distinct and sorted(d.m.values()) == [-1, 1]:
                    return C(int(op == "!=")), st
                d = d.const()
                if d is not None and not ((a.atoms() | b.atoms())) or (d is not None and s.isint(s.p.T(l))):
                    return C(int({"==": d == 0, "!=": d != 0, "<": d < 0, ">": d > 0, "<=": d <= 0, ">=": d >= 0}[op])), st
                if d is None or s.split is not None:
                    g = s.generic(op, padd(a, b, -1), s.isint(s.p.T(l)))
                    if g is not None: return C(int(g)), st
            return fresh(op), st
        return s.arith(op, a, b, s.isint(s.p.T(l)) and s.isint(s.p.T(r))), st

    # ---- construction
    def ctor(s, n, st, fr, th, cx):
        t = s.p.T(n); c = [x for x in n.get("c", []) if x["k"] != "DefArg" or s.kindof(t) != "vec"]
        if n.get("cp") and len(n.get("c", [])) >= 1: 
            return s.ev(n["c"][0], st, fr, th, cx)
        k = s.kindof(t)
        if k == "num":
            if c: return s.ev(c[0], st, fr, th, cx)
            return ZERO, st
        if k == "vec" and s.fixed and nt(t.replace("const ", "")) not in VECCLS and s.isfixed(nt(t.replace("const ", ""))):
            f = s.p.fns.get(n.get("ck")) if n.get("ck") else None
            if f is not None and f.kind == "ctor" and (f.get("inits") or f.body) and s.depth < 30 and f.key not in s.stack:
                key = ("tmp", s.bump())
                st = dict(st); st[key] = V(ZERO)
                s.nf += 1; nf = s.nf
                st = s.bind(f.params, n.get("c", []), st, fr, th, cx, nf)
                if st is None: return None, None
                s.stack.append(f.key)
                try: _, st = s.body(f, f.body, st, (nf,), (key, ()), [i for i in f.get("inits") or []])
                finally: s.stack.pop()
                if st is None: return None, None
                return st[key], st
        if k == "vec":
            vs = []
            for x in c:
                v, st = s.ev(x, st, fr, th, cx)
                if st is None: return None, None
                vs.append(v)
            if len(vs) == 1 and isinstance(vs[0], V) : return V(vs[0].gen, vs[0].upd), st
            cls = nt(t)
            if cls in ("MML::VectorN", "MML::MatrixNM", "std::array") :
                if not vs: return V(ZERO), st
                return (V(vs[-1]) if len(vs) == 1 and isinstance(vs[0], P) else symvec("?%d" % s.bump())), st
            if cls == "MML::Vector" or cls == "std::vector":
                if len(vs) == 0: return V(ZERO), st
                if len(vs) == 1 and isinstance(vs[0], P): return V(ZERO), st
                if len(vs) == 2 and isinstance(vs[0], P) and isinstance(vs[1], (P, V)) :
                    if isinstance(vs[1], P): return V(vs[1]), st
                    if isinstance(vs[1].gen, P):
                        return V(subst(vs[1].gen, {atom_id(("idx", 0)): idx(1)})), st
                return symvec("?%d" % s.bump()), st
            if "Matrix" in cls:
                if len(vs) == 2 and all(isinstance(x, P) for x in vs): return V(ZERO), st
                if len(vs) == 3 and isinstance(vs[2], P): return V(vs[2]), st
                return symvec("?%d" % s.bump(), 2), st
            return symvec("?%d" % s.bump()), st
        # user classes
        cls = nt(t.replace("const ", ""))
        if cls in s.opaquecls and not n.get("dft"):
            xs = []
            for x in n.get("c", []):
                v, st = s.ev(x, st, fr, th, cx)
                if st is None: return None, None
                xs.append(s.read(st, v[1]) if isinstance(v, tuple) and v and v[0] == "loc" else v)
            s.made.append((cls, xs))
            return Obj(cls, "?%d" % s.bump(), {}), st
        f = s.p.fns.get(n.get("ck")) if n.get("ck") else None
        args = []
        if f is not None and f.kind == "ctor" and not n.get("dft") and not cls.startswith("std::") and (f.get("inits") or f.body) and s.depth < 30 and f.key not in s.stack:
            key = ("tmp", s.bump())
            st = dict(st); st[key] = Obj(cls, "?%d" % s.bump(), s.defaults(cls, st, fr, th, cx))
            s.nf += 1; nf = s.nf
            st = s.bind(f.params, n.get("c", []), st, fr, th, cx, nf)
            if st is None: return None, None
            s.stack.append(f.key); s.inlined.add(f.q)
            try: _, st = s.body(f, f.body, st, (nf,), (key, ()), [i for i in f.get("inits") or []])
            finally: s.stack.pop()
            if st is None: return None, None
            return st[key], st
        for x in n.get("c", []):
            v, st = s.ev(x, st, fr, th, cx)
            if st is None: return None, None
            args.append(v)
        if s.fixed and cls == "std::function" and len(args) == 1 and isinstance(args[0], Lam): return args[0], st
        return Obj(cls, "?%d" % s.bump(), s.defaults(cls, st, fr, th, cx)), st

    def defaults(s, cls, st, fr, th, cx):
        out = {}
        cl = [cls]; seen = set()
        while cl:
            c = cl.pop()
            if c in seen: continue
            seen.add(c)
            r = s.p.recs.get(c)
            if r is None: continue
            for f in r["fields"]:
                ini = f.get("init")
                if isinstance(ini, list): ini = ini[0] if ini else None
                if isinstance(ini, dict):
                    v, _ = s.ev(ini, {}, (0,), None, Ctx())
                    if v is not None: out.setdefault(f["n"], v)
                elif s.kindof(s.p.tc.get(f["t"], "?")) == "vec": out.setdefault(f["n"], V(ZERO))
            for b in r.get("bases") or []:
                cl.append(nt(b.get("q") or "") if isinstance(b, dict) else nt(str(b)))
        return out

    def bind(s, params, args, st, fr, th, cx, nf):
        vals = []
        for i, p in enumerate(params):
            t = s.p.T(p)
            a = args[i] if i < len(args) else p.get("def")
            if a is None:
                vals.append((p, s.mk(fresh("arg"), t))); continue
            if t.endswith("&"):
                loc, st = s.lval(a, st, fr, th, cx)
                if st is None: return None
                if loc is not None:
                    vals.append((p, Ref(s.deref(st, loc)))); continue
                v, st = s.ev(a, st, fr, th, cx)
            else:
                v, st = s.ev(a, st, fr, th, cx)
            if st is None: return None
            if isinstance(v, tuple) and v and v[0] == "loc": v = s.read(st, v[1], t)
            k = s.kindof(t)
            if k == "num" and not isinstance(v, P): v = fresh("arg")
            if k == "vec" and not isinstance(v, V) and not t.endswith("]"): v = symvec("?%d" % s.bump())
            vals.append((p, v))
        st = dict(st)
        for p, v in vals: st[(nf, p["id"])] = v
        return st

    # ---- calls
    def call(s, n, st, fr, th, cx, want_loc=False):
        fn = n.get("fn") or ""
        short = fn.split("::")[-1]
        op = n.get("op")
        if s.fixed and "cv" in n and fn.startswith("std::numeric_limits") and short not in ("infinity", "quiet_NaN", "signaling_NaN"): return C(cvnum(n["cv"])), st
        T = s.p.T(n)
        if short == "emplace_back" and s.opaquecls and n.get("obj"):
            m = re.match(r"std::vector<([\w:]+)", s.p.T(n["obj"]).replace("const ", ""))
            if m and m.group(1) in s.opaquecls + s.partcls:
                xs = []
                for x in n.get("c", []):
                    v, st = s.ev(x, st, fr, th, cx)
                    if st is None: return None, None
                    xs.append(s.read(st, v[1]) if isinstance(v, tuple) and v and v[0] == "loc" else v)
                s.made.append((m.group(1), xs))
                return None, st
        # lambda / functor values
        if op == "()" and n.get("obj"):
            loc, st = s.lval(n["obj"], st, fr, th, cx)
            if st is None: return None, None
            if loc is not None: ov = s.read(st, loc, s.p.T(n["obj"]))
            else:
                ov, st = s.ev(n["obj"], st, fr, th, cx)
                if st is None: return None, None
            if isinstance(ov, Lam): return s.calllam(ov, n.get("c", []), st, fr, th, cx)
        if not op and not n.get("fn") and n.get("callee") is not None:
            ov, st = s.ev(n["callee"], st, fr, th, cx)
            if st is None: return None, None
            if isinstance(ov, Lam): return s.calllam(ov, n.get("c", []), st, fr, th, cx)
            return s.opaque_call(n, "indirect", st, fr, th, cx, ov)
        if fn in ("std::move", "std::forward") and n.get("c"):
            return s.ev(n["c"][0], st, fr, th, cx, want_loc)
        # assignment of aggregates
        if op == "=" and n.get("obj"):
            v, st = s.ev(n["c"][0], st, fr, th, cx)
            if st is None: return None, None
            loc, st = s.lval(n["obj"], st, fr, th, cx)
            if st is None: return None, None
            st = dict(st)
            if loc is not None: s.write(st, loc, v)
            return v, st
        objt = s.kindof(s.p.T(n["obj"])) if n.get("obj") else None
        # vector algebra
        if op and op in ("+", "-", "*", "/", "+=", "-=", "*=", "/="):
            a = ([n["obj"]] if n.get("obj") else []) + n.get("c", [])
            if s.fixed and s.split is not None:
                f = s.p.fns.get(n.get("ck")) if n.get("ck") else None
                if f is not None and f.body is not None and not f.get("dep") and f.cls and nt(f.cls) not in VECCLS and s.isfixed(nt(f.cls)) and f.key not in s.stack and s.depth < 30:
                    return s.inline(n, f, st, fr, th, cx, want_loc)
                if f is not None and f.body is not None and not f.get("dep") and f.key not in s.stack and s.depth < 30 and any(s.kindof(s.p.T(x)) == "obj" for x in a):
                    return s.inline(n, f, st, fr, th, cx, want_loc)
            if any(s.kindof(s.p.T(x)) == "vec" for x in a):
                vs = []
                for x in a:
                    v, st = s.ev(x, st, fr, th, cx)
                    if st is None: return None, None
                    vs.append(v)
                if len(vs) == 1:
                    return (s.vmap(lambda x: padd(ZERO, x, -1), vs[0]) if op == "-" and isinstance(vs[0], V) else s.mk(fresh(op), T)), st
                matr = any("Matrix" in s.p.T(x) for x in a)
                if not matr and op == "*" and s.fixed and len(vs) == 2 and all(isinstance(v, V) for v in vs):
                    f = s.p.fns.get(n.get("ck")) if n.get("ck") else None
                    if f is not None and f.body is not None and f.key not in s.stack and s.sameinst(f, n): return s.inline(n, f, st, fr, th, cx, want_loc)
                if matr and op == "*" and s.fixed and any(s.isfixedT(s.p.T(x)) for x in a):
                    f = s.p.fns.get(n.get("ck")) if n.get("ck") else None
                    if f is not None and f.body is not None and f.key not in s.stack and s.sameinst(f, n): return s.inline(n, f, st, fr, th, cx, want_loc)
                    r = s.matvec(a, vs)
                    if r is not None: return r, st
                if matr and op in ("*", "*="): r = s.mk(fresh("matmul"), T)
                else: r = s.arith(op.rstrip("="), vs[0], vs[1], False)
                if isinstance(r, P) and s.kindof(T) == "vec": r = symvec("?%d" % s.bump())
                if op.endswith("="):
                    loc, st = s.lval(a[0], st, fr, th, cx)
                    if st is None: return None, None
                    st = dict(st)
                    if loc is not None: s.write(st, loc, r)
                return r, st
        # std numeric functions
        if fn.startswith("std::") or (not n.get("ck") and short in PURE1) or short in ("pow",) and not n.get("ck"):
            if not n.get("obj"):
                return s.stdfn(n, fn, short, st, fr, th, cx)
        f = s.p.fns.get(n.get("ck")) if n.get("ck") else None
        m = s.fixed and n.get("obj") and re.match(r"MML::VectorN<double, (\d+)>::NormL2$", fn)
        if m and f is not None and not s.sameinst(f, n):        # another size of the same template
            v, st = s.ev(n["obj"], st, fr, th, cx)
            if isinstance(v, Ptr): v = s.read(st, v.loc)
            xs = [vget(v, (C(i),)) for i in range(int(m.group(1)))] if isinstance(v, V) else []
            if xs and all(isinstance(x, P) for x in xs):
                t = ZERO
                for x in xs: t = padd(t, pmul(x, x))
                return A("call", "sqrt", t), st
        if n.get("obj") and objt == "vec" and s.isfixedT(s.p.T(n["obj"])):
            f = s.p.fns.get(n.get("ck")) if n.get("ck") else None
            if f is not None and f.body is not None and not f.get("dep") and f.key not in s.stack and not s.isopaque(f, n) and s.sameinst(f, n): return s.inline(n, f, st, fr, th, cx, want_loc)
        if n.get("obj") and objt == "vec":
            return s.vecmethod(n, short, st, fr, th, cx)
        f = s.p.fns.get(n.get("ck")) if n.get("ck") else None
        if f is not None and f.body is not None and not s.isopaque(f, n) and f.key not in s.opaque and f.q not in s.opaque and f.key not in s.stack and s.depth < 30:
            return s.inline(n, f, st, fr, th, cx, want_loc)
        return s.opaque_call(n, fn or "?", st, fr, th, cx, None)

    def sameinst(s, f, n):
        """the extracted body belongs to this instantiation (bodies are kept once per template)"""
        fn = n.get("fn") or ""
        return fn == f.q or "<" not in fn or [x for x in re.findall(r"\d+", fn)] == [x for x in re.findall(r"\d+", f.q)]

    def matvec(s, a, vs):
        """product of fixed-size operands of another size than the extracted body's"""
        d = [re.search(r"(MatrixNM|VectorN)<[^<>]*?, *(\d+)(?:, *(\d+))?>", s.p.T(x)) for x in a]
        if None in d or not all(isinstance(v, V) for v in vs) or d[0].group(1) != "MatrixNM": return None
        n, m = int(d[0].group(2)), int(d[0].group(3))
        cols = [None] if d[1].group(1) == "VectorN" else range(int(d[1].group(3)))
        u = []
        for i in range(n):
            for c in cols:
                t = ZERO
                for k in range(m):
                    x = vget(vs[0], (C(i), C(k))); y = vget(vs[1], (C(k),) if c is None else (C(k), C(c)))
                    if not isinstance(x, P) or not isinstance(y, P): return None
                    t = padd(t, pmul(x, y))
                u.append(((C(i),) if c is None else (C(i), C(c)), t))
        return V(ZERO, tuple(u))

    def isopaque(s, f, n):
        if f.n in s.opaque: return True
        if s.fixed and not s.sameinst(f, n): return True
        if n.get("vrt") and f.get("pure"): return True
        if n.get("vrt"):
            # virtual call through a reference: the static body need not be the one that runs, unless the receiver is this
            o = strip(n["obj"]) if n.get("obj") else None
            if o is not None and o["k"] == "This": return False
            return True
        if f.get("dep"): return True
        return False

    def inline(s, n, f, st, fr, th, cx, want_loc):
        s.nf += 1; nf = s.nf
        this = None
        if n.get("obj"):
            o = n["obj"]
            if strip(o)["k"] == "This": this = th
            else:
                if n.get("arrow") or s.p.T(o).endswith("*"):
                    v, st = s.ev(o, st, fr, th, cx)
                    if st is None: return None, None
                    this = v.loc if isinstance(v, Ptr) else None
                else:
                    loc, st = s.lval(o, st, fr, th, cx)
                    if st is None: return None, None
                    if loc is None:
                        v, st = s.ev(o, st, fr, th, cx)
                        if st is None: return None, None
                        st = dict(st); key = ("tmp", s.bump()); st[key] = v; loc = (key, ())
                    this = s.deref(st, loc)
            if this is None:
                st = dict(st); key = ("tmp", s.bump()); st[key] = Obj(f.cls or "?", "?%d" % s.bump(), {}); this = (key, ())
        st = s.bind(f.params, n.get("c", []), st, fr, th, cx, nf)
        if st is None: return None, None
        s.stack.append(f.key); s.inlined.add(f.q)
        n0 = s.incatch; s.incatch = 0
        try:
            v, st = s.body(f, f.body, st, (nf,), this)
        finally:
            s.stack.pop(); s.incatch = n0
        if st is None: return None, None
        rt = s.p.tc.get(f.get("ret"), "")
        if isinstance(v, tuple) and v and v[0] == "loc" and not rt.endswith("&"):
            v = s.read(st, v[1], rt)
        return v, st

    def calllam(s, L, args, st, fr, th, cx):
        s.nf += 1; nf = s.nf
        if s.depth > 30: raise Give("lambda depth")
        st = s.bind(L.node.get("params") or [], args, st, fr, th, cx, nf)
        if st is None: return None, None
        n0 = s.incatch; s.incatch = 0
        try: v, st = s.body(None, L.node.get("body"), st, (nf,) + L.frames, L.this)
        finally: s.incatch = n0
        if st is None: return None, None
        if isinstance(v, tuple) and v and v[0] == "loc": v = s.read(st, v[1], None)
        return v, st

    def stdfn(s, n, fn, short, st, fr, th, cx):
        vs = []
        T = s.p.T(n)
        for x in n.get("c", []):
            v, st = s.ev(x, st, fr, th, cx)
            if st is None: return None, None
            vs.append(v)
        if all(isinstance(v, P) for v in vs) and vs:
            cs = [v.const() for v in vs]
            if len(vs) == 1 and short in PURE1:
                if cs[0] is not None:
                    if short in ("abs", "fabs"): return C(abs(cs[0])), st
                    try: return C(Fraction(PURE1[short](float(cs[0])))), st
                    except (ValueError, OverflowError): return fresh(short), st
                if short in ("abs", "fabs"):
                    s.abstrace.append((n.get("l"), vs[0]))
                    g = None if s.mmterm else s.sign(vs[0])
                    if g: return (vs[0] if g > 0 else padd(ZERO, vs[0], -1)), st
                if short == "sqrt" and s.split is not None and len(vs[0].m) > 1 and s.vanishes(vs[0]): return ZERO, st
                return A("call", short, vs[0]), st
            if short == "pow" and len(vs) == 2:
                if cs[1] is not None and cs[1].denominator == 1 and abs(cs[1]) <= 8:
                    r = ppow(vs[0], int(cs[1]))
                    if r is not None: return r, st
                if None not in cs:
                    try: return C(Fraction(float(cs[0]) ** float(cs[1]))), st
                    except (ValueError, OverflowError, ZeroDivisionError): pass
                return A("call", "pow", *vs), st
            if short in ("max", "min") and len(vs) == 2:
                if None not in cs: return C((max if short == "max" else min)(cs)), st
                g = s.sign(padd(vs[0], vs[1], -1)) if not s.mmterm else None
                if g is not None: return (vs[0] if (g >= 0) == (short == "max") else vs[1]), st
                return A("call", short, *sorted(vs, key=pshow)), st
            if short == "clamp" and len(vs) == 3 and s.mmterm: return A("call", "min", A("call", "max", vs[0], vs[1]), vs[2]), st
            if short == "clamp" and len(vs) == 3 and s.split is not None:
                lo, hi = s.sign(padd(vs[0], vs[1], -1)), s.sign(padd(vs[2], vs[0], -1))
                if lo and hi: return (vs[1] if lo < 0 else vs[2] if hi < 0 else vs[0]), st
            if s.split is not None and short in ("isfinite", "isnan", "isinf"): return C(int(short == "isfinite")), st
            if s.kindof(T) == "num" and short in ("hypot", "atan2", "fmod", "copysign", "fma", "exp2", "erf", "erfc", "tgamma", "lgamma", "isfinite", "isnan", "isinf", "round", "clamp"):
                return A("call", short, *vs), st
        if s.mmterm and short in ("max", "min") and len(vs) == 1 and isinstance(vs[0], V) and vs[0].upd and all(len(k) == 1 and k[0].const() is not None and isinstance(x, P) for k, x in vs[0].upd):
            d = {}
            for k, x in vs[0].upd: d[k[0].const()] = x
            r = None
            for k in sorted(d): r = d[k] if r is None else A("call", short, *sorted((r, d[k]), key=pshow))
            return r, st
        if short == "swap" and len(n.get("c", [])) == 2:
            la, st = s.lval(n["c"][0], st, fr, th, cx)
            lb, st = s.lval(n["c"][1], st, fr, th, cx)
            st = dict(st)
            if la is not None and lb is not None:
                a, b = s.read(st, la), s.read(st, lb)
                s.write(st, la, b); s.write(st, lb, a)
            return None, st
        # unknown library function: outputs unknown
        st = s.clobber(n, n.get("c", []), st, fr, th, cx, None)
        return s.mk(fresh(short), T), st

    def vecmethod(s, n, short, st, fr, th, cx):
        loc, st = s.lval(n["obj"], st, fr, th, cx)
        if st is None: return None, None
        if loc is not None: v = s.read(st, loc, s.p.T(n["obj"]))
        else:
            v, st = s.ev(n["obj"], st, fr, th, cx)
            if st is None: return None, None
        args = []
        for x in n.get("c", []):
            a, st = s.ev(x, st, fr, th, cx)
            if st is None: return None, None
            args.append(a)
        st = dict(st)
        if short in ("size", "length", "empty") and isinstance(v, V) and isinstance(v.name, tuple) and v.name[0] == "len": return C(v.name[1] if short != "empty" else int(v.name[1] == 0)), st
        if short in ("size", "length", "rows", "cols", "RowNum", "ColNum"):
            return A("call", short, v.name if isinstance(v, V) and v.name is not None else ("dim",)), st
        if short in ("Resize", "resize", "reserve", "shrink_to_fit"): return None, st
        if n.get("cst"):
            if all(isinstance(a, (P, V)) for a in args) and isinstance(v, V) and s.kindof(s.p.T(n)) == "num":
                return A("call", n.get("fn"), v, *args), st
            return s.mk(fresh(short), s.p.T(n)), st
        if loc is not None: s.write(st, loc, symvec("?%d" % s.bump()))
        return s.mk(fresh(short), s.p.T(n)), st

    def canon(s, v):
        if isinstance(v, V): return V(v.gen, tuple((k, x) for k, x in v.upd if at(v.gen, k) != x))
        return v

    def opaque_call(s, n, fn, st, fr, th, cx, ov):
        """uninterpreted: result and outputs are atoms over the inputs"""
        ins = []; args = n.get("c", [])
        if n.get("obj"):
            o, st = s.ev(n["obj"], st, fr, th, cx)
            if st is None: return None, None
            ins.append(("obj", o.name) if isinstance(o, Obj) else ("obj", repr(o) if not isinstance(o, tuple) else o))
        elif ov is not None: ins.append(("obj", ov.name if isinstance(ov, Obj) else str(ov)))
        pts = n.get("pt") or []
        outs = []
        for i, a in enumerate(args):
            pt = s.p.tc.get(pts[i], "?") if i < len(pts) else "?"
            isout = (pt.endswith("&") and not pt.startswith("const ")) and not pt.endswith("&&")
            if isout and s.kindof(pt) in ("vec", "num", "obj"):
                loc, st = s.lval(a, st, fr, th, cx)
                if st is None: return None, None
                outs.append((i, loc, pt)); ins.append(("out", i)); continue
            if pt.endswith("*") and not pt.startswith("const "):
                v, st = s.ev(a, st, fr, th, cx)
                if st is None: return None, None
                if isinstance(v, Ptr) and v.loc is not None: outs.append((i, v.loc, pt[:-1].strip()))
                ins.append(("out", i)); continue
            v, st = s.ev(a, st, fr, th, cx)
            if st is None: return None, None
            if isinstance(v, (P, V)): ins.append(s.canon(v))
            elif isinstance(v, Obj): ins.append(("o", v.name, repr(v)))
            else: ins.append(("v", str(v) if isinstance(v, tuple) else "?%d" % s.bump()))
        name = fn
        key = (name,) + tuple(ins)
        st = dict(st)
        for i, loc, pt in outs:
            if loc is None: continue
            k = s.kindof(pt)
            nm = ("out", i) + key
            if k == "num": v = A("call", nm)
            elif k == "vec": v = symvec(nm, 2 if "Matrix" in pt else 1)
            else: v = Obj(nt(pt.rstrip("& ")), "?%d" % s.bump(), {})
            s.write(st, loc, v)
        # a non-const member call may change its receiver
        if n.get("obj") and not n.get("cst") and fn != "?":
            o = strip(n["obj"])
            if o["k"] != "This":
                loc, st = s.lval(n["obj"], st, fr, th, cx)
                if st is not None and loc is not None:
                    cur = s.read(st, loc, s.p.T(n["obj"]))
                    st = dict(st)
                    if isinstance(cur, V): s.write(st, loc, s.havocv(cur))
        T = s.p.T(n)
        k = s.kindof(T)
        if T == "void": return None, st
        if k == "num": return A("call", *key), st
        if k == "vec": return symvec(("ret",) + key, 2 if "Matrix" in T else 1), st
        return s.mk(fresh("call"), T), st

    def clobber(s, n, args, st, fr, th, cx, why):
        pts = n.get("pt") or []
        st = dict(st)
        for i, a in enumerate(args):
            pt = s.p.tc.get(pts[i], "?") if i < len(pts) else "?"
            if pt.endswith("&") and not pt.startswith("const ") and not pt.endswith("&&"):
                loc, st = s.lval(a, st, fr, th, cx)
                if st is None: return None
                if loc is not None:
                    st = dict(st); s.write(st, loc, s.havocv(s.read(st, loc, pt)))
        return st


def flit(n):
    t = (n.get("s") or n["v"]).rstrip("fFlL").replace("'", "")
    try: return Fraction(t)
    except (ValueError, ZeroDivisionError):
        return Fraction(float(n["v"]))


def cvnum(v):
    try: return Fraction(v)
    except (ValueError, ZeroDivisionError): return Fraction(0)
