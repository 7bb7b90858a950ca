"""Formal calculus on the closed forms of sa/affine.py: differentiation, identity of two forms, case enumeration."""
import zlib, math, random
from . import affine
from .affine import P, V, Obj, A, C, ZERO, ONE, padd, pmul, pdiv, ppow, pinv, pshow, atom_id, subst, Give, Eval, idx, _atoms


class Lost(Exception):
    """the form contains something the evaluator could not express"""


def call(name, *a): return A("call", name, *a)


def mul(a, b):
    """product; a factor whose expansion would be too large becomes one opaque term with its definition"""
    try: return pmul(a, b)
    except Give:
        w = lambda p: A("poly", p) if len(p.m) > 3 else p
        return pmul(w(a), w(b))


def add(a, b):
    try: return padd(a, b)
    except Give:
        w = lambda p: A("poly", p) if len(p.m) > 3 else p
        return padd(w(a), w(b))


def psum(*t):
    r = ZERO
    for x in t: r = add(r, x)
    return r


def D(p, x, memo=None):
    """formal derivative of p with respect to atom x"""
    memo = {} if memo is None else memo
    r = ZERO
    for mo, c in p.m.items():
        for i, (a, e) in enumerate(mo):
            d = Da(a, x, memo)
            if not d.m: continue
            rest = tuple((b, (q - 1 if b == a else q)) for b, q in mo if not (b == a and q == 1))
            r = add(r, mul(P({rest: c * e}), d))
    return r


def Da(a, x, memo):
    if a == x: return ONE
    if a in memo: return memo[a]
    k = _atoms[a]; r = None
    if k[0] in ("sym", "el", "idx"): r = ZERO
    elif k[0] == "poly": r = D(k[1], x, memo)
    elif k[0] == "call" and isinstance(k[1], str) and all(isinstance(u, P) or u[0] == "obj" for u in k[2:]):
        nm = k[1].split("::")[-1]; us = [u for u in k[2:] if isinstance(u, P)]; ds = [D(u, x, memo) for u in us]
        if not any(d.m for d in ds): r = ZERO
        elif nm in RULES: r = RULES[nm](P({((a, 1),): affine.Fraction(1)}), us, ds)
    if r is None: raise Lost("derivative of %s" % affine.ashow(a)[:80])
    memo[a] = r
    return r


def betainc(a, b, x):
    if not 0 < x < 1 or a <= 0 or b <= 0: raise ValueError
    if x > (a + 1) / (a + b + 2): return 1 - betainc(b, a, 1 - x)
    t = math.exp(a * math.log(x) + b * math.log(1 - x) - math.lgamma(a) - math.lgamma(b) + math.lgamma(a + b)) / a; s = t; n = 0
    while abs(t) > 1e-17 * abs(s) and n < 5000: t *= (a + b + n) / (a + 1 + n) * x; s += t; n += 1
    return s


def gammainc(a, x):
    if x <= 0 or a <= 0: raise ValueError
    t = math.exp(a * math.log(x) - x - math.lgamma(a + 1)); s = t; n = 1
    while abs(t) > 1e-17 * abs(s) and n < 5000: t *= x / (a + n); s += t; n += 1
    return s


def special(name, names):
    """teach D/num an incomplete beta or gamma function by its parameter names (argument: x; parameters in order)"""
    if "x" not in names or len(names) not in (2, 3): return False
    i = names.index("x"); o = [j for j in range(len(names)) if j != i]; P1 = lambda p, e: call("pow", p, e); m1 = lambda p: padd(p, ONE, -1)
    lg = lambda p: call("lgamma", p)
    def rule(f, u, d):
        if any(d[j].m for j in o): return None
        x = u[i]; a = u[o[0]]
        if len(names) == 3:
            b = u[o[1]]; c = call("exp", padd(padd(lg(padd(a, b)), lg(a), -1), lg(b), -1))
            return pmul(pmul(c, d[i]), pmul(P1(x, m1(a)), P1(padd(ONE, x, -1), m1(b))))
        return pmul(pmul(call("exp", padd(padd(ZERO, x, -1), lg(a), -1)), P1(x, m1(a))), d[i])
    RULES[name] = rule
    FN[name] = (lambda *u: betainc(u[o[0]], u[o[1]], u[i])) if len(names) == 3 else (lambda *u: gammainc(u[o[0]], u[i]))
    return True


def half(p): return pmul(C(affine.Fraction(1, 2)), p)
def sq(u): return pmul(u, u)
def inv(u):
    i = pinv(u)
    if i is None: raise Lost("division by zero")
    return i
def root(u): return call("sqrt", u)
RULES = {
    "sin": lambda f, u, d: pmul(call("cos", u[0]), d[0]),
    "cos": lambda f, u, d: padd(ZERO, pmul(call("sin", u[0]), d[0]), -1),
    "tan": lambda f, u, d: pmul(inv(sq(call("cos", u[0]))), d[0]),
    "asin": lambda f, u, d: pmul(inv(root(padd(ONE, sq(u[0]), -1))), d[0]),
    "acos": lambda f, u, d: padd(ZERO, pmul(inv(root(padd(ONE, sq(u[0]), -1))), d[0]), -1),
    "atan": lambda f, u, d: pmul(inv(padd(ONE, sq(u[0]))), d[0]),
    "sinh": lambda f, u, d: pmul(call("cosh", u[0]), d[0]),
    "cosh": lambda f, u, d: pmul(call("sinh", u[0]), d[0]),
    "tanh": lambda f, u, d: pmul(padd(ONE, sq(f), -1), d[0]),
    "exp": lambda f, u, d: pmul(f, d[0]),
    "exp2": lambda f, u, d: pmul(pmul(f, call("log", C(2))), d[0]),
    "log": lambda f, u, d: pmul(inv(u[0]), d[0]),
    "log10": lambda f, u, d: pmul(pmul(inv(u[0]), inv(call("log", C(10)))), d[0]),
    "log2": lambda f, u, d: pmul(pmul(inv(u[0]), inv(call("log", C(2)))), d[0]),
    "sqrt": lambda f, u, d: half(pmul(inv(f), d[0])),
    "cbrt": lambda f, u, d: pmul(C(affine.Fraction(1, 3)), pmul(inv(sq(f)), d[0])),
    "abs": lambda f, u, d: pmul(pmul(f, inv(u[0])), d[0]),
    "fabs": lambda f, u, d: pmul(pmul(f, inv(u[0])), d[0]),
    "floor": lambda f, u, d: ZERO, "ceil": lambda f, u, d: ZERO, "round": lambda f, u, d: ZERO,
    "erf": lambda f, u, d: pmul(pmul(C(2), inv(root(C(math.pi)))), pmul(call("exp", padd(ZERO, sq(u[0]), -1)), d[0])),
    "erfc": lambda f, u, d: pmul(pmul(C(-2), inv(root(C(math.pi)))), pmul(call("exp", padd(ZERO, sq(u[0]), -1)), d[0])),
    "atan2": lambda f, u, d: pmul(padd(pmul(u[1], d[0]), pmul(u[0], d[1]), -1), inv(padd(sq(u[0]), sq(u[1])))),
    "hypot": lambda f, u, d: pmul(padd(pmul(u[0], d[0]), pmul(u[1], d[1])), inv(f)),
    "idiv": lambda f, u, d: ZERO, "fmod": lambda f, u, d: d[0] if not d[1].m else None,
    "pow": lambda f, u, d: pmul(f, padd(pmul(d[1], call("log", u[0])) if d[1].m else ZERO, pmul(pmul(u[1], d[0]), inv(u[0])) if d[0].m else ZERO)),
}
FN = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh,
      "exp": math.exp, "exp2": lambda x: 2.0 ** x, "log": math.log, "log10": math.log10, "log2": math.log2, "sqrt": math.sqrt, "abs": abs, "fabs": abs, "floor": math.floor, "ceil": math.ceil,
      "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "erf": math.erf, "erfc": math.erfc, "atan2": math.atan2, "hypot": math.hypot, "fmod": math.fmod, "tgamma": math.gamma,
      "lgamma": math.lgamma, "asinh": math.asinh, "acosh": math.acosh, "atanh": math.atanh, "max": max, "min": min, "idiv": lambda a, b: float(int(a / b)), "mod": math.fmod,
      "pow": lambda a, b: a ** b if a > 0 or float(b).is_integer() else math.nan}
FREE = ("sym", "el")


def leaves(p, out=None, seen=None):
    """free atoms below p; Lost if something unknown is there"""
    out = set() if out is None else out; seen = set() if seen is None else seen
    for a in p.atoms():
        if a in seen: continue
        seen.add(a); k = _atoms[a]
        if k[0] == "poly": leaves(k[1], out, seen)
        elif k[0] == "call" and isinstance(k[1], str) and k[1].split("::")[-1] in FN and all(isinstance(u, P) or u[0] == "obj" for u in k[2:]):
            for u in k[2:]:
                if isinstance(u, P): leaves(u, out, seen)
        elif k[0] == "sym": out.add(a)
        elif k[0] == "el" and not (isinstance(k[1], str) and k[1].startswith("?")) and all(isinstance(i, P) and i.const() is not None for i in k[2]): out.add(a)
        else: raise Lost("unknown %s" % affine.ashow(a)[:80])
    return out


def num(p, env, memo=None):
    """(value, magnitude) of a form at a point: only used to tell two forms apart, never to accept one"""
    memo = {} if memo is None else memo
    t = 0.0; g = 0.0
    for mo, c in p.m.items():
        v = float(c)
        for a, e in mo:
            x = numa(a, env, memo)
            if e < 0 and _atoms[a][0] == "poly" and a not in env and abs(x) < 1e-7 * memo.get(("mag", a), 0): raise ValueError
            v *= x ** e
        t += v; g += abs(v)
    return t, g


def numa(a, env, memo):
    if a in memo: return memo[a]
    k = _atoms[a]
    if a in env: v = env[a]
    elif k[0] == "poly": v, memo["mag", a] = num(k[1], env, memo)
    else: v = FN[k[1].split("::")[-1]](*[num(u, env, memo)[0] for u in k[2:] if isinstance(u, P)])
    if v != v or abs(v) > 1e150: raise ValueError
    memo[a] = v
    return v


def holds(case, env, memo):
    for key, b in case.items():
        v, g = num(key[1], env, memo)
        if key[0] == "pos" and ((v > 0) != b or 0 < abs(v) < 1e-10 * g): return False
        if key[0] == "zero" and b != (v == 0): return False
        if key[0] == "true": return False
    return True


class Split(dict):
    """branch decisions of one case"""
    def __init__(s, d=(), bank=None, forced=()): dict.__init__(s, d); s.bank = bank; s.forced = set(forced)


class Env(dict):
    def __init__(s, i, dom): s.i = i; s.dom = dom; s.memo = {}

    def __missing__(s, a):
        r = random.Random(zlib.crc32(("%d %s" % (s.i, affine.ashow(a))).encode())); d = s.dom.get(a)
        if isinstance(d, tuple): v = r.uniform(*d)
        elif d == "int": v = r.randint(1, 6)
        else: v = r.uniform(0.05, 1.0) * (1.0, 0.3, 3.0, 1.5)[r.randrange(4)] * (1 if d == "+" or r.random() < .6 else -1)
        s[a] = v
        return v


class Bank:
    """sample of the arguments a law ranges over: a branch that goes the same way at every point left in a case is not split"""
    def __init__(s, dom, n=512): s.envs = [Env(i, dom) for i in range(n)]; s.memo = {}; s.all = (1 << n) - 1

    def at(s, e, p, ls=None):
        for a in leaves(p) if ls is None else ls: e[a]
        return num(p, e, e.memo)

    def truth(s, key):
        if key in s.memo: return s.memo[key]
        t = f = 0; ls = leaves(key[1])
        for i, e in enumerate(s.envs):
            try: v, g = s.at(e, key[1], ls)
            except (ValueError, ZeroDivisionError, OverflowError, TypeError): continue
            if key[0] == "pos":
                if v == 0 or abs(v) >= 1e-10 * g: t, f = (t | 1 << i, f) if v > 0 else (t, f | 1 << i)
            elif key[0] == "zero": t, f = (t | 1 << i, f) if v == 0 else (t, f | 1 << i)
        s.memo[key] = t, f
        return t, f

    def alive(s, case):
        m = s.all
        for k, b in case.items():
            if not m: break
            m &= s.truth(k)[0 if b else 1]
        return m

    def force(s, case, key):
        """the only outcome met in this case, if there is one"""
        m = s.alive(case); t, f = s.truth(key); t &= m; f &= m
        if bin(m).count("1") < 16 or t and f: return None
        return True if t else False if f else None


def points(forms, case, want=6, tries=3000, seed=1, domain=None):
    """points (leaf -> value) at which the case's signs hold"""
    b = getattr(case, "bank", None)
    if b is not None:
        m = b.alive(case); out = []
        for i, e in enumerate(b.envs):
            if not m >> i & 1: continue
            try:
                for p in forms: b.at(e, p)
            except (ValueError, ZeroDivisionError, OverflowError, TypeError): continue
            out.append(e)
            if len(out) >= want: break
        if out: return out
    ls = set()
    for p in forms: leaves(p, ls)
    for k in case:
        if k[0] != "true": leaves(k[1], ls)
    ls = sorted(ls); rnd = random.Random(seed); out = []
    for t in range(tries):
        sc = (1.0, 0.3, 3.0, 1.5)[t % 4]
        env = {a: (rnd.uniform(0.05, 1.0) * sc * (1 if domain and domain.get(a) == "+" or rnd.random() < .6 else -1)) for a in ls}
        if domain:
            for a in ls:
                d = domain.get(a)
                if isinstance(d, tuple): env[a] = rnd.uniform(*d)
                elif d == "int": env[a] = rnd.randint(1, 6)
        try:
            if not holds(case, env, {}): continue
            for p in forms: num(p, env, {})
        except (ValueError, ZeroDivisionError, OverflowError, TypeError): continue
        out.append(env)
        if len(out) >= want: break
    return out


# ---------------------------------------------------------------- normal form
def clear(p, memo=None):
    """p times its (nonvanishing) denominators, so that p == 0 iff the result is identically 0"""
    for _ in range(12):
        neg = {}
        for mo in p.m:
            for a, e in mo:
                if e < 0: neg[a] = min(neg.get(a, 0), e)
        if not neg: return p
        for a, e in neg.items():
            k = _atoms[a]
            m = {}
            up = {}
            for mo, c in p.m.items():
                q = dict(mo); x = q.pop(a, 0) - e
                up.setdefault(x, {})[tuple(sorted(q.items()))] = c
            r = ZERO
            for x, m in up.items():
                f = ppow(k[1], x) if k[0] == "poly" and x else P({((a, x),): affine.Fraction(1)}) if x else ONE
                r = padd(r, pmul(P(m), f))
            p = r
    return p


def reduce(p):
    """sin^2 -> 1 - cos^2, sqrt(u)^2 -> u, cosh^2 -> 1 + sinh^2, polynomial atoms expanded"""
    for _ in range(30):
        r = ZERO; ch = False
        for mo, c in p.m.items():
            f = None
            for i, (a, e) in enumerate(mo):
                k = _atoms[a]
                if k[0] == "poly" and e > 0: f = (i, ppow(k[1], e), 0)
                elif k[0] == "call" and e >= 2 and len(k) == 3 and isinstance(k[2], P):
                    if k[1] == "sin": f = (i, padd(ONE, sq(call("cos", k[2])), -1), e - 2)
                    elif k[1] == "cosh": f = (i, padd(ONE, sq(call("sinh", k[2]))), e - 2)
                    elif k[1] == "sqrt": f = (i, k[2], e - 2)
                    elif k[1] in ("abs", "fabs"): f = (i, sq(k[2]), e - 2)
                elif k[0] == "call" and e >= 2 and k[1] == "hypot": f = (i, padd(sq(k[2]), sq(k[3])), e - 2)
                if f: break
            if f is None: r = padd(r, P({mo: c})); continue
            ch = True; i, g, e = f; a = mo[i][0]
            rest = mo[:i] + (((a, e),) if e else ()) + mo[i + 1:]
            r = padd(r, pmul(P({rest: c}), g))
        p = r
        if not ch: return p
    return p


def trans(p, memo=None):
    """tan -> sin/cos, arguments in normal form"""
    mp = {}
    for a in p.atoms():
        k = _atoms[a]
        if k[0] == "call" and k[1] == "tan": mp[a] = pmul(call("sin", k[2]), pinv(call("cos", k[2])))
        elif k[0] == "call" and k[1] == "tanh": mp[a] = pmul(call("sinh", k[2]), pinv(call("cosh", k[2])))
        elif k[0] == "call" and k[1] in ("sin", "cos", "sinh", "cosh") and len(k) == 3 and isinstance(k[2], P):
            u = k[2]; i = None
            if u.m:
                b = u.single()
                if b is not None and _atoms[b][0] == "call":
                    n, w = _atoms[b][1], _atoms[b][2:]
                    if k[1] == "sin": i = {"asin": lambda: w[0], "acos": lambda: root(padd(ONE, sq(w[0]), -1)), "atan": lambda: pmul(w[0], inv(root(padd(ONE, sq(w[0]))))),
                                           "atan2": lambda: pmul(w[0], inv(root(padd(sq(w[0]), sq(w[1])))))}.get(n)
                    if k[1] == "cos": i = {"acos": lambda: w[0], "asin": lambda: root(padd(ONE, sq(w[0]), -1)), "atan": lambda: inv(root(padd(ONE, sq(w[0])))),
                                           "atan2": lambda: pmul(w[1], inv(root(padd(sq(w[0]), sq(w[1])))))}.get(n)
                lead = u.m[min(u.m)]
                if i: mp[a] = i()
                elif lead < 0 and len(u.m) >= 1 and u.const() is None:       # odd / even functions of the negated argument
                    v = call(k[1], padd(ZERO, u, -1))
                    mp[a] = v if k[1] in ("cos", "cosh") else padd(ZERO, v, -1)
    if not mp: return p
    r = ZERO
    for mo, c in p.m.items():
        t = C(c)
        for a, e in mo:
            if a in mp: t = pmul(t, ppow(mp[a], e)) if e > 0 or True else t
            else: t = pmul(t, P({((a, e),): affine.Fraction(1)}))
        r = padd(r, t)
    return r


def identical(a, b):
    """normal forms agree"""
    try:
        d = padd(a, b, -1)
        for _ in range(4):
            if not d.m: return True
            d = reduce(clear(trans(d)))
        if not d.m: return True
        return all(abs(float(c)) < 1e-12 for c in d.m.values()) and max(abs(float(c)) for c in d.m.values()) < 1e-12
    except Give: return False


def compare(a, b, case, domain=None, tol=1e-6):
    """'same' normal forms agree / 'equal' told apart by nothing / ('differ', point, va, vb) / 'empty' case without points"""
    if identical(a, b): return "same"
    ps = points([a, b], case, domain=domain)
    if not ps: return "empty"
    bad = []
    for env in ps:
        x, g = num(a, env); y, h = num(b, env)
        if abs(x - y) > tol * (abs(x) + abs(y)) and abs(x - y) > (tol > 1e-5 and tol or 0) and abs(x - y) > 1e-9 * (g + h) and abs(x - y) > 1e-11: bad.append((env, x, y, abs(x - y) > 1e-3 * (abs(x) + abs(y)) and abs(x - y) > 1e-6 * (g + h)))
    if len(bad) >= max(1, len(ps) // 2) or any(t[3] for t in bad): return ("differ",) + [t for t in bad if t[3]] [0][:3] if any(t[3] for t in bad) else ("differ",) + bad[0][:3]
    return "equal"


def showpoint(env): return ", ".join("%s=%.4g" % (affine.ashow(a), v) for a, v in sorted(env.items(), key=lambda t: affine.ashow(t[0])))


def cases(run, limit=64, bank=None):
    """run(split) for every consistent combination of branch decisions it asks for; yields (decisions, result)"""
    todo = [({}, set())]; n = 0
    while todo:
        pre, forced = todo.pop(0)
        if bank is not None:
            try:
                if pre and not bank.alive(pre): continue
            except Lost: pass
        elif len(pre) >= 3:
            try:
                if not points([], pre, want=1, tries=800): continue
            except Lost: pass
        n += 1
        if n > limit: raise Give("too many cases")
        sp = Split(pre, bank, forced)
        r = run(sp)
        ks = list(sp)
        for i in range(len(pre), len(ks)):
            if ks[i] in sp.forced: continue
            q = {k: sp[k] for k in ks[:i]}; q[ks[i]] = False
            todo.append((q, {k for k in ks[:i] if k in sp.forced} if bank is not None else set()))
        yield sp, r
