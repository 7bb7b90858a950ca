"""C12: analytic derivatives, integrals and inverses agree with the functions they accompany."""
from . import affine, calc
from .affine import *
from .affine import _atoms
from .calc import *
from .core import Check, program, nt, walk

ERRS = (Give, Lost, KeyError, IndexError, TypeError, AttributeError, RecursionError, ValueError, ZeroDivisionError, OverflowError)


class Run:
    """one evaluation in one case"""
    def __init__(s, prog, split, opaque=(), steps=200000):
        s.prog = prog; s.E = Eval(prog, steps=steps, opaque=opaque); s.E.split = split; s.E.fixed = True; s.E.maxsplit = 16; s.st = {}

    def this(s, cls, obj=None):
        s.st[("obj", "this")] = obj or Obj(cls, "this", {})
        return (("obj", "this"), ())

    def build(s, cls, pre="", special=None):
        """object made by the class's own constructor from symbolic arguments; (location, argument symbols) or None where it throws"""
        E = s.E; prog = s.prog; obj = Obj(cls, "this", E.defaults(cls, {}, (0,), None, affine.Ctx())); s.dom = {}
        s.st[("obj", "this")] = obj; th = (("obj", "this"), ())
        cs = [f for f in prog.bycls.get(cls, []) if f.kind == "ctor" and not f.get("copy") and not (len(f.params) == 1 and nt(prog.T(f.params[0]).replace("const ", "").rstrip("& ")) == nt(cls)) and (f.body is not None or f.get("inits"))]
        if not cs: return th
        f = max(cs, key=lambda f: len(f.params)); vals = []
        for i, p in enumerate(f.params):
            v = E.sym(pre + (p["n"] or "a%d" % i), prog.T(p))
            if special and i in special: v = special[i]
            vals.append(v)
            if prog.T(p) in ("int", "unsigned int", "unsigned long"): s.dom[v.single()] = "int"
        fr = {(-1, p["id"]): v for p, v in zip(f.params, vals)}
        st = dict(s.st); st.update(fr)
        v, st2 = E.body(f, f.body, st, (-1,), th, f.get("inits") or [])
        if st2 is None: return None
        s.st = {k: x for k, x in st2.items() if k[0] == "obj"}
        return th

    def call(s, f, args, th=None):
        """args: values; reference parameters get a location whose final content is returned in .out[i]"""
        E = s.E; st = s.st; vals = []; E.n = 0
        for i, p in enumerate(f.params):
            t = s.prog.T(p); v = args[i] if i < len(args) else None
            if v is None: v = E.sym(p["n"] or "arg%d" % i, t)
            if t.endswith("&"):
                st[("arg", i)] = v; vals.append(Ref((("arg", i), ())))
            else: vals.append(v)
        v, st2, fr = E.run(f, vals, th, st)
        if st2 is None: return None
        if isinstance(v, tuple) and v and v[0] == "loc": v = E.read(st2, v[1], None)
        s.out = {i: st2.get(("arg", i)) for i in range(len(f.params))}
        s.st = {k: x for k, x in st2.items() if k[0] == "obj"}
        return v if v is not None else True


def cell(v, *ix):
    x = vget(v, tuple(C(i) for i in ix)) if isinstance(v, V) else None
    if not isinstance(x, P): raise Lost("entry %s" % (ix,))
    return x


def dimof(prog, cls, depth=0):
    """state dimension fixed by the class: first template argument of a base, or a constant getDim()"""
    for f in prog.bycls.get(cls, []):
        if f.n in ("getDim", "dimension", "dim") and f.body is not None and not f.params:
            try:
                v = Run(prog, None).call(f, [])
                if isinstance(v, P) and v.const() is not None: return int(v.const())
            except ERRS: pass
    r = prog.recs.get(cls)
    for b in (r or {}).get("bases") or []:
        q = b.get("t") or b.get("q") if isinstance(b, dict) else str(b)
        import re
        m = re.search(r"<\s*(\d+)", str(prog.tc.get(q, q)))
        if m: return int(m.group(1))
    return None


class Und(list):
    def append(s, x):
        if x not in s: list.append(s, x)


class Judge:
    def __init__(s, ch): s.ch = ch; s.n = 0; s.und = Und(); s.byid = 0; s.empty = 0

    def eq(s, key, where, what, got, want, case, domain=None, tol=1e-6):
        try:
            if not points([], case, domain=domain, want=1): s.empty += 1; return None
            r = compare(got, want, case, domain, tol)
        except ERRS as e: s.und.append("%s: %s: %s" % (key, what, e)); return None
        if isinstance(r, tuple):
            s.ch.bad(key, where, "%s: is %s, should be %s (at %s: %.8g instead of %.8g)" % (what, pshow(got)[:100], pshow(want)[:100], showpoint(r[1])[:160], r[2], r[3])); return False
        if r == "empty": s.und.append("%s: %s: case without points" % (key, what)); return None
        if r == "equal": s.byid += 1
        s.n += 1; s.ch.good("%s: %s" % (key, what)); return True


    def within(s, key, where, what, got, lo, hi, case, domain=None):
        """the term stays inside [lo, hi] (None: open) on the branch"""
        try: ps = points([got], case, domain=domain)
        except ERRS as e: s.und.append("%s: %s: %s" % (key, what, e)); return
        bad = [(env, num(got, env)[0]) for env in ps]
        bad = [(env, x) for env, x in bad if lo is not None and x < lo - 1e-7 or hi is not None and x > hi + 1e-7]
        if not ps: s.empty += 1
        elif bad: s.ch.bad(key, where, "%s: is %s, outside [%s, %s] (at %s: %.8g)" % (what, pshow(got)[:100], lo, "infinity" if hi is None else hi, showpoint(bad[0][0])[:160], bad[0][1]))
        else: s.n += 1; s.ch.good("%s: %s" % (key, what))


def systems(ch, prog, J):
    """jacobian(…) is the matrix of partial derivatives of derivs(…) / map(…)"""
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.n != "jacobian" or f.body is None or f.get("dep") or not f.cls or f.get("lam"): continue
        g = [x for x in prog.bycls.get(f.cls, []) if x.n in ("derivs", "map") and x.body is not None]
        if len(g) != 1: continue
        g = g[0]; nm = nt(f.cls).split("::")[-1]; key = "%s::jacobian" % nt(f.cls)
        vec = lambda h: [i for i, p in enumerate(h.params) if "Vector" in prog.T(p)]
        mat = [i for i, p in enumerate(f.params) if "Matrix" in prog.T(p)]
        if len(vec(g)) != 2 or len(mat) != 1 or not vec(f): continue
        n = dimof(prog, f.cls)
        if n is None: J.und.append("%s: dimension unknown" % key); continue
        x = symvec("x")
        tol = 1e-3 if any(n.get("k") == "Call" and str(n.get("fn", "")).split("::")[-1] == g.n for n in walk(f.body)) else 1e-6
        t = A("sym", "t")

        def run(split):
            R = Run(prog, split); th = R.this(f.cls)
            args = [x if i == vec(g)[0] else t if prog.T(p) == "double" or prog.T(p) == "const double" else None for i, p in enumerate(g.params)]
            if R.call(g, args, th) is None: return None
            dx = R.out[vec(g)[1]]
            R2 = Run(prog, split); th = R2.this(f.cls)
            args = [x if i == vec(f)[0] else t if prog.T(p) in ("double", "const double") else None for i, p in enumerate(f.params)]
            if R2.call(f, args, th) is None: return None
            return dx, R2.out[mat[0]], R2.out[vec(f)[1]] if len(vec(f)) > 1 else None
        try:
            for case, r in cases(run):
                if r is None: continue
                dx, jm, d2 = r
                for i in range(n):
                    fi = cell(dx, i)
                    if d2 is not None: J.eq(key + "#derivs", f.where, "%s: component %d left by jacobian" % (nm, i), cell(d2, i), fi, case)
                    for j in range(n):
                        a = at(x.gen, (C(j),)).single() if isinstance(x.gen, P) else A("el", "x", (C(j),)).single()
                        J.eq("%s(%d,%d)" % (key, i, j), f.where, "%s: entry (%d,%d) of the Jacobian" % (nm, i, j), cell(jm, i, j), D(fi, a), case, tol=tol)
        except ERRS as e: J.und.append("%s: %s %s" % (key, type(e).__name__, e))


def duals(ch, prog, J):
    """every function of a dual number returns (f(v), f'(v)*d)"""
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        rt = prog.tc.get(f.get("ret"), "")
        if f.body is None or f.get("dep") or f.get("lam") or "Dual<double>" not in rt or "Dual.h" in f.f: continue
        ps = [prog.T(p) for p in f.params]
        du = [i for i, t in enumerate(ps) if t.replace("const ", "").rstrip("& ") in ("MML::Symbolic::Dual<double>",) or nt(t.replace("const ", "").rstrip("& ")) == "MML::Symbolic::Dual"]
        own = f.cls is not None and nt(f.cls) == "MML::Symbolic::Dual" and not f.get("static")
        if not du and not own or any(i not in du and t not in ("double", "const double &", "int", "float") for i, t in enumerate(ps)): continue
        key = "%s(%s)" % (f.q, ",".join("dual" if i in du else "number" for i in range(len(ps))))

        def run(split):
            R = Run(prog, split); mk = lambda n: Obj("MML::Symbolic::Dual", n, {"value": A("sym", n), "deriv": A("sym", "d" + n)})
            th = R.this(f.cls, mk("self")) if own else None
            v = R.call(f, [mk("x%d" % i) if i in du else A("sym", "x%d" % i) for i in range(len(ps))], th)
            if own and not isinstance(v, Obj) and v is not None: v = R.st.get(("obj", "this"))
            if v is None: return None
            g = lambda n: R.E.readin(R.st, v, (("f", n),), "double")
            return g("value"), g("deriv")
        try:
            for case, r in cases(run):
                if r is None: continue
                val, der = r
                want = ZERO
                for n in ["x%d" % i for i in du] + (["self"] if own else []):
                    want = padd(want, mul(D(val, A("sym", n).single()), A("sym", "d" + n)))
                J.eq(key, f.where, "%s: derivative part" % f.q, der, want, case)
                if f.n in RULES and not own: J.eq(key + "#value", f.where, "%s: value part" % f.q, val, call(f.n, *[A("sym", "x%d" % i) for i in range(len(ps))]), case)
        except ERRS as e: J.und.append("%s %s: %s %s" % (key, f.where, type(e).__name__, e))


def field(prog, cls, x, split, names=("derivs", "map")):
    """(components of the vector field at x, run) ; None outside the case"""
    g = [q for q in prog.bycls.get(cls, []) if q.n in names and q.body is not None]
    if len(g) != 1: raise Lost("no vector field")
    g = g[0]; vi = [i for i, p in enumerate(g.params) if "Vector" in prog.T(p)]
    R = Run(prog, split); th = R.this(cls)
    if R.call(g, [x if i == vi[0] else A("sym", "t") if prog.T(p) in ("double", "const double") else None for i, p in enumerate(g.params)], th) is None: return None
    n = dimof(prog, cls)
    if n is None: raise Lost("dimension unknown")
    return [cell(R.out[vi[1]], i) for i in range(n)]


def det(m):
    if len(m) == 1: return m[0][0]
    r = ZERO
    for j in range(len(m)):
        r = padd(r, mul(m[0][j], det([row[:j] + row[j + 1:] for row in m[1:]])), -1 if j % 2 else 1)
    return r


def invariants(ch, prog, J):
    """quantities announced as conserved, divergences and determinants follow from the vector field / map"""
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.body is None or f.get("dep") or not f.cls or f.get("lam"): continue
        if f.n not in ("computeInvariant", "getEnergy", "getDivergence", "jacobianDeterminant", "isAreaPreserving", "isHamiltonian"): continue
        if not any(x.n in ("derivs", "map") and x.body is not None for x in prog.bycls.get(f.cls, [])): continue
        nm = nt(f.cls).split("::")[-1]; key = "%s::%s" % (nt(f.cls), f.n); x = symvec("x")
        mp = any(q.n == "map" for q in prog.bycls[f.cls])

        def run(split):
            fs = field(prog, f.cls, x, split)
            if fs is None: return None
            R = Run(prog, split); th = R.this(f.cls)
            v = R.call(f, [x if "Vector" in prog.T(p) else ZERO if prog.T(p) == "int" else None for p in f.params], th)
            return None if v is None else (fs, v)
        try:
            for case, r in cases(run):
                if r is None: continue
                fs, v = r; n = len(fs); el = [at(x.gen, (C(j),)).single() for j in range(n)]
                jac = lambda: [[D(fs[i], el[j]) for j in range(n)] for i in range(n)]
                if f.n in ("computeInvariant", "getEnergy"):
                    J.eq(key, f.where, "%s: rate of change of the conserved quantity along the flow" % nm, psum(*[mul(D(v, el[i]), fs[i]) for i in range(n)]), ZERO, case)
                elif f.n == "getDivergence": J.eq(key, f.where, "%s: announced divergence" % nm, v, psum(*[D(fs[i], el[i]) for i in range(n)]), case)
                elif f.n == "jacobianDeterminant": J.eq(key, f.where, "%s: announced determinant" % nm, v, det(jac()), case)
                elif isinstance(v, P) and v.const() == 1:
                    if mp: J.eq(key, f.where, "%s: determinant of an area-preserving map" % nm, det(jac()), ONE, case)
                    else: J.eq(key, f.where, "%s: divergence of a Hamiltonian flow" % nm, psum(*[D(fs[i], el[i]) for i in range(n)]), ZERO, case)
        except ERRS as e: J.und.append("%s: %s %s" % (key, type(e).__name__, e))


def every(run, J, key):
    """cases of run; a case the evaluator cannot express is counted as undecided on its own"""
    def safe(split):
        try: return run(split)
        except ERRS as e: J.und.append("%s: %s %s" % (key, type(e).__name__, str(e)[:120])); return None
    try:
        for case, r in cases(safe):
            if r is not None: yield case, r
    except ERRS as e: J.und.append("%s: %s %s" % (key, type(e).__name__, e))


def distributions(ch, prog, J):
    """pdf is the derivative of cdf, inverseCdf undoes cdf, tails are complements"""
    for cls in sorted(prog.bycls):
        fs = {}
        for f in prog.bycls[cls]:
            if f.body is not None and not f.get("dep") and not f.get("lam") and f.kind != "ctor": fs.setdefault(f.n, f)
        if "pdf" not in fs and "cdf" not in fs or "Statistics" not in fs.get("cdf", fs.get("pdf")).f: continue
        nm = nt(cls).split("::")[-1]; x = A("sym", "x"); p = A("sym", "p"); xa = x.single()

        hard = set()
        for f in prog.bycls[cls]:
            if f.body is not None and any(n["k"] in ("For", "While", "Do") for n in walk(f.body)) or f.n.startswith("incomplete"):
                hard.add(f.n)
                if f.n.startswith(("incompleteBeta", "incompleteGammaP")): special(f.n, [q["n"] for q in f.params])

        def obl(n1, fn):
            def run(split):
                R = Run(prog, split, tuple(hard - {n1})); th = R.build(cls)
                if th is None: return None
                r = fn(R, th)
                return None if r is None or any(v is None for v in r) else (r, R.dom)
            for case, (r, dom) in every(run, J, "%s::%s" % (nm, n1)):
                d = dict(dom)
                yield case, r, d
        if "cdf" in fs and "pdf" in fs:
            for case, (c, q), dom in obl("pdf", lambda R, th: (R.call(fs["cdf"], [x], th), R.call(fs["pdf"], [x], th))):
                J.within(cls + "::cdf", fs["cdf"].where, "%s: value of cdf" % nm, c, 0, 1, case, dom)
                J.within(cls + "::pdf", fs["pdf"].where, "%s: value of pdf" % nm, q, 0, None, case, dom)
                try: J.eq(cls + "::pdf", fs["pdf"].where, "%s: pdf against the derivative of cdf" % nm, q, D(c, xa), case, dom)
                except ERRS as e: J.und.append("%s::pdf %s" % (nm, e))
        if "cdf" in fs and "inverseCdf" in fs:
            def back(R, th):
                v = R.call(fs["inverseCdf"], [p], th)
                if v is None or "inverseCdf" in hard and not (isinstance(v, P) and p.single() in leaves(v)): return None       # iterative search: only its closed-form cases
                return (R.call(fs["cdf"], [v], th),)
            for case, (c,), dom in obl("inverseCdf", back):
                dom = dict(dom); dom[p.single()] = (0.001, 0.999)
                J.eq(cls + "::inverseCdf", fs["inverseCdf"].where, "%s: cdf at inverseCdf(p)" % nm, c, p, case, dom, tol=1e-6)
        for t in ("sf", "rightTailPValue"):
            if t in fs and "cdf" in fs:
                for case, (c, q), dom in obl(t, lambda R, th: (R.call(fs["cdf"], [x], th), R.call(fs[t], [x], th))):
                    J.eq(cls + "::" + t, fs[t].where, "%s: %s against 1 - cdf" % (nm, t), padd(c, q), ONE, case, dom)
        if "twoTailedPValue" in fs and "cdf" in fs and len(fs["twoTailedPValue"].params) == 1:
            for case, (c, q), dom in obl("twoTailedPValue", lambda R, th: (R.call(fs["cdf"], [A("call", "abs", x)], th), R.call(fs["twoTailedPValue"], [x], th))):
                J.eq(cls + "::twoTailedPValue", fs["twoTailedPValue"].where, "%s: two-tailed probability against 2 (1 - cdf(|x|))" % nm, q, psum(C(2), pmul(C(-2), c)), case, dom)
        for a, b in (("stddev", "variance"),):
            if a in fs and b in fs:
                for case, (c, q), dom in obl(a, lambda R, th: (R.call(fs[a], [], th), R.call(fs[b], [], th))):
                    J.eq(cls + "::" + a, fs[a].where, "%s: square of the standard deviation" % nm, pmul(c, c), q, case, dom)
        if "zScore" in fs and "fromZScore" in fs:
            for case, (c,), dom in obl("fromZScore", lambda R, th: (R.call(fs["fromZScore"], [R.call(fs["zScore"], [x], th)], th),)):
                J.eq(cls + "::fromZScore", fs["fromZScore"].where, "%s: fromZScore at zScore(x)" % nm, c, x, case, dom)


def size(prog, t):
    import re
    b = nt(t.replace("const ", "").rstrip("& "))
    m = re.search(r"VectorN<[^,<>]+, *(\d+)", t)
    if m: return int(m.group(1))
    for c in (prog.recs.get(b) or {}).get("bases") or []:
        r = size(prog, prog.tc.get(c.get("t"), c.get("q")))
        if r: return r
    return None


def transforms(ch, prog, J):
    """transfInverse undoes transf; coordinate functions are the components of the transformation"""
    for cls in sorted(prog.bycls):
        fs = {}
        for f in prog.bycls[cls]:
            if f.body is not None and not f.get("dep") and not f.get("lam"): fs.setdefault(f.n, f)
        if not {"transf", "transfInverse"} <= set(fs): continue
        a, b = fs["transf"], fs["transfInverse"]; nm = nt(cls).split("::")[-1]
        n = size(prog, prog.T(a.params[0]))
        if n is None: J.und.append("%s: dimension" % cls); continue

        ctors = [f for f in prog.bycls[cls] if f.kind == "ctor" and len(f.params) == 3 and all("VectorN<double, 3>" in prog.T(p) for p in f.params)]
        ct = A("sym", "t"); u = [A("sym", "s%d" % i) for i in range(3)]; cs, sn = call("cos", ct), call("sin", ct); vec = lambda *w: V(ZERO, tuple(((C(i),), x) for i, x in enumerate(w)))
        ortho = {0: vec(pmul(u[0], cs), pmul(u[0], sn), ZERO), 1: vec(padd(ZERO, pmul(u[1], sn), -1), pmul(u[1], cs), ZERO), 2: vec(ZERO, ZERO, u[2])} if ctors else None

        def run(split, special=None):
            R = Run(prog, split, ("GetInverse",)); th = R.build(cls, "c.", special)
            if th is None: return None
            q = symvec("q"); dom = dict(R.dom)
            pt = prog.T(a.params[0]); el = [A("el", "q", (C(i),)).single() for i in range(n)]
            if "Spherical" in pt: dom.update({el[0]: "+", el[1]: (0.05, 3.09), el[2]: (-3.1, 3.1)})
            elif "Cylindrical" in pt or "Polar" in pt: dom.update({el[0]: "+", el[1]: (-3.1, 3.1)})
            y = R.call(a, [q], th)
            if y is None: return None
            x = R.call(b, [y], th)
            return None if x is None else (q, x, dom)
        for fn, tr, w in (("coordTransfFunc", a, "transf"), ("inverseCoordTransfFunc", b, "transfInverse")):
            if fn not in fs: continue
            for i in range(n):
                def comp(split, special=None):
                    R = Run(prog, split, ("GetInverse",)); th = R.build(cls, "c.", special)
                    if th is None: return None
                    q = symvec("q"); y = R.call(tr, [q], th)
                    if y is None: return None
                    E = R.E; E.n = 0
                    v, st2, fr = E.run(fs[fn], [C(i)], th, R.st)
                    if st2 is None: return None
                    o = E.read(st2, v[1], None) if isinstance(v, tuple) and v and v[0] == "loc" else v
                    op = [g for g in prog.bycls.get(o.cls, []) if g.n == "operator()" and g.body is not None] if isinstance(o, Obj) else []
                    if len(op) != 1: raise Lost("coordinate function object")
                    st2 = dict(st2); st2[("obj", "fn")] = o; R.st = st2
                    z = R.call(op[0], [q], (("obj", "fn"), ()))
                    return None if z is None else (y, z, R.dom)
                for case, (y, z, dom) in list(every(comp, J, "%s::%s" % (nm, fn))) + (list(every(lambda sp: comp(sp, ortho), J, nm + fn)) if ortho else []):
                    try: J.eq("%s::%s" % (cls, fn), fs[fn].where, "%s: %s(%d) against component %d of %s" % (nm, fn, i, i, w), z, cell(y, i), case, dom)
                    except ERRS as e: J.und.append("%s::%s %s" % (nm, fn, e))
        both = list(every(run, J, nm)) + (list(every(lambda sp: run(sp, ortho), J, nm + " (orthogonal base)")) if ortho else [])
        for case, (q, x, dom) in both:
            for i in range(n):
                try: J.eq(cls + "::transfInverse", b.where, "%s: component %d of transfInverse(transf(q))" % (nm, i), cell(x, i), cell(q, i), case, dom)
                except ERRS as e: J.und.append("%s %s" % (nm, e))


# divergence- and curl-free fields, as documented with each class
FIELDS = {"PotentialVortexField": "dc", "SaddleField": "dc", "VortexField": "d", "SourceSinkField": "dc", "DipoleField": "dc", "InfiniteLineCurrentField": "dc", "InverseRadialForceFieldCart": "dc"}


def fields(ch, prog, J):
    """fields documented as source-free or irrotational are"""
    for cls in sorted(prog.bycls):
        nm = nt(cls).split("::")[-1]
        if nm not in FIELDS: continue
        f = [g for g in prog.bycls[cls] if g.n == "operator()" and g.body is not None]
        if len(f) != 1: J.und.append(cls); continue
        f = f[0]; q = symvec("q"); el = [A("el", "q", (C(i),)).single() for i in range(3)]

        def run(split):
            R = Run(prog, split); th = R.build(cls, "c.")
            if th is None: return None
            v = R.call(f, [q], th)
            return None if v is None else (v,)
        for case, (v,) in every(run, J, cls):
            try:
                c = [cell(v, i) for i in range(3)]
                if all(not x.m for x in c): J.empty += 1; continue
                if "d" in FIELDS[nm]: J.eq(cls + "#div", f.where, "%s: divergence" % nm, psum(*[D(c[i], el[i]) for i in range(3)]), ZERO, case)
                if "c" in FIELDS[nm]:
                    for i in range(3):
                        j, k = (i + 1) % 3, (i + 2) % 3
                        J.eq(cls + "#curl", f.where, "%s: component %d of the curl" % (nm, i), D(c[k], el[j]), D(c[j], el[k]), case)
            except ERRS as e: J.und.append("%s: %s" % (cls, e))


FLOORS = {"systems": 50, "invariants": 4, "duals": 20, "distributions": 20, "transforms": 50, "fields": 8}


def run(ck):
    prog = program(); J = Judge(ck)
    for nm, title in (("systems", "Jacobian entries"), ("invariants", "invariants, divergences, determinants"), ("duals", "dual-number rules"), ("distributions", "distribution identities"), ("transforms", "coordinate transformation components"), ("fields", "field identities")):
        n0 = ck.ok; b0 = len(ck.viol)
        globals()[nm](ck, prog, J)
        ck.floor(title + " decided", ck.ok - n0 + len(ck.viol) - b0, FLOORS[nm])
    ck.cov["not expressible in closed form"] = len(J.und); ck.cov["cases without points"] = J.empty
    ck.cov["forms without an algebraic normal form, compared as terms"] = J.byid
    ck.notes += ["undecided: " + u for u in J.und[:20]]
