"""C09: the coefficients of the numerical formulas satisfy the equations that define them."""
import re
from math import factorial
from . import affine
from .affine import *
from .affine import _atoms

UND = "undecided"


def evalfn(prog, f, this=None, opaque=(), refs=True, steps=200000, same=(), distinct=False, peel=False):
    """symbolic arguments named after the parameters; returns (value, state, evaluator).  same: groups of parameter names that
    denote the same value"""
    E = Eval(prog, steps=steps, opaque=opaque); E.peel = peel
    st = {}
    th = None
    if f.cls and not f.get("static"):
        st[("obj", "this")] = Obj(f.cls, "this", {}); th = (("obj", "this"), ())
    args = []
    for i, p in enumerate(f.params):
        t = prog.T(p)
        nm = p["n"] or "arg%d" % i
        for g in same:
            if i in g: nm = f.params[min(g)]["n"]
        v = E.sym(nm, t)
        if t.endswith("&"):
            st[("arg", i)] = v; args.append(Ref((("arg", i), ())))
        else: args.append(v)
    if distinct: E.distinct = {a.single() for a in args if isinstance(a, P) and not any(len(g) for g in same)}
    v, st2, fr = E.run(f, args, th, st)
    return v, st2, E


# ------------------------------------------------------------------ finite-difference stencils
def samples_of(p):
    """atoms of p that are evaluations of the user's function"""
    return {a for a in p.atoms() if is_sample(a)}


def is_sample(a):
    k = _atoms[a]
    if k[0] == "call" and len(k) > 2 and isinstance(k[2], tuple) and k[2][:1] == ("obj",): return True
    if k[0] == "el" and isinstance(k[1], tuple) and k[1][:1] in (("ret",), ("out",)): return True
    if k[0] == "call" and len(k) == 2 and isinstance(k[1], tuple) and k[1][:1] == ("out",): return True
    return False


def sample_args(a):
    """(identity, argument tuple)"""
    k = _atoms[a]
    pv = lambda l: [x for x in l if isinstance(x, (P, V))]
    if k[0] == "call" and len(k) > 2: return (k[1], k[2]), pv(k[3:])
    nm = k[1]; o = 2 if nm[0] == "out" else 1
    return (nm[o], nm[o + 1], k[2] if k[0] == "el" else ()), pv(nm[o + 2:])


class Undecided(Exception):
    pass


def coords(samples):
    """displacement of each sample point: {atom: {coordinate: P}}; coordinate = (arg position, key or None, base)"""
    args = {a: sample_args(a) for a in samples}
    ids = {x[0] for x in args.values()}
    if len(ids) > 1: raise Undecided("samples of different functions or components")
    out = {a: {} for a in samples}
    n = len(next(iter(args.values()))[1])
    for i in range(n):
        col = {a: x[1][i] for a, x in args.items()}
        if all(isinstance(v, P) for v in col.values()):
            if len(set(col.values())) == 1 and len(col) > 1 and False: continue
            cand = None
            for v in col.values():
                c = {mo[0][0] for mo, k in v.m.items() if k == 1 and len(mo) == 1 and mo[0][1] == 1 and _atoms[mo[0][0]][0] in ("sym", "el")}
                cand = c if cand is None else cand & c
            if not cand:
                if len(set(col.values())) == 1: continue      # a fixed argument (component index)
                raise Undecided("no common base point")
            for b in sorted(cand, key=lambda a: ashow(a)):
                pass
            for a, v in col.items():
                out[a][(i, None)] = (v, cand)
        else:
            base = None
            for v in col.values():
                if not isinstance(v, V): raise Undecided("argument shape")
                if base is None: base = v.gen
                elif base != v.gen: raise Undecided("different base points")
            keys = {k for v in col.values() for k, _ in v.upd}
            for a, v in col.items():
                for k in keys:
                    x = vget(v, k)
                    if not isinstance(x, P): raise Undecided("coordinate")
                    d = padd(x, at(v.gen, k), -1)
                    out[a][(i, k)] = (d, None)
    return out


def stencil(R, basepref):
    """R: linear form over samples -> (coordinates list, [(coefficient Fraction, rest monomial, {coord: (q, M)})])"""
    S = samples_of(R)
    if not S: raise Undecided("no evaluation of the function in the result")
    terms = []
    for mo, c in R.m.items():
        sm = [(a, e) for a, e in mo if a in S]
        if len(sm) != 1 or sm[0][1] != 1: raise Undecided("not linear in the samples: %s" % pshow(P({mo: c})))
        rest = tuple((a, e) for a, e in mo if a not in S)
        terms.append((sm[0][0], c, rest))
    co = coords(S)
    # resolve scalar bases
    disp = {a: {} for a in S}
    keys = {k for d in co.values() for k in d}
    for k in keys:
        if k[1] is None:
            cand = None
            for a in S:
                v, cd = co[a][k]; cand = cd if cand is None else cand & cd
            base = next((b for b in basepref if b in cand), None)
            if base is None:
                base = sorted(cand, key=ashow)[0]
            nm = (k[0], ashow(base))
            for a in S: disp[a][nm] = padd(co[a][k][0], P({((base, 1),): Fraction(1)}), -1)
        else:
            nm = (k[0], k[1])
            for a in S: disp[a][nm] = co[a][k][0]
    unit = {}
    for a in S:
        for nm, d in disp[a].items():
            if not d.m: continue
            if len(d.m) != 1: raise Undecided("displacement %s" % pshow(d))
            (mo, q), = d.m.items()
            if mo == (): raise Undecided("constant displacement")
            if unit.setdefault(nm, mo) != mo: raise Undecided("two step units for one coordinate")
    out = []
    for a, c, rest in terms:
        out.append((c, rest, {nm: (next(iter(d.m.values())) if d.m else Fraction(0)) for nm, d in disp[a].items() if nm in unit}))
    return unit, out


def moments(unit, terms, deriv, order):
    """deriv: {coord: multiplicity}; returns list of violated conditions (text)"""
    cs = sorted(set(unit) | set(deriv), key=str)
    bad = []
    D = sum(deriv.values())
    tol = Fraction(1, 10 ** 10)

    def multi(n, tot):
        if n == 1:
            yield (tot,); return
        for i in range(tot + 1):
            for r in multi(n - 1, tot - i): yield (i,) + r
    for tot in range(0, D + order):
        for ms in multi(len(cs), tot):
            acc = {}; scale = Fraction(0)
            for c, rest, q in terms:
                v = c
                mono = rest
                for k, m in zip(cs, ms):
                    if m == 0: continue
                    v = v * q.get(k, Fraction(0)) ** m / factorial(m)
                    if k in unit:
                        for _ in range(m): mono = mmul(mono, unit[k])
                if v:
                    acc[mono] = acc.get(mono, 0) + v; scale = max(scale, abs(v))
            want = {(): Fraction(1)} if dict((k, m) for k, m in zip(cs, ms) if m) == {k: m for k, m in deriv.items() if m} else {}
            for mono in set(acc) | set(want):
                d = acc.get(mono, Fraction(0)) - want.get(mono, Fraction(0))
                if abs(d) > tol * max(scale, 1):
                    bad.append((ms, d, mono))
    return cs, bad


def describe(cs, bad, deriv, order):
    ms, d, mono = bad[0]
    want = 1 if dict((k, m) for k, m in zip(cs, ms) if m) == deriv else 0
    nm = ",".join("%s^%d" % (str(k[1]) if not isinstance(k[1], tuple) else vshow(k[1]), m) for k, m in zip(cs, ms))
    return "Taylor coefficient of order (%s) is %s instead of %d" % (nm, fr(d + want), want)


def fr(q): return str(q) if q.denominator < 100000 else "%.15g" % float(q)


NAME = re.compile(r"^N(Sec|Third)?Der(\d)(Left|Right)?(Partial)?(Dyn)?(AllByAll|ByAll)?(_[uw]+)?(Detailed)?$")


def derivations(ch, prog):
    und = []; n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if not f.q.startswith("MML::Derivation::") or f.body is None or f.get("dep"): continue
        m = NAME.match(f.n)
        if not m and f.n.startswith("calcJacobian"):
            m = NAME.match("NDer%dPartialAllByAll" % (2 if re.search("(2|ODE|Map)$", f.n) else 4))
        if not m or f.q != "MML::Derivation::" + f.n: continue
        d = {None: 1, "Sec": 2, "Third": 3}[m.group(1)]; order = int(m.group(2)); side = m.group(3)
        name = f.n
        ints = [i for i, p in enumerate(f.params) if prog.T(p) == "int"]
        nums = [i for i, p in enumerate(f.params) if prog.T(p) == "double"]
        vecs = [i for i, p in enumerate(f.params) if Eval(prog).kindof(prog.T(p)) == "vec" and prog.T(p).startswith("const ")]
        part = bool(m.group(4)) or bool(m.group(6))
        variants = [()]
        if part and d == 2 and len(ints) >= 2 and not m.group(6): variants = [(), ((ints[-2], ints[-1]),)]
        for same in variants:
            key = "%s(%s)%s" % (f.q, ",".join(nt(prog.TS(p)).split("::")[-1].strip() for p in f.params), "[same index]" if same else "")
            try:
                v, st, E = evalfn(prog, f, same=same, distinct=len(variants) > 1 and not same)
                if isinstance(v, Obj): v = E.readin(st, v, (("f", "value"),), "double") if not part else E.readin(st, v, (("f", "value"),), None)
                if d != 1 and m.group(7) or m.group(7) and len(m.group(7)) > 2: d2 = len(m.group(7)) - 1
                else: d2 = d
                res = []      # (what, P, deriv coord -> multiplicity)
                if not part:
                    ptn = [f.params[i]["n"] for i in nums]
                    if m.group(7):
                        vars_ = {"u": ptn[0], "w": ptn[1]}; dv = {}
                        for c in m.group(7)[1:]: dv[vars_[c]] = dv.get(vars_[c], 0) + 1
                    else: dv = {ptn[0]: d}
                    if isinstance(v, P): res.append(("", v, dv))
                    elif isinstance(v, V):
                        els = [("[*]", v.gen)] if isinstance(v.gen, P) and v.gen.m else []
                        for k, x in v.upd:
                            if isinstance(x, P): els.append(("[%s]" % ",".join(map(vshow, k)), x))
                        if not els: raise Undecided("no component")
                        for w, x in els: res.append((w, x, dv))
                    else: raise Undecided("result shape")
                    basep = ptn
                    for w, x, dv in res:
                        unit, terms = stencil(x, [atom_id(("sym", b)) for b in ptn])
                        dd = {}
                        for cname, mult in dv.items():
                            cc = [c for c in unit if c[1] == cname]
                            if len(cc) > 1: raise Undecided("ambiguous coordinate")
                            dd[cc[0] if cc else (0, cname)] = mult
                        judge(ch, f, key + w, unit, terms, dd, 1 if side else order, side)
                        n += 1
                else:
                    if not vecs: raise Undecided("no point parameter")
                    pos = vecs[-1]
                    if m.group(6):
                        if v is None or not isinstance(v, V):
                            outs = [i for i, p in enumerate(f.params) if "Matrix" in prog.T(p) and prog.T(p).endswith("&") and not prog.T(p).startswith("const")]
                            if len(outs) == 1 and st is not None: v = st.get(("arg", outs[0]))
                        if not isinstance(v, V): raise Undecided("result shape")
                        els = list(v.upd) or ([((idx(0),) if m.group(6) == "ByAll" else (idx(0), idx(1)), v.gen)] if isinstance(v.gen, P) else [])
                        done = 0
                        for k, x in els:
                            if not isinstance(x, P): raise Undecided("component")
                            unit, terms = stencil(x, [])
                            dcoord = k[-1]
                            if m.group(6) == "AllByAll":
                                comp = {sample_args(a)[0][-1] for a in samples_of(x)}
                                if comp != {(k[0],)} and comp != {k[0]}:
                                    cs = list(comp)
                                    if all(isinstance(c, tuple) and len(c) == 1 and isinstance(c[0], P) for c in cs):
                                        ch.bad(key + "[component]", f.where, "%s: element (%s) of the result differentiates component %s of the function" % (name, ",".join(map(vshow, k)), ",".join(vshow(c) for c in cs)))
                                        continue
                            judge(ch, f, key + "[%s]" % ",".join(map(vshow, k)), unit, terms, {dc(unit, dcoord): 1}, order, None)
                            n += 1; done += 1
                        if not done: raise Undecided("no component")
                    else:
                        if not isinstance(v, P): raise Undecided("result shape")
                        unit, terms = stencil(v, [])
                        want = {}
                        for i in (ints[-d:] if d == 2 else ints[-1:]):
                            j = i
                            for g in same:
                                if i in g: j = min(g)
                            c = dc(unit, A("sym", f.params[j]["n"])); want[c] = want.get(c, 0) + 1
                        judge(ch, f, key, unit, terms, want, order, None)
                        n += 1
            except (Undecided, Give, KeyError, IndexError, TypeError, AttributeError, RecursionError, ValueError) as e:
                und.append("%s %s: %s" % (key, f.where, e))
    ch.cov["stencils_undecided"] = len(und); ch.cov["stencils_undecided_list"] = und
    return n


def dc(unit, key):
    for c in unit:
        if c[1] == (key,): return c
    return (0, (key,))


def judge(ch, f, key, unit, terms, want, order, side):
    cs, bad = moments(unit, terms, want, order)
    if bad:
        ch.bad(key, f.where, "%s: %s (required for a derivative formula of order %d)" % (f.n, describe(cs, bad, want, order), order))
        return
    if side:
        for c, rest, q in terms:
            for k, v in q.items():
                if side == "Left" and v > 0 or side == "Right" and v < 0:
                    ch.bad(key + "#side", f.where, "%s: evaluates the function at x%+s steps, on the wrong side" % (f.n, fr(v))); return
    ch.good("%s %s: moment conditions up to order %d" % (key, f.where, order))


# ------------------------------------------------------------------ Runge-Kutta methods
_trees = {}


def trees(n):
    """rooted trees with n nodes as sorted tuples of subtrees"""
    if n in _trees: return _trees[n]
    if n == 1: r = [()]
    else:
        r = set()

        def parts(rest, maxn, acc):
            if rest == 0:
                r.add(tuple(sorted(acc))); return
            for k in range(min(rest, maxn), 0, -1):
                for t in trees(k): parts(rest - k, k, acc + [t])
        parts(n - 1, n - 1, [])
        r = sorted(r)
    _trees[n] = r
    return r


def nodes(t): return 1 + sum(map(nodes, t))


def gamma(t):
    g = nodes(t)
    for x in t: g *= gamma(x)
    return g


def order_conditions(a, b, order, tol=1e-9):
    """a: list of dict {j: float}, b: list; returns first violated condition or None"""
    n = len(b); memo = {}

    def phi(t):
        if t in memo: return memo[t]
        v = [1.0] * n
        for x in t:
            px = phi(x)
            v = [vi * sum(c * px[j] for j, c in a[i].items()) for i, vi in enumerate(v)]
        memo[t] = v
        return v
    for k in range(1, order + 1):
        for t in trees(k):
            s = sum(bi * pi for bi, pi in zip(b, phi(t)))
            if abs(s - 1.0 / gamma(t)) > tol: return (k, t, s, 1.0 / gamma(t))
    return None


def nconds(order): return sum(len(trees(k)) for k in range(1, order + 1))


class Tableau:
    pass


def stages_of(p):
    """atoms that are components of vectors other than the state"""
    return {a for a in p.atoms() if _atoms[a][0] == "el"}


def comp0(v):
    """generic component of a vector value"""
    if isinstance(v, V): return vget(v, (idx(0),))
    return None


def incr(p, xname, unit):
    """p = x[#] + unit * sum a_j k_j: returns ({stage name: Fraction}, x coefficient)"""
    out = {}; xc = Fraction(0)
    for mo, c in p.m.items():
        el = [(a, e) for a, e in mo if _atoms[a][0] == "el"]
        rest = tuple((a, e) for a, e in mo if _atoms[a][0] != "el")
        if len(el) != 1 or el[0][1] != 1: raise Undecided("not linear in the stages")
        k = _atoms[el[0][0]]
        if k[2] != (idx(0),): raise Undecided("component mixing")
        if k[1] == xname:
            if rest: raise Undecided("state multiplied by the step")
            xc += c; continue
        if unit[0] is None and (len(rest) == 1 and rest[0][1] == 1 or rest and len(unit) > 1): unit[0] = rest
        if rest != unit[0]: raise Undecided("stage coefficient %s" % pshow(P({mo: c})))
        out[k[1]] = out.get(k[1], 0) + c
    return out, xc


def tableau(xout, xname, tname, k1names, unit=None):
    """extracts the Butcher tableau actually computed; xout: generic component of the new state"""
    unit = unit or [None]
    b, xc = incr(xout, xname, unit)
    order = []; rows = {}; cs = {}

    def visit(nm):
        if nm in rows: return
        if isinstance(nm, tuple) and nm and nm[0] == "out":
            args = [x for x in nm[3:] if isinstance(x, (P, V))] if len(nm) > 3 else []
            ts = [x for x in args if isinstance(x, P)]; xs = [x for x in args if isinstance(x, V)]
            if len(ts) != 1 or len(xs) != 1: raise Undecided("stage call")
            d = padd(ts[0], tname, -1)
            if not d.m: c = Fraction(0)
            elif len(d.m) == 1 and next(iter(d.m)) == unit[0]: c = next(iter(d.m.values()))
            else: raise Undecided("stage time %s" % pshow(ts[0]))
            r, x1 = incr(comp0(xs[0]), xname, unit)
            rows[nm] = None
            for q in r: visit(q)
            rows[nm] = (r, x1); cs[nm] = c; order.append(nm)
        else:
            rows[nm] = ({}, Fraction(1)); cs[nm] = Fraction(0); order.append(nm); k1names.add(nm)
    for q in b: visit(q)
    T = Tableau(); T.names = order; ix = {q: i for i, q in enumerate(order)}
    T.c = [cs[q] for q in order]; T.a = [{ix[j]: v for j, v in rows[q][0].items()} for q in order]
    T.xc = [rows[q][1] for q in order]; T.b = [b.get(q, Fraction(0)) for q in order]; T.bx = xc; T.unit = unit; T.ix = ix; T.visit = visit
    T.rows = rows; T.cs = cs; T.order_ = order
    return T


def extend(T, coef, vis):
    """make sure the stages named in coef belong to the tableau"""
    for q in coef: vis(q)
    T.ix = {q: i for i, q in enumerate(T.order_)}
    T.c = [T.cs[q] for q in T.order_]; T.a = [{T.ix[j]: v for j, v in T.rows[q][0].items()} for q in T.order_]
    T.xc = [T.rows[q][1] for q in T.order_]
    T.b = T.b + [Fraction(0)] * (len(T.order_) - len(T.b))


def fl(a): return [{j: float(v) for j, v in r.items()} for r in a]


def checktableau(ch, key, where, T, order, what, b=None):
    b = T.b if b is None else b
    for i, r in enumerate(T.a):
        if abs(float(T.xc[i]) - 1) > 1e-12:
            ch.bad(key + "#state", where, "%s: stage %d starts from %s times the state" % (what, i + 1, fr(T.xc[i]))); return False
        s = sum(r.values(), Fraction(0))
        if abs(float(s - T.c[i])) > 1e-9:
            ch.bad(key + "#rowsum", where, "%s: stage %d is evaluated at time offset %s but its state is advanced by %s" % (what, i + 1, fr(T.c[i]), fr(s))); return False
    v = order_conditions(fl(T.a), [float(x) for x in b], order)
    if v:
        ch.bad(key + "#order", where, "%s: order condition of order %d (tree %s) gives %.12g instead of %.12g" % (what, v[0], str(v[1]).replace(",)", ")"), v[2], v[3])); return False
    ch.good("%s: %d stages, %d order conditions up to order %d" % (what, len(b), nconds(order), order))
    return True


CALC_ORDER = {"EulerStep_Calculator": 1, "EulerCromer_StepCalculator": 2, "Midpoint_StepCalculator": 2, "RungeKutta4_StepCalculator": 4,
              "RK5_CashKarp_Calculator": 5, "DormandPrince5_StepCalculator": 5, "DormandPrince8_StepCalculator": 8}
ERR_ORDER = {"EulerCromer_StepCalculator": 1, "RK5_CashKarp_Calculator": 4, "DormandPrince5_StepCalculator": 4, "DormandPrince8_StepCalculator": 7}


def fixedsteps(ch, prog):
    und = []; n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.n != "calcStep" or f.body is None or f.get("dep") or not f.cls: continue
        if not derives(prog, f.cls, "IODESystemStepCalculator"): continue
        nm = f.cls.split("::")[-1]; key = "%s::calcStep" % f.cls
        try:
            v, st, E = evalfn(prog, f)
            if st is None: raise Undecided("no normal exit")
            vecs = [i for i, p in enumerate(f.params) if E.kindof(prog.T(p)) == "vec"]
            nums = [i for i, p in enumerate(f.params) if prog.T(p) in ("double", "const double")]
            outs = [i for i in vecs if not prog.T(f.params[i]).startswith("const ")]
            ins = [i for i in vecs if i not in outs]
            xn, dn = f.params[ins[0]]["n"], f.params[ins[1]]["n"]
            t = A("sym", f.params[nums[0]]["n"]); h = A("sym", f.params[nums[1]]["n"])
            xo = st.get(("arg", outs[0])); xe = st.get(("arg", outs[1]))
            unit = [tuple(h.m)[0]]
            if nm in ("VelocityVerlet_StepCalculator", "Leapfrog_StepCalculator"):
                verlet(ch, key, f.where, nm, xo, xn, dn, t, h); n += 1; continue
            k1 = set()
            T = tableau(comp0(xo), xn, t, k1, unit)
            if abs(float(T.bx) - 1) > 1e-12: ch.bad(key + "#state", f.where, "%s: the new state contains %s times the old one" % (nm, fr(T.bx))); continue
            order = CALC_ORDER.get(nm, 1)
            if checktableau(ch, key, f.where, T, order, nm): n += 1
            e, ex = incr(comp0(xe), xn, unit) if isinstance(xe, V) and isinstance(comp0(xe), P) else ({}, Fraction(0))
            if e:
                extend(T, e, T.visit)
                ew = [e.get(q, Fraction(0)) for q in T.order_]
                emb = [b - x for b, x in zip(T.b, ew)]
                if ex: ch.bad(key + "#errstate", f.where, "%s: the error estimate contains the state itself" % nm); continue
                if checktableau(ch, key + "#embedded", f.where, T, ERR_ORDER.get(nm, 1), nm + " (result minus error estimate)", emb): n += 1
            elif nm in ERR_ORDER: und.append("%s: no error estimate found" % key)
        except (Undecided, Give, KeyError, IndexError, TypeError, AttributeError, RecursionError, ValueError) as e:
            und.append("%s %s: %s" % (key, f.where, e))
    ch.cov["fixed_steps_undecided"] = und
    return n


def derives(prog, cls, base, depth=0):
    r = prog.recs.get(cls)
    if r is None or depth > 6: return False
    for b in r.get("bases") or []:
        q = b.get("q", "") if isinstance(b, dict) else str(b)
        if nt(q).split("::")[-1] == base or derives(prog, nt(q), base, depth + 1): return True
    return False


def verlet(ch, key, where, nm, xo, xn, dn, t, h):
    """position/velocity halves: q' = v, v' = a(t,q); order 2 and use of the new position"""
    hm = tuple(h.m)[0]
    if not isinstance(xo, V) or len(xo.upd) < 2: raise Undecided("no halves")
    pos = vel = None
    for k, x in xo.upd:
        (p,) = k
        if isloop(p) is not None: pos = (p, x)
        elif loops_in(p): vel = (p, x)
    if pos is None or vel is None: raise Undecided("no halves")
    lp = pos[0].single(); lv = loops_in(vel[0])[0]
    off = padd(vel[0], P({((lv, 1),): Fraction(1)}), -1)
    i = A("sym", "#i"); iv = padd(i, off)
    pv = subst(pos[1], {lp: i}); vv = subst(vel[1], {lv: i})

    def split(p):
        """[(coefficient, power of h, vector name, index)]"""
        out = []
        for mo, c in p.m.items():
            el = [a for a, e in mo if _atoms[a][0] == "el" and e == 1]
            rest = [(a, e) for a, e in mo if _atoms[a][0] != "el"]
            if len(el) != 1 or any(((a, 1),) != hm for a, e in rest): raise Undecided("term %s" % pshow(P({mo: c})))
            out.append((c, sum(e for a, e in rest), _atoms[el[0]][1], _atoms[el[0]][2][0]))
        return out

    def coef(l, p, name, k): return sum((c for c, q, nmx, kk in l if q == p and nmx == name and kk == k), Fraction(0))
    lq, lvv = split(pv), split(vv)
    acc = {nmx for c, q, nmx, kk in lq + lvv if nmx != xn}
    new = [a for a in acc if a != dn]
    errs = []
    if coef(lq, 0, xn, i) != 1 or coef(lq, 1, xn, iv) != 1: errs.append("position update is not q + h*v + ...")
    # acceleration weights in q (h^2) and v (h), with the time offset of each acceleration
    cq = cv = cvc = Fraction(0)
    for a in acc:
        if a == dn: c = Fraction(0)
        else:
            args = [x for x in a[3:] if isinstance(x, (P, V))]
            d = padd([x for x in args if isinstance(x, P)][0], t, -1)
            if d.m and tuple(d.m) != (hm,): raise Undecided("time of the acceleration")
            c = next(iter(d.m.values())) if d.m else Fraction(0)
            q1 = split(vget([x for x in args if isinstance(x, V)][0], (i,)))
            if coef(q1, 0, xn, i) != 1 or coef(q1, 1, xn, iv) != c: errs.append("the acceleration at time offset %s*h is evaluated at a position advanced by %s*h" % (fr(c), fr(coef(q1, 1, xn, iv))))
            elif c == 1 and sorted(map(str, q1)) != sorted(map(str, lq)): errs.append("the end-of-step acceleration is not evaluated at the new position")
        cq += coef(lq, 2, a, iv); cv += coef(lvv, 1, a, iv); cvc += coef(lvv, 1, a, iv) * c
    if cq != Fraction(1, 2): errs.append("position update carries %s h^2 a instead of 1/2" % fr(cq))
    if coef(lvv, 0, xn, iv) != 1 or cv != 1: errs.append("velocity update carries %s h a instead of 1" % fr(cv))
    elif cvc != Fraction(1, 2): errs.append("velocity update is not second order (sum w*c = %s)" % fr(cvc))
    tot = sum((c for c, q, nmx, kk in lvv if q == 1), Fraction(0))
    if tot != cv: errs.append("velocity update uses components other than the accelerations")
    if errs: ch.bad(key, where, "%s: %s" % (nm, "; ".join(errs)))
    else: ch.good("%s: order-2 conditions of the position/velocity splitting" % nm)


def steppers(ch, prog):
    und = []; n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.n != "doStep" or f.body is None or f.get("dep") or not f.cls: continue
        if not derives(prog, f.cls, "IAdaptiveStepper"): continue
        nm = f.cls.split("::")[-1]; key = "%s::doStep" % f.cls
        methods = {g.n: g for g in prog.bycls.get(f.cls, [])}
        try:
            v, st, E = evalfn(prog, f, steps=800000)
            if st is None: raise Undecided("no normal exit")
            vecs = [i for i, p in enumerate(f.params) if E.kindof(prog.T(p)) == "vec"]
            nums = [i for i, p in enumerate(f.params) if prog.T(p) == "double"]
            xn, dn = f.params[vecs[0]]["n"], f.params[vecs[1]]["n"]
            t = A("sym", f.params[nums[0]]["n"])
            x0s = A("el", xn, (idx(0),)); d0s = A("el", dn, (idx(0),))
            og = methods.get("order"); oc = None
            if og is not None:
                ov, _, _ = evalfn(prog, og)
                oc = int(ov.const()) if isinstance(ov, P) and ov.const() is not None else None
            exits = []
            for v1, s1 in E.exits:
                if isinstance(v1, tuple) and v1 and v1[0] == "loc": v1 = E.read(s1, v1[1], None)
                if not isinstance(v1, Obj): raise Undecided("result object")
                ac = E.readin(s1, v1, (("f", "accepted"),), "bool")
                if isinstance(ac, P) and ac.const() == 0:
                    # a rejected step leaves the caller's state alone
                    xv, dv = comp0(s1.get(("arg", vecs[0]))), comp0(s1.get(("arg", vecs[1])))
                    for w, g, o in (("state", xv, x0s), ("derivative", dv, d0s)):
                        if isinstance(g, P) and genidx(g) != o and not opaque_in(g): ch.bad(key + "#rejected" + w, f.where, "%s: a rejected step leaves the %s changed" % (nm, w))
                        elif isinstance(g, P) and genidx(g) == o: ch.good("%s: a rejected step leaves the %s as it was" % (nm, w)); n += 1
                    continue
                exits.append((v1, s1, ac))
            if not exits: raise Undecided("no accepting exit")
            rows = []
            for v1, s1, ac in exits:
                hd = E.readin(s1, v1, (("f", "hDone"),), "double")
                xv, dv = comp0(s1.get(("arg", vecs[0]))), comp0(s1.get(("arg", vecs[1])))
                al = [(genidx(x) if isinstance(x, P) else x, genidx(d) if isinstance(d, P) else d) for x, d in accepted(xv, dv)]
                al = [(x, d) for x, d in al if not (isinstance(x, P) and isinstance(d, P) and x == x0s and d == d0s)]
                if not al: raise Undecided("no accepted state found")
                for x, d in al: rows.append((x, d, hd, v1, s1))
            rows.sort(key=lambda r: len(r[0].m) if isinstance(r[0], P) else 0)
            multi = len(rows) > 1
            for q, (xv, dv, hd, v1, s1) in enumerate(rows):
                tag = "" if not multi else "#column%d" % (q + 2)
                what = nm if not multi else "%s, column %d of the extrapolation" % (nm, q + 2)
                hs = [y for y in alts(hd) if isinstance(y, P)] if isinstance(hd, P) else []
                hk = hs and not any(h1.single() in PHI for h1 in hs)
                dc_ = derivcall(dv)
                if dc_ is None or opaquestate(dc_[1]) or opaquestate(xv):
                    und.append("%s: derivative after the step: %s" % (key, str(dv)[:80]))
                else:
                    ts, xs = dc_
                    if not same(xs, xv): ch.bad(key + "#deriv" + tag, f.where, "%s: the derivative left for the next step is not evaluated at the accepted state" % what)
                    else: ch.good("%s: derivative after an accepted step is f at the accepted state" % what)
                    dt = padd(ts, t, -1)
                    if hk and not any(same(dt, h1) for h1 in hs):
                        ch.bad(key + "#time" + tag, f.where, "%s: the derivative left for the next step is evaluated at t + %s although the step taken is %s" % (what, pshow(dt), ", ".join(map(pshow, hs))))
                    n += 1
                unit = [None]
                try:
                    if opaquestate(xv): raise Undecided("state after the step: %s" % str(xv)[:80])
                    k1 = set()
                    T = tableau(xv, xn, t, k1, unit)
                    if len(k1) > 1: raise Undecided("several first stages")
                    want = oc if not multi else min(8, oc or 8, 4 + 2 * q)
                    if want and want <= 8:
                        if checktableau(ch, key + tag, f.where, T, want, what): n += 1
                    for line, p in E.abstrace if not multi else ():
                        try: e, ex = incr(genidx(p), xn, unit)
                        except Undecided: continue
                        if ex or len(e) < 3: continue
                        extend(T, e, T.visit)
                        ew = [e.get(z, Fraction(0)) for z in T.order_]
                        if any(z not in T.ix for z in e): continue
                        emb = [b - x for b, x in zip(T.b, ew)]
                        if oc and checktableau(ch, key + "#embedded", "%s:%d" % (f.f, line), T, oc - 1, nm + " (result minus error estimate)", emb): n += 1
                        break
                    if hk and not any(tuple(h1.m) == (unit[0],) for h1 in hs):
                        ch.bad(key + "#hdone" + tag, f.where, "%s: reports a step of %s but advanced by %s" % (what, ", ".join(map(pshow, hs)), pshow(P({unit[0]: Fraction(1)}))))
                except Undecided as e: und.append("%s tableau: %s" % (key, e))
                g = methods.get("interpolate")
                if g is not None:
                    try:
                        affine.MAXTERMS = 4000
                        try: n += dense(ch, prog, f, g, what, s1, E, xn, dn, t, hd, xv, dv)
                        finally: affine.MAXTERMS = 600
                    except (Undecided, Give) as e: und.append("%s::interpolate: %s" % (nm, e))
            n += retried(ch, prog, f, nm, key, vecs, xn, t, oc, und)
        except (Undecided, Give, KeyError, IndexError, TypeError, AttributeError, RecursionError, ValueError) as e:
            und.append("%s %s: %s" % (key, f.where, e))
    ch.cov["steppers_undecided"] = und
    return n


def retried(ch, prog, f, nm, key, vecs, xn, t, oc, und):
    """the attempt after a rejected one inside the same call is a step of the same method from the same start"""
    n = 0
    try:
        v, st, E = evalfn(prog, f, steps=1600000, peel=True)
        if not E.peeled: return 0
        for v1, s1 in E.exits:
            if isinstance(v1, tuple) and v1 and v1[0] == "loc": v1 = E.read(s1, v1[1], None)
            for xv in alts(comp0(s1.get(("arg", vecs[0])))):
                xv = genidx(xv) if isinstance(xv, P) else xv
                if not isinstance(xv, P) or xv == A("el", xn, (idx(0),)): continue
                k1 = set(); unit = [None, "any"]
                T = tableau(xv, xn, t, k1, unit)
                stale = False
                for k in k1:
                    for y in [z for y in PHI.get(k, ()) for z in alts(y if isinstance(y, P) else comp0(y))]:
                        a = y.single() if isinstance(y, P) else None
                        if a is not None and _atoms[a][0] == "el" and isinstance(_atoms[a][1], tuple) and _atoms[a][1][:1] == ("out",): stale = True
                if stale: ch.bad(key + "#retry", f.where, "%s: the attempt after a rejected one takes a stage of the rejected attempt for its first stage" % nm)
                elif oc and oc <= 8:
                    if checktableau(ch, key + "#retry", f.where, T, oc, nm + " (attempt after a rejected one)"): n += 1
    except (Undecided, Give, KeyError, IndexError, TypeError, AttributeError, RecursionError, ValueError) as e:
        und.append("%s retry: %s" % (key, e))
    return n


def genidx(p):
    """replace the loop index of an element-wise sweep by the generic component"""
    mp = {}
    def scan(a):
        k = _atoms[a]
        if k[0] == "el":
            for q in k[2]:
                l = isloop(q)
                if l is not None: mp[l] = idx(0)
    for a in p.atoms(): scan(a)
    return subst(p, mp) if mp else p


def same(a, b):
    if a == b: return True
    if not isinstance(a, P) or not isinstance(b, P): return False
    d = padd(a, b, -1)
    return not d.m or all(abs(float(c)) < 1e-11 for c in d.m.values())


def derivcall(p):
    """(time, state component) of a value that is one evaluation of the right-hand side"""
    a = p.single() if isinstance(p, P) else None
    k = _atoms[a] if a is not None else None
    if k is None or k[0] != "el" or not (isinstance(k[1], tuple) and k[1][:1] == ("out",)): return None
    args = [x for x in k[1][3:] if isinstance(x, (P, V))]
    ts = [x for x in args if isinstance(x, P)]; xs = [x for x in args if isinstance(x, V)]
    if not ts or not xs: return None
    return ts[0], comp0(xs[0])


def sameval(a, b):
    if same(a, b): return True
    x, y = derivcall(a), derivcall(b)
    return x is not None and y is not None and same(x[0], y[0]) and same(x[1], y[1])


def opaque_in(p):
    return not isinstance(p, P) or any(_atoms[a][0] == "?" or a in PHI or _atoms[a][0] == "el" and (_atoms[a][1] in PHI or isinstance(_atoms[a][1], str) and _atoms[a][1].startswith("?")) for a in p.atoms())


def opaquestate(p):
    """contains values the evaluator lost (one unknown vector may be the first stage carried over from the last step)"""
    if not isinstance(p, P): return True
    un = {_atoms[a][1] for a in p.atoms() if _atoms[a][0] == "el" and isinstance(_atoms[a][1], str) and _atoms[a][1].startswith("?")}
    return len(un) > 1 or not any(_atoms[a][0] == "el" for a in p.atoms())


def alts(p, depth=0):
    """values joined into an opaque phi element"""
    if isinstance(p, P) and depth < 14:
        a = p.single()
        if a is not None:
            k = _atoms[a]
            if k[0] == "el" and k[1] in PHI and k[2] == (idx(0),):
                return [z for y in PHI[k[1]] for z in alts(y, depth + 1)]
            if a in PHI: return [z for y in PHI[a] for z in alts(y, depth + 1)]
    return [p]


def carried(a):
    """element of a vector that is one of several the attempt started with (the caller's, or one stored by an earlier attempt): an unconstrained input"""
    k = _atoms[a]
    if k[0] == "el" and k[1] in PHI or a in PHI:
        for z in alts(P({((a, 1),): Fraction(1)})):
            b = z.single() if isinstance(z, P) else None
            if b is None or _atoms[b][0] != "el": return False
            nm = _atoms[b][1]
            if not (isinstance(nm, str) or isinstance(nm, tuple) and nm and nm[0] == "this"): return False
        return True
    return False


def accepted(x0, d0):
    xs, ds = alts(x0), alts(d0)
    if len(xs) == len(ds): return [(x, d) for x, d in zip(xs, ds)]
    return [(x0, d0)]


def dense(ch, prog, f, g, nm, st, E, xn, dn, t, hd, xv, dv):
    """the interpolant and its slope agree with the step at both ends"""
    s2 = dict(st); tt = A("sym", "#tau")
    E.nf += 1; frn = E.nf
    s2[(frn, g.params[0]["id"])] = tt
    E.n = 0
    v, s3 = E.body(g, g.body, s2, (frn,), (("obj", "this"), ()))
    if isinstance(v, tuple) and v and v[0] == "loc": v = E.read(s3, v[1], None)
    p = comp0(v)
    if not isinstance(p, P): raise Undecided("interpolant shape")
    ta = tt.single()
    if ta not in p.atoms(): raise Undecided("interpolant does not depend on time: %s" % str(p)[:60])
    H = hd
    if not isinstance(H, P): raise Undecided("step size")
    for h1 in alts(H):
        if isinstance(h1, P) and h1.m and len(h1.m) == 1: H = h1; break
    deriv = {}
    for mo, c in p.m.items():
        e = dict(mo).get(ta, 0)
        if e:
            m2 = tuple(sorted((a, (q - 1 if a == ta else q)) for a, q in mo if not (a == ta and q == 1)))
            deriv[m2] = deriv.get(m2, 0) + c * e
    dp = P(deriv)
    t1 = padd(t, H)
    xs = A("el", xn, (idx(0),))
    n = 0
    key = "%s::interpolate" % f.cls

    def sub(q, at_): return genidx(subst(q, {ta: at_}))
    for what, got, want in (("value at the start of the step", sub(p, t), xs), ("value at the end of the step", sub(p, t1), xv),
                            ("slope at the start of the step", sub(dp, t), A("el", dn, (idx(0),))), ("slope at the end of the step", sub(dp, t1), dv)):
        if sameval(got, want): ch.good("%s: dense output: %s" % (nm, what)); n += 1; continue
        if what == "slope at the start of the step":
            k = got.single()
            if k is not None and _atoms[k][0] == "el" and (_atoms[k][1] in PHI or isinstance(_atoms[k][1], str) and _atoms[k][1].startswith("?")) :
                if any(isinstance(y, P) and genidx(y) == want for y in alts(got)): ch.good("%s: dense output: %s" % (nm, what)); n += 1; continue
        lost = lambda q: not isinstance(q, P) or any(not carried(a) and a in q.atoms() and lost1(a) for a in q.atoms())
        lost1 = lambda a: lost_(P({((a, 1),): Fraction(1)}))
        lost_ = lambda q: not isinstance(q, P) or any(_atoms[a][0] == "?" and P({((a, 1),): Fraction(1)}) != H or a in PHI and P({((a, 1),): Fraction(1)}) != H
                                                     or _atoms[a][0] == "el" and (_atoms[a][1] in PHI or isinstance(_atoms[a][1], str) and _atoms[a][1].startswith("?")) for a in q.atoms())
        if lost(got) or lost(want): raise Undecided("%s is %s" % (what, str(got)[:100]))
        ch.bad(key + "#" + what, g.where, "%s: dense output: %s is %s instead of %s" % (nm, what, str(got)[:120], str(want)[:80]))
    return n


# ------------------------------------------------------------------ quadrature rules
DEGREE = {"IntegrateGK15": (22, 13), "IntegrateGK21": (31, 19), "IntegrateGK31": (46, 29), "IntegrateGauss10": (19, None)}


def coef_in(p, syms):
    """{monomial in syms: rest} evaluated as exact polynomial; None when another atom occurs"""
    for mo in p.m:
        for a, e in mo:
            if a not in syms or e < 0: return None
    return p


def rule(R, a, b):
    """[(omega, x)] with R = sum omega * (b-a)/2 * f((a+b)/2 + x (b-a)/2)"""
    S = {q for q in R.atoms() if _atoms[q][0] == "call" and len(_atoms[q]) > 2}
    A_, B_ = a.single(), b.single()
    if not S: raise Undecided("no sample")
    w = {}
    for mo, c in R.m.items():
        sm = [(q, e) for q, e in mo if q in S]
        if len(sm) != 1 or sm[0][1] != 1: raise Undecided("not linear in the samples: %s" % pshow(P({mo: c}))[:80])
        rest = tuple((q, e) for q, e in mo if q not in S)
        w.setdefault(sm[0][0], {})
        w[sm[0][0]][rest] = w[sm[0][0]].get(rest, 0) + c
    out = []; ids = set()
    for q, m in w.items():
        k = _atoms[q]; ids.add(k[1:3])
        args = [x for x in k[1:] if isinstance(x, P)]
        if len(args) != 1: raise Undecided("sample arguments")
        p = args[0]
        if coef_in(p, {A_, B_}) is None or any(sum(e for _, e in mo) != 1 for mo in p.m): raise Undecided("sample point %s" % pshow(p)[:60])
        al = p.m.get(((A_, 1),), Fraction(0)); be = p.m.get(((B_, 1),), Fraction(0))
        if abs(float(al + be - 1)) > 1e-14: return "samples the function at %s" % pshow(p)
        if set(m) - {((A_, 1),), ((B_, 1),)}: raise Undecided("weight")
        wa = m.get(((A_, 1),), Fraction(0)); wb = m.get(((B_, 1),), Fraction(0))
        if abs(float(wa + wb)) > 1e-14: return "a weight is not proportional to the length of the interval"
        out.append((2 * wb, be - al))
    if len(ids) > 1: raise Undecided("several integrands")
    return out


def degree_bad(r, deg):
    for k in range(deg + 1):
        s = sum((w * x ** k for w, x in r), Fraction(0)); want = Fraction(2, k + 1) if k % 2 == 0 else Fraction(0)
        if abs(float(s - want)) > 2e-14: return "integrates x^%d over [-1,1] to %.15g instead of %.15g" % (k, float(s), float(want))
    return None


def quadratures(ch, prog):
    und = []; n = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.n not in DEGREE or f.body is None or f.get("dep") or not f.q.startswith("MML::"): continue
        nums = [i for i, p in enumerate(f.params) if prog.T(p) in ("double", "const double")]
        if len(nums) < 2 or not f.params or nt(prog.TS(f.params[0])).split("::")[-1] in ("double",): continue
        key = "%s(%s)" % (f.q, nt(prog.TS(f.params[0])).split("::")[-1].split("(")[0].strip()[:40])
        deg, gdeg = DEGREE[f.n]
        try:
            v, st, E = evalfn(prog, f)
            if st is None: raise Undecided("no normal exit")
            a, b = (A("sym", f.params[i]["n"]) for i in nums[:2])
            if isinstance(v, Obj): v = E.readin(st, v, (("f", "value"),), "double")
            if not isinstance(v, P): continue
            try: r = rule(v, a, b)
            except Undecided as e:
                und.append("%s %s: %s" % (key, f.where, e)); continue
            m = r if isinstance(r, str) else degree_bad(r, deg)
            if m: ch.bad(key, f.where, "%s: the rule %s" % (f.n, m)); continue
            ch.good("%s: %d-point rule exact up to degree %d" % (f.n, len(r), deg)); n += 1
            if gdeg is None: continue
            done = False
            for line, p in E.abstrace:
                try: e = rule(padd(v, p, -1), a, b)
                except Undecided: continue
                m = e if isinstance(e, str) else degree_bad(e, gdeg)
                if m: ch.bad(key + "#embedded", "%s:%d" % (f.f, line), "%s: the lower rule behind the error estimate %s" % (f.n, m))
                else: ch.good("%s: embedded rule exact up to degree %d" % (f.n, gdeg)); n += 1
                done = True; break
            if not done: und.append("%s %s: error estimate not found" % (key, f.where))
        except (Undecided, Give, KeyError, IndexError, TypeError, AttributeError, RecursionError, ValueError) as e:
            und.append("%s %s: %s" % (key, f.where, e))
    ch.cov["quadratures_undecided"] = und
    return n


# ------------------------------------------------------------------ mathematical constants
def constants(ch, prog):
    import decimal
    D = decimal.Decimal
    decimal.getcontext().prec = 60

    def pi():
        # Machin
        def at_(x):
            x = D(1) / x; s = t = x; k = 1; x2 = x * x
            while abs(t) > D(10) ** -58:
                t = -t * x2; k += 2; s += t / k
            return s
        return 4 * (4 * at_(5) - at_(239))
    PI = pi(); e = D(1).exp()
    want = {"PI": PI, "INV_PI": 1 / PI, "INV_SQRTPI": 1 / PI.sqrt(), "E": e, "LN2": D(2).ln(), "LN10": D(10).ln(), "SQRT2": D(2).sqrt(), "SQRT3": D(3).sqrt(),
            "GoldenRatio": (1 + D(5).sqrt()) / 2, "TWO_PI": 2 * PI, "HALF_PI": PI / 2, "SQRT_PI": PI.sqrt(), "SQRTPI": PI.sqrt(), "DEG_TO_RAD": PI / 180, "RAD_TO_DEG": 180 / PI,
            "PI_2": PI / 2, "PI_4": PI / 4}
    n = 0
    for v in prog.vars:
        nm = v.get("n") or v["q"].split("::")[-1]
        if not v["q"].startswith("MML::Constants::") or nm not in want: continue
        ini = v.get("init") or v.get("c")
        if isinstance(ini, list): ini = ini[0] if ini else None
        if not isinstance(ini, dict): continue
        try: x, _ = Eval(prog).ev(ini, {}, (0,), None, affine.Ctx())
        except Give: continue
        x = x.const() if isinstance(x, P) else None
        if x is None: continue
        w = Fraction(want[nm])
        if abs(x - w) > abs(w) * Fraction(1, 2 ** 52): ch.bad("MML::Constants::" + nm, "%s:%d" % (v.get("f", "mml/MMLBase.h"), v.get("l", 0)), "constant %s is %s instead of %s" % (nm, float(x), float(w)))
        else: ch.good("constant %s" % nm); n += 1
    return n


def run(ck):
    prog = program()
    a = derivations(ck, prog)
    b = fixedsteps(ck, prog)
    c = steppers(ck, prog)
    d = quadratures(ck, prog)
    e = constants(ck, prog)
    bad = len(ck.viol)
    ck.floor("difference formulas decided", a + bad, 200)
    ck.floor("fixed-step integration steps decided", b + bad, 6)
    ck.floor("adaptive step obligations decided", c + bad, 40)
    ck.floor("quadrature rules decided", d + bad, 4)
    ck.floor("constants decided", e + bad, 5)
