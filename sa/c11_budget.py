"""C11: running out of iterations, steps or attempts is never passed off as success.

A *budgeted loop* is one that counts and gives up: one conjunct of its condition (or a test in its body) compares a counter
the loop increments with a limit, and the loop can also be left another way (a convergence break / return, or a second
conjunct such as "end of the interval not reached").  On the edge where the counter reaches the limit the path is marked
"exhausted"; the mark is carried by the path-sensitive typestate executor (flags, statuses, bool locals, repeated
comparisons) to every exit of the function.  The mark is discharged only by re-entering the loop, by a later test of the
loop's own completion criterion that comes out complete, by a failing flag / status / bool, or by an exception."""
import re
from .core import *
from .typestate import *

PROG = None
REL = ("<", ">", "<=", ">=", "!=", "==")
SIZEISH = ("size", "rows", "cols", "dim", "length", "count", "NumVertices", "numVertices", "getDim", "GetDim")


def var(n):
    """identity of a scalar variable expression: local / parameter id or own-member name"""
    n = strip(n)
    if n is None: return None
    if n.get("k") == "Ref" and "id" in n: return n["id"]
    if n.get("k") == "Mem" and n.get("dk") == "field" and n.get("c") and strip(n["c"][0]) is not None and strip(n["c"][0]).get("k") == "This": return "this." + n["n"]
    if n.get("k") == "Un" and ("++" in n["op"] or "--" in n["op"]): return var(n["c"][0])
    return None


def vars_(n): return {v for v in (var(x) for x in walk(n) if x.get("k") in ("Ref", "Mem")) if v is not None}


def is_int(P, n):
    t = P.T(strip(n) or {}).replace("const ", "").replace("&", "").strip()
    return t in ("int", "long", "unsigned int", "unsigned long", "long long", "size_t", "std::size_t", "short", "unsigned short", "unsigned long long")


def modified(n):
    out = set()
    for x in walk(n):
        k = x.get("k")
        if k == "Un" and ("++" in x["op"] or "--" in x["op"]): out.add(var(x["c"][0]))
        elif k == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="): out.add(var(x["c"][0])); out |= {v for v in [base(x["c"][0])] if v}
        elif k == "Call" and x.get("op", "").endswith("=") and x.get("op") not in ("==", "!=", "<=", ">=") and x.get("obj") is not None: out.add(base(x["obj"]))
        elif k == "Var" and x.get("id") is not None and (x.get("c") or [None])[0] is not None: out.add(x["id"])
        elif k == "Call":
            for a, pt in zip(x.get("c", []), x.get("pt", [])):
                t = PROG.T(pt)
                if t.endswith("&") and not t.startswith("const "): out.add(base(a))
            if x.get("obj") is not None and not x.get("cst") and not x.get("op") and x.get("cls"): out.add(base(x["obj"]))
    out.discard(None)
    return out


def base(n):
    n = strip(n)
    while n is not None:
        v = var(n)
        if v is not None: return v
        if n.get("k") == "Call" and n.get("obj") is not None: n = strip(n["obj"])
        elif n.get("k") in ("Idx", "Mem", "Un", "Sub") and n.get("c"): n = strip(n["c"][0])
        else: return None
    return None


def conj(n):
    n = strip(n)
    if n is None: return []
    if n.get("k") == "Bin" and n["op"] == "&&": return conj(n["c"][0]) + conj(n["c"][1])
    return [n]


def loops_of(body):
    """all loops with their enclosing chain (outermost first)"""
    out = []
    def rec(n, chain):
        if n is None: return
        if n.get("k") in ("For", "While", "Do", "RFor"):
            out.append((n, chain)); chain = chain + [n]
        for c in kids(n): rec(c, chain)
    rec(body, [])
    return out


def tests(m):
    """arguments and object of a predicate call"""
    return vars_(m)


def kids(n):
    return [c for c in children(n) if isinstance(c, dict)] + ([n["body"]] if n.get("k") == "Lambda" and isinstance(n.get("body"), dict) and n["body"] not in children(n) else [])


def own_exits(L):
    """break statements that leave L and return statements inside it"""
    out = []
    def rec(n, inner):
        if n is None: return
        k = n.get("k")
        if k == "Lambda": return
        if k == "Return" or (k == "Break" and not inner): out.append(n)
        nin = inner or k in ("For", "While", "Do", "RFor", "Switch")
        for c in children(n): rec(c, nin)
    rec(L.get("body"), False)
    return out


class Loop:
    def __init__(s, n, chain): s.n = n; s.chain = chain; s.key = None; s.counters = {}; s.cont = []; s.taint = set(); s.contvars = set()


def prep(P, f):
    """budgeted loops of a function -> (loops by node id, budget comparisons: node id -> (Loop, truth while within budget))"""
    global PROG
    PROG = P
    loops = {}; bud = {}
    defs = {}
    for x in walk(f.body):
        if x.get("k") == "Var" and x.get("id") is not None and (x.get("c") or [None])[0] is not None: defs.setdefault(x["id"], x["c"][0])
    allm = modified(f.body)
    for L, chain in loops_of(f.body):
        if L["k"] == "RFor": continue
        parts = [p for p in (L.get("cond"), L.get("inc"), L.get("body")) if isinstance(p, dict)]
        cnt = set()
        for x in direct(L) + [y for p in (L.get("cond"), L.get("inc")) if isinstance(p, dict) for y in walk(p, False)]:
                if x.get("k") == "Un" and "++" in x["op"] and is_int(P, x["c"][0]): cnt.add(var(x["c"][0]))
                if x.get("k") == "Bin" and x["op"] == "+=" and is_int(P, x["c"][0]): cnt.add(var(x["c"][0]))
        cnt.discard(None)
        if chain:                                   # a counter that is not reset for each run of the loop is a cursor of an outer loop
            init = {x.get("id") for x in walk(L["init"]) if x.get("k") == "Var"} | {var(x["c"][0]) for x in walk(L["init"]) if x.get("k") == "Bin" and x["op"] == "="} if isinstance(L.get("init"), dict) else set()
            for c in list(cnt):
                if c not in init and not resets(chain[-1], L, c): cnt.discard(c)
        if not cnt: continue
        mods = set()
        for p in parts: mods |= modified(p)
        lp = Loop(L, chain)
        cand = []
        cj = conj(L["cond"]) if L.get("cond") else []
        for x in cj: cand.append((x, True))
        for x in direct(L):
            if x.get("k") == "If" and leaves(x):
                for y in disj(x["cond"]): cand.append((y, False))
        within = []
        for x, incond in cand:
            x = strip(x)
            if x is None or x.get("k") != "Bin" or x["op"] not in ("<", "<=", ">", ">=", "==", "!="): continue
            l, r = x["c"]; op = x["op"]
            cv = counter(l, cnt); lim = r
            if cv is None:
                cv = counter(r, cnt); lim = l; op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            if cv is None or vars_(lim) & mods: continue
            if not is_int(P, lim): continue
            if not incond and op in ("<", "<=", "!="): continue
            if op in ("==",) and incond: continue
            if not iterative(P, f, L, cv, lim, defs, parts): continue
            within.append((x, cv, lim, op in ("<", "<=", "!=")))
        if not within: continue
        bn = {id(w[0]) for w in within}
        lp.cont = [c for c in cj if id(strip(c)) not in bn and const(strip(c)) is None]
        if not lp.cont and not own_exits(L): continue
        if not lp.cont and not [e for e in own_exits(L)]: continue
        lp.line = L["l"]; lp.mods = mods
        for c in lp.cont: lp.contvars |= vars_(c) & mods
        loops[id(L)] = lp
        cj_ids = {id(strip(c)) for c in cj}
        lp.incond = {id(w[0]) for w in within if id(w[0]) in cj_ids}
        lims = [const(w[2]) for w in within if id(w[0]) in cj_ids]
        lp.early = {id(w[0]) for w in within if id(w[0]) not in cj_ids and strip(w[0])["op"] in ("==", ">=", ">") and const(w[2]) is not None and lims
                    and all(c is not None and const(w[2]) + (strip(w[0])["op"] == ">") < c for c in lims)}
        ini = L.get("init") if isinstance(L.get("init"), dict) else None
        c0 = {x["id"]: const(x["c"][0]) for x in walk(ini) if x.get("k") == "Var" and x.get("id") is not None and (x.get("c") or [None])[0] is not None} if ini else {}
        if ini: c0.update({var(x["c"][0]): const(x["c"][1]) for x in walk(ini) if x.get("k") == "Bin" and x["op"] == "="})
        lp.first = bool(lims) and all(const(w[2]) is not None and c0.get(w[1]) is not None and c0[w[1]] < const(w[2]) for w in within if id(w[0]) in cj_ids)
        lp.exitd = None
        if len(within) == 1 and id(within[0][0]) in cj_ids and var(strip(within[0][0])["c"][0 if var(strip(within[0][0])["c"][0]) in cnt else 1]) in cnt:
            cv = within[0][1]; inc = [x for p in parts for x in walk(p) if (x.get("k") == "Un" and "++" in x["op"] and var(x["c"][0]) == cv) or (x.get("k") == "Bin" and x["op"] == "+=" and var(x["c"][0]) == cv)]
            o = strip(within[0][0])["op"]
            if var(strip(within[0][0])["c"][0]) != cv: o = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(o, o)
            d = 0 if o in ("<", "!=") else 1
            lp.exitd = (d, d if len(inc) == 1 and inc[0]["k"] == "Un" else d + 1)
        for x, cv, lim, truth in within:
            bud[id(x)] = (lp, truth)
            lp.counters.setdefault((cv, show(lim)), True)
        # taint closure
        T = {m for m in mods if not isinstance(m, tuple)} - cnt
        ch = True
        while ch:
            ch = False
            for x in walk(f.body):
                k = x.get("k"); tg = src = None
                if k == "Var" and x.get("id") is not None and (x.get("c") or [None])[0] is not None: tg, src = x["id"], x["c"][0]
                elif k == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="): tg, src = base(x["c"][0]), x["c"][1]
                elif k == "Call" and x.get("op", "").endswith("=") and x.get("op") not in ("==", "!=", "<=", ">=") and x.get("obj") is not None and x.get("c"): tg, src = base(x["obj"]), x["c"][0]
                if tg is not None and tg not in T and vars_(src) & T: T.add(tg); ch = True
        lp.taint = T
    # the same counter / limit compared elsewhere in the function
    for x in walk(f.body):
        if x.get("k") == "Bin" and x["op"] in REL and id(x) not in bud:
            l, r = x["c"]; op = x["op"]
            for a, b, o in ((l, r, op), (r, l, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op))):
                for lp in loops.values():
                    if ((var(a), show(b)) in lp.counters or (offset(a) and (offset(a)[0], show(b)) in lp.counters)) and not inside(x, lp.n):
                        bud[id(x)] = (lp, o in ("<", "<=", "!="))
    return loops, bud


_in = {}


def inside(x, L):
    if id(L) not in _in: _in[id(L)] = frozenset(id(y) for y in walk(L))
    return id(x) in _in[id(L)]


def disj(n):
    n = strip(n)
    if n is not None and n.get("k") == "Bin" and n["op"] == "||": return disj(n["c"][0]) + disj(n["c"][1])
    return [n]


def resets(O, L, c):
    """the body of the enclosing loop O declares or assigns the counter c before running L"""
    for x in direct(O):
        if x.get("k") == "Var" and x.get("id") == c: return True
        if x.get("k") == "Bin" and x["op"] == "=" and var(x["c"][0]) == c: return True
    return False


def direct(L):
    """statements of the loop body that are not inside a nested loop or a closure"""
    out = []
    def rec(n):
        if n is None: return
        out.append(n)
        for c in children(n):
            if c is not None and c.get("k") not in ("For", "While", "Do", "RFor", "Lambda"): rec(c)
    rec(L.get("body"))
    return out


def leaves(i):
    """the then-branch of the if unconditionally leaves the loop (break, return, throw)"""
    t = i["then"]
    while t is not None and t.get("k") == "Block": t = t["c"][-1] if t["c"] else None
    if t is not None and t.get("k") in ("Break", "Return", "Throw"): return True
    return t is not None and strip(t) is not None and strip(t).get("k") == "Throw"


def offset(n):
    """(variable, integer offset) of  v, v + c, v - c"""
    n = strip(n)
    if var(n) is not None: return var(n), 0
    if n is not None and n.get("k") == "Bin" and n["op"] in ("+", "-") and var(n["c"][0]) is not None and isinstance(const(n["c"][1]), int):
        return var(n["c"][0]), const(n["c"][1]) * (1 if n["op"] == "+" else -1)
    return None


def counter(n, cnt):
    n = strip(n)
    v = var(n)
    if v in cnt: return v
    if n is not None and n.get("k") == "Bin" and n["op"] in ("+", "-") and const(n["c"][1]) is not None: return counter(n["c"][0], cnt)
    return None


def iterative(P, f, L, cv, lim, defs, parts):
    """the counter only counts: it selects no element, and the limit is not the extent of a container"""
    if limit_source(P, lim, defs) or any(re.search(r"(?i)^_*max_?(iter|step|it$|tr|eval|sweep)", x.get("n", "") or "") for x in walk(lim)): return True
    for p in parts:
        for x in walk(p):
            k = x.get("k")
            idx = []
            if k == "Idx" or k == "Sub": idx = x["c"][1:]
            elif k == "Call" and x.get("op") in ("[]", "()"): idx = x.get("c", [])
            elif k == "Call" and x.get("fn", "").split("::")[-1] in ("at",): idx = x.get("c", [])
            if any(cv in vars_(i) for i in idx): return False
    return not extent(P, lim, defs)


def extent(P, n, defs, d=0):
    for x in walk(n):
        if x.get("k") == "Call" and x.get("fn", "").split("::")[-1].lower() in [z.lower() for z in SIZEISH]: return True
        if x.get("k") == "Ref" and x.get("id") in defs and d < 4 and extent(P, defs[x["id"]], defs, d + 1): return True
    return False


def limit_source(P, n, defs, d=0):
    """the limit comes from a configuration record or the library-wide defaults"""
    for x in walk(n):
        q = x.get("q", "") or ""
        if "Defaults::" in q or "AlgorithmContext" in q: return True
        if x.get("k") == "Mem" and x.get("dk") == "field":
            t = P.T(strip(x["c"][0]) or {}).replace("const ", "").replace("&", "").strip()
            if t.endswith("Config") or t.endswith("Options") or t.endswith("AlgorithmContext"): return True
        if x.get("k") == "Ref" and x.get("id") in defs and d < 4 and limit_source(P, defs[x["id"]], defs, d + 1): return True
    return False


def failing(d):
    """a result dictionary that says 'failed'"""
    return d is not None and (d.get("flag") == "F" or (("flag" not in d) and d.get("status") == "X") or d.get("_b") == "F")


class BTS(TS):
    """typestate executor with exhaustion marks"""

    def __init__(s, P, ck):
        super().__init__(P, ck); s.loops = {}; s.bud = {}; s.exits = []; s.okexit = set(); s.stack = []; s.cd = 0; s.running = set(); s.prepd = {}; s.seen_ = set(); s.early_out = {}; s.stopped = set(); s.incond = set(); s.callmarks = {}

    def setup(s, f):
        if f.key not in s.prepd: s.prepd[f.key] = prep(s.P, f)
        lo, b = s.prepd[f.key]
        s.loops.update(lo); s.bud.update(b)
        if f.key in s.seen_: return
        s.seen_.add(f.key)
        for x in walk(f.body):
            if x.get("k") == "If" and strip(x["cond"]) is not None and strip(x["cond"]).get("k") == "Bin" and strip(x["cond"])["op"] in ("<", ">", "<=", ">="):
                m = strip(x["cond"]); t = x["then"]
                while t is not None and t.get("k") == "Block" and len(t["c"]) == 1: t = t["c"][0]
                t = strip(t)
                if t is not None and t.get("k") == "Bin" and t["op"] == "=" and {show(t["c"][0]), show(t["c"][1])} == {show(m["c"][0]), show(m["c"][1])}: s.running.add(id(m))
        rt = s.P.tc.get(f.get("ret"), "")
        if s.tracked(rt) is None: return
        for L, chain in loops_of(f.body):
            if id(L) not in lo: continue
            for c in lo[id(L)].cont:
                if progress(s.P, L, c) is None: continue
                for e, guard in breaks(L):
                    if not any(tiny(g) for g in guard): s.early_out[id(e)] = id(L)

    def repeated(s, body):
        """comparisons worth remembering: repeated ones (other than element counters) and the completion tests of budgeted loops"""
        k = ("c11", id(body))
        if k not in TS._rep:
            add = set(); cnt = set()
            for n in walk(body):
                if n.get("k") == "For" and isinstance(n.get("init"), dict):
                    cnt |= {x["id"] for x in walk(n["init"]) if x.get("k") == "Var" and "id" in x}
                if id(n) in s.loops:
                    for c in conj(n["cond"]) if n.get("cond") else []:
                        c = strip(c)
                        if c is not None and c.get("k") == "Bin" and c["op"] in REL: add.add((show(c), frozenset(x["id"] for x in walk(c) if "id" in x)))
            TS._rep[k] = frozenset(t for t in super().repeated(body) if not t[1] & cnt) | frozenset(add)
        return TS._rep[k]

    def summary(s, fn, su):
        s.setup(fn)
        return super().summary(fn, su)

    # ---------- conditions
    def unmark(s, st, test=lambda k: True):
        ks = [k for k in st.v if isinstance(k, tuple) and k[0] == "bx" and test(k)]
        if ks:
            st = st.copy()
            for k in ks: del st.v[k]
        return st

    def cond(s, st, n):
        s.cd += 1
        try: res = s.cond1(st, n)
        finally: s.cd -= 1
        if s.cd == 0:
            out = []
            for a, r in res:
                ks = [k for k, v in a.v.items() if isinstance(k, tuple) and k[0] == "bx" and isinstance(v, tuple)]
                if ks:
                    a = a.copy()
                    for k in ks:
                        _, i, bad = a.v[k]
                        vf = outcomes(n, i, bad); vk = outcomes(n, i, not bad)
                        if len(vf) == 1 or r not in vk: del a.v[k]
                        else: a.v[k] = "T"
                out.append((a, r))
            res = out
        return res

    def cond1(s, st, n):
        m = strip(n)
        if m is None: return [(st, True)]
        b = s.bud.get(id(m))
        if b:
            lp, truth = b; key = ("bx", id(lp.n)); nx = ("nx", id(lp.n))
            if id(m) in lp.incond and st.v.get(nx) == "T":
                st = st.copy(); del st.v[nx]
                return [(a, truth) for a, r in s.uniqc(super().cond(st, n))][:1]
            if st.v.get(key) == "T" and id(lp.n) not in s.stack:
                tv = s.atlimit(lp, m, truth)
                for a, _ in s.uniqc(super().cond(st, n)): return [(a if i == 0 else a.copy(), t) for i, t in enumerate(tv)]
            out = []
            for a, r in super().cond(st, n):
                if id(lp.n) in s.stack or inside(m, lp.n):
                    a = a.copy()
                    if r == truth:
                        a.v.pop(key, None)
                        if id(m) in lp.early: a.v[nx] = "T"
                    else: a.v[key] = "T"
                out.append((a, r))
            return out
        k = m.get("k")
        if k == "Call":
            lam = s.lamof(st, m.get("obj") if m.get("op") == "()" else m.get("callee")) if (m.get("op") == "()" or m.get("callee") is not None) else None
            if lam is not None and s.P.T(m) == "bool":
                lr = s.calllam(st, m)
                if lr is not None:
                    out = []
                    for a, d in lr:
                        if d is not None and "_b" in d: out.append((a, d["_b"] == "T"))
                        else: out += [(a, True), (a, False)]
                    return s.uniqc(out)
            if s.P.T(m) == "bool" and not n.get("op") and any(isinstance(kk, tuple) and kk[0] == "bx" for kk in st.v):
                vs = vars_(m)
                res = super().cond(st, n)
                return [(s.unmark(a, lambda kk: kk[1] in s.loops and kk[1] not in s.stack and not inside(m, s.loops[kk[1]].n) and bool(vs & s.loops[kk[1]].taint)), r) for a, r in res]
        # examining the outcome of a call
        f = s.fieldof(st, m) if k == "Mem" else None
        res = super().cond(st, n)
        if (f and f[1] in ("flag", "status")) or (k == "Bin" and m["op"] in ("==", "!=") and any(s.fieldof(st, c) for c in m["c"])):
            out = []
            for a, r in res:
                ks = [kk for kk, v in a.v.items() if isinstance(kk, tuple) and kk[0] == "bx" and kk[1] == "call" and v == "T"]
                if ks:
                    a = a.copy()
                    for kk in ks: a.v[kk] = ("E", id(m), r)
                out.append((a, r))
            res = out
        if k == "Bin" and m["op"] in REL and any(isinstance(kk, tuple) and kk[0] == "bx" for kk in st.v):
            res = [(s.complete(a, m, r), r) for a, r in res]
        return res

    def atlimit(s, lp, m, truth):
        """truth values of a comparison of the counter with the limit made after the limit ended the loop"""
        if lp.exitd is None: return [not truth]
        lo, hi = lp.exitd                       # counter - limit lies in [lo, hi]
        l, r = m["c"]; op = m["op"]
        a = offset(l)
        if a is None or (a[0], show(r)) not in lp.counters:
            a = offset(r); op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        f = {"<": lambda d: d < 0, "<=": lambda d: d <= 0, ">": lambda d: d > 0, ">=": lambda d: d >= 0, "==": lambda d: d == 0, "!=": lambda d: d != 0}[op]
        k = a[1] if a else 0
        vals = {f(d + k) for d in range(lo, hi + 1)}
        return sorted(vals)

    def uniqc(s, l):
        d = {}
        for a, r in l: d.setdefault((a.key(), r), (a, r))
        return list(d.values())

    def complete(s, st, m, r):
        """a comparison made after the limit was hit: does it establish the loop's own completion criterion?"""
        vs = vars_(m)
        if id(m) in s.running: return st            # a running maximum, not a test
        if any(strip(c) is not None and strip(c).get("dk") == "enum" for c in m["c"]): return st
        if all(is_int(s.P, c) for c in m["c"]) and not any(vs & s.loops[k[1]].contvars for k in st.v if isinstance(k, tuple) and k[0] == "bx" and k[1] in s.loops): return st
        def ok(k):
            if k[1] == "call": return False
            lp = s.loops.get(k[1])
            if lp is None or k[1] in s.stack or inside(m, lp.n): return False
            for c in lp.cont:
                c = strip(c)
                if c.get("k") == "Bin" and c["op"] in REL and vs & vars_(c) & lp.mods:
                    return direction(m, r, lp) != direction(c, True, lp)
            if lp.contvars and vs & lp.contvars: return True
            if advance(s, m, lp): return False
            return bool(vs & lp.taint)
        return s.unmark(st, ok)

    # ---------- calls returning a result object
    def call(s, st, n, rec):
        res = super().call(st, n, rec)
        fn = s.P.callee(n)
        if fn is None or not fn.body or fn.key == s.root or fn.key not in s.budgeted: return res
        out = []
        key = ("bx", "call", n["l"])
        for a, d in res:
            a = a.copy(); a.v.pop(key, None)
            if failing(d): a.v[key] = "T"
            out.append((a, d))
        return out

    # ---------- statements
    def block(s, states, n):
        cd, s.cd = s.cd, 0
        try: return s.block1(states, n)
        finally: s.cd = cd

    def block1(s, states, n):
        if n is None or not states: return states, [], []
        k = n.get("k")
        if k in ("For", "While", "Do") and id(n) in s.loops:
            inner = {i for i, lp in s.loops.items() if n in lp.chain or lp.n is n}
            states = uniq([s.unmark(st, lambda kk: kk[1] in inner) for st in states])
        if k == "For" and id(n) in s.loops and s.loops[id(n)].first:
            states = [st.copy() for st in states]
            for st in states: st.v[("nx", id(n))] = "T"
        if k in ("For", "While", "Do", "RFor"):
            s.stack.append(id(n))
            try:
                r = super().block(states, n)
            finally: s.stack.pop()
            return r
        if k == "Break" and s.stack and id(n) in s.early_out:
            L = s.early_out[id(n)]
            states = [st.copy() for st in states]
            for st in states:
                if not any(failing(d) for d in st.o.values()): st.v[("bx", L)] = "T"
            s.stopped.add(L)
            return super().block(states, n)
        if k == "Break" and s.stack:
            for st in states:
                if not any(failing(d) for d in st.o.values()) : s.okexit.add(s.stack[-1]); break
        if k == "Return":
            c = n.get("c"); e = strip(c[0]) if c else None
            if e is not None and s.P.T(e).replace("const ", "") == "bool" and not (s.rt and s.tracked(s.rt)):
                for st in states:
                    for a, b in s.cond(st, c[0]): s.rets.append((a, {"_b": "T" if b else "F"})); s.exit(n, a, {"_b": "T" if b else "F"})
                s.rets = duprets(s.rets)
                return [], [], []
            n0 = len(s.rets); old = list(s.rets); s.rets = []
            r = super().block(states, n)
            new = s.rets; s.rets = duprets(old + new)
            for a, d in new: s.exit(n, a, d)
            return r
        return super().block(states, n)

    def exit(s, n, st, d):
        if not failing(d):
            for i in s.stack:
                if i in s.loops and inside(n, s.loops[i].n): s.okexit.add(i)
        if s.depth == 1: s.exits.append((n, st, d))


def outcomes(n, i, val):
    """possible truth values of a condition when its sub-expression with node id i is val and the others are free"""
    n = strip(n)
    if n is None: return {True}
    if id(n) == i: return {val}
    if n.get("k") == "Un" and n["op"] == "!": return {not x for x in outcomes(n["c"][0], i, val)}
    if n.get("k") == "Bin" and n["op"] in ("&&", "||"):
        a, b = outcomes(n["c"][0], i, val), outcomes(n["c"][1], i, val)
        return {(x and y) if n["op"] == "&&" else (x or y) for x in a for y in b}
    c = const(n)
    if c is not None and n.get("k") != "Ref": return {bool(c)}
    return {True, False}


def small(n):
    """a constant at most 1e-6 in size"""
    c = const(n)
    return c is not None and abs(c) <= 1e-6


def slack(n):
    """an expression that is negligible beside the step: a tiny constant or something scaled by one"""
    n = strip(n)
    if n is None: return False
    if small(n): return True
    return n.get("k") == "Bin" and n["op"] == "*" and (small(n["c"][0]) or small(n["c"][1]))


def tiny(g):
    """the guard says that what remains is negligible"""
    return any(d is not None and d.get("k") == "Bin" and d["op"] in REL and any(slack(c) for c in d["c"]) for d in disj(g))


def progress(P, L, c):
    """(progress variable, terms left over) when the continue-condition is 'the end of a continuous range is not reached'"""
    c = strip(c)
    if c is None or c.get("k") != "Bin" or c["op"] not in ("<", "<=", ">", ">="): return None
    if any(is_int(P, x) for x in c["c"]): return None
    m = modified(L)
    terms = []
    def add(n, sg):
        n = strip(n)
        if n is not None and n.get("k") == "Bin" and n["op"] in ("+", "-"):
            add(n["c"][0], sg); add(n["c"][1], sg if n["op"] == "+" else -sg)
        else: terms.append((sg, n))
    add(c["c"][0], 1); add(c["c"][1], -1)
    mv = [(sg, t) for sg, t in terms if var(t) in m and var(t) is not None]
    fx = [(sg, t) for sg, t in terms if var(t) is not None and var(t) not in m]
    def accum(v):
        return any((x.get("k") == "Bin" and x["op"] in ("+=", "-=") and var(x["c"][0]) == v) or
                   (x.get("k") == "Bin" and x["op"] == "=" and var(x["c"][0]) == v and stepped(L, x["c"][1], v)) for x in walk(L))
    mv = [(sg, t) for sg, t in mv if accum(var(t))]
    if len(mv) != 1 or not fx: return None
    v = var(mv[0][1])
    end = [t for sg, t in fx if sg == -mv[0][0]]
    if not end: return None
    rest = [t for sg, t in terms if t is not mv[0][1] and t is not end[0]]
    return v, rest


def stepped(L, e, v, d=0):
    """the new value is the old one plus a step (directly or through a local of the loop)"""
    e = strip(e)
    if e is None or d > 3: return False
    if e.get("k") == "Bin" and e["op"] in ("+", "-"): return v in vars_(e) or any(stepped(L, c, v, d + 1) for c in e["c"])
    if e.get("k") == "Ref" and "id" in e:
        i = e["id"]
        return any(y.get("k") == "Var" and y.get("id") == i and (y.get("c") or [None])[0] is not None and stepped(L, y["c"][0], v, d + 1) for y in walk(L))
    return False


def breaks(L):
    """break statements that leave L, with the conditions of the ifs they stand under"""
    out = []
    def rec(n, gs, inner):
        if n is None: return
        k = n.get("k")
        if k == "Lambda": return
        if k == "Break" and not inner: out.append((n, gs))
        if k == "If":
            rec(n.get("then"), gs + [n["cond"]], inner); rec(n.get("else"), gs, inner); return
        inn = inner or k in ("For", "While", "Do", "RFor", "Switch")
        for c in children(n): rec(c, gs, inn)
    rec(L.get("body"), [], False)
    return out


def direction(m, r, lp):
    """+1: says the progress variable is below / small, -1: above / large"""
    op = m["op"]
    if op in ("==", "!="): return (1 if op == "!=" else -1) if r else (-1 if op == "!=" else 1)
    left = bool(vars_(m["c"][0]) & lp.mods)
    lt = op in ("<", "<=")
    d = 1 if lt == left else -1
    return d if r else -d


def advance(s, m, lp):
    """the comparison is the 'end not reached' test of a loop enclosing lp (progress made by adding steps), or repeats it"""
    mv = vars_(m)
    for L in lp.chain:
        for c in conj(L.get("cond")) if L.get("cond") else []:
            pg = progress(s.P, L, c)
            if pg is not None and pg[0] in mv: return True
    for L in lp.chain:
        for c in conj(L.get("cond")) if L.get("cond") else []:
            if strip(c) is m:
                o = s.loops.get(id(L))
                vs = vars_(m) & (o.mods if o else modified(L))
                for x in walk(L):
                    if x.get("k") == "Bin" and x["op"] in ("+=", "-=") and var(x["c"][0]) in vs: return True
                    if x.get("k") == "Bin" and x["op"] == "=" and var(x["c"][0]) in vs:
                        e = strip(x["c"][1])
                        if e.get("k") == "Ref" and "id" in e:
                            i = e["id"]
                            for y in walk(L):
                                if y.get("k") == "Var" and y.get("id") == i and (y.get("c") or [None])[0] is not None: e = strip(y["c"][0])
                        if e.get("k") == "Bin" and e["op"] in ("+", "-") and vars_(e) & vs: return True
    return False


def analyse(P, ck, f, budgeted=frozenset()):
    """-> list of (loop line or call line, exit line, what) for paths that leave f as if complete after running out"""
    ts = BTS(P, ck); ts.root = f.key; ts.budgeted = budgeted; ts.setup(f)
    rt = P.tc.get(f.get("ret"), "")
    su = [St()]
    for p in f.params:
        r = ts.tracked(P.T(p))
        if r: su = [x for st in su for x in [mk(st, p["id"], d) for d in ts.coherent(r)]]
    ts.active = {f.key}
    falls = []
    for st in su:
        fall, rr, _ = ts.run(f.body, st, rt)
        falls += fall
    bad = {}
    ex = [(n, st, d) for n, st, d in ts.exits] + [(None, st, None) for st in falls]
    bools = [p["id"] for p in f.params if P.T(p) == "bool &"]
    outp = [p["id"] for p in f.params if ts.tracked(P.T(p)) and P.T(p).endswith("&") and not P.T(p).startswith("const")]
    for n, st, d in ex:
        if any(st.v.get(i) == "F" for i in bools): continue
        if failing(d) or any(failing(st.o.get(i)) for i in outp): continue
        for k in st.v:
            if isinstance(k, tuple) and k[0] == "bx":
                if k[1] == "call": bad.setdefault(("call", k[2]), set()).add(n["l"] if n else f.l)
                else:
                    if k[1] not in ts.okexit and not ts.loops[k[1]].cont: continue
                    if n is not None and n.get("c") and elsewhere(f, ts.loops[k[1]], n["c"][0]): continue
                    bad.setdefault(("loop", ts.loops[k[1]].line), set()).add(n["l"] if n else f.l)
    return bad, ts


def elsewhere(f, lp, e):
    """the returned value was computed by a later loop and depends on nothing the exhausted one produced"""
    vs = vars_(e)
    if not vs or vs & lp.taint or any(isinstance(v, str) for v in lp.mods): return False
    seen = False
    for L, chain in loops_of(f.body):
        if L is lp.n: seen = True
        elif seen and not inside(L, lp.n) and not inside(lp.n, L) and vs & modified(L): return True
    return False


def mk(st, i, d):
    a = st.copy(); a.o[i] = dict(d); return a


def budgeted(P):
    """functions whose result object can say 'ran out': own budgeted loops, or a result taken from such a function"""
    T = TS(P, None)
    own = {}
    bg = set()
    for f in P.fns.values():
        if not f.body or f.kind == "ctor": continue
        if T.tracked(P.tc.get(f.get("ret"), "")) is None: continue
        own[f.key] = [c.key for c in (P.callee(x) for x in walk(f.body) if x.get("k") == "Call") if c is not None]
        if prep(P, f)[0]: bg.add(f.key)
    ch = True
    while ch:
        ch = False
        for k, cs in own.items():
            if k not in bg and any(c in bg for c in cs): bg.add(k); ch = True
    return bg


# ------------------------------------------------------------------------------------------------------------ the check
# best-effort operations: their documented outcome is "the best value found", with its own measure of quality or use
BEST = {
    "MML::EigenSolverHelpers::MultipleQRSteps": "performs up to the given number of steps and returns how many; convergence is judged by the caller",
    "MML::EigenSolverHelpers::MultipleDoubleShiftSteps": "performs up to the given number of steps and returns how many; convergence is judged by the caller",
    "MML::RealFunctionAnalyzer::ComputeLeftLimit": "samples a shrinking sequence; the samples themselves decide the answer (limit, infinity or none)",
    "MML::RealFunctionAnalyzer::ComputeRightLimit": "samples a shrinking sequence; the samples themselves decide the answer (limit, infinity or none)",
    "MML::Optimization::BFGS::LineSearchWolfe": "any step length is only a proposal; the outer iteration has its own convergence test",
    "MML::Optimization::BFGS::WolfeZoom": "any step length is only a proposal; the outer iteration has its own convergence test",
    "MML::Derivation::NDerRichardson": "returns the best tableau entry with its error estimate",
    "MML::Derivation::NSecDerRichardson": "returns the best tableau entry with its error estimate",
    "MML::Derivation::NThirdDerRichardson": "returns the best tableau entry with its error estimate",
    "MML::SORSolver::EstimateOptimalOmega": "probing runs are compared by their residual whether or not they finished",
    "MML::Systems::FixedPointFinder::Find": "documented to report the residual it reached; the type is Unknown when the limit was hit",
    "MML::IntegrateGaussKronrod": "returns the estimate with its error estimate",
}


def best(P):
    """exempt functions and helpers called from nowhere else"""
    callers = {}
    for f in P.fns.values():
        if not f.body: continue
        for x in walk(f.body):
            if x.get("k") == "Call":
                c = P.callee(x)
                if c is not None and c.key != f.key: callers.setdefault(c.key, set()).add(f.key)
    ex = {f.key for f in P.fns.values() if plain(f) in BEST}
    ch = True
    while ch:
        ch = False
        for f in P.fns.values():
            if f.key not in ex and f.body and callers.get(f.key) and callers[f.key] <= ex: ex.add(f.key); ch = True
    return ex


def plain(f):
    q = nt(f.q)
    while True:
        r = re.sub(r"<[^<>]*>", "", q)
        if r == q: return q
        q = r


def run(ck):
    from . import typestate
    if "valid" not in typestate.FLAG: typestate.FLAG += ("valid",)
    P = program(); T = TS(P, None)
    bg = budgeted(P); ex = best(P)
    bools = {f.key for f in P.fns.values() if f.body and P.tc.get(f.get("ret"), "") == "bool" and f.kind != "ctor" and prep(P, f)[0]}
    done = {}; nf = nl = nc = npg = nbest = nb = 0; seen_loops = set()
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if not f.body: continue
        lo, b = prep(P, f)
        q = plain(f)
        calls = [x for x in walk(f.body) if x.get("k") == "Call" and P.callee(x) is not None and P.callee(x).key in bg and T.tracked(P.T(x))]
        # a bool outcome that says "gave up" is not discarded
        for x in discarded(f.body):
            c = P.callee(x)
            if c is not None and c.key in bools:
                nb += 1
                ck.bad("%s: outcome of %s discarded" % (q, plain(c)), "%s:%d" % (f.f, x["l"]), "%s gives up after a limited number of attempts and says so in its return value, which is not examined here" % c.n)
        nb += sum(1 for x in walk(f.body) if x.get("k") == "Call" and P.callee(x) is not None and P.callee(x).key in bools)
        # integration loops run to the requested end
        for L, chain in loops_of(f.body):
            if L["k"] == "RFor" or not L.get("cond"): continue
            for c in conj(L["cond"]):
                pg = progress(P, L, c)
                if pg is None: continue
                if (f.f, L["l"]) in seen_loops: continue
                seen_loops.add((f.f, L["l"])); npg += 1
                far = [t for t in pg[1] if not slack(t)]
                if far: ck.bad("%s: loop stops before the requested end: %s" % (q, show(c)), "%s:%d" % (f.f, L["l"]), "the loop runs while %s: with a term of the size of %s left over, the last part of the interval is never computed" % (show(c), show(far[0])))
                else: ck.good("%s: %s" % (q, show(c)))
        if not lo and not calls: continue
        if f.key in ex: nbest += 1; continue
        bad, ts = analyse(P, ck, f, bg)
        nf += 1; nl += len(lo); nc += len(calls)
        rep = set()
        for (kind, line), exits in sorted(bad.items()):
            site = (f.f, line)
            if site in done.setdefault(q, set()): continue
            done[q].add(site); rep.add(line)
            if kind == "loop":
                L = [l for l in lo.values() if l.line == line]
                what = show(L[0].n.get("cond")) if L and L[0].n.get("cond") else "loop"
                ck.bad("%s: limit of the loop reached, exit looks complete" % q, "%s:%d" % (f.f, line),
                       "when the loop (%s) ends because its limit is reached, the function leaves at line %s without an exception, a failing flag/status, or a test of the completion criterion" % (what[:80], ", ".join(map(str, sorted(exits)))))
            else:
                ck.bad("%s: failed outcome of a limited computation is used" % q, "%s:%d" % (f.f, line),
                       "the call at this line can fail by running out; on that path the function leaves at line %s as if it had succeeded" % ", ".join(map(str, sorted(exits))))
        for l in lo.values():
            if l.line not in rep: ck.good("%s: exhausted loop at %s reported" % (q, f.f.split("/")[-1]))
        for c in calls:
            if c["l"] not in rep: ck.good("%s: outcome of %s examined" % (q, P.callee(c).n))
    ck.cov.update(outcome_calls=nc, bool_outcome_calls=nb, best_effort_functions=nbest)
    ck.floor("functions_with_limited_loops_or_outcomes", nf, 150); ck.floor("limited_loops", nl, 70); ck.floor("integration_loops", npg, 10)


def discarded(n):
    """calls whose value is thrown away: expression statements of a block or a controlled statement"""
    out = []
    def stm(x):
        y = strip(x)
        if y is not None and y.get("k") == "Call": out.append(y)
    for x in walk(n):
        k = x.get("k")
        if k == "Block":
            for c in x.get("c", []):
                if c is not None: stm(c)
        elif k == "If":
            for c in (x.get("then"), x.get("else")):
                if c is not None: stm(c)
        elif k in ("For", "While", "Do", "RFor") and x.get("body") is not None: stm(x["body"])
    return out
