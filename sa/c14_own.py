"""C14: copies are complete and independent, nothing outlives what it refers to."""
from .borrow import *
from .flow import Flow, Fz

CCM = ("copy constructor", "move constructor", "copy assignment", "move assignment")

# classes documented as views of, or helpers over, data owned by the caller
VIEW = {
    "MML::BilinearInterp2D": "documented: keeps a reference to the data matrix",
    "MML::LUSolverInPlace": "documented: works in the caller's matrix",
    "MML::Optimization::LineFunction": "line-search adapter on the stack of one minimisation call",
    "MML::Data::JsonParser": "parser over the text of one load call",
    "MML::VectorTablePrinter": "prints the caller's vectors",
    "MML::ScopedTimer": "writes the elapsed time into the caller's variable",
}
DATA = tuple("MML::" + x for x in ("Vector", "Matrix", "Polynom", "BandDiagonalMatrix", "Point", "Quaternion", "Tensor")) + tuple("std::" + x for x in ("function<", "vector<", "basic_string<", "map<", "pair<", "array<"))


def run(ck):
    P = program(); B = borrow()
    escapes(ck, P, B)
    copies(ck, P, B)
    refreshes(ck, P, B)
    transfers(ck, P)
    owners(ck, P)
    order(ck, P)


def dang(rs): return sorted((r for r in rs if r[0] in ("L", "X")), key=str)


def what(r): return "the local object %s" % r[2] if r[0] == "L" else "a temporary of the same expression"


# ---------------------------------------------------------------- nothing refers to a dead object
def escapes(ck, P, B):
    nf = nr = nv = np = nl = 0
    self_ = {}; top = {nt(r['q']) for r in P.recs.values() if '::' in r['q']}
    for k in sorted(P.fns):
        f = P.fns[k]
        if not f.body and not f.get("inits"): continue
        a = Fun(B, f); a.run(); nf += 1
        ret = P.T(f.get("ret"))
        for r, v in a.rets:
            if not B.holds(ret): continue
            nr += 1
            b = dang(v)
            if b:
                ck.bad("%s returns a reference to a dead object" % nt(f.q), "%s:%d" % (f.f, r["l"]),
                       "%s returns a value that refers to %s, which is destroyed when the function returns: %s" % (f.q, what(b[0]), show(r)[:90]))
            else: ck.good("%s: %s refers to nothing that dies at the return" % (f.q, show(r)[:60]) if nr % 40 == 1 else None)
        for r, v, lam in a.lret:
            nl += 1
            own = {p["id"] for p in lam["n"].get("params", [])} | {x["id"] for x in walk(lam["n"].get("body")) if x.get("k") == "Var"}
            b = [x for x in dang(v) if x[0] == "X" or x[1] in own]
            if b: ck.bad("%s: lambda returns a reference to a dead object" % nt(f.q), "%s:%d" % (f.f, r["l"]), "a lambda in %s returns a value that refers to %s: %s" % (f.q, what(b[0]), show(r)[:90]))
            else: ck.good()
        for v, r in a.vars:
            if not B.holds(P.T(v)): continue
            nv += 1
            b = [x for x in r if x[0] == "X"]
            if b and not v["c"][0].get("mt") == 2 and not (P.T(v).endswith("&") and v["c"][0].get("mt")):
                ck.bad("%s: %s refers to a destroyed temporary" % (nt(f.q), v["n"]), "%s:%d" % (f.f, v["l"]),
                       "in %s the variable %s keeps a reference to a temporary that is destroyed at the end of its declaration: %s" % (f.q, v["n"], show(v)[:90]))
            else: ck.good()
        for n, r, x in a.rng:
            if any(y[0] == "X" for y in r) and not x.get("mt"):
                ck.bad("%s: loop over a destroyed temporary" % nt(f.q), "%s:%d" % (f.f, n["l"]), "%s iterates over a part of a temporary that is destroyed before the loop body runs: %s" % (f.q, show(x)[:90]))
        for d, v, n, w in a.puts:
            np += 1
            b = dang(v)
            if b and d[0] in ("T", "TV", "R", "V", "G"):
                ck.bad("%s keeps a reference to a dead object in %s" % (nt(f.q), w or "its target"), "%s:%d" % (f.f, n.get("l") or f.l),
                       "%s stores, in an object that outlives the call (%s), a reference to %s" % (f.q, w or "assignment", what(b[0])))
            else: ck.good()
            if f.cls and d == ("T",) and nt(f.cls) not in VIEW and (nt(f.cls).startswith("MML::") or nt(f.cls) in B.fields) and not f.get("cp") and not f.get("as"):
                for x in v:
                    if x[0] != "R" or nt(f.cls) not in top: continue
                    pt = P.T(f.params[x[1]]).replace("const ", "")
                    if pt.startswith(DATA) or pt.rstrip().endswith("&&"):
                        ck.bad("%s keeps a reference to its argument %s" % (nt(f.cls), f.params[x[1]]["n"]), "%s:%d" % (f.f, n.get("l") or f.l),
                               "%s stores a reference to the argument %s (%s) instead of a copy: the object dangles as soon as the caller's value, often a temporary, is gone" % (f.q, f.params[x[1]]["n"], P.TS(f.params[x[1]])[:50]))
            for own in ("T", "TH"):
                if d == ("T",) and (own,) in v and f.cls: self_.setdefault(nt(f.cls), []).append((f, n, w, own))
        # a variable of an outer block keeps a reference to one of an inner block that has ended
        if f.body: scopes(ck, P, B, a, f)
    B.selfref = self_
    ck.floor("functions_analysed", nf, 3400); ck.floor("returned_references_or_closures", nr, 380); ck.floor("reference_or_closure_variables", nv, 170)
    ck.floor("stores_of_references", np, 15); ck.floor("lambda_returns", nl, 15)
    ck.cov["types_that_can_hold_a_reference"] = len(B.rec_hold)


def scopes(ck, P, B, a, f):
    depth = {}; use = {}

    def go(n, path):
        if n is None: return
        k = n.get("k")
        if k == "Var": depth[n["id"]] = path; return [go(c, path) for c in children(n)]
        if k == "Ref" and n.get("dk") == "local": use.setdefault(n["id"], []).append(path)
        p = path + (id(n),) if k in ("Block", "For", "RFor", "While", "If", "Lambda", "Switch", "Catch") else path
        for c in children(n): go(c, p)
    go(f.body, ())
    for i, rs in a.env.items():
        if i not in depth: continue
        for r in rs:
            if r[0] == "L" and r[1] in depth and r[1] != i:
                inner = depth[r[1]]; outer = depth[i]
                if len(inner) > len(outer) and inner[:len(outer)] == outer:
                    # used outside the inner block?
                    if any(u[:len(inner)] != inner for u in use.get(i, ())):
                        late = [u for u in use[i] if u[:len(inner)] != inner]
                        ck.bad("%s: %s refers to an object of a block that has ended" % (nt(f.q), a.names.get(i)), f.where,
                               "in %s the variable %s may refer to %s, declared in an inner block, and is also used outside that block" % (f.q, a.names.get(i), r[2]))


# ---------------------------------------------------------------- self-referring objects
def copies(ck, P, B):
    n = 0
    for r in P.recs.values():
        q = nt(r["q"])
        if "sm" not in r: continue
        n += 1
        uses = B.selfref.get(q)
        if not uses: ck.good(); continue
        cref = any(fl.get("ref") or P.TS(fl).startswith("const ") for fl in r.get("fields", []))
        for i, how in enumerate(r["sm"]):
            if i % 2: uses = [u for u in uses if u[3] == "T"]        # owned heap storage follows a move
            else: uses = B.selfref[q]
            if not uses: ck.good(); continue
            fs = sorted(set(u[2] for u in uses if u[2]))
            if how == 1:
                if i >= 2 and cref: continue
                ck.bad("%s: %s keeps references into the source object" % (q, CCM[i]), "%s:%d" % (r["f"], r["l"]),
                       "%s holds references to its own storage (%s), and its implicit %s copies them: the copy refers to the source and dangles when the source is destroyed" % (q, ", ".join(fs), CCM[i]))
            elif how == 2:
                f = next((x for x in P.bycls.get(r["key"], []) if (x.get("cp") if i < 2 else x.get("as")) == ("copy", "move")[i % 2] and x.body is not None), None)
                if f is None: ck.good(); continue
                a = Fun(B, f); a.run()
                hit = [(d, w) for d, v, m, w in a.puts if d in (("T",), ("TV",)) and any(x in v for x in ((("V", 0), ("R", 0)) if i % 2 == 0 or uses else ()))]
                redo = i % 2 or any(d == ("T",) and (("T",) in v or ("TH",) in v) for d, v, m, w in a.puts) or any("b" in ii or "m" not in ii for ii in f.get("inits") or [] if ii.get("c") and ii["c"][0].get("k") == "Ctor" and nt(ii["c"][0].get("cls") or "") == q)
                redo = redo or any(x.get("k") == "Ctor" and nt(x.get("cls") or "") == q for x in walk(f.body))      # copy and swap
                if not hit and not redo: ck.bad("%s: %s does not re-create its self-references" % (q, CCM[i]), f.where, "%s holds references to its own storage (%s), but its %s neither copies nor re-creates them" % (q, ", ".join(fs), CCM[i])); continue
                if hit: ck.bad("%s: %s keeps references into the source object" % (q, CCM[i]), f.where, "the %s of %s stores a reference to (or taken over from) the source object in %s" % (CCM[i], q, hit[0][1]))
                else: ck.good("%s: %s re-creates its self-references" % (q, CCM[i]))
            else: ck.good("%s: no %s" % (q, CCM[i]))
    ck.floor("copyable_classes", n, 45); ck.cov["self_referring_classes"] = len(B.selfref)


# ---------------------------------------------------------------- views into the object's own storage follow every change of that storage
MUT = {"push_back", "emplace_back", "insert", "emplace", "erase", "pop_back", "clear", "resize", "assign", "reserve", "swap", "shrink_to_fit", "push", "pop"}


def refreshes(ck, P, B):
    """in a class that keeps pointers into its own containers, every path that changes the fields the pointers are computed from rebuilds, drops or takes over the pointers"""
    from .flow import Flow, Fz
    n = 0
    for q, uses in sorted(B.selfref.items()):
        if not any(u[3] == "TH" for u in uses): continue
        views = sorted(m for m, fl in B.fields.get(q, {}).items() if "*" in P.T(fl) and "function" not in P.T(fl))
        fns = [f for f in P.fns.values() if f.cls and nt(f.cls) == q and f.body]
        builders = {u[0].key for u in uses if u[3] == "TH" and (not u[2] or u[2] in B.fields.get(q, {})) and u[0].kind != "ctor"}
        while True:                                                     # private helpers on the way to the builder
            more = {f.key for f in fns if f.key not in builders and f.kind != "ctor" and not (f.get("as") or f.get("cp")) and any(x.get("k") == "Call" and x.get("ck") in builders for x in walk(f.body)) and not any(
                fieldof(x, q) for x in assigned(f.body))}
            if not more: break
            builders |= more
        pure = {f.key for f in fns if f.key in builders and not f.get("as") and not f.get("cp") and f.kind != "ctor"}
        inputs = set()
        for f in fns:
            if f.key in pure:
                for x in walk(f.body):
                    if x.get("k") == "Mem" and x.get("c") and x["c"][0].get("k") == "This" and x["n"] in B.fields[q] and x["n"] not in views: inputs.add(x["n"])
        if not views or not inputs: continue
        conts = {x for x in inputs if any(P.T(B.fields[q][x]).replace("const ", "").startswith(h) for h in HEAP) or "vector" in P.T(B.fields[q][x])}
        for f in fns:
            if f.key in pure or f.kind == "dtor": continue
            if f.get("cst"): continue
            n += 1
            D = Refresh(P, q, set(views), inputs, conts, pure, f)
            fl = Flow(D)
            st = Fz(dirty=False, moved=frozenset(), gone=frozenset())
            if f.kind == "ctor":
                if any("m" not in i and i.get("c") and i["c"][0].get("k") == "Ctor" and nt(i["c"][0].get("cls") or "") == q for i in f.get("inits") or []): ck.good(); continue
                for i in f.get("inits") or []:
                    if "m" in i and i.get("c"): st = D.put(st, i["m"], i["c"][0], True)
            badp = []
            for s2, v, r in fl.run(f.body, st):
                if s2["dirty"] and not set(views) <= s2["moved"] | s2["gone"]: badp.append(r)
            if badp:
                r = badp[0]
                ck.bad("%s: %s leaves %s pointing into the old storage" % (q, f.n, "/".join(views)), "%s:%d" % (f.f, (r or {}).get("l") or f.l),
                       "%s changes %s, from which %s were computed, but on some path neither rebuilds nor drops %s: element access then uses the old layout or freed storage" % (f.q, "/".join(sorted(inputs)), "/".join(views), "/".join(views)))
            else: ck.good("%s: %s keeps %s current" % (q, f.n, "/".join(views)))
    ck.floor("functions_of_classes_with_internal_pointers", n, 10)


def fieldof(x, q):
    while x is not None and x.get("k") in ("ICast", "Cast"): x = x["c"][0]
    return x["n"] if x is not None and x.get("k") == "Mem" and x.get("c") and x["c"][0].get("k") == "This" else None


def assigned(b):
    for x in walk(b):
        k = x.get("k")
        if k == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="): yield x["c"][0]
        elif k == "Call" and x.get("obj") is not None and (x.get("op") == "=" or (x.get("fn") or "").split("::")[-1] in MUT): yield x["obj"]


class Refresh:
    def __init__(s, P, q, views, inputs, conts, pure, f):
        s.P = P; s.q = q; s.views = views; s.inputs = inputs; s.conts = conts; s.pure = pure; s.f = f; s.depth = 0; s.alias = {}

    def noreturn(s, n): return False

    def moved(s, x, m, init=False):
        """the value of the same field of another object, taken over (moved or swapped)"""
        for y in walk(x):
            if y.get("k") == "Mem" and y["n"] == m and y.get("c") and y["c"][0].get("k") != "This": return True
        return False

    def put(s, st, m, x, init=False):
        if m in s.views:
            if x is None: return st.set("gone", st["gone"] | {m})
            taken = s.moved(x, m) and any(y.get("k") == "Call" and nt(y.get("fn") or "") in ("std::move", "std::exchange", "std::forward") for y in walk(x))
            if taken: return st.set("moved", st["moved"] | {m})
            empty = x.get("k") in ("InitList", "Ctor") and not x.get("c")
            return st.set("gone", st["gone"] | {m}) if empty else st
        if m in s.inputs:
            if init and x is not None and x.get("k") in ("Ctor", "InitList") and not x.get("c"): return st
            if init and x is not None and strip(x).get("k") in ("Int", "Null", "Bool"): return st
            if m in s.conts and x is not None and init is False and strip(x).get("k") in ("InitList",) and not x.get("c"): return st
            return Fz2(st, dirty=True, gone=frozenset())
        return st

    def expr(s, st, n):
        out = [st]
        for x in post(n):
            nx = []
            for a in out: nx += s.step(a, x)
            out = nx
        return out

    def step(s, st, x):
        k = x.get("k")
        if k == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
            m = fieldof(x["c"][0], s.q)
            return [s.put(st, m, x["c"][1])] if m else [st]
        if k == "Call":
            o = x.get("obj"); m = fieldof(o, s.q) if o is not None else None; fn = (x.get("fn") or "").split("::")[-1]
            if x.get("op") == "=" and m: return [s.put(st, m, (x.get("c") or [None])[0])]
            if x.get("op") == "=" and o is not None and strip(o).get("k") == "Un" and strip(strip(o)["c"][0]).get("k") == "This": return [Fz2(st, dirty=False)]
            if m and fn in MUT:
                if m in s.views:
                    if fn == "swap": return [st.set("moved", st["moved"] | {m})]
                    return [st.set("gone", st["gone"] | {m})] if fn == "clear" else [st]
                if m in s.inputs: return [Fz2(st, dirty=True, gone=frozenset())] if fn != "clear" else [st if st["dirty"] else st]
            if nt(x.get("fn") or "") in ("std::swap", "std::exchange"):
                for c in x.get("c", [])[:2]:
                    m = fieldof(strip(c), s.q)
                    if m in s.views: st = st.set("moved", st["moved"] | {m})
                    elif m in s.inputs: st = Fz2(st, dirty=True, gone=frozenset())
                return [st]
            g = s.P.callee(x)
            if g is not None and g.cls and nt(g.cls) == s.q and (o is None or strip(o).get("k") == "This"):
                if g.key in s.pure: return [Fz2(st, dirty=False, moved=frozenset(), gone=frozenset())]
                if g.body and not g.get("cst") and s.depth < 4 and g.kind != "ctor":
                    from .flow import Flow
                    s.depth += 1; r = Flow(s).run(g.body, st); s.depth -= 1
                    return [a for a, v, w in r] or [st]
        return [st]

    def cond(s, st, n, loop):
        r = []
        for a in s.expr(st, n):
            e = s.empty(n)
            if e is None: r += [(a, True), (a, False)]
            else: r += [(Fz2(a, dirty=False), e), (a, not e)]           # with no elements there is nothing to point to
        if s.same(n): r = [((Fz2(a, dirty=False) if b else a), b) for a, b in r]
        return r

    def same(s, n):
        """every scalar the layout depends on was compared with the source's"""
        eq = set()
        for x in walk(n):
            if x.get("k") == "Bin" and x["op"] == "==":
                ms = [fieldof(strip(y), s.q) for y in x["c"]]
                eq |= {m for m in ms if m}
            if x.get("k") == "Ref" and x.get("id") in s.alias: eq |= s.alias[x["id"]]
        return bool(eq) and (s.inputs - s.conts) <= eq

    def empty(s, n):
        """the truth value of the condition that means 'the storage is empty'"""
        n = strip(n)
        if n.get("k") == "Un" and n["op"] == "!":
            e = s.empty(n["c"][0]); return None if e is None else not e
        if n.get("k") == "Call" and (n.get("fn") or "").split("::")[-1] == "empty" and n.get("obj") is not None and fieldof(n["obj"], s.q) in s.conts: return True
        if n.get("k") == "Bin" and n["op"] in ("==", "!=", ">"):
            l = strip(n["c"][0]); z = strip(n["c"][1])
            if str(z.get("cv", z.get("v"))) == "0" and ((l.get("k") == "Call" and (l.get("fn") or "").split("::")[-1] == "size" and l.get("obj") is not None and fieldof(l["obj"], s.q) in s.conts)): return n["op"] == "=="
        return None

    def decl(s, st, v):
        if v.get("c"):
            eq = set()
            for x in walk(v["c"][0]):
                if x.get("k") == "Bin" and x["op"] == "==":
                    eq |= {m for m in (fieldof(strip(y), s.q) for y in x["c"]) if m}
            if eq: s.alias[v["id"]] = eq
            return s.expr(st, v["c"][0])
        return [st]

    def ret(s, st, n): return [(a, None) for a in s.expr(st, n)]


def Fz2(st, **kw):
    for k, v in kw.items(): st = st.set(k, v)
    return st


def post(n):
    if n is None or n.get("k") == "Lambda": return
    cs = list(children(n))
    if n.get("k") == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="): cs = cs[::-1]
    for c in cs: yield from post(c)
    yield n


# ---------------------------------------------------------------- user-provided copies transfer everything
def closure(P, f, seen=None):
    """functions of the same class reachable through calls on the object itself or on the parameter"""
    seen = {} if seen is None else seen
    if f.key in seen: return seen
    seen[f.key] = f
    for x in list(walk(f.body) if f.body else []) + [y for i in f.get("inits") or [] for y in walk((i.get("c") or [None])[0])]:
        g = P.callee(x) if x.get("k") in ("Call", "Ctor") else None
        if g is not None and g.cls == f.cls: closure(P, g, seen)
    return seen


def memof(x, pid):
    """field of the parameter an expression reads, through accessors and moves"""
    for y in walk(x):
        if y.get("k") == "Mem" and y.get("dk") == "field" and y.get("c") and y["c"][0].get("k") == "Ref" and y["c"][0].get("id") == pid: yield y["n"]


def accessor(P, g, depth=0):
    """the single field a member function returns"""
    if g is None or not g.body or depth > 2: return None
    st = g.body.get("c", [])
    if len(st) == 1 and st[0].get("k") == "Return" and st[0].get("c"):
        x = strip(st[0]["c"][0])
        if x.get("k") == "Mem" and x.get("c") and x["c"][0].get("k") == "This": return x["n"]
    return None


def srcfields(P, x, pid):
    o = set(memof(x, pid))
    for y in walk(x):
        if y.get("k") == "Call" and y.get("obj") is not None and y["obj"].get("k") == "Ref" and y["obj"].get("id") == pid:
            a = accessor(P, P.callee(y))
            if a: o.add(a)
    return o


def transfers(ck, P):
    n = 0
    for r in P.recs.values():
        if "sm" not in r: continue
        for f in P.bycls.get(r["key"], []):
            kind = ("copy constructor" if f.get("cp") == "copy" else "move constructor") if f.get("cp") else ("copy assignment" if f.get("as") == "copy" else "move assignment") if f.get("as") else None
            if kind is None or f.get("dft") or f.get("del") or f.body is None: continue
            n += 1
            pid = f.params[0]["id"] if f.params else None
            fields = [x["n"] for x in r.get("fields", [])]
            inits = {i["m"]: i for i in f.get("inits") or [] if "m" in i and i.get("w")}
            deleg = next((i for i in f.get("inits") or [] if "b" in i and i.get("c") and i["c"][0].get("k") == "Ctor" and nt(i.get("bq") or "") == nt(r["q"])), None)
            if deleg is None:
                deleg = next((i for i in f.get("inits") or [] if "m" not in i and i.get("c") and i["c"][0].get("k") == "Ctor" and nt(i["c"][0].get("cls") or "") == nt(r["q"])), None)
            if deleg is not None:
                c = deleg["c"][0]; g = P.callee(c)
                if g is None: ck.good(); continue
                for i, (p, arg) in enumerate(zip(g.params, c.get("c", []))):
                    direct = [ii["m"] for ii in g.get("inits") or [] if "m" in ii and ii.get("c") and strip(ii["c"][0]).get("k") == "Ref" and strip(ii["c"][0]).get("id") == p["id"]]
                    if not direct and g.body:
                        for x in walk(g.body):
                            if x.get("k") == "Bin" and x["op"] == "=" and strip(x["c"][1]).get("id") == p["id"] and x["c"][0].get("k") == "Mem": direct.append(x["c"][0]["n"])
                    if not direct: continue
                    src = srcfields(P, arg, pid)
                    if src and not (src & set(direct)):
                        ck.bad("%s: %s swaps fields" % (nt(r["q"]), kind), f.where, "the %s of %s passes the source's %s to the constructor parameter that sets %s" % (kind, r["q"], "/".join(sorted(src)), "/".join(direct)))
                    elif not src:
                        ck.bad("%s: %s loses %s" % (nt(r["q"]), kind, direct[0]), f.where, "the %s of %s delegates without passing on the source's %s" % (kind, r["q"], direct[0]))
                    else: ck.good("%s: delegating %s passes on %s" % (r["q"], kind, direct[0]))
                continue
            fl = closure(P, f)
            whole = False; put = {}
            for g in fl.values():
                me = g is f
                for x in (walk(g.body) if g.body else ()):
                    k = x.get("k"); tgt = None; src = None
                    if k == "Bin" and x["op"] == "=": tgt, src = x["c"][0], x["c"][1]
                    elif k == "Call" and x.get("op") == "=" and x.get("obj") is not None: tgt, src = x["obj"], (x.get("c") or [None])[0]
                    elif k == "Call" and x.get("obj") is not None and not x.get("op"): tgt, src = x["obj"], {"k": "Args", "c": x.get("c", [])}
                    elif k == "Call" and (x.get("fn") or "").startswith(("std::swap", "std::copy", "std::memcpy", "std::exchange", "memcpy", "std::move", "std::fill")) and len(x.get("c", [])) >= 2:
                        for y in x["c"]:
                            for z in walk(y):
                                if z.get("k") == "Mem" and z.get("c") and z["c"][0].get("k") == "This": put.setdefault(z["n"], set()).update(n2 for w in x["c"] for n2 in srcfields(P, w, pid) )
                        continue
                    if tgt is None: continue
                    b = tgt
                    while b is not None and (b.get("k") in ("Idx", "Un", "ICast", "Cast") or (b.get("k") == "Mem" and b.get("c") and b["c"][0].get("k") != "This") or (b.get("k") == "Call" and b.get("op") in ("[]", "()"))):
                        b = b.get("obj") or (b.get("c") or [None])[0]
                    if b is not None and b.get("k") == "Un": b = b["c"][0]
                    if b is not None and b.get("k") == "Mem" and b.get("c") and b["c"][0].get("k") == "This":
                        put.setdefault(b["n"], set()).update(srcfields(P, src, pid) if me and src is not None else {"?"})
                        if me and src is not None and any(y.get("k") == "Ref" and y.get("id") == pid for y in walk(src)): put[b["n"]].add("?")
                    elif b is not None and b.get("k") == "Call" and b.get("op") == "[]": pass
                    elif b is not None and b.get("k") == "This" and tgt.get("k") == "Call": put.setdefault("*", set()).add("?")
            for x in fields:
                if x in inits:
                    s = srcfields(P, inits[x]["c"][0], pid)
                    if s and x not in s and not any(y.get("k") == "Call" for y in walk(inits[x]["c"][0])):
                        ck.bad("%s: %s sets %s from another field" % (nt(r["q"]), kind, x), f.where, "the %s of %s initialises %s from the source's %s" % (kind, r["q"], x, "/".join(sorted(s)))); continue
                    if s or any((y.get("k") == "Ref" and y.get("id") == pid) or y.get("k") in ("This", "Lambda") for y in walk(inits[x]["c"][0])): ck.good("%s: %s transfers %s" % (r["q"], kind, x)); continue
                if x in put or "*" in put:
                    s = put.get(x, {"?"})
                    if s and "?" not in s and x not in s: ck.bad("%s: %s sets %s from another field" % (nt(r["q"]), kind, x), f.where, "the %s of %s assigns %s from the source's %s" % (kind, r["q"], x, "/".join(sorted(s))))
                    else: ck.good("%s: %s transfers %s" % (r["q"], kind, x))
                    continue
                if len(fields) == 1 and pid is not None and any(y.get("k") == "Ref" and y.get("id") == pid for g in fl.values() for y in (walk(g.body) if g.body else ())): ck.good(); continue
                ck.bad("%s: %s does not transfer %s" % (nt(r["q"]), kind, x), f.where, "the user-provided %s of %s leaves the field %s behind: the copy differs from its source" % (kind, r["q"], x))
    ck.floor("user_provided_copy_operations", n, 10)


# ---------------------------------------------------------------- raw ownership
def owners(ck, P):
    n = 0
    for r in P.recs.values():
        if "sm" not in r: continue
        for f in P.bycls.get(r["key"], []):
            if f.kind != "dtor" or not f.body: continue
            rel = set()
            for g in closure(P, f).values():
                for x in (walk(g.body) if g.body else ()):
                    if x.get("k") == "Delete" or (x.get("k") == "Call" and (x.get("fn") or "") in ("free", "std::free", "fclose", "std::fclose")):
                        for y in walk(x):
                            if y.get("k") == "Mem" and y.get("c") and y["c"][0].get("k") == "This" and y.get("dk") == "field": rel.add(y["n"])
            if not rel: continue
            n += 1
            for i, how in enumerate(r["sm"]):
                if how == 1 and not (i >= 2 and any(fl.get("ref") or P.TS(fl).startswith("const ") for fl in r.get("fields", []))):
                    ck.bad("%s: implicit %s shares a released resource" % (nt(r["q"]), CCM[i]), "%s:%d" % (r["f"], r["l"]),
                           "the destructor of %s releases %s, but its implicit %s copies the raw pointers: both objects release them" % (r["q"], ", ".join(sorted(rel)), CCM[i]))
                else: ck.good("%s: %s is %s" % (r["q"], CCM[i], ("absent", "", "user-provided")[how]))
    ck.floor("classes_releasing_raw_resources", n, 0)
    # every new-expression ends in an owner
    m = 0
    for f in P.fns.values():
        for x in (walk(f.body) if f.body else ()):
            if x.get("k") == "New": m += 1
    ck.cov["new_expressions"] = m


# ---------------------------------------------------------------- use after move, use after invalidation
INVAL = {"push_back", "emplace_back", "insert", "erase", "resize", "reserve", "clear", "assign", "shrink_to_fit", "pop_back", "emplace", "Resize", "Clear", "push_front", "pop_front", "swap", "append"}
ELEM = {"operator[]", "at", "front", "back", "data", "begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "c_str", "row", "operator()"}
GROW = ("std::vector<", "std::basic_string<", "std::deque<", "MML::Vector<", "MML::Matrix<", "MML::MatrixSym<", "MML::Matrix3D<", "MML::BandDiagonalMatrix<", "MML::Polynom<")


class Order:
    def __init__(s, ck, P, f): s.ck = ck; s.P = P; s.f = f; s.n = 0; s.kinds = {}

    def path(s, n):
        while n is not None and n.get("k") in ("ICast", "Cast") and n.get("c"): n = n["c"][0]
        if n is None: return None
        k = n.get("k")
        if k == "Ref" and "id" in n and n.get("dk") != "global": return "v%s" % n["id"]
        if k == "Mem" and n.get("dk") == "field" and n.get("c"):
            if n["c"][0].get("k") == "This": return "this." + n["n"]
            b = s.path(n["c"][0])
            return b + "." + n["n"] if b else None
        if k == "Un" and n["op"] == "*" and n["c"][0].get("k") == "This": return "this"
        return None

    def base(s, n):
        """container whose element (or iterator) an expression yields"""
        while n is not None:
            k = n.get("k")
            if k in ("ICast", "Cast") and n.get("c"): n = n["c"][0]; continue
            if k == "Un" and n["op"] == "&": n = n["c"][0]; continue
            if k == "Mem" and n.get("dk") == "field" and n.get("c") and n["c"][0].get("k") in ("Call", "Idx", "Mem"): 
                if s.path(n): return None
                n = n["c"][0]; continue
            if k == "Call" and n.get("obj") is not None:
                fn = (n.get("fn") or ""); sh = fn[fn.rindex("operator"):] if "operator" in fn else fn.split("::")[-1]
                if sh in ELEM:
                    o = n["obj"]; p = s.path(o); t = s.P.T(o).replace("const ", "")
                    if p and any(t.startswith(g) for g in GROW): return p
                    n = o; continue
            if k == "Bin" and n["op"] in ("+", "-"): n = n["c"][0]; continue
            if k == "Call" and n.get("obj") is None and (n.get("fn") or "").startswith("std::") and n.get("c") and "iterator" in s.P.T(n): n = n["c"][0]; continue
            if k == "Call" and n.get("op") in ("+", "-") and n.get("obj") is not None: n = n["obj"]; continue
            return None
        return None

    def noreturn(s, n): return n.get("k") == "Throw"

    def cond(s, st, n, loop):
        r = s.expr(st, n)
        return [(x, b) for x in r for b in (True, False)]

    def decl(s, st, v):
        if v.get("c"):
            st = s.expr(st, v["c"][0])[0]
        p = "v%s" % v["id"]
        st = s.clear(st, p)
        if v.get("c"):
            t = s.P.T(v)
            if t.endswith("&") or t.rstrip().endswith("*") or "iterator" in t:
                b = s.base(v["c"][0])
                if b: st = st.set("b:" + p, b); s.n += 1
        return [st]

    def clear(s, st, p):
        return st.drop(*[k for k in st if k[2:] == p or k[2:].startswith(p + ".")])

    def ret(s, st, n): return [(x, None) for x in s.expr(st, n)]

    def use(s, st, p, n):
        for k in st:
            if k[0] == "m" and (k[2:] == p or p.startswith(k[2:] + ".") ):
                s.report(n, "uses %s after it was moved from" % show(n), "moved")
            if k[0] == "s" and k[2:] == p:
                s.report(n, "uses %s, which refers into a container, after the container was modified" % show(n), "stale")

    def report(s, n, msg, kind):
        s.ck.bad("%s: %s %s" % (nt(s.f.q), kind, show(n)), "%s:%d" % (s.f.f, n["l"]), "%s %s" % (s.f.q, msg)) if (n["l"], kind) not in s.kinds else None
        s.kinds[(n["l"], kind)] = 1

    def expr(s, st, n): return [s.ev(st, n)]

    def ev(s, st, n, lhs=False):
        if n is None: return st
        k = n.get("k")
        if k == "Lambda":
            for c in n.get("ci") or []:
                if c is not None: st = s.ev(st, c)
            return st
        if k in ("Ref", "Mem"):
            p = s.path(n)
            if p and not lhs: s.use(st, p, n)
            if k == "Mem" and not p:
                for c in n.get("c", []): st = s.ev(st, c)
            return st
        if k == "Bin" and n["op"] == "=":
            st = s.ev(st, n["c"][1]); st = s.ev(st, n["c"][0], True)
            return s.assign(st, n["c"][0], n["c"][1])
        if k == "Call" and n.get("op") == "=" and n.get("obj") is not None and len(n.get("c", [])) == 1:
            st = s.ev(st, n["c"][0]); st = s.ev(st, n["obj"], True)
            return s.assign(st, n["obj"], n["c"][0])
        if k == "Call" and n.get("fn") == "std::move" and len(n.get("c", [])) == 1:
            x = n["c"][0]; p = s.path(x); st = s.ev(st, x)
            t = s.P.T(x).replace("const ", "")
            if p and not re.fullmatch(r"(double|float|int|long|bool|unsigned.*|char|long double)&?", t): st = st.set("m:" + p, n["l"]); s.n += 1
            return st
        if k == "Call" and n.get("obj") is not None:
            fn = (n.get("fn") or ""); sh = fn[fn.rindex("operator"):] if "operator" in fn else fn.split("::")[-1]
            p = s.path(n["obj"])
            for c in n.get("c", []): st = s.ev(st, c)
            st = s.ev(st, n["obj"], sh in ("clear", "assign", "reset", "Clear", "str"))
            if p:
                if sh in ("clear", "assign", "reset"): st = st.drop("m:" + p)
                if sh in INVAL:
                    cal = s.P.callee(n)
                    if cal is None or not cal.get("cst"): st = s.stale(st, p)
            return st
        for c in children(n): st = s.ev(st, c)
        return st

    def stale(s, st, p):
        for k in list(st):
            if k[0] == "b" and (st[k] == p or st[k].startswith(p + ".")): st = st.set("s:" + k[2:], 1)
        return st

    def assign(s, st, l, r):
        p = s.path(l)
        if p:
            t = s.P.T(l)
            if any(t.replace("const ", "").startswith(g) for g in GROW) and not ("b:" + p) in st: st = s.stale(st, p)
            # writing through a reference bound into a container does not rebind it
            if ("b:" + p) in st and not (t.rstrip().endswith("*") or "iterator" in t):
                if ("s:" + p) in st: s.use(st, p, l)
                return st
            st = s.clear(st, p)
            b = s.base(r)
            if b and (t.rstrip().endswith("*") or "iterator" in t): st = st.set("b:" + p, b)
        return st


def order(ck, P):
    nf = ev = rl = 0
    for k in sorted(P.fns):
        f = P.fns[k]
        has = False
        xs = list(walk(f.body) if f.body else []) + [y for i in f.get("inits") or [] for y in walk((i.get("c") or [None])[0])]
        for x in xs:
            if x.get("k") == "Call" and (x.get("fn") == "std::move" or (x.get("fn") or "").split("::")[-1] in INVAL): has = True; break
        if not has: continue
        nf += 1
        bodies = [(f.get("inits") or [], f.body)] + [([], x.get("body")) for x in xs if x.get("k") == "Lambda"]
        for inits, body in bodies:
            D = Order(ck, P, f); st = Fz()
            for i in inits:
                if i.get("c"):
                    st = D.expr(st, i["c"][0])[0]
            if body is not None: Flow(D).run(body, st)
            ev += D.n
            for _ in range(D.n - len(D.kinds)): ck.good()
        # a range loop over a container that its body grows or shrinks
        for x in xs:
            if x.get("k") != "RFor": continue
            D = Order(ck, P, f); p = D.path(x["range"])
            if not p: continue
            rl += 1; bad = None
            for b in [y for y in walk(x.get("body"), False) if y.get("k") == "Block"] + [{"k": "Block", "c": [x.get("body")]}]:
                for j, stt in enumerate(b["c"]):
                    if stt is None or stt.get("k") not in ("Call", "Decl", "Bin", "Return"): continue
                    if stt.get("k") == "Return": continue
                    for y in walk(stt, False):
                        if y.get("k") == "Call" and y.get("obj") is not None and (y.get("fn") or "").split("::")[-1] in INVAL and D.path(y["obj"]) == p:
                            nxt = b["c"][j + 1:j + 2]
                            if not (nxt and nxt[0].get("k") in ("Break", "Return", "Throw")): bad = y
            if bad is not None: ck.bad("%s: loop over %s modifies it" % (nt(f.q), show(x["range"])), "%s:%d" % (f.f, bad["l"]), "%s modifies %s while iterating over it: the loop's iterators are invalid" % (f.q, show(x["range"])))
            else: ck.good()
    ck.floor("functions_with_moves_or_invalidation", nf, 15); ck.floor("moves_and_bindings_tracked", ev, 25); ck.cov["range_loops_in_them"] = rl
