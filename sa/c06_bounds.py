"""C06: element accesses stay inside their containers (rules over the classification of sa/bounds.py)."""
from .core import *
from .bounds import *

# interface callbacks whose sizes are fixed by the interface (state has getDim() elements), not by an argument check
CALLBACK = {"derivs", "jacobian", "map", "getEnergy", "getInvariant", "calcJacobian", "getHamiltonian"}
# parts where operand sizes are established by the driver that calls them (one system object sizes every vector)
DRIVEN = ("mml/algorithms/ODESolvers", "mml/algorithms/DAESolvers", "EigenSolverHelpers.h", "mml/core/ODE", "mml/systems/ContinuousSystems.h",
          "mml/systems/DiscreteMaps.h", "ODESystemStepCalculators", "ODEStepCalculators.h", "ODESteppers.h")


def driven(f): return any(x in f.f for x in DRIVEN) or "ODE" in f.f.split("/")[-1] or "DAE" in f.f.split("/")[-1]


def public(f): return f.get("acc") in ("public", "none", "", None)


def analyse(P):
    B = Bounds(P); B.infer(); failed = []
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if not f.body: continue
        try: B.run(f)
        except RecursionError: failed.append(f.q)
    return B, failed


_docs = {}


def documented(f):
    """the comment block above the function promises an exception for an out-of-range index"""
    if f.key not in _docs:
        import re, os
        p = os.path.join(REPO, f.f); ls = _docs.setdefault(("file", p), open(p, encoding="utf-8", errors="replace").read().splitlines() if os.path.exists(p) else [])
        i = f.l - 2; com = []
        while i >= 0 and (ls[i].strip().startswith(("//", "*", "/*")) or ls[i].strip().startswith("template") or not ls[i].strip() and not com):
            com.append(ls[i]); i -= 1
        _docs[f.key] = any(re.search(r"@throws", c) and re.search(r"(Bounds|Index|bounds|range|index)", c) for c in com)
    return _docs[f.key]


def guarded_index(B, a):
    """an index that is an argument: checked accessors, and accessors that do check it, must check it completely"""
    f = a["fn"]
    if a["res"] != "open" or "e" not in a or not public(f): return None
    ps = {("v", p["id"]): p for p in f.params}
    e = a["hi"]
    sy = [x for x in e if x != ONE]
    ids = {B.orig[x][1] for x in sy if B.orig.get(x) in ps}
    if not ids or len(sy) != len(ids): return None
    st = a["st"]
    upper = [x for x in st.facts if any(v in x and x[v] < 0 for v in sy) and not any(y in x for y in a["d"] if y != ONE)]
    short = B.entails(st, add(a["d"], e, -1))          # index == extent still possible
    if a["lo"] and not a["up"] and upper and not short: return None       # bounded by something whose relation to the extent is not known
    nm = nt(f.q).split("::")[-1]
    if nm == "at" or not nm.startswith("operator") and documented(f): return "R4", "checked access %s[%s] is reached with an index that was not fully checked" % (a["cont"], a["idx"])
    for x in walk(f.body, False):
        if x.get("k") != "If" or x.get("else") or not B.throws(x["then"]): continue
        if x["l"] > a["l"]: continue
        for c in walk(x["cond"]):
            if c.get("k") == "Bin" and c["op"] in ("<", "<=", ">", ">="):
                if any(y.get("k") == "Ref" and y.get("id") in ids for y in walk(c)):
                    return "R4", "%s[%s] is reached although the range check of the argument does not keep it within the extent" % (a["cont"], a["idx"])
    return None


def bare_accessor(f):
    """front()/back()-style members: unchecked element access by design"""
    st = [x for x in f.body.get("c", []) if x.get("k") != "Null"]
    return f.cls is not None and len(st) == 1 and st[0].get("k") == "Return" and not f.params


def judge(B, a):
    """(rule, message) when access a breaks a rule, else None"""
    f = a["fn"]
    if a["res"] == "refuted":
        return "R1", "index %s of %s is outside its extent (%s) at the extreme iteration" % (a["idx"], a["cont"], a["side"])
    j = guarded_index(B, a)
    if j: return j
    sh = a.get("short")
    if a["res"] == "open" and sh and public(f) and not any(nt(f.q).split("::")[-1].startswith(c) for c in CALLBACK) and not (sh[1] == "t" and a["st"].tight) and not bare_accessor(f):
        return "R3", "%s is accessed at %s, outside it when it holds fewer than %d elements, and no check says how many it holds" % (a["cont"], a["idx"], sh[0])
    u = a.get("unrel")
    if a["res"] != "open" or not u or not public(f): return None
    o = a["node"].get("obj") if a["node"].get("obj") is not None else a["node"]["c"][0]
    while True:
        o = strip(o)
        if o is None: return None
        if o.get("k") == "Un" and o["op"] == "*": o = o["c"][0]
        elif o.get("k") == "Call" and o.get("op") == "[]" and o.get("obj") is not None: o = o["obj"]
        elif o.get("k") == "Idx": o = o["c"][0]
        else: break
    dr, hs = u
    if a.get("weak"): 
        return ("R2", "%s is indexed by %s over the size of another operand; the check that compares the two sizes does not make it large enough" % (a["cont"], a["idx"])) if not driven(f) else None
    if any(nt(f.q).split("::")[-1].startswith(c) for c in CALLBACK): return None
    if hs in (["first"], ["last"], ["const"]):
        if not (o.get("k") == "Ref" and o.get("dk") == "parm") and not (dr != ["t"] and o.get("k") in ("Mem", "Ref")): return None
        if driven(f): return None
        return "R3", "%s is accessed at %s without any check that the input holds that many elements" % (a["cont"], a["idx"])
    ps = {str(p["id"]) for p in f.params}
    if driven(f): return None
    if dr == hs:
        if a.get("samecont"): return "R2", "%s is indexed by %s, which runs over another dimension of it that nothing relates to this one" % (a["cont"], a["idx"])
        return None
    if o.get("k") == "Ref" and o.get("dk") == "parm" or o.get("k") in ("This", "Mem", "Ref") and not set(hs) & set(dr):
        return "R2", "%s is indexed by %s, which runs over the size of another operand; no path fact relates the two sizes" % (a["cont"], a["idx"])
    return None


def siblings(B):
    """class members that index the same field by an argument: (class, field path) -> {member name: [(proved, access)]}"""
    out = {}
    for a in B.acc:
        f = a["fn"]
        if f.cls is None or not public(f) or f.kind == "ctor" or "e" not in a or f.get("vrt"): continue
        o = a["node"].get("obj") if a["node"].get("obj") is not None else (a["node"].get("c") or [None])[0]
        o = strip(o)
        if o is None or o.get("k") != "Mem" or strip(o["c"][0]).get("k") != "This": continue
        ps = {p["id"] for p in f.params}
        ix = strip((a["node"].get("c") or [None])[-1])
        if not (ix is not None and ix.get("k") == "Ref" and ix.get("id") in ps): continue
        out.setdefault((nt(f.cls), o["n"], a["dim"]), {}).setdefault(nt(f.q).split("::")[-1], []).append(a)
    return out


def guarded(B, a):
    """some throwing or returning test of the index precedes the access (whether it suffices is judged elsewhere)"""
    ix = strip((a["node"].get("c") or [None])[-1])
    for x in walk(a["fn"].body):
        if x.get("k") in ("If", "Cond", "While") and x.get("cond") is not None or x.get("k") == "Cond":
            for z in walk(x.get("cond") or x["c"][0]):
                if z.get("k") == "Bin" and z["op"] in ("<", "<=", ">", ">=") and any(y.get("k") == "Ref" and y.get("id") == ix.get("id") for y in walk(z)): return True
        if x.get("k") == "Call" and not x.get("op") and B.P.callee(x) is not None and any(strip(y) is not None and strip(y).get("id") == ix.get("id") for y in x.get("c", [])): return True
    return False


def unlike_siblings(B):
    """an accessor that skips the range check the other accessors of the same field make (or its own const/non-const twin makes)"""
    res = []
    for (cls, fld, dim), g in siblings(B).items():
        checked = {n for n, l in g.items() if all(a["res"] == "proved" for a in l)}
        for n, l in g.items():
            bad = [a for a in l if a["res"] == "open"]
            if not bad: continue
            twin = any(a["res"] == "proved" for a in l)
            bad = [a for a in bad if not guarded(B, a)]
            if twin or (not n.startswith("operator") and checked - {"at"}):
                for a in bad: res.append((a, "R4", "%s[%s] is reached unchecked although %s checks the index of the same container" % (a["cont"], a["idx"], "its overload" if twin else sorted(checked)[0])))
    return res


def excused(P, B, bad):
    """accesses of helpers that every caller (all in the helper's own file) proves in range: the check was made before the call"""
    keys = {a["fn"].key for a in bad if a["res"] == "open"}
    if not keys: return set()
    callers = {k: [] for k in keys}
    for f in P.fns.values():
        if not f.body: continue
        for x in walk(f.body):
            if x.get("k") in ("Call", "Ctor") and x.get("ck") in keys and f not in callers[x["ck"]]: callers[x["ck"]].append(f)
    use = {k for k in keys if callers[k] and all(c.f == P.fns[k].f and c.key not in keys for c in callers[k])}
    B.helpers = use; B.ctx = {}; acc, B.acc = B.acc, []
    for f in {c.key: c for k in use for c in callers[k]}.values(): B.run(f)
    B.acc = acc; B.helpers = set()
    out = set()
    for a in bad:
        k = (a["fn"].key, id(a["node"]), a["dim"], a["cont"], a["idx"])
        if a["fn"].key in use and B.ctx.get(k) and all(B.ctx[k]): out.add(k)
    return out


def run(ck):
    P = program()
    B, failed = analyse(P)
    if len(failed) > 5: raise Broken("functions too deep to analyse: %s" % failed[:5])
    und = {}; n = {"proved": 0, "open": 0, "refuted": 0}
    jd = {id(a): judge(B, a) for a in B.acc if a["res"] != "proved"}
    for a, r, m in unlike_siblings(B):
        if jd.get(id(a)) is None: jd[id(a)] = (r, m)
    ex = excused(P, B, [a for a in B.acc if jd.get(id(a))])
    for a in B.acc:
        f = a["fn"]; n[a["res"]] += 1
        if a["res"] == "proved":
            ck.good("%s: %s[%s]" % (f.q, a["cont"], a["idx"])); continue
        j = jd[id(a)]
        if j and (f.key, id(a["node"]), a["dim"], a["cont"], a["idx"]) in ex: ck.good("%s: %s[%s] under its callers' checks" % (f.q, a["cont"], a["idx"])); continue
        if j: ck.bad("%s: %s[%s] %s" % (nt(f.q), a["cont"], a["idx"], j[0]), "%s:%d" % (f.f, a["l"]), "%s: %s" % (f.q, j[1]))
        else: und[f.f] = und.get(f.f, 0) + 1
    ck.cov["accesses"] = len(B.acc)
    ck.cov["proved_in_range"] = n["proved"]
    ck.cov["undecided"] = sum(und.values())
    ck.cov["undecided_by_file"] = {k: v for k, v in sorted(und.items(), key=lambda t: -t[1])}
    ck.floor("element accesses", len(B.acc), 6500)
    ck.floor("accesses proved in range", n["proved"], 4500)
    ck.floor("functions with accesses", len({a["fn"].key for a in B.acc}), 900)
