"""Definite initialisation: no object is used, returned or left constructed with an indeterminate scalar part.

Structured definite-assignment dataflow over the typed AST.  Tracked keys:
  ('v', id, '')      scalar / array-of-scalar local declared without initialiser
  ('v', id, field)   scalar part of a record local whose default construction leaves it indeterminate
  ('t', field)       scalar part of *this in a constructor
A state is a frozenset of assigned keys; None is unreachable."""
from .core import *

SC = {"double", "float", "int", "bool", "unsigned int", "long", "unsigned long", "char", "long double", "long long", "unsigned long long",
      "unsigned char", "short", "unsigned short", "signed char"}


class Init:
    def __init__(s, P):
        s.P = P; s._leaky = {}; s.reports = []; s.reads = 0; s.sumset = {}; s.byname = {}
        s.enumt = set(P.enums)

    def scalar(s, t):
        t = t.strip()
        while t.endswith("]"): t = t[:t.rindex("[")].strip()
        t = t.replace("const ", "").replace("volatile ", "").strip()
        return t in SC or t in s.enumt or t.endswith("*")

    def rec_of(s, t):
        t = t.strip()
        while t.endswith("]"): t = t[:t.rindex("[")].strip()
        if t.endswith(("&", "*")): return None
        t = t.replace("const ", "").strip()
        q = nt(t)
        return s.P.recs.get(q)

    def leaky(s, q):
        """scalar parts (by member path) left indeterminate by the default construction of record q"""
        if q in s._leaky: return s._leaky[q]
        s._leaky[q] = frozenset()
        r = s.P.recs.get(q)
        if r is None or r.get("dep") and not r.get("inst"): return frozenset()
        cs = [f for f in s.P.bycls.get(q, []) if f.kind == "ctor" and not f.get("cp") and not f.get("del")]
        d = [c for c in cs if not [p for p in c.params if "def" not in p]]
        out = set()
        if cs and not [c for c in d if c.get("dft")]:
            if d and d[0].body is not None: out |= s.ctor_left(d[0])
        else:
            for f in r["fields"]:
                if f.get("ini") or f.get("ref"): continue
                if s.scalar(s.P.T(f)): out.add(f["n"])
                else:
                    fr = s.rec_of(s.P.T(f))
                    if fr is not None and s.leaky(fr["key"]): out.add(f["n"])
            for b in r["bases"]:
                if b.get("q"): out |= s.leaky(b["q"])
        s._leaky[q] = frozenset(out)
        return s._leaky[q]

    def fieldkeys(s, r):
        """fields of r itself that are not covered by an in-class initialiser"""
        out = []
        for f in r["fields"]:
            if f.get("ini") or f.get("ref"): continue
            if s.scalar(s.P.T(f)): out.append(f["n"])
            else:
                fr = s.rec_of(s.P.T(f))
                if fr is not None and s.leaky(fr["key"]): out.append(f["n"])
        return out

    def ctor_left(s, c):
        """fields that constructor c can leave indeterminate (silently computed)"""
        sv = s.reports, s.reads; s.reports = []
        try: left = s.ctor(c)
        finally: s.reports, s.reads = sv
        return left

    def ctor(s, c):
        r = s.P.recs.get(nt(c.cls))
        if r is None: return set()
        inits = c.get("inits", [])
        if any(i.get("dele") for i in inits):
            return set()
        keys = s.fieldkeys(r)
        A = Run(s, c, thiskeys=frozenset(keys))
        S = frozenset()
        for i in inits:
            m = i.get("m")
            for x in i.get("c", []):
                if x is not None: S = A.ex(x, S)
            if m in keys:
                f = next(f for f in r["fields"] if f["n"] == m)
                if i.get("w") or s.scalar(s.P.T(f)) and i.get("c") and strip(i["c"][0]).get("k") != "ImplicitInit": S = S | {("t", m)}
        end = A.run(c.body, S)
        if end is None: return set()
        return set(k for k in keys if ("t", k) not in end)

    def assigns(s, f, stack=()):
        """this-fields definitely assigned by member function f on normal return"""
        if f.key in s.sumset: return s.sumset[f.key]
        s.sumset[f.key] = frozenset()
        if f.body is None: return frozenset()
        A = Run(s, f, thiskeys=None); A.quiet = True
        end = A.run(f.body, frozenset())
        s.sumset[f.key] = frozenset(k for k in (end or ()) if k[0] == "t") if end is not None else frozenset()
        return s.sumset[f.key]


def meet(a, b):
    if a is None: return b
    if b is None: return a
    return a & b


class Run:
    def __init__(s, I, fn, thiskeys):
        s.I = I; s.P = I.P; s.fn = fn; s.tk = thiskeys; s.quiet = False
        s.trk = {}            # id -> frozenset of sub keys ('' for scalars)
        s.names = {}; s.rets = []; s.brk = []; s.cont = []; s.seen = set()
        s.arr = set(); s.loops = []
        r = s.P.recs.get(nt(fn.cls)) if fn.cls else None
        for f in (r["fields"] if r else []):
            if s.P.T(f).endswith("]"): s.arr.add(("t", f["n"]))

    def run(s, body, S):
        S = s.st(body, S)
        for r in s.rets: S = meet(S, r)
        return S

    # -------- reporting
    def need(s, S, keys, n, what):
        if S is None: return
        for k in keys:
            s.I.reads += 1
            if k not in S and not s.quiet:
                nm = s.names.get(k[1], "?") + ("." + k[2] if len(k) > 2 and k[2] else "") if k[0] == "v" else "this->" + k[1]
                key = "%s: %s may be used uninitialised" % (nt(s.fn.q), nm)
                if (key) in s.seen: continue
                s.seen.add(key); s.I.reports.append((key, "%s:%d" % (s.fn.f, n.get("l", s.fn.l)), "%s %s %s, which is not initialised on some path" % (nt(s.fn.q), what, nm)))

    # -------- lvalues
    def target(s, n):
        """keys (definitely) assigned by storing to lvalue n, or None"""
        n = strip(n)
        while n is not None and n.get("k") in ("Idx",) or n is not None and n.get("k") == "Cast": n = strip(n["c"][0])
        if n is None: return None
        k = n.get("k")
        if k == "Ref" and n.get("id") in s.trk: return [("v", n["id"], f) for f in s.trk[n["id"]]]
        if k == "Mem" and n.get("dk") == "field":
            b = strip(n["c"][0]) if n.get("c") else None
            while b is not None and b.get("k") in ("Cast", "Idx"): b = strip(b["c"][0])
            if b is not None and b.get("k") == "This": return [("t", n["n"])]
            if b is not None and b.get("k") == "Un" and b["op"] == "*" and strip(b["c"][0]).get("k") == "This": return [("t", n["n"])]
            if b is not None and b.get("k") == "Ref" and b.get("id") in s.trk:
                return [("v", b["id"], n["n"])] if n["n"] in s.trk[b["id"]] else []
            if b is not None and b.get("k") == "Mem": return s.target(b) and []   # part of a nested record: neither read nor full assignment
        return None

    def assign(s, n, S):
        if S is None: return None
        t = s.target(n)
        if t: S = S | frozenset(t)
        # index expressions and object expressions are still evaluated
        x = strip(n)
        while x is not None and x.get("k") in ("Idx", "Cast", "Mem"):
            if x.get("k") == "Idx": S = s.ex(x["c"][1], S)
            nx = strip(x["c"][0]) if x.get("c") else None
            x = nx
        if x is not None and x.get("k") not in ("Ref", "This"): S = s.ex(x, S)
        return S

    # -------- expressions
    def ex(s, n, S):
        if n is None or S is None: return S
        n = strip(n)
        if n is None: return S
        k = n.get("k")
        if k in ("Int", "Float", "Bool", "Str", "Char", "Null", "This", "DepRef"): return S
        if k == "Ref":
            i = n.get("id")
            if i in s.trk: s.need(S, [("v", i, f) for f in s.trk[i]], n, "reads")
            return S
        if k == "Mem":
            t = s.target(n)
            if n.get("dk") == "field" and t is not None:
                t = [x for x in t if x[0] == "v" or (s.tk is not None and x[1] in s.tk)]
                s.need(S, t, n, "reads")
                return S
            return s.ex(n["c"][0], S) if n.get("c") else S
        if k == "Bin":
            op = n["op"]
            if op == "=":
                S = s.ex(n["c"][1], S); return s.assign(n["c"][0], S)
            if op in ("&&", "||"):
                S1 = s.ex(n["c"][0], S); s.ex(n["c"][1], S1); return S1
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                S = s.ex(n["c"][1], S); S = s.ex(n["c"][0], S); return S
            S = s.ex(n["c"][0], S); return s.ex(n["c"][1], S)
        if k == "Un":
            if n["op"] == "&":
                t = s.target(n["c"][0])
                if t: return S | frozenset(t)
            return s.ex(n["c"][0], S)
        if k == "Cond":
            S = s.ex(n["c"][0], S)
            return meet(s.ex(n["c"][1], S), s.ex(n["c"][2], S))
        if k == "Lambda":
            caps = {c["id"]: c for c in n.get("caps", [])}
            for c in n.get("caps", []):
                if not c["ref"] and c["id"] in s.trk: s.need(S, [("v", c["id"], f) for f in s.trk[c["id"]]], n, "captures")
            for x in n.get("ci") or []:
                pass
            # writes through by-reference captures count as (possible) assignments when the closure may run
            w = set()
            for x in walk(n["body"]):
                tgt = None
                if x.get("k") == "Bin" and x["op"] == "=": tgt = s.target(x["c"][0])
                if x.get("k") == "Call":
                    for a, tt in zip(x.get("c", []), x.get("pt", [])):
                        if s.outparam(tt): 
                            t2 = s.target(a)
                            if t2: w |= set(t2)
                if tgt: w |= set(tgt)
            return S | frozenset(w)
        if k in ("Call", "Ctor", "DepCall", "DepCtor"): return s.call(n, S)
        if k == "Throw":
            for c in n.get("c", []): s.ex(c, S)
            return None
        if k in ("Sizeof", "Decltype"): return S
        if k == "Other" and n.get("cls") in ("UnaryExprOrTypeTraitExpr", "CXXNoexceptExpr", "ArrayInitLoopExpr"): return S
        for c in children(n): S = s.ex(c, S)
        return S

    def outparam(s, tt):
        t = s.P.tc.get(tt, "")
        t = t.strip()
        if t.endswith("&&"): return False
        if t.endswith("&") or t.endswith("*"):
            b = t[:-1].strip()
            return not (b.startswith("const ") or b.endswith(" const"))
        return False

    def call(s, n, S):
        obj = n.get("obj"); args = n.get("c", []); pt = n.get("pt")
        fn = n.get("fn", ""); op = n.get("op")
        outs = []
        if op == "=" and obj is not None:                       # class-type assignment
            for a in args: S = s.ex(a, S)
            return s.assign(obj, S)
        cl = n.get("callee")
        if cl is not None: S = s.ex(cl, S)
        off = 0
        for j, a in enumerate(args):
            sa_ = strip(a)
            tg = s.target(a) if sa_ is not None and sa_.get("k") in ("Ref", "Mem", "Idx") else None
            if tg is not None and tg != []:
                tt = pt[j + off] if pt and j + off < len(pt) else None
                arr = tt is not None and s.P.tc.get(tt, "").strip().endswith("*")
                if tt is None or s.outparam(tt):
                    x = sa_
                    while x.get("k") == "Idx": S = s.ex(x["c"][1], S); x = strip(x["c"][0])
                    outs += tg; continue
            S = s.ex(a, S)
            if S is None: return None
        if obj is not None:
            so = strip(obj)
            while so is not None and so.get("k") == "Un" and so["op"] in ("*", "&"): so = strip(so["c"][0])
            if so is not None and so.get("k") == "Ref" and so.get("id") in s.trk:
                if not n.get("cst"): outs += [("v", so["id"], f) for f in s.trk[so["id"]]]
                elif "" in s.trk[so["id"]]: S = s.ex(so, S)
            elif so is not None and so.get("k") == "This":
                cf = s.P.callee(n)
                if cf is not None: outs += list(s.I.assigns(cf))
            elif so is not None and so.get("k") == "Mem":
                t = s.target(so)
                if t and n.get("cst"): S = s.ex(obj, S)
                elif t: outs += t
                elif t is None: S = s.ex(obj, S)
            else: S = s.ex(obj, S)
        if S is not None and outs: S = S | frozenset(outs)
        if fn in ("std::abort", "std::exit", "std::terminate", "std::rethrow_exception", "abort", "exit"): return None
        return S

    # -------- statements
    def var(s, v, S):
        if S is None: return None
        i = v.get("id"); t = s.P.T(v)
        c = (v.get("c") or [None])[0]
        if v.get("static") or v.get("tls"): return S
        if c is None:
            if s.I.scalar(t) and not t.endswith("&"):
                s.trk[i] = frozenset([""]); s.names[i] = v["n"]
                if t.endswith("]"): s.arr.add(("v", i, ""))
                return S - {("v", i, "")}
            return S
        x = c
        while x is not None and x.get("k") in ("ICast",) and x.get("c"): x = x["c"][0]
        S = s.ex(c, S)
        if x is not None and x.get("k") == "Ctor" and not x.get("c") and x.get("dft") and not x.get("zi") and v.get("isx") == 1:
            r = s.I.rec_of(t)
            if r is not None:
                L = s.I.leaky(r["key"])
                if L:
                    s.trk[i] = L; s.names[i] = v["n"]
                    return S - frozenset(("v", i, f) for f in L) if S is not None else None
        return S

    def st(s, n, S):
        if n is None or S is None: return S
        k = n.get("k")
        if k == "Block":
            for c in n["c"]:
                S = s.st(c, S)
                if S is None: break
            return S
        if k == "Decl":
            for v in n["c"]: S = s.var(v, S)
            return S
        if k == "If":
            if n.get("init"): S = s.st(n["init"], S)
            if n.get("cv_"): S = s.var(n["cv_"], S)
            cv = const(n["cond"]) if n.get("cexpr") else None
            S = s.ex(n["cond"], S)
            if cv is not None: return s.st(n["then"], S) if cv else (s.st(n.get("else"), S) if n.get("else") else S)
            T, F = s.split(n["cond"], S)
            if T is not None and s.loops:
                ids = set(x.get("id") for x in walk(n["cond"]) if x.get("k") == "Ref")
                for lv, carried, _ in s.loops:
                    if lv in ids and carried: T = T | carried          # skipped in the first iteration; later ones follow a full body
            a = s.st(n["then"], T)
            b = s.st(n["else"], F) if n.get("else") else F
            return meet(a, b)
        if k in ("For", "While", "Do"):
            if n.get("init"): S = s.st(n["init"], S) if n["init"].get("k") in ("Decl", "Block") else s.ex(n["init"], S)
            if n.get("cv_"): S = s.var(n["cv_"], S)
            inf = (k == "For" and n.get("cond") is None) or (n.get("cond") is not None and const(n["cond"]) not in (None, 0))
            if k != "Do" and n.get("cond") is not None: S = s.ex(n["cond"], S)
            ob, oc = s.brk, s.cont
            lv = s.loopvar(n); condtxt = show(n["cond"]) if n.get("cond") else None
            carried = frozenset()
            for final in (False, True):
                s.brk, s.cont = [], []
                if not final and (lv is None or s.quiet): continue
                q0 = s.quiet; nr = len(s.rets)
                if not final: s.quiet = True
                s.loops.append((lv, carried, condtxt))
                B = s.st(n["body"], S)
                for c in s.cont: B = meet(B, c)
                if n.get("inc"): B = s.ex(n["inc"], B)
                if k == "Do": B = s.ex(n["cond"], B)
                s.loops.pop(); s.quiet = q0
                if not final:
                    del s.rets[nr:]
                    carried = (B or frozenset()) - S
            bs = s.brk; s.brk, s.cont = ob, oc
            # element-wise filling of an array (possibly of selected elements) counts as filling it
            w = set()
            for x in walk(n["body"]):
                if x.get("k") == "Bin" and x["op"] == "=" and strip(x["c"][0]).get("k") == "Idx":
                    for key in s.target(x["c"][0]) or []:
                        if key in s.arr: w.add(key)
            if w: S = S | frozenset(w); B = B | frozenset(w) if B is not None else None
            if inf: out = None
            elif k == "Do" or s.atleastonce(n): out = B
            else: out = S
            for b in bs: out = meet(out, b)
            return out
        if k == "RFor":
            S = s.ex(n.get("range"), S)
            ob, oc = s.brk, s.cont; s.brk, s.cont = [], []
            s.st(n["body"], S); s.brk, s.cont = ob, oc
            return S
        if k == "Switch":
            if n.get("init"): S = s.st(n["init"], S)
            S = s.ex(n["cond"], S)
            ob = s.brk; s.brk = []
            cur = None; dflt = False; vals = set()
            def item(c, cur):
                nonlocal dflt
                if c.get("k") in ("Case", "Default"):
                    if c["k"] == "Default": dflt = True
                    else: vals.add(show(c.get("v")))
                    return item(c["c"][0], meet(cur, S)) if c["c"][0] is not None else meet(cur, S)
                return s.st(c, cur)
            for c in n["body"]["c"] if n["body"].get("k") == "Block" else [n["body"]]: cur = item(c, cur)
            bs = s.brk; s.brk = ob
            ct = s.P.tc.get(n.get("ct"), "")
            e = s.P.enums.get(ct)
            if not dflt and not (e and len(vals) >= len(e["c"])): cur = meet(cur, S)
            for b in bs: cur = meet(cur, b)
            return cur
        if k == "Try":
            B = s.st(n["body"], S)
            for h in n.get("h", []): B = meet(B, s.st(h.get("body"), S))
            return B
        if k == "Return":
            for c in n.get("c", []): S = s.ex(c, S)
            if S is not None: s.rets.append(S)
            return None
        if k == "Break": s.brk.append(S); return None
        if k == "Continue": s.cont.append(S); return None
        if k in ("Case", "Default"): return s.st(n["c"][0], S)
        if k == "Null": return S
        return s.ex(n, S)

    def split(s, cond, S):
        return S, S

    def loopvar(s, n):
        i = n.get("init")
        if i is None: return None
        if i.get("k") == "Decl" and i["c"] and i["c"][0].get("c"): return i["c"][0]["id"]
        while i.get("k") == "Bin" and i["op"] == ",": i = strip(i["c"][0])
        if i.get("k") == "Bin" and i["op"] == "=":
            t = strip(i["c"][0])
            return t.get("id") if t.get("k") == "Ref" else None
        return None

    def atleastonce(s, n):
        """for (i = a; i < b; ...) with constant a < b"""
        if n.get("k") != "For": return False
        ini = n.get("init"); lv = s.loopvar(n)
        if lv is not None:                          # enclosing loop guarantees the first test: for (l = k; l >= 0; ..) inside for (..; k >= 0; ..)
            iv = None; nm = None
            if ini.get("k") == "Decl": iv = ini["c"][0]["c"][0]; nm = ini["c"][0]["n"]
            elif ini.get("k") == "Bin": iv = ini["c"][1]; nm = show(ini["c"][0])
            c0 = strip(n["cond"]) if n.get("cond") else None
            if iv is not None and c0 is not None and c0.get("k") == "Bin" and show(c0["c"][0]) == nm:
                if any(t == "(%s %s %s)" % (show(iv), c0["op"], show(c0["c"][1])) for _, _, t in s.loops): return True
        c = strip(n["cond"]) if n.get("cond") else None
        if c is None or c.get("k") != "Bin" or c["op"] not in ("<", "<=", "!=", ">", ">="): return False
        i0 = None; ini = n.get("init")
        if ini is not None and ini.get("k") == "Decl" and ini["c"] and ini["c"][0].get("c"): i0 = const(ini["c"][0]["c"][0])
        if ini is not None and ini.get("k") == "Bin" and ini["op"] == "=": i0 = const(ini["c"][1])
        b = const(c["c"][1])
        if i0 is None or b is None: return False
        return {"<": i0 < b, "<=": i0 <= b, "!=": i0 != b, ">": i0 > b, ">=": i0 >= b}[c["op"]]


def run(ck):
    P = program(); I = Init(P)
    nf = nc = 0; seenloc = 0
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.get("dep") or f.get("del"): continue
        I.reports = []
        if f.kind == "ctor":
            if f.get("cp") and f.get("dft"): continue
            nc += 1
            if f.get("dft"):
                left = set()          # a defaulted default constructor is judged where objects are created (record locals)
            elif f.body is not None: left = I.ctor(f)
            else: continue
            if f.get("cp") == "move": left = set()
            if left:
                for m in sorted(left):
                    ck.bad("%s: constructor leaves %s indeterminate" % (nt(f.cls), m), f.where, "constructor %s(%s) leaves member %s uninitialised" % (nt(f.cls), ", ".join(P.TS(p) for p in f.params), m))
            else: ck.good("%s initialises all scalar members" % f.where)
        elif f.body is not None:
            nf += 1
            R = Run(I, f, None); R.run(f.body, frozenset())
            seenloc += len(R.trk)
            if not I.reports: ck.good()
        for key, wh, msg in I.reports: ck.bad(key, wh, msg)
    ck.cov["indeterminate_locals_tracked"] = seenloc; ck.cov["reads_checked"] = I.reads
    ck.floor("constructors", nc, 600); ck.floor("functions", nf, 3200)
