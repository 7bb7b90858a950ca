"""Interprocedural write-effect analysis.

For every function: which of its parameters (passed by non-const reference / pointer), which members of *this, and which
static-storage objects it may write, directly or through the functions it calls (call graph resolved by the front end,
virtual calls include all overriders in the library)."""
from .core import *

ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "<<=", ">>="}
ACCESS = {"begin", "end", "data", "operator[]", "at", "front", "back", "rbegin", "rend", "find", "get", "operator*", "operator->",
          "c_str", "lower_bound", "upper_bound", "cbegin", "cend", "value", "top", "native_handle", "rdbuf", "str", "count", "size", "empty",
          "good", "fail", "operator bool", "equal_range", "capacity", "key_comp", "native", "has_value", "c_str"}
OUT_ALGOS = {"swap": "all", "iter_swap": "all", "sort": "all", "stable_sort": "all", "partial_sort": "all", "nth_element": "all", "reverse": "all", "fill": "all", "fill_n": "all",
             "iota": "all", "copy": "last", "copy_n": "last", "copy_backward": "last", "move_backward": "last", "transform": "lastlike", "rotate": "all",
             "shuffle": "all", "unique": "all", "remove": "all", "remove_if": "all", "generate": "all", "generate_n": "all", "replace": "all",
             "next_permutation": "all", "push_heap": "all", "pop_heap": "all", "make_heap": "all", "partition": "all", "partial_sum": "last", "merge": "last",
             "memcpy": "first", "memset": "first", "memmove": "first", "for_each": "all", "exchange": "first", "getline": "all"}


def refty(t):
    t = t.strip()
    return t.endswith("&") or t.endswith("*") or t.endswith("* const")


def constref(t):
    """reference / pointer to const"""
    t = t.strip()
    if t.endswith("* const"): t = t[:-6].strip()
    if t.endswith("&&"): b = t[:-2].strip()
    elif t.endswith("&") or t.endswith("*"): b = t[:-1].strip()
    else: return False
    return b.startswith("const ") or b.endswith(" const")


class Effects:
    def __init__(s, P):
        s.P = P
        s.over = {}
        for f in P.fns.values():
            for o in f.get("ovr") or []:
                s.over.setdefault(o if isinstance(o, str) else o.get("key"), []).append(f.key)
        s.loc = {}
        s.glob = {}                       # static-storage variables by id is TU-local; use qualified names
        for f in P.fns.values():
            if f.body: s.loc[f.key] = s.local(f)
        s.sum = {k: set() for k in s.loc}
        s.via = {}
        s.fix()

    # ---- roots of an lvalue expression
    def root(s, n, env, depth=0):
        n0 = n
        if n is None or depth > 40: return set()
        while n is not None and n.get("k") in ("ICast", "Cast", "DefArg", "DefInit") and n.get("c"):
            if n.get("k") == "Cast" and not refty(s.P.T(n)) and not s.P.T(n).endswith("*") and n.get("cs") == "CXXFunctionalCastExpr": return set()
            n = n["c"][0]
        if n is None: return set()
        k = n.get("k")
        if k == "Ref":
            dk = n.get("dk"); i = n.get("id")
            if dk in ("local", "bind", "capture") or (dk == "parm"):
                if i in env: return env[i]
                return {("local", i)}
            if dk in ("static", "global", "svar", "smem") or n.get("q"):
                return {("glob", nt(n.get("q") or n["n"]))}
            return {("glob", n.get("n"))} if dk == "var" else set()
        if k == "This": return {("this", "*")}
        if k == "Mem":
            if n.get("dk") not in ("field", None) and n.get("dk") != "field":
                if n.get("dk") in ("svar", "smem", "static", "var"): return {("glob", nt((n.get("own") or "") + "::" + n["n"]))}
            b = n["c"][0] if n.get("c") else None
            bb = b
            while bb is not None and bb.get("k") in ("ICast", "Cast"): bb = bb["c"][0]
            if bb is not None and bb.get("k") == "This": return {("this", n["n"], n.get("own"))}
            r = s.root(b, env, depth + 1)
            return {("this", n["n"], n.get("own")) if x == ("this", "*") else x for x in r}
        if k == "Idx" or k == "Un":
            if k == "Un" and n["op"] not in ("*", "&", "++", "--", "p++", "p--"): return set()
            return s.root(n["c"][0], env, depth + 1)
        if k == "Bin":
            if n["op"] in ("+", "-"):
                return s.root(n["c"][0], env, depth + 1) | s.root(n["c"][1], env, depth + 1) if s.P.T(n).endswith("*") else set()
            if n["op"] in ASSIGN: return s.root(n["c"][0], env, depth + 1)
            if n["op"] == ",": return s.root(n["c"][1], env, depth + 1)
            return set()
        if k == "Cond": return s.root(n["c"][1], env, depth + 1) | s.root(n["c"][2], env, depth + 1)
        if k == "Call":
            t = s.P.T(n)
            if n.get("obj") is not None: return s.root(n["obj"], env, depth + 1)
            fn = n.get("fn", "")
            if fn in ("std::move", "std::forward", "std::ref", "std::get", "std::begin", "std::end", "std::next", "std::prev", "std::addressof") and n.get("c"):
                return s.root(n["c"][0], env, depth + 1)
            if n.get("op") and n.get("c"):   # free operator, e.g. iterator arithmetic, stream <<
                return s.root(n["c"][0], env, depth + 1)
            cf = s.P.callee(n)
            if cf is not None and cf.body and refty(s.P.tc.get(cf.get("ret"), "")):
                r = set()
                for x in walk(cf.body, False):
                    if x.get("k") == "Return" and x.get("c"):
                        for y in s.root(x["c"][0], {p["id"]: {("parm", j)} for j, p in enumerate(cf.params)}, depth + 10):
                            if y[0] == "parm" and y[1] < len(n.get("c", [])): r |= s.root(n["c"][y[1]], env, depth + 1)
                            elif y[0] == "glob": r.add(y)
                            elif y[0] == "local" : r.add(("glob", cf.q + "::<static>")) if s.isstatic(cf, y[1]) else None
                return r
            return set()
        return set()

    def isstatic(s, f, i):
        for x in walk(f.body):
            if x.get("k") == "Var" and x.get("id") == i: return bool(x.get("static")) and not x.get("tls")
        return False

    def env(s, f):
        env = {}
        for j, p in enumerate(f.params):
            if refty(s.P.T(p)): env[p["id"]] = {("parm", j)}
        changed = True; it = 0
        vars_ = [v for v in walk(f.body) if v.get("k") == "Var" and "id" in v]
        for v in vars_:
            if v.get("static"): env[v["id"]] = set() if v.get("tls") else {("glob", nt(f.q) + "::" + v["n"])}
        for L in walk(f.body):
            if L.get("k") == "Lambda":
                for p in L.get("params", []):
                    if refty(s.P.T(p)): env.setdefault(p["id"], {("lparm", p["id"])})
        while changed and it < 6:
            changed = False; it += 1
            for v in vars_:
                if v.get("static"): continue
                t = s.P.T(v)
                isit = "iterator" in t
                if (refty(t) or isit) and v.get("c"):
                    r = s.root(v["c"][0], env)
                    if r and env.get(v["id"]) != r: env[v["id"]] = r; changed = True
            for n in walk(f.body):
                if n.get("k") == "RFor" and isinstance(n.get("var"), dict):
                    v = n["var"]
                    if v.get("k") == "Decl": v = v["c"][0]
                    if refty(s.P.T(v)) and "id" in v:
                        r = s.root(n.get("range"), env)
                        if r and env.get(v["id"]) != r: env[v["id"]] = r; changed = True
                if n.get("k") == "Bin" and n["op"] == "=" and s.P.T(n["c"][0]).endswith("*"):
                    l = strip(n["c"][0])
                    if l.get("k") == "Ref" and "id" in l:
                        r = s.root(n["c"][1], env)
                        if r - env.get(l["id"], set()): env[l["id"]] = env.get(l["id"], set()) | r; changed = True
        return env

    def local(s, f):
        """direct writes and call records"""
        env = s.env(f); W = []; C = []
        s.ptrs = set(v["id"] for v in list(walk(f.body)) + f.params if "id" in v and v.get("k") in ("Var", None, "Parm") and not s.P.T(v).endswith("&"))
        for n in walk(f.body):
            k = n.get("k")
            if (k == "Bin" and n["op"] in ASSIGN or k == "Un" and ("++" in n["op"] or "--" in n["op"])) and s.isptrvar(n["c"][0]): continue
            if k == "Bin" and n["op"] in ASSIGN:
                for r in s.root(n["c"][0], env): W.append((r, n["l"]))
            elif k == "Un" and ("++" in n["op"] or "--" in n["op"]):
                for r in s.root(n["c"][0], env): W.append((r, n["l"]))
            elif k in ("Call", "Ctor"):
                s.callrec(n, env, W, C)
            elif k == "Delete":
                pass
        if f.kind == "ctor":
            for i in f.get("inits") or []:
                for n in walk(i.get("c", [None])[0] if isinstance(i.get("c"), list) and i.get("c") else None):
                    if n.get("k") in ("Call", "Ctor"): s.callrec(n, env, W, C)
        return env, W, C

    def isptrvar(s, n):
        """assignment to a local pointer / iterator variable itself (not through it)"""
        n = strip(n)
        return n is not None and n.get("k") == "Ref" and n.get("id") in s.ptrs and not (s.P.fns and n.get("dk") == "slocal")

    def callrec(s, n, env, W, C):
        P = s.P; cf = P.callee(n); args = n.get("c", []); l = n["l"]
        fn = n.get("fn", ""); nm = fn.split("::")[-1]
        if cf is not None and cf.body:
            obj = s.root(n["obj"], env) if n.get("obj") is not None else set()
            ar = [s.root(a, env) for a in args]
            C.append((cf.key, obj, ar, l, bool(n.get("vrt"))))
            return
        if n.get("op") in ASSIGN or n.get("op") in ("++", "--"):
            tgt = n["obj"] if n.get("obj") is not None else (args[0] if args else None)
            if s.isptrvar(tgt): return
            for r in s.root(tgt, env): W.append((r, l))
            return
        if n.get("obj") is not None and fn:
            ot = P.T(n["obj"])
            stdlike = fn.startswith("std::") or fn.startswith("__gnu") or (cf is not None and not cf.body)
            if stdlike and not n.get("cst") and not n.get("static") and nm not in ACCESS and not n.get("op") in ("()", "[]", "*", "->"):
                for r in s.root(n["obj"], env): W.append((r, l))
            if n.get("op") == "()" and ("mersenne" in ot or "engine" in ot):
                for r in s.root(n["obj"], env): W.append((r, l))
        if fn.startswith("std::") and n.get("obj") is None:
            m = OUT_ALGOS.get(nm)
            if m:
                tg = args if m in ("all", "lastlike") else args[:1] if m == "first" else args[-1:]
                if m == "lastlike": tg = args[-2:-1]
                for a in tg:
                    at = P.T(strip(a)) if strip(a) is not None else ""
                    if at.startswith("const ") : continue
                    for r in s.root(a, env): W.append((r, l))
                return
        if n.get("op") in ("<<", ">>") and args:
            tgt = n["obj"] if n.get("obj") is not None else args[0]
            for r in s.root(tgt, env): W.append((r, l))
            if n["op"] == ">>":
                for r in s.root(args[-1], env): W.append((r, l))
            return
        for a, pt in zip(args, n.get("pt", [])):
            t = P.T(pt)
            if (t.endswith("&") and not t.endswith("&&") or t.endswith("*")) and not constref(t):
                for r in s.root(a, env): W.append((r, l))

    def fix(s):
        P = s.P
        for k, (env, W, C) in s.loc.items():
            for r, l in W:
                if r[0] in ("parm", "this", "glob"):
                    s.sum[k].add(r); s.via.setdefault((k, r), (l, None))
        callers = {}
        for k, (env, W, C) in s.loc.items():
            for c in C:
                for t in s.targets(c): callers.setdefault(t, set()).add(k)
        work = list(s.loc)
        while work:
            k = work.pop()
            env, W, C = s.loc[k]; new = set()
            for c in C:
                for t in s.targets(c):
                    for r in s.sum.get(t, ()):
                        for x in s.mapw(r, c):
                            if x[0] in ("parm", "this", "glob") and x not in s.sum[k]:
                                new.add(x); s.via.setdefault((k, x), (c[3], t))
            if new:
                s.sum[k] |= new
                work += [c for c in callers.get(k, ())]

    def targets(s, c):
        t = [c[0]]
        if c[4]:
            seen = {c[0]}; st = [c[0]]
            while st:
                x = st.pop()
                for o in s.over.get(x, []):
                    if o not in seen: seen.add(o); st.append(o)
            t = list(seen)
        return t

    def mapw(s, r, c):
        if r[0] == "glob": return {r}
        if r[0] == "parm": return c[2][r[1]] if r[1] < len(c[2]) else set()
        out = set()
        for o in c[1]:
            if o == ("this", "*"): out.add(r)
            else: out.add(o)
        return out

    def chain(s, k, r, depth=0):
        """human-readable path of a write"""
        out = []
        while depth < 8 and (k, r) in s.via:
            l, t = s.via[(k, r)]
            out.append("%s:%d" % (s.P.fns[k].f, l))
            if t is None: break
            # find the callee effect that maps to r
            nxt = None
            for c in s.loc[k][2]:
                if t in s.targets(c) and c[3] == l:
                    for q in s.sum.get(t, ()):
                        if r in s.mapw(q, c): nxt = (t, q); break
                if nxt: break
            if not nxt: break
            k, r = nxt; depth += 1
        return " -> ".join(out)


_eff = None


def effects():
    global _eff
    if _eff is None: _eff = Effects(program())
    return _eff
