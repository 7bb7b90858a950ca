"""Exception-escape analysis: which exception classes can leave each function (call-graph fixpoint, handlers honoured).

A summary is a set of class names plus USER ('whatever a user-supplied callable or an overridable virtual throws', assumed to
derive from std::exception).  Allocation failure is outside the model."""
from .core import *

USER = "<user callable>"
STD = {"std::exception": None, "std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::bad_alloc": "std::exception",
       "std::bad_array_new_length": "std::bad_alloc", "std::bad_cast": "std::exception", "std::bad_any_cast": "std::bad_cast", "std::bad_function_call": "std::exception",
       "std::bad_optional_access": "std::exception", "std::bad_variant_access": "std::exception", "std::bad_typeid": "std::exception", "std::bad_weak_ptr": "std::exception",
       "std::invalid_argument": "std::logic_error", "std::domain_error": "std::logic_error", "std::length_error": "std::logic_error", "std::out_of_range": "std::logic_error",
       "std::future_error": "std::logic_error", "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error", "std::underflow_error": "std::runtime_error",
       "std::system_error": "std::runtime_error", "std::ios_base::failure": "std::system_error", "std::filesystem::filesystem_error": "std::system_error", "std::regex_error": "std::runtime_error"}
CONV = {"stoi", "stol", "stoll", "stoul", "stoull", "stof", "stod", "stold"}
FS = {"create_directories", "create_directory", "absolute", "canonical", "weakly_canonical", "current_path", "temp_directory_path", "remove", "remove_all", "rename", "copy_file",
      "exists", "is_directory", "is_regular_file", "file_size", "last_write_time", "relative", "copy", "directory_iterator"}


def bare(t):
    t = t.strip()
    while t.endswith(("&", "*")): t = t[:-1].strip()
    t = nt(t.replace("const ", "").replace("volatile ", "").strip())
    return "std::" + t[len("std::__cxx11::"):] if t.startswith("std::__cxx11::") else t.replace("std::__ios_failure", "std::ios_base::failure").replace("std::filesystem::__cxx11::", "std::filesystem::")


class Esc:
    def __init__(s, P, mode=None):
        """mode: enumerator of the exception policy assumed for every configuration (None: either)"""
        s.P = P; s.over = {}; s.sum = {}; s.why = {}; s.mode = mode; s.deps = {}
        for f in P.fns.values():
            for o in f.get("ovr") or []: s.over.setdefault(nt(o), []).append(f)
        s.fix()

    def bases(s, t):
        out = {t}; st = [t]
        while st:
            x = st.pop()
            nb = [STD[x]] if x in STD and STD[x] else [bare(s.P.tn[b["t"]]) if "t" in b else b.get("q") for b in s.P.recs[x]["bases"]] if x in s.P.recs else []
            for b in nb:
                b = bare(b) if b else b
                if b and b not in out: out.add(b); st.append(b)
        return out

    def caught(s, t, h):
        """does handler h catch exceptions of class t"""
        if h.get("all"): return True
        ht = bare(s.P.T(h))
        if t == USER: return ht == "std::exception"
        return ht in s.bases(t)

    def fix(s):
        fs = list(s.P.fns.values())
        for f in fs: s.sum[f.key] = frozenset()
        work = list(fs); inw = {f.key for f in fs}; s.steps = 0
        while work:
            f = work.pop(); inw.discard(f.key); s.steps += 1
            s.cur = f.key
            r = s.fn(f)
            if r != s.sum[f.key]:
                s.sum[f.key] = r
                for k in s.deps.get(f.key, ()):
                    if k not in inw: inw.add(k); work.append(s.P.fns[k])

    def use(s, key):
        s.deps.setdefault(key, set()).add(s.cur)
        return s.sum[key]

    def fn(s, f):
        r = set(); s.locs = {}; s.bools = {}
        for b in [i["c"][0] for i in f.get("inits") or [] if i.get("c")] + ([f.body] if f.body else []):
            for v in walk(b):
                if v.get("k") == "Var" and v.get("c"):
                    x = strip(v["c"][0])
                    if x is not None and x.get("k") == "Lambda": s.locs[v["id"]] = x
                    if s.mode and x is not None and s.P.T(v).replace("const ", "") == "bool": s.bools[v["id"]] = x
        if f.kind == "ctor" and f.body and f.body.get("k") == "Try": r |= s.ex(f.body, f, ())
        else:
            for i in f.get("inits") or []:
                for c in i.get("c") or []: r |= s.ex(c, f, ())
            if f.body: r |= s.ex(f.body, f, ())
        return frozenset(r)

    # ---- exception policy of the configuration, assumed to have the value s.mode
    def ispolicy(s, n): return s.P.T(n).replace("const ", "").replace("&", "").strip().endswith("EvaluationExceptionPolicy") and const(n) is None

    def decide(s, n, depth=0):
        n = strip(n)
        if n is None or depth > 6: return None
        k = n.get("k")
        if k == "Bin" and n["op"] in ("==", "!="):
            a, b = n["c"]
            for x, y in ((a, b), (b, a)):
                y2 = strip(y)
                if s.ispolicy(x) and y2 is not None and y2.get("dk") == "enum": return (y2["n"] == s.mode) == (n["op"] == "==")
            return None
        if k == "Bin" and n["op"] in ("&&", "||"):
            l, r = s.decide(n["c"][0], depth + 1), s.decide(n["c"][1], depth + 1); z = n["op"] == "||"
            if l is z or r is z: return z
            return (not z) if l is not None and r is not None else None
        if k == "Un" and n["op"] == "!":
            d = s.decide(n["c"][0], depth + 1); return None if d is None else not d
        if k == "Ref" and n.get("id") in s.bools: return s.decide(s.bools[n["id"]], depth + 1)
        if k == "Call":
            cf = s.P.callee(n)
            if cf is not None and cf.body and len(cf.body.get("c", [])) == 1 and cf.body["c"][0].get("k") == "Return" and cf.body["c"][0].get("c"): return s.decide(cf.body["c"][0]["c"][0], depth + 1)
        return None

    def leaves(s, n):
        """statement never completes normally under the assumed policy"""
        if n is None: return False
        k = n.get("k")
        if k in ("Return", "Throw"): return True
        if k == "Block": return any(s.leaves(x) for x in n.get("c", []))
        if k == "If":
            d = s.decide(n["cond"])
            if d is not None: return s.leaves(n.get("then") if d else n.get("else"))
            return s.leaves(n.get("then")) and s.leaves(n.get("else"))
        return False

    def switch(s, n, f, cur):
        r = s.ex(n["cond"], f, cur); on = False; seq = []
        for x in n["body"].get("c", []):
            labs = []
            while x is not None and x.get("k") in ("Case", "Default"):
                labs.append(x); x = x["c"][0]
            seq.append((labs, x))
        match = any(l["k"] == "Case" and (strip(l["v"]) or {}).get("n") == s.mode for ls, _ in seq for l in ls)
        for ls, x in seq:
            if any(l["k"] == "Case" and (strip(l["v"]) or {}).get("n") == s.mode or l["k"] == "Default" and not match for l in ls): on = True
            if not on: continue
            if x is not None and x.get("k") == "Break": break
            r |= s.ex(x, f, cur)
            if s.leaves(x): break
        return r

    def note(s, f, t, n): s.why.setdefault((f.key, t), n.get("l", f.l))

    def ex(s, n, f, cur):
        """exceptions that may leave node n; cur = classes being handled (for rethrow)"""
        if n is None: return set()
        k = n.get("k")
        if k == "Lambda": 
            r = set()
            for y in n.get("ci") or []: r |= s.ex(y, f, cur)
            return r
        if k == "SizeOf": return set()
        if k == "Try":
            inner = s.ex(n["body"], f, cur); out = set()
            left = set(inner)
            for h in n["h"]:
                got = {t for t in left if s.caught(t, h)}
                left -= got
                if h.get("all"): got |= {USER}
                if bare(s.P.T(h)) == "std::exception" if not h.get("all") else False: got |= {USER}
                out |= s.ex(h["body"], f, tuple(got | {bare(s.P.T(h))} if not h.get("all") else got))
            return left | out
        if s.mode and k in ("If", "Cond"):
            cn = n["cond"] if k == "If" else n["c"][0]
            d = s.decide(cn)
            if d is not None:
                br = (n.get("then"), n.get("else")) if k == "If" else (n["c"][1], n["c"][2])
                return s.ex(cn, f, cur) | s.ex(br[0] if d else br[1], f, cur)
        if s.mode and k == "Switch" and s.ispolicy(n["cond"]): return s.switch(n, f, cur)
        if s.mode and k == "Block":
            r = set()
            for y in n.get("c", []):
                r |= s.ex(y, f, cur)
                if s.leaves(y): break
            return r
        r = set()
        for y in children(n): r |= s.ex(y, f, cur)
        if k == "Throw":
            if n.get("re"): r |= set(cur)
            else:
                t = bare(s.P.tc.get(n.get("tt"), "?")); r.add(t); s.note(f, t, n)
        elif k in ("Call", "Ctor"):
            for t in s.call(n, f):
                r.add(t); s.note(f, t, n)
        return r

    def call(s, n, f):
        fn = nt(n.get("fn") or ""); last = fn.split("::")[-1]
        cf = s.P.callee(n)
        if n.get("nx") and cf is None: return set()
        if cf is not None:
            r = set(s.use(cf.key))
            if n.get("vrt") and not n.get("qualcall"):
                for o in s.over.get(nt(cf.q), []): r |= s.use(o.key)
                r |= s.virt(n, cf.q)
            return r
        if n.get("vrt") and fn.startswith("MML"):
            r = {USER} if s.pure_user(n, fn) else set()
            for o in s.over.get(fn, []): r |= s.use(o.key)
            return r | s.virt(n, fn)
        if n.get("k") == "Ctor":
            return set()
        cl = n.get("callee") or (n.get("obj") if n.get("op") == "()" else None)
        if n.get("op") == "()" or cl is not None:
            o = strip(cl)
            if o is not None and o.get("k") == "Ref" and o.get("id") in s.locs: return s.lam(s.locs[o["id"]], f)
            if o is not None and o.get("k") == "Lambda": return s.lam(o, f)
            if o is not None and o.get("k") in ("DepRef", "DepMem"): return s.byname(o["n"])
            if fn.startswith("std::") and n.get("op") != "()": return set()
            if o is not None and "distribution" in s.P.T(o): return set()
            return {USER}
        if last in CONV and fn.startswith("std::"): return {"std::invalid_argument", "std::out_of_range"}
        if last == "at" and n.get("obj") is not None: return {"std::out_of_range"}
        if last == "value" and "optional" in fn: return {"std::bad_optional_access"}
        if last in FS and fn.startswith("std::filesystem") and not any("error_code" in s.P.T(a) for a in n.get("c", [])): return {"std::filesystem::filesystem_error"}
        return set()

    def virt(s, n, q): return set()

    def pure_user(s, n, fn): return True

    def lam(s, L, f):
        if id(L) in getattr(s, "_busy", ()): return set()
        s._busy = getattr(s, "_busy", set()) | {id(L)}
        try: return s.ex(L["body"], f, ())
        finally: s._busy = s._busy - {id(L)}

    def byname(s, nm):
        if not hasattr(s, "_bn"):
            s._bn = {}
            for f in s.P.fns.values(): s._bn.setdefault(f.n, []).append(f)
        r = set()
        for f in s._bn.get(nm, []): r |= s.use(f.key)
        return r
