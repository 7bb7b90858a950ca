"""C03: lock discipline, lost-wakeup freedom, task accounting and shutdown of classes that own mutexes and threads.

Every member function (and every thread entry closure) of such a class is unfolded into its event sequences: lock / unlock
(RAII scopes, explicit calls), accesses to members, condition-variable waits and notifications, calls of user callables
(normal and throwing), joins, and branch facts about members.  Member functions called on the same object are inlined.
The rules are decided on all event sequences (loops unrolled once; the facts used do not cross iterations)."""
from .core import *

LOCKT = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")
LIMIT = 20000


class Unfold:
    def __init__(s, P, cls):
        s.P = P; s.cls = cls; s.rec = P.recs[cls]
        s.F = {f["n"]: P.T(f) for f in s.rec["fields"]}
        s.mutexes = [n for n, t in s.F.items() if "mutex" in t]
        s.cvs = [n for n, t in s.F.items() if "condition_variable" in t]
        s.stack = []; s.loops = []; s.entries = []; s.localfn = {}; s.alias = {}; s.uses = 0; s.lk = {}; s.rb = []

    def field(s, n):
        n = strip(n)
        while n is not None and n.get("k") in ("Cast", "ICast") and n.get("c"): n = n["c"][0]
        if n is None: return None
        if n.get("k") == "Mem" and n.get("dk") == "field" and n["n"] in s.F and nt(n.get("own") or "") == s.cls: return n["n"]
        if n.get("k") == "Ref" and n.get("id") in s.alias: return s.alias[n["id"]]
        return None

    # facts ---------------------------------------------------------------
    def atoms(s, n):
        """condition -> DNF over facts: list of frozenset((kind, field, truth)); None = unknown atom"""
        n = strip(n)
        if n is None: return [frozenset()]
        k = n.get("k")
        if k == "Un" and n["op"] == "!": return s.neg(n["c"][0])
        if k == "Bin" and n["op"] == "&&":
            return [a | b for a in s.atoms(n["c"][0]) for b in s.atoms(n["c"][1])]
        if k == "Bin" and n["op"] == "||": return s.atoms(n["c"][0]) + s.atoms(n["c"][1])
        a = s.atom(n)
        return [frozenset([a])] if a else [frozenset()]

    def neg(s, n):
        n = strip(n); k = n.get("k")
        if k == "Un" and n["op"] == "!": return s.atoms(n["c"][0])
        if k == "Bin" and n["op"] == "&&": return s.neg(n["c"][0]) + s.neg(n["c"][1])
        if k == "Bin" and n["op"] == "||": return [a | b for a in s.neg(n["c"][0]) for b in s.neg(n["c"][1])]
        a = s.atom(n)
        return [frozenset([(a[0], a[1], not a[2])])] if a else [frozenset()]

    def atom(s, n):
        n = strip(n); k = n.get("k")
        if k == "Call" and n.get("obj") is not None:
            f = s.field(n["obj"]); nm = n["fn"].split("::")[-1]
            if f and nm == "empty": return ("empty", f, True)
            if f and (nm == "load" or nm.startswith("operator")) and "atomic<bool>" in s.F[f]: return ("true", f, True)
            cf = s.P.callee(n)
            if cf is not None and nt(cf.cls or "") == s.cls and cf.body and len(cf.body["c"]) == 1 and cf.body["c"][0].get("k") == "Return":
                return s.atom(cf.body["c"][0]["c"][0])
        f = s.field(n)
        if f and s.P.T(n).endswith("bool"): return ("true", f, True)
        if k == "Bin" and n["op"] in ("==", "!=", ">", "<="):
            l, r = n["c"]
            if const(l) == 0 and const(r) is None: l, r = r, l
            if const(r) == 0:
                q = s.quantity(l)
                if q: return (q[0], q[1], n["op"] in ("==", "<="))
            if const(r) == 1:                       # fetch_sub(1) == 1
                x = strip(l)
                if x.get("k") == "Call" and x.get("obj") is not None and x["fn"].endswith("::fetch_sub") and s.field(x["obj"]): return ("zero", s.field(x["obj"]), n["op"] in ("==", "<="))
        if k == "Bin" and n["op"] in ("<", ">=") and const(n["c"][1]) == 1:
            q = s.quantity(n["c"][0])
            if q: return (q[0], q[1], n["op"] == "<")
        q = s.quantity(n)                           # the number itself as a condition
        if q and not s.P.T(n).endswith("bool"): return (q[0], q[1], False)
        return None

    def quantity(s, n):
        n = strip(n); k = n.get("k")
        f = s.field(n)
        if f: return ("zero", f)
        if k == "Un" and n["op"] in ("--", "++"): f = s.field(n["c"][0]); return ("zero", f) if f else None
        if k == "Call" and n.get("obj") is not None:
            f = s.field(n["obj"]); nm = n["fn"].split("::")[-1]
            if f and nm == "load": return ("zero", f)
            if f and nm == "size": return ("empty", f)
            if f and n.get("op") in ("--", "++") and not n.get("c"): return ("zero", f)
            if f and nm.startswith("operator") and not n.get("c") and not n.get("op"): return ("zero", f)
        return None

    # unfolding -----------------------------------------------------------
    def seq(s, A, n):
        out = []
        if n is None: return A
        B = None
        for ev, ex in A:
            if ex != "fall": out.append((ev, ex)); continue
            if B is None: B = s.ev(n)
            for e2, x2 in B: out.append((ev + e2, x2))
        if len(out) > LIMIT: raise Broken("%s: too many event sequences" % s.cls)
        return list(dict.fromkeys(out))

    def E(s, *e): return [(tuple(e), "fall")]

    def cond(s, n):
        """-> list of (events, exit, truth)"""
        n = strip(n)
        if n is None: return [((), "fall", True)]
        k = n.get("k")
        if k == "Un" and n["op"] == "!": return [(a, b, not c) for a, b, c in s.cond(n["c"][0])]
        if k == "Bin" and n["op"] in ("&&", "||"):
            out = []
            for e, x, t in s.cond(n["c"][0]):
                if x != "fall" or t == (n["op"] == "||"): out.append((e, x, t))
                else: out += [(e + e2, x2, t2) for e2, x2, t2 in s.cond(n["c"][1])]
            return out
        if const(n) is not None: return [((), "fall", bool(const(n)))]
        b = s.localtest(n)
        if b: return [((("test", b[0], b[1], b[2] == t, n["l"]),), "fall", t) for t in (True, False)]
        h = s.answer(n)
        if h is not None: return h
        a = s.atom(n); out = []
        for e, x in s.ev(n):
            if x != "fall": out.append((e, x, True)); continue
            for t in (True, False):
                out.append((e + ((("fact", (a[0], a[1], a[2] == t), n["l"]),) if a else ()), "fall", t))
        return out

    def localtest(s, n):
        """test of a local variable: (id, aspect, truth of the aspect when the test is true); aspects: nz = not zero, one = equals 1"""
        n = strip(n)
        if n.get("k") == "Ref" and n.get("dk") in ("local", "var", "parm") and n.get("id") is not None and not s.field(n): return (n["id"], "nz", True)
        if n.get("k") == "Bin" and n["op"] in ("==", "!=", "<", ">", "<=", ">="):
            l, r = n["c"]; op = n["op"]
            if const(l) is not None and const(r) is None: l, r = r, l; op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            x = strip(l)
            if x is None or x.get("k") != "Ref" or x.get("id") is None or s.field(x): return None
            c = const(r); i = x["id"]
            if c == 0 and op in ("==", "<="): return (i, "nz", False)
            if c == 0 and op in ("!=", ">"): return (i, "nz", True)
            if c == 1 and op == "<": return (i, "nz", False)
            if c == 1 and op == ">=": return (i, "nz", True)
            if c == 1 and op in ("==", "<="): return (i, "one", True)
            if c == 1 and op in ("!=", ">"): return (i, "one", False)
        return None

    def answer(s, n):
        """own member function or local closure with a bool result, as a condition"""
        if n.get("k") != "Call" or not s.P.T(n).endswith("bool"): return None
        obj = n.get("obj"); body = key = None; params = []
        cf = s.P.callee(n)
        if cf is not None and cf.body and nt(cf.cls or "") == s.cls and (obj is None or strip(obj).get("k") == "This"): body, key, params = cf.body, cf.key, cf.params
        elif n.get("op") == "()" and obj is not None and strip(obj).get("k") == "Ref" and strip(obj).get("id") in s.localfn: body = s.localfn[strip(obj)["id"]]["body"]; key = ("lam", strip(obj)["id"])
        if body is None or key in s.stack or len(s.stack) > 8: return None
        A = s.E()
        for a in n.get("c", []): A = s.seq(A, a)
        s.bindlocks(params, n.get("c", []))
        s.stack.append(key); sl = s.loops; s.loops = []; s.rb.append(True)
        B = s.ev(body); s.rb.pop(); s.stack.pop(); s.loops = sl
        out = []
        for e, x in A:
            if x != "fall": out.append((e, x, True)); continue
            for e2, x2 in B:
                if x2 in ("retT", "retF"): out.append((e + e2, "fall", x2 == "retT"))
                elif x2 in ("ret", "brk", "cont", "end", "fall"): out += [(e + e2, "fall", True), (e + e2, "fall", False)]
                else: out.append((e + e2, x2, True))
        return list(dict.fromkeys(out))

    def bindlocks(s, params, args):
        for p, a in zip(params, args):
            x = strip(a)
            if s.P.T(p).replace("const ", "").startswith(LOCKT) and x is not None and x.get("k") == "Ref" and p.get("id") is not None: s.lk[p["id"]] = s.lk.get(x["id"], x["id"])

    def bind(s, i, c, t):
        """event sequences of initialising (or assigning) local i with c; what the value says about a member is a fact at this point"""
        if c is None: return s.E()
        t = t.replace("const ", "").strip()
        if t == "bool":
            cs = s.cond(c)
            if any(ev and any(e[0] == "fact" for e in ev) for ev, _, _ in cs) or s.answer(strip(c)) is not None:
                return [(e + ((("bind", i, "nz", tr, strip(c)["l"]),) if x == "fall" else ()), x) for e, x, tr in cs]
        elif t.replace("std::", "") in ("int", "long", "unsigned int", "unsigned long", "size_t", "long long", "unsigned long long"):
            y = strip(c); q = s.quantity(y); out = []
            asp = "nz"
            if q is None and y is not None and y.get("k") == "Call" and y.get("obj") is not None and y.get("fn", "").endswith("::fetch_sub") and s.field(y["obj"]): q = ("zero", s.field(y["obj"])); asp = "one"
            if q:
                for e, x in s.ev(c):
                    if x != "fall": out.append((e, x)); continue
                    for z in (True, False): out.append((e + (("fact", (q[0], q[1], z), y["l"]), ("bind", i, asp, z if asp == "one" else not z, y["l"])), x))
                return out
        return [(e + (("unbind", i, strip(c)["l"] if strip(c) else 0),), x) for e, x in s.ev(c)]

    def ev(s, n):
        if n is None: return s.E()
        n0 = n; n = strip(n)
        k = n.get("k")
        if k == "Block":
            A = s.E(); locks = []
            for c in n["c"]:
                A = s.seq(A, c)
                if c.get("k") == "Decl":
                    for v in c["c"]:
                        m = s.lockvar(v)
                        if m: locks.append((v["id"], m))
            out = []
            for ev, ex in A:
                tail = []
                for i, m in reversed(locks):
                    if heldby(ev, i): tail.append(("unlock", m, i, n.get("el", n["l"])))
                out.append((ev + tuple(tail), ex))
            return out
        if k == "Decl":
            A = s.E()
            for v in n["c"]: A = s.seq(A, v)
            return A
        if k == "Var":
            m = s.lockvar(n)
            if m:
                if any("defer_lock" in (x.get("q") or x.get("n") or "") for x in walk(n)): return s.E()
                return s.E(*[("lock", x, n["id"], n["l"]) for x in m])
            c = (n.get("c") or [None])[0]
            if c is not None and strip(c) is not None and strip(c).get("k") == "Lambda":
                s.localfn[n["id"]] = strip(c); return s.E()
            t = s.P.T(n)
            if t.endswith("&") and c is not None and s.field(c):
                s.alias[n["id"]] = s.field(c); return s.E()
            return s.bind(n["id"], c, t) if n.get("id") is not None else s.ev(c)
        if k == "If":
            A = s.E()
            if n.get("init"): A = s.seq(A, n["init"])
            if n.get("cv_"): A = s.seq(A, n["cv_"])
            out = []
            for ev, ex in A:
                if ex != "fall": out.append((ev, ex)); continue
                for e2, x2, t in s.cond(n["cond"]):
                    if x2 != "fall": out.append((ev + e2, x2)); continue
                    for e3, x3 in s.ev(n["then"] if t else n.get("else")): out.append((ev + e2 + e3, x3))
            return list(dict.fromkeys(out))
        if k in ("While", "For", "Do"):
            A = s.E()
            if n.get("init"): A = s.seq(A, n["init"])
            inf = n.get("cond") is None or const(n["cond"]) == 1
            s.loops.append(n.get("cond"))
            body = []
            if k == "Do": body = [(e, x) for e, x in s.ev(n["body"])]
            else:
                for e, x, t in s.cond(n.get("cond")):
                    if x != "fall": body.append((e, x)); continue
                    if not t: body.append((e, "brk")); continue
                    for e2, x2 in s.ev(n["body"]): body.append((e + e2, x2))
            s.loops.pop()
            out = []
            for ev, ex in A:
                if ex != "fall": out.append((ev, ex)); continue
                for e, x in body:
                    if x == "brk": out.append((ev + e, "fall"))
                    elif x in ("fall", "cont"): out.append((ev + e + (("loopend", n["l"]),), "end" if inf else "fall"))
                    else: out.append((ev + e, x))
            return list(dict.fromkeys(out))
        if k == "RFor":
            A = s.ev(n.get("range"))
            v = n.get("var"); v = v["c"][0] if v and v.get("k") == "Decl" else v
            f = s.field(n.get("range"))
            if f and v: s.alias[v["id"]] = f
            s.loops.append(None)
            body = s.ev(n["body"]); s.loops.pop()
            tag = (("each", f, n["l"]),) if f else ()
            return [(e + tag + e2, x if x not in ("brk", "cont") else "fall") for e, _ in A for e2, x in body]
        if k == "Try":
            body = s.ev(n["body"]); hs = n.get("h", []); out = []
            for e, x in body:
                if x != "exc" or not hs: out.append((e, x)); continue
                allc = any(h.get("all") for h in hs)
                for h in hs:
                    for e2, x2 in s.ev(h.get("body")): out.append((e + (("catch", n["l"]),) + e2, x2))
                if not allc: out.append((e, "exc"))
            return list(dict.fromkeys(out))
        if k == "Return" and s.rb and s.rb[-1] and (n.get("c") or [None])[0] is not None:
            return list(dict.fromkeys((e, ("retT" if t else "retF") if x == "fall" else x) for e, x, t in s.cond(n["c"][0])))
        if k == "Return":
            return [(e, "ret" if x == "fall" else x) for e, x in s.ev((n.get("c") or [None])[0])]
        if k == "Break": return [((), "brk")]
        if k == "Continue": return [((), "cont")]
        if k == "Throw":
            return [(e, "exc") for e, x in s.ev((n.get("c") or [None])[0])]
        if k == "Lambda": return s.E()
        if k == "Bin" and n["op"] in ("&&", "||"):
            return list(dict.fromkeys((e, x) for e, x, t in s.cond(n)))
        if k == "Cond":
            out = []
            for e, x, t in s.cond(n["c"][0]):
                for e2, x2 in s.ev(n["c"][1 if t else 2]): out.append((e + e2, x2))
            return list(dict.fromkeys(out))
        if k == "Mem":
            f = s.field(n)
            if f: return s.E(("acc", f, "r", "read", n["l"]))
            return s.ev(n["c"][0]) if n.get("c") else s.E()
        if k == "Ref":
            f = s.field(n)
            return s.E(("acc", f, "r", "read", n["l"])) if f else s.E()
        if k == "Un" and n["op"].replace("p", "") in ("++", "--"):
            f = s.field(n["c"][0])
            if f: return s.E(("acc", f, "w", "inc" if "++" in n["op"] else "dec", n["l"]))
            x = strip(n["c"][0])
            if x is not None and x.get("k") == "Ref" and x.get("id") is not None: return s.E(("unbind", x["id"], n["l"]))
        if k == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            f = s.field(n["c"][0]); lv = strip(n["c"][0])
            if not f and n["op"] == "=" and lv is not None and lv.get("k") == "Ref" and lv.get("id") is not None: return s.bind(lv["id"], n["c"][1], s.P.T(lv))
            A = s.ev(n["c"][1])
            if not f and lv is not None and lv.get("k") == "Ref" and lv.get("id") is not None: return [(e + (("unbind", lv["id"], n["l"]),), x) for e, x in A]
            if f:
                kind = {"+=": "inc", "-=": "dec"}.get(n["op"])
                if kind is None:
                    c = const(n["c"][1]); kind = "true" if c == 1 else "false" if c == 0 else "assign"
                return [(e + (("acc", f, "w", kind, n["l"]),), x) for e, x in A]
            return s.seq(A, n["c"][0])
        if k in ("Call", "Ctor"): return s.call(n)
        A = s.E()
        for c in children(n): A = s.seq(A, c)
        return A

    def lockvar(s, v):
        if v.get("k") != "Var" or not s.P.T(v).startswith(LOCKT): return None
        ms = [x["n"] for x in walk(v) if x.get("k") == "Mem" and x.get("n") in s.mutexes]
        return tuple(dict.fromkeys(ms)) or None

    def call(s, n):
        fn = n.get("fn", ""); nm = fn.split("::")[-1]; args = n.get("c", []); obj = n.get("obj"); op = n.get("op")
        f = s.field(obj) if obj is not None else None
        L = n["l"]
        if f in s.cvs:
            if nm.startswith("wait"):
                pred = next((strip(a) for a in args if strip(a) is not None and strip(a).get("k") == "Lambda"), None)
                if pred is None:
                    for a in args[1:]:
                        if strip(a).get("k") == "Ref" and strip(a).get("id") in s.localfn: pred = s.localfn[strip(a)["id"]]
                dnf = None; neg = None
                if pred is not None:
                    r = [x for x in walk(pred["body"]) if x.get("k") == "Return"]
                    if len(r) == 1: dnf = s.atoms(r[0]["c"][0])
                    pe = s.ev(pred["body"])
                else:
                    lc = s.loops[-1] if s.loops else None
                    if lc is not None and const(lc) is None: dnf = s.neg(lc)
                    pe = s.E()
                lv = strip(args[0]).get("id") if args else None; lv = s.lk.get(lv, lv)
                accs = tuple(e for ev, _ in pe for e in ev if e[0] == "acc")
                return s.E(*(accs + (("wait", f, tuple(dnf) if dnf is not None else None, lv, L),)))
            if nm.startswith("notify"): return s.E(("notify", f, nm == "notify_all", L))
        if f in s.mutexes and nm in ("lock", "unlock"): return s.E((nm, f, ("m", f), L))
        if obj is not None and strip(obj).get("k") == "Ref" and s.P.T(strip(obj)).startswith("std::unique_lock"):
            i = strip(obj)["id"]; i = s.lk.get(i, i)
            if nm in ("lock", "unlock"):
                return s.E((nm, "*", i, L))
        # arguments first
        A = s.E()
        for a in args:
            la = strip(a)
            if la is not None and la.get("k") == "Lambda":
                t = s.P.T(strip(obj)) if obj is not None else s.P.T(n)
                if "std::thread" in t or "std::thread" in fn or "std::jthread" in t: s.entries.append(la); A = s.seq(A, None); A = [(e + (("spawn", L),), x) for e, x in A]
                continue
            A = s.seq(A, a)
        for a, pt in zip(args, n.get("pt", [])):
            x = strip(a); t = s.P.T(pt)
            if x is not None and x.get("k") == "Ref" and x.get("id") is not None and t.endswith("&") and not t.startswith("const ") and s.P.T(x).replace("const ", "") in ("bool", "int", "unsigned long", "long", "unsigned int"):
                A = [(e + (("unbind", x["id"], L),), y) for e, y in A]
        if nm == "join" and "std::thread" in (n.get("cls") or fn): return [(e + (("join", L),), x) for e, x in A]
        # user callables
        ot = s.P.T(strip(obj)) if obj is not None else ""
        if op == "()" and obj is not None:
            if "std::function" in ot or strip(obj).get("dk") in ("parm",):
                if f: A = [(e + (("acc", f, "r", "call", L),), x) for e, x in A]
                out = []
                for e, x in A:
                    if x != "fall": out.append((e, x)); continue
                    out.append((e + (("user", L),), "fall")); out.append((e + (("user", L), ("threw", L)), "exc"))
                return out
            i = strip(obj).get("id") if strip(obj).get("k") == "Ref" else None
            if i in s.localfn: return s.inline(A, s.localfn[i]["body"], ("lam", i))
        if fn == "std::rethrow_exception": return [(e, "exc") for e, x in A]
        cf = s.P.callee(n)
        if cf is not None and cf.body and nt(cf.cls or "") == s.cls and (obj is None or strip(obj).get("k") == "This"):
            s.bindlocks(cf.params, args)
            for p, a in zip(cf.params, args):            # by-value numbers and answers handed to a helper
                t = s.P.T(p)
                if p.get("id") is not None and "&" not in t and "*" not in t:
                    B = s.bind(p["id"], a, t); q = s.ev(a)
                    if B and any(e and e[-1][0] == "bind" for e, _ in B) and len(args) == 1: A = B
            return s.inline(A, cf.body, cf.key)
        if f:
            kind = "r"; wk = nm
            if op in ("++", "--"): kind = "w"; wk = "inc" if op == "++" else "dec"
            elif op == "=" or nm == "store" or nm == "exchange":
                kind = "w"; c = const(args[0]) if args else None
                wk = "true" if c == 1 else "false" if c == 0 else "assign"
                if "atomic<bool>" not in s.F[f] and c is not None: wk = "zero" if c == 0 else "assign"
            elif nm in ("fetch_add",): kind = "w"; wk = "inc"
            elif nm in ("fetch_sub",): kind = "w"; wk = "dec"
            elif op in ("+=", "-="): kind = "w"; wk = "inc" if op == "+=" else "dec"
            elif nm in ("push", "emplace", "push_back", "emplace_back", "push_front", "insert"): kind = "w"; wk = "push"
            elif nm in ("pop", "pop_front", "pop_back", "erase", "clear"): kind = "w"; wk = "pop"
            elif nm == "swap": kind = "w"; wk = "assign"
            elif not n.get("cst"): kind = "r" if nm in ("front", "back", "top", "operator[]", "at", "begin", "end") else "w"
            return [(e + (("acc", f, kind, wk, L),), x) for e, x in A]
        out = A
        if obj is not None and not f: out = s.seq(out, obj)
        return out

    def inline(s, A, body, key):
        if key in s.stack or len(s.stack) > 8: return A
        s.stack.append(key); sl = s.loops; s.loops = []
        s.rb.append(False)
        B = s.ev(body); s.rb.pop(); s.stack.pop(); s.loops = sl
        out = []
        for e, x in A:
            if x != "fall": out.append((e, x)); continue
            for e2, x2 in B: out.append((e + e2, {"ret": "fall", "brk": "fall", "cont": "fall", "end": "fall"}.get(x2, x2)))
        return list(dict.fromkeys(out))


def heldby(ev, i):
    h = False
    for e in ev:
        if e[0] == "lock" and e[2] == i: h = True
        if e[0] == "unlock" and e[2] == i: h = False
    return h


def feasible(ev):
    """the answers a path reads from its locals agree with what it stored in them"""
    b = {}
    for e in ev:
        if e[0] == "bind":
            for k in [k for k in b if k[0] == e[1]]: del b[k]
            b[(e[1], e[2])] = e[3]
        elif e[0] == "unbind":
            for k in [k for k in b if k[0] == e[1]]: del b[k]
        elif e[0] == "test":
            k = (e[1], e[2])
            if b.get(k, e[3]) != e[3]: return False
            if e[2] == "one" and e[3] and b.get((e[1], "nz")) is False: return False
    return True


def locksets(ev):
    """yield (index, event, frozenset of held mutexes)"""
    held = []; var = {}
    for j, e in enumerate(ev):
        if e[0] == "lock":
            m = e[1] if e[1] != "*" else var.get(e[2])
            if e[1] != "*": var[e[2]] = e[1]
            yield j, ("lock", m, e[2], e[3]), frozenset(m_ for m_, _ in held)
            held.append((m, e[2])); continue
        if e[0] == "unlock":
            yield j, e, frozenset(m for m, _ in held)
            held = [(m, i) for m, i in held if i != e[2] or (e[1] != "*" and not isinstance(e[1], tuple) and m != e[1])]
            if isinstance(e[1], tuple): held = [(m, i) for m, i in held if i != e[2]]
            continue
        yield j, e, frozenset(m for m, _ in held)


def contradicts(dnf, facts):
    return all(any((k, f, not v) in facts for k, f, v in conj) for conj in dnf)


ENABLE = {"push": [("empty", False)], "pop": [("empty", True)], "inc": [("zero", False)], "dec": [("zero", True)], "zero": [("zero", True)],
          "true": [("true", True)], "false": [("true", False)], "assign": [("true", True), ("true", False), ("empty", True), ("empty", False), ("zero", True), ("zero", False)]}


def decide(ck, P, cls):
    u = Unfold(P, cls); short = cls.split("::")[-1]
    fns = [f for f in P.fns.values() if nt(f.cls or "") == cls and f.body]
    seqs = []          # (name, role, fn, [(ev, exit)])
    for f in sorted(fns, key=lambda f: f.l):
        u.loops = []; u.stack = [f.key]; u.alias = {}; u.localfn = {}
        n0 = len(u.entries)
        S = [x for x in u.ev(f.body) if feasible(x[0])]
        seqs.append((f.n, f.kind, f, S))
    ents = []
    for i, L in enumerate({id(e): e for e in u.entries}.values()):
        u.loops = []; u.stack = []; u.alias = {}; u.localfn = {}
        ents.append(("thread entry", "entry", L, [x for x in u.ev(L["body"]) if feasible(x[0])]))
    # member functions only called from other members while locked are judged through their callers
    private = set(f.key for f in fns if f.get("acc") in ("private", "protected"))
    inlined = set()
    for f in fns:
        for n in walk(f.body):
            if n.get("k") == "Call" and n.get("ck") in private: inlined.add(n["ck"])
    judge = [x for x in seqs if not (x[2].key in inlined)] + ents
    nev = sum(len(e) for _, _, _, S in judge for e, _ in S)
    ck.cov.setdefault("event_sequences", 0); ck.cov["event_sequences"] += sum(len(S) for *_, S in judge)
    ck.cov.setdefault("events", 0); ck.cov["events"] += nev
    where = lambda e: "%s:%d" % (u.rec["f"], e[-1])
    sync = set(u.mutexes + u.cvs)
    atomic = set(n for n, t in u.F.items() if t.startswith("std::atomic"))
    # ---- accesses per field with locksets
    acc = {}; waits = []; order = set()
    for name, role, f, S in judge:
        for ev, ex in S:
            for j, e, held in locksets(ev):
                if e[0] == "acc": acc.setdefault(e[1], {}).setdefault((name, role, e[2], e[4], e[3]), set()).add(held)
                if e[0] == "wait": waits.append((name, e, held, ev, j))
                if e[0] == "lock":
                    if e[1] in held: ck.bad("%s::%s: locks %s twice" % (short, name, e[1]), where(e), "%s::%s acquires %s while already holding it" % (short, name, e[1]))
                    for h in held:
                        if h != e[1]: order.add((h, e[1], name, e[3]))
                if e[0] == "user" and held:
                    ck.bad("%s::%s: user callable under lock" % (short, name), where(e), "%s::%s calls a user-supplied callable while holding %s (deadlock if it uses the pool)" % (short, name, sorted(held)))
                if e[0] == "join" and held:
                    ck.bad("%s::%s: join under lock" % (short, name), where(e), "%s::%s joins a thread while holding %s" % (short, name, sorted(held)))
    # ---- R1 guarded-by (guard inferred from the accesses themselves)
    threadf = set(e[1] for _, _, _, S in ents for ev, _ in S for e in ev if e[0] == "acc")
    guards = {}
    for fld, d in sorted(acc.items()):
        if fld in sync or fld in atomic: continue
        rel = {k: v for k, v in d.items() if not (k[1] in ("ctor", "dtor") and fld not in threadf)}
        if not any(k[2] == "w" for k in rel): continue                     # never written after construction
        cnt = {}
        for k, hs in rel.items():
            for m in frozenset.intersection(*hs): cnt[m] = cnt.get(m, 0) + 1
        if not cnt:
            k = sorted(rel)[0]
            ck.bad("%s: member %s is written without any lock" % (short, fld), "%s:%d" % (u.rec["f"], k[3]), "member %s of %s is shared, non-atomic and accessed without a lock" % (fld, cls)); continue
        g = max(sorted(cnt), key=lambda m: cnt[m]); guards[fld] = g
        for k, hs in sorted(rel.items(), key=lambda x: (x[0][0], x[0][3])):
            if all(g in h for h in hs): ck.good("%s of %s in %s under %s" % (k[4], fld, k[0], g))
            else: ck.bad("%s::%s: %s without %s" % (short, k[0], fld, g), "%s:%d" % (u.rec["f"], k[3]), "%s::%s accesses %s (%s) without holding %s, which guards it elsewhere" % (short, k[0], fld, k[4], g))
    # ---- R1b removals from a shared queue: non-emptiness established in the same critical section
    qf = [f for f, t in u.F.items() if t.startswith(("std::queue", "std::deque", "std::stack", "std::list", "std::priority_queue"))]
    for name, role, f, S in judge:
        for q in qf:
            g = guards.get(q); bad = None; n = 0
            for ev, ex in S:
                known_ = set(); dn = []
                for j, e, held in locksets(ev):
                    if e[0] == "lock" and e[1] == g or e[0] == "unlock": known_ = set(); dn = []
                    elif e[0] == "fact": known_ = {k for k in known_ if k[:2] != e[1][:2]} | {e[1]}
                    elif e[0] == "wait": known_ = set(); dn = [e[2]] if e[2] else []
                    elif e[0] == "acc" and e[1] == q and e[4 - 1] in ("pop", "front", "top", "back"):
                        n += 1
                        kk = known_ | {("empty", q, True)}
                        if ("empty", q, False) not in known_ and not any(contradicts(d, kk) for d in dn): bad = bad or e
                        if e[3] == "pop": known_ = {k for k in known_ if k[:2] != ("empty", q)}; dn = []
                    elif e[0] == "acc" and e[1] == q and e[3] == "push": known_ = known_ | {("empty", q, False)}
            if bad: ck.bad("%s::%s: %s of %s not guarded by a non-empty check" % (short, name, bad[3], q), where(bad), "%s::%s takes from %s on a path where its non-emptiness was not established inside the same critical section" % (short, name, q))
            elif n: ck.good("%s takes from %s only when non-empty in the same critical section" % (name, q))
    # ---- lock order
    pairs = set((a, b) for a, b, *_ in order)
    for a, b, name, l in sorted(order):
        if (b, a) in pairs: ck.bad("%s: lock order %s/%s inverted" % (short, min(a, b), max(a, b)), "%s:%d" % (u.rec["f"], l), "%s::%s acquires %s while holding %s; elsewhere the order is reversed" % (short, name, b, a))
    ck.good("lock order acyclic (%d nested pairs)" % len(pairs))
    # ---- R2 waits
    preds = {}
    for name, e, held, ev, j in waits:
        if e[2] is None or not any(e[2]):
            ck.bad("%s::%s: wait without a re-checked predicate" % (short, name), where(e), "%s::%s waits on %s without re-checking a condition (spurious wakeups)" % (short, name, e[1])); continue
        fl = set(f for conj in e[2] for _, f, _ in conj)
        mx = set(guards[f] for f in fl if f in guards)
        for m in mx:
            if m in held: ck.good("wait on %s holds %s" % (e[1], m))
            else: ck.bad("%s::%s: waits on %s without %s" % (short, name, e[1], m), where(e), "%s::%s waits on %s without holding %s that guards its condition" % (short, name, e[1], m))
        preds.setdefault(e[1], {})[e[2]] = (mx or held, name)
    # ---- R3 enabling writes are followed by a notification
    for cv, ps in sorted(preds.items()):
        for dnf, (mx, wname) in ps.items():
            atoms = set(a for c in dnf for a in c)
            for name, role, f, S in judge:
                done = set()
                for ev, ex in S:
                    evl = list(locksets(ev))
                    for j, e, held in evl:
                        if e[0] != "acc" or e[2] != "w" or role == "ctor": continue
                        en = [(k, e[1], v) for k, v in ENABLE.get(e[3], []) if (k, e[1], v) in atoms]
                        if not en: continue
                        facts = {(k, e[1], v) for k, v in ENABLE.get(e[3], [])} if e[3] not in ("pop", "dec", "assign") else set()
                        ok = None; locked = bool(held & mx); lockedAfter = locked
                        for j2, e2, h2 in evl[j + 1:]:
                            if e2[0] == "fact":
                                facts.discard((e2[1][0], e2[1][1], not e2[1][2])); facts.add(e2[1])
                            if e2[0] == "acc" and e2[2] == "w":
                                for kk in ("empty", "zero", "true"):
                                    for vv in (True, False): facts.discard((kk, e2[1], vv))
                                for k, v in ENABLE.get(e2[3], []):
                                    if e2[3] not in ("pop", "dec", "assign"): facts.add((k, e2[1], v))
                            if e2[0] == "lock" and e2[1] in mx: lockedAfter = True
                            if contradicts(dnf, facts) and not (locked and h2 & mx and e2[0] != "unlock" and False):
                                ok = "not enabled"; break
                            if e2[0] == "notify" and e2[1] == cv:
                                need_all = e[3] not in ("push",) or len(ps) > 1
                                if not lockedAfter: ok = "unsynchronised"
                                elif need_all and not e2[2]: ok = "one"
                                else: ok = "yes"
                                break
                        tag = (e[1], e[3], e[4])
                        if ok in ("yes", "not enabled"): done.add(tag); continue
                        what = {"unsynchronised": "is not ordered with the waiter: the mutex is neither held at the change nor acquired before the notification (lost wakeup)",
                                "one": "wakes only one waiter although every waiter must see it", None: "is not followed by a notification of %s on some path (lost wakeup)" % cv}[ok]
                        ck.bad("%s::%s: %s of %s vs %s: %s" % (short, name, e[3], e[1], cv, {"unsynchronised": "unordered", "one": "notify_one", None: "no notification"}[ok]), where(e),
                               "%s::%s changes %s (%s), which can satisfy the condition %s waits for in %s, but %s" % (short, name, e[1], e[3], cv, wname, what))
                for t in done: ck.good("%s of %s in %s notifies %s" % (t[1], t[0], name, cv))
    # ---- thread entries
    for name, role, L, S in ents:
        for ev, ex in S:
            if ex == "exc": ck.bad("%s: exception escapes the worker thread" % short, "%s:%d" % (u.rec["f"], L["l"]), "a path of %s's thread entry lets an exception of a user task escape (std::terminate)" % short); break
        else: ck.good("no user exception leaves the thread entry")
        counters = set(e[1] for ev, _ in S for e in ev if e[0] == "acc" and e[2] == "w" and e[3] in ("inc", "dec"))
        for c in sorted(counters):
            bad = None
            for ev, ex in S:
                if ex == "exc": continue
                b = 0; usr = False; last = None
                for e in ev:
                    if e[0] == "acc" and e[1] == c and e[3] == "inc": b += 1
                    if e[0] == "acc" and e[1] == c and e[3] == "dec":
                        b -= 1
                        last = e
                    if e[0] == "user" and any(x[0] == "acc" and x[3] in ("pop", "front") for x in ev[:ev.index(e)]) and not usr:
                        usr = True
                        if b <= 0: bad = ("a task runs while %s does not count it" % c, e)
                if b != 0: bad = ("%s is not balanced on a path through the worker loop" % c, ev[-1])
                # between taking a task and counting it the queue's mutex must not be released
                if usr:
                    took = None; b = 0
                    for j, e, held in locksets(ev):
                        if e[0] == "acc" and e[1] == c and e[3] in ("inc", "dec"): b += 1 if e[3] == "inc" else -1
                        if e[0] == "acc" and e[3] == "pop" and e[1] in guards: took = e
                        if e[0] == "unlock" and took is not None and guards[took[1]] in held and b <= 0 and any(x[0] == "user" for x in ev[j:]) and any(x[0] == "acc" and x[1] == c and x[3] == "inc" for x in ev[j:]): bad = bad or ("a task is neither queued nor counted by %s while %s is released" % (c, guards[took[1]]), took)
            if bad: ck.bad("%s: worker: %s" % (short, bad[0].split(" on ")[0]), where(bad[1]), "worker loop of %s: %s" % (short, bad[0]))
            else: ck.good("counter %s balanced on %d worker paths" % (c, len(S)))
        exq = [f for f, t in u.F.items() if "exception_ptr" in t and ("queue" in t or "vector" in t or "deque" in t or "list" in t)]
        if exq:
            bad = None; n = 0
            for ev, ex in S:
                for i, e in enumerate(ev):
                    if e[0] == "threw":
                        first = not any(x[0] == "threw" for x in ev[:i]) and not any(x[0] == "catch" for x in ev[:i])
                        if not first: continue
                        n += 1
                        if not any(x[0] == "acc" and x[1] in exq and x[3] == "push" for x in ev[i:]): bad = e
            if bad: ck.bad("%s: worker drops a task's exception" % short, where(bad), "a path of the worker loop catches a task's exception without recording it in %s" % exq)
            elif n: ck.good("%d throwing paths record the exception" % n)
        # the worker may only leave when asked to stop and nothing is queued
        for cv, ps in preds.items():
            for dnf, (mx, wname) in ps.items():
                if wname != name: continue
                stops = [a for conj in dnf for a in conj if a[0] == "true"]; qs = [a for conj in dnf for a in conj if a[0] == "empty"]
                for ev, ex in S:
                    if ex != "ret" and not (ex == "fall" and not (ev and ev[-1][0] == "loopend")): continue
                    facts = {}; clash = False
                    for j, e, held in locksets(ev):
                        if e[0] in ("wait", "unlock"): facts = {}
                        elif e[0] == "acc" and e[2] == "w": facts = {k: v for k, v in facts.items() if k[1] != e[1]}
                        elif e[0] == "fact":
                            k = e[1][:2]
                            if k in facts and facts[k] != e[1][2] and guards.get(k[1]) in held: clash = True    # two answers of one critical section
                            facts[k] = e[1][2]
                    if clash: continue
                    late = [i for i, e in enumerate(ev) if e[0] == "wait"]
                    facts = set(e[1] for e in ev[late[-1] if late else 0:] if e[0] == "fact")
                    # after a wait its condition holds; with what was tested since, the alternatives left may settle the rest
                    ws = [e for e in ev if e[0] == "wait" and e[1] == cv and e[2] == dnf]
                    left = [c for c in dnf if not any((k, f, not v) in facts for k, f, v in c)]
                    if ws and left: facts |= set(frozenset.intersection(*[frozenset(c) for c in left]))
                    miss = [a for a in stops if a not in facts] + [a for a in qs if (a[0], a[1], not a[2]) not in facts]
                    if miss: ck.bad("%s: worker leaves with %s" % (short, "queued tasks" if any(m[0] == "empty" for m in miss) else "no stop request"), "%s:%d" % (u.rec["f"], L["l"]), "a path ends the worker thread without having established %s" % ["%s(%s)" % (m[0], m[1]) for m in miss])
                    else: ck.good("worker exit requires stop and an empty queue")
    # ---- destructor
    if ents:
        dt = [x for x in seqs if x[1] == "dtor"]
        ck.need(dt, "%s owns threads but has no destructor" % short)
        thr = [f for f, t in u.F.items() if "std::thread" in t]
        stopatoms = set(a[1] for ps in preds.values() for dnf in ps for c in dnf for a in c if a[0] == "true")
        for ev, ex in dt[0][3]:
            if ex == "exc": continue
            if not any(e[0] == "join" for e in ev): ck.bad("%s: destructor path without join" % short, "%s:%d" % (u.rec["f"], dt[0][2].l), "a path of the destructor of %s does not join its threads" % short)
            else:
                ji = [i for i, e in enumerate(ev) if e[0] == "join"][0]
                st = [i for i, e in enumerate(ev) if e[0] == "acc" and e[1] in stopatoms and e[3] == "true"]
                nn = [i for i, e in enumerate(ev) if e[0] == "notify" and e[2]]
                if not st or st[0] > ji: ck.bad("%s: join before stop" % short, where(ev[ji]), "the destructor of %s joins before requesting the stop" % short)
                elif not [i for i in nn if st[0] < i < ji]: ck.bad("%s: join before notify_all" % short, where(ev[ji]), "the destructor of %s does not wake all workers between the stop request and the join" % short)
                elif not any(e[0] == "each" and e[1] in thr for e in ev[:ji]) and not any(e[0] == "acc" and e[1] in thr for e in ev[:ji]):
                    ck.bad("%s: join not over all threads" % short, where(ev[ji]), "the destructor of %s does not join all threads" % short)
                else: ck.good("destructor: stop, notify_all, join all")
    return guards, len(ents), len(waits)


def run(ck):
    P = program(); n = 0; g = {}
    for q, r in sorted(P.recs.items()):
        if any("std::mutex" in P.T(f) or "shared_mutex" in P.T(f) for f in r["fields"]):
            n += 1; gg, e, w = decide(ck, P, q)
            g[q] = gg; ck.cov["thread_entries"] = ck.cov.get("thread_entries", 0) + e; ck.cov["waits"] = ck.cov.get("waits", 0) + w
    ck.floor("classes_owning_mutexes", n, 1)
    ck.floor("thread_entries", ck.cov.get("thread_entries", 0), 1)
    ck.floor("waits", ck.cov.get("waits", 0), 2)
    ck.cov["guards"] = g
