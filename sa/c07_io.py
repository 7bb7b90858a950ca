"""C07: a save reports success only if the stream accepted everything; a load only if everything was read."""
from .core import *
from .flow import Flow, Fz, uniq
from .typestate import role

OST = ("std::basic_ofstream", "std::basic_ostream", "std::basic_fstream", "std::basic_iostream", "std::basic_ostringstream", "std::basic_stringstream")
IST = ("std::basic_ifstream", "std::basic_istream", "std::basic_istringstream")


def bare(t):
    t = t.replace("const ", "").strip()
    while t.endswith("&") or t.endswith("*"): t = t[:-1].strip()
    return t


def is_stream(t):
    b = bare(t)
    return b.startswith("std::basic_") and b.split("<")[0] in OST + IST


def is_file(t): return bare(t).split("<")[0] in ("std::basic_ofstream", "std::basic_ifstream", "std::basic_fstream")
def is_reader(t): return bare(t).split("<")[0] in IST + ("std::basic_stringstream",)


NEUTRAL = {"is_open", "good", "fail", "bad", "eof", "rdstate", "operator bool", "operator!", "tellg", "tellp", "precision", "width", "flags", "setf",
           "unsetf", "fill", "imbue", "getloc", "rdbuf", "str", "gcount", "peek_", "widen", "narrow", "swap_", "copyfmt"}


class Dom:
    def __init__(s, P, A):
        s.P = P; s.A = A; s.F = Flow(s); s.alias = {}; s.lams = {}; s.fn = None

    def noreturn(s, n): return False

    # ---- identities
    def sid(s, n):
        n = strip(n)
        if n is None: return None
        k = n.get("k")
        if k == "Ref":
            i = s.alias.get(n.get("id"), n.get("id"))
            return ("s", i) if is_stream(s.P.T(n)) else None
        if k == "Mem" and is_stream(s.P.T(n)): return ("s", show(n))
        if k == "Call":
            op = n.get("op"); a = ([n["obj"]] if n.get("obj") else []) + n.get("c", [])
            if op in ("<<", ">>") and a: return s.sid(a[0])
            if not op and is_stream(s.P.T(n)):
                if n.get("obj") and s.sid(n["obj"]): return s.sid(n["obj"])
                for x in n.get("c", []):
                    if s.sid(x): return s.sid(x)
        if k == "Un" and n.get("op") in ("*", "&") and n.get("c"): return s.sid(n["c"][0])
        if k in ("ICast", "Cast") and n.get("c"): return s.sid(n["c"][0])
        return None

    def vid(s, n):
        """variable holding a boolean or a result"""
        n = strip(n)
        if n is None: return None
        if n.get("k") == "Ref" and n.get("id") is not None: return ("v", n["id"])
        if n.get("k") == "Mem" and n.get("n") == "success" and n.get("c"): return s.vid(n["c"][0])
        return None

    # ---- evaluation: list of (state, truth) where truth in True/False/None
    def val(s, st, n):
        n0 = n; n = strip(n)
        if n is None: return [(st, None)]
        k = n.get("k")
        if k == "Bool": return [(st, bool(n["v"]))]
        cv = const(n)
        if k in ("Int",) and cv is not None: return [(st, bool(cv))]
        if k == "Un" and n.get("op") == "!":
            return [(a, None if v is None else not v) for a, v in s.val(st, n["c"][0])]
        if k == "Bin" and n.get("op") in ("&&", "||"):
            out = []; conj = n["op"] == "&&"
            for a, v in s.split(st, n["c"][0]):
                if v != conj: out.append((a, v))
                else: out += s.val(a, n["c"][1])
            return out
        if k == "Bin" and n.get("op") in ("==", "!=") and (strip(n["c"][0]).get("k") == "Bool" or strip(n["c"][1]).get("k") == "Bool"):
            a0, b0 = n["c"]
            if strip(a0).get("k") == "Bool": a0, b0 = b0, a0
            w = bool(strip(b0)["v"]) == (n["op"] == "==")
            return [(a, None if v is None else (v if w else not v)) for a, v in s.val(st, a0)]
        if k == "Bin" and n.get("op") in ("=", "&=", "|="):
            v = s.vid(n["c"][0])
            if v:
                out = []
                for a, x in s.val(st, n["c"][1]):
                    if n["op"] == "&=": x = False if (x is False or a.get(v) is False) else (True if x and a.get(v) else None)
                    if n["op"] == "|=": x = True if (x or a.get(v)) else (False if x is False and a.get(v) is False else None)
                    out.append((a.set(v, x) if x is not None else a.drop(v), x))
                return out
            return [(a, None) for a in s.expr(st, n)]
        if k == "Cond":
            out = []
            for a, v in s.split(st, n["c"][0]): out += s.val(a, n["c"][1] if v else n["c"][2])
            return out
        if k in ("Ref", "Mem"):
            v = s.vid(n)
            if v and v in st: return [(st, st[v])]
            if k == "Ref" and is_stream(s.P.T(n)) and s.sid(n): return s.test(st, s.sid(n), "bool")
            return [(st, None)]
        if k in ("ICast", "Cast") and n.get("c"):
            return s.val(st, n["c"][0])
        if k in ("InitList", "Ctor") and "SerializeResult" in s.P.T(n) + n.get("cls", ""):
            c = n.get("c", [])
            sts = [st]
            for x in c[1:]:
                sts = [b for a in sts for b in s.expr(a, x)]
            if not c: return [(a, None) for a in sts]
            return [p for a in sts for p in s.val(a, c[0])]
        if k == "Call": return s.call(st, n)
        if k == "Lambda": return [(st, None)]
        return [(a, None) for a in s.expr(st, n)]

    def test(s, st, sid, how):
        """state after learning the stream's condition"""
        cur = st.get(sid)
        if cur is None: return [(st, None)]
        if how in ("bool", "good"):
            out = []
            if cur in ("pend", "held"): out.append((st.set(sid, "held"), True))
            elif cur not in ("bad", "lost"): out.append((st.set(sid, "clean"), True))
            if cur == "lost": out.append((st, True))
            if cur not in ("clean",) or how == "good": out.append((st.set(sid, "bad"), False))
            return out
        if how == "is_open":
            out = [(st.set(sid, "bad"), False)] if cur in ("new", "bad") else []
            if cur != "bad" or True: out.append((st.set(sid, "clean") if cur == "new" else st, True))
            return out
        return [(st, None)]

    def split(s, st, n, loop=False):
        out = []
        for a, v in s.val(st, n):
            if v is None:
                out += [(a, True), (a, False)]
                vv = s.vid(n)
                if vv: out[-2:] = [(a.set(vv, True), True), (a.set(vv, False), False)]
                u = strip(n)
                if u is not None and u.get("k") == "Un" and u.get("op") == "!":
                    vv = s.vid(u["c"][0])
                    if vv: out[-2:] = [(a.set(vv, False), True), (a.set(vv, True), False)]
            else: out.append((a, v))
        return out

    def cond(s, st, n, loop):
        out = s.split(st, n)
        if loop and s.extracts(n):
            ids = s.extracts(n)
            res = []
            for a, v in out:
                if not v:
                    for i in ids:
                        if a.get(i) == "bad": a = a.set(i, "end")
                res.append((a, v))
            return res
        return out

    def extracts(s, n):
        r = []
        for x in walk(n):
            if x.get("k") == "Call" and (x.get("op") == ">>" or x.get("fn", "").split("::")[-1].split("<")[0] in ("getline", "read", "get")):
                i = s.sid(x)
                if i: r.append(i)
        return r

    def op(s, st, sid, out=False):
        cur = st.get(sid)
        if cur is None or cur in ("bad", "lost", "throws"): return st
        return st.set(sid, "pend" if out else "dirty")

    def call(s, st, n):
        """list of (state, truth); the outcome of a nested save/load is remembered on the path"""
        out = s.call_(st, n)
        if not s.A.isresult(n) or n.get("fn", "").endswith("WriteOutcome"): return out
        k = ("o", n.get("l"), (n.get("ck") or n.get("fn")))
        res = []
        for a, v in out:
            for w in ((True, False) if v is None else (v,)): res.append((a.set(k, w), w))
        return res

    def call_(s, st, n):
        fn = n.get("fn", "") or ""; last = fn.split("::")[-1].split("<")[0] if "operator" not in fn else fn.split("::")[-1]
        op = n.get("op"); args = list(n.get("c", [])); obj = n.get("obj")
        if fn.startswith("std::"):
            if op == "!" :
                a = ([obj] if obj else []) + args
                i = s.sid(a[0])
                if i:
                    pre = s.expr(st, a[0])
                    return [(x, None if v is None else not v) for p in pre for x, v in s.test(p, i, "bool")]
            if last == "operator bool" and obj is not None and s.sid(obj):
                return [y for p in s.expr(st, obj) for y in s.test(p, s.sid(obj), "bool")]
            if op in ("<<", ">>"):
                a = ([obj] if obj else []) + args
                i = s.sid(a[0])
                sts = [st]
                for x in a: sts = [b for y in sts for b in s.expr(y, x)]
                if i:
                    m = strip(a[-1])
                    fl = m is not None and m.get("k") in ("Ref", "DepRef", "UMem") and m.get("n") in ("endl", "flush", "unitbuf")
                    sts = [s.op(x, i, op == "<<" and not fl) for x in sts]
                return [(x, None) for x in uniq(sts)]
            if obj is not None and s.sid(obj):
                i = s.sid(obj); sts = s.expr(st, obj)
                for x in args: sts = [b for y in sts for b in s.expr(y, x)]
                if last in ("fail",): return [(x, None if v is None else not v) for p in sts for x, v in s.test(p, i, "bool")]
                if last == "good": return [y for p in sts for y in s.test(p, i, "good")]
                if last == "is_open": return [y for p in sts for y in s.test(p, i, "is_open")]
                if last == "clear": return [(x.set(i, "lost") if i in x else x, None) for x in sts]
                if last == "exceptions" and args: return [(x.set(i, "throws") if i in x else x, None) for x in sts]
                if last == "setstate": return [(x.set(i, "bad") if i in x else x, None) for x in sts]
                if last == "open": return [(x.set(i, "new") if i in x else x, None) for x in sts]
                if last in NEUTRAL: return [(x, None) for x in sts]
                if last == "close" and not any(w in s.P.T(strip(obj)) for w in ("ofstream", "_fstream")): return [(x, None) for x in sts]
                return [(s.op(x, i, last in ("write", "put")), None) for x in sts]
            sts = [st]
            for x in ([obj] if obj else []) + args: sts = [b for y in sts for b in s.expr(y, x)]
            if last in ("getline", "copy", "copy_n", "getline"):
                for x in args:
                    if s.sid(x): sts = [s.op(y, s.sid(x)) for y in sts]
            if last in ("move", "forward", "__invoke") : pass
            return [(x, None) for x in uniq(sts)]
        # local lambda
        if op == "()" and obj is not None or (n.get("callee") is not None):
            o = strip(obj if obj is not None else n["callee"])
            if o is not None and o.get("k") == "Ref" and o.get("id") in s.lams and s.lams[o["id"]] is not None:
                L = s.lams[o["id"]]
                sts = [st]
                for x in args: sts = [b for y in sts for b in s.expr(y, x)]
                svl = s.lams[o["id"]]; s.lams[o["id"]] = None
                bind = []
                for p, x in zip(L.get("params", []) or [], args):
                    i = s.sid(x)
                    if i and p.get("id") is not None: s.alias[p["id"]] = i[1]
                out = []
                for y in sts:
                    for a, v, _ in s.F.run(L.get("body"), y): out.append((a, v))
                s.lams[o["id"]] = svl
                d = {}
                for a, v in out: d.setdefault((a.key(), v), (a, v))
                return list(d.values())
        # repo function
        sts = [st]
        for x in ([obj] if obj is not None else []) + args: sts = [b for y in sts for b in s.expr(y, x)]
        f = s.P.callee(n)
        sa = [(i, s.sid(x)) for i, x in enumerate(args) if s.sid(x)]
        if op and obj is not None and f is not None and len(f.params) == len(args) - 0: pass
        if not sa or f is None:
            for i, sd in sa: sts = [s.op(x, sd, True) for x in sts]
            return [(x, None) for x in uniq(sts)]
        out = []
        for x in sts:
            res = [(x, None, True)]
            for i, sd in sa:
                nx = []
                for y, v, _ in res:
                    if sd not in y: nx.append((y, v, True)); continue
                    for o, v2 in s.A.summary(f, i, y[sd]):
                        nx.append((y.set(sd, o), v2 if v is None else v, True))
                res = nx
            out += [(y, v) for y, v, _ in res]
        d = {}
        for a, v in out: d.setdefault((a.key(), v), (a, v))
        return list(d.values())

    def expr(s, st, n):
        if n is None: return [st]
        m = strip(n)
        if m is None: return [st]
        k = m.get("k")
        if k == "Call": return uniq([a for a, _ in s.call(st, m)])
        if k == "Bin" and m.get("op") in ("=", "&=", "|=") and s.vid(m["c"][0]) and s.P.T(m["c"][0]).replace("const ", "") in ("bool",) or \
           k == "Bin" and m.get("op") in ("&&", "||"):
            return uniq([a for a, _ in s.val(st, m)])
        if k == "Bin" and m.get("op") == "=" and s.vid(m["c"][0]):
            out = []
            for a in s.expr(st, m["c"][1]): out.append(a.drop(s.vid(m["c"][0])))
            return uniq(out)
        if k == "Cond":
            out = []
            for a, v in s.split(st, m["c"][0]): out += s.expr(a, m["c"][1] if v else m["c"][2])
            return uniq(out)
        if k == "Lambda": return [st]
        sts = [st]
        for c in children(m): sts = uniq([b for a in sts for b in s.expr(a, c)])
        return sts

    def decl(s, st, v):
        t = s.P.T(v); c = v.get("c") or []
        i = v.get("id")
        ini = c[0] if c else None
        if is_stream(t):
            if t.strip().endswith("&"):
                o = s.sid(ini) if ini else None
                if o: s.alias[i] = o[1]
                return s.expr(st, ini) if ini else [st]
            sts = s.expr(st, ini) if ini else [st]
            k = ("s", i); out = []
            for a in sts:
                if a.get(k) == "dirty" and is_reader(t): a = a.set(("s", "%s*" % i), "dirty")
                if is_file(t): a = a.set(k, "new")
                elif is_reader(t): a = a.set(k, "clean")
                out.append(a)
            return out
        L = strip(ini) if ini else None
        if L is not None and L.get("k") == "Lambda":
            s.lams[i] = L; return [st]
        if ini is None: return [st.drop(("v", i))]
        if t.replace("const ", "") == "bool" or "Result" in t:
            out = []
            for a, x in s.val(st, ini): out.append(a.set(("v", i), x) if x is not None else a.drop(("v", i)))
            return uniq(out)
        return [a.drop(("v", i)) for a in s.expr(st, ini)]

    def ret(s, st, n):
        out = []
        for a, v in s.val(st, n): out.append((a, v))
        return out


class IO:
    def __init__(s, P):
        s.P = P; s.memo = {}; s.run_ = 0; s.outc = set()

    def isresult(s, n):
        f = s.P.callee(n); t = s.P.T(n)
        if f is None: return False
        return ("SerializeResult" in t or "LoadResult" in t) and f.kind != "ctor" and bool(f.body) and not f.get("stc") or f.key in s.outc

    def exits(s, f, ini):
        D = Dom(s.P, s); D.fn = f
        st = Fz()
        for i, v in ini.items(): st = st.set(("s", f.params[i]["id"]), v)
        r = D.F.run(f.body, st); s.run_ += D.F.steps
        return D, r

    def summary(s, f, i, cur):
        """exit states of stream parameter i with the truth of the returned outcome"""
        k = (f.key, i, cur)
        if k in s.memo: return s.memo[k]
        pt = s.P.T(f.params[i]) if i < len(f.params) else ""
        s.memo[k] = [("dirty" if cur not in ("bad", "lost", "throws") else cur, None)]
        if f.body is None or not is_stream(pt) or len([1 for _ in walk(f.body)]) > 4000:
            return s.memo[k]
        D, r = s.exits(f, {i: cur})
        out = set()
        for a, v, _ in r: out.add((a.get(("s", f.params[i]["id"]), cur), v))
        # a void or stream-returning function yields no verdict
        s.memo[k] = sorted(out, key=repr) or []
        return s.memo[k]


def reporting(P, f):
    rt = P.T({"t": f.d.get("ret")})
    return rt == "bool" or "SerializeResult" in rt or "LoadResult" in rt


def run(ck):
    P = program(); A = IO(P)
    nsave = nload = nhelp = nwrap = 0
    claimed = A.outc
    for f in P.fns.values():                       # functions whose verdict reports the fate of a stream
        if f.body and not f.get("lam") and reporting(P, f) and any(n.get("k") == "Var" and is_file(P.T(n)) for n in walk(f.body)): claimed.add(f.key)
    more = True
    while more:                                    # and the functions that hand it on
        more = False
        for f in P.fns.values():
            if f.body and f.key not in claimed and not f.get("lam") and reporting(P, f) and any(n.get("k") == "Call" and n.get("ck") in claimed for n in walk(f.body)):
                claimed.add(f.key); more = True
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if not f.body or f.get("lam"): continue
        loc = [v for v in walk(f.body) if v.get("k") == "Var" and is_stream(P.T(v)) and not P.T(v).strip().endswith("&")]
        ext = set(i for n in walk(f.body) for i in Dom(P, A).extracts(n)) if loc else set()
        loc = [v for v in loc if is_file(P.T(v)) or ("s", v["id"]) in ext]   # in-memory output streams have no failing medium
        files = [v for v in loc if is_file(P.T(v))]
        readers = [v for v in loc if is_reader(P.T(v))]
        rt = P.T({"t": f.d.get("ret")})
        par = [i for i, p in enumerate(f.params) if is_stream(P.T(p)) and P.T(p).strip().endswith("&")]
        par = par if "SerializeResult" in rt or rt == "bool" and par and not f.n.startswith("operator") else []
        if not (files or readers or par or f.key in claimed): continue
        if par: claimed.add(f.key)
        D, r = A.exits(f, {i: "dirty" for i in par})
        names = {("s", v["id"]): v["n"] for v in loc}
        names.update({("s", f.params[i]["id"]): f.params[i]["n"] for i in par})
        badset = {}; owned = set(("s", v["id"]) for v in files)
        rep = reporting(P, f)
        for a, v, n in r:
            if rep and v is False: continue
            oc = [(k, x) for k, x in a.items() if k[0] == "o"]
            if rep and any(x is False for _, x in oc) and not any(x for _, x in oc):
                badset.setdefault((nt(next(k[2] for k, x in oc if x is False)), "nested"), n)
            for k, x in a.items():
                if k[0] != "s": continue
                base = k if k in names else ("s", int(str(k[1]).rstrip("*"))) if str(k[1]).rstrip("*").isdigit() else None
                if base not in names: continue
                if x in ("dirty", "bad", "lost", "new", "pend") or x == "held" and base in owned: badset.setdefault((names[base], x), n)
        if files and any("ofstream" in P.T(v) or "fstream" in P.T(v) and "ifstream" not in P.T(v) for v in files): nsave += 1
        elif files or readers: nload += 1
        elif par: nhelp += 1
        else: nwrap += 1
        if badset:
            for (nm, x), n in sorted(badset.items(), key=lambda t: t[0]):
                why = {"nested": "although a nested save/load it performed failed", "pend": "without testing the stream after the last write to it", "held": "while written data may still be unflushed", "dirty": "without testing the stream after the last operation on it", "bad": "although the stream is known to have failed",
                       "lost": "after clearing the stream's error state", "new": "without testing that the file was opened"}[x]
                ck.bad("%s: %s %s" % (nt(f.q), nm, x), "%s:%d" % (f.f, (n or {}).get("l", f.l)), "%s can report success %s (%s)" % (f.q, why, nm))
        else: ck.good("%s: every success exit has tested its streams" % f.q)
    # no outcome of a save/load is dropped
    ncall = 0
    isresult = A.isresult
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if not f.body: continue
        for n in walk(f.body):
            if n.get("k") == "Call" and isresult(n): ncall += 1
            kids = []
            if n.get("k") == "Block": kids = n["c"]
            elif n.get("k") in ("If", "For", "While", "RFor", "Do", "Case", "Default"):
                kids = [n.get(x) for x in ("then", "else", "body", "inc")] + (n.get("c", []) if n["k"] in ("Case", "Default") else [])
            for x in kids:
                m = strip(x) if x else None
                if m is not None and m.get("k") == "Bin" and m.get("op") == ",": m = strip(m["c"][-1])
                while m is not None and m.get("k") == "Cast" and m.get("c"): m = strip(m["c"][0])
                if m is not None and m.get("k") == "Call" and isresult(m):
                    ck.bad("%s: %s dropped" % (nt(f.q), nt(m.get("fn", "?"))), "%s:%d" % (f.f, m["l"]), "%s ignores the outcome of %s" % (f.q, m.get("fn")))
        # outcome stored and never looked at
        for v in walk(f.body):
            if v.get("k") == "Var" and v.get("c") and strip(v["c"][0]) is not None and strip(v["c"][0]).get("k") == "Call" and isresult(strip(v["c"][0])):
                void = sum(1 for x in walk(f.body) if x.get("k") == "Cast" and P.T(x) == "void" and strip(x["c"][0]).get("id") == v["id"])
                if sum(1 for x in walk(f.body) if x.get("k") == "Ref" and x.get("id") == v["id"]) > void: ck.good()
                else: ck.bad("%s: %s unread" % (nt(f.q), v["n"]), "%s:%d" % (f.f, v["l"]), "%s stores the outcome of %s and never looks at it" % (f.q, show(strip(v["c"][0]))[:60]))
    ck.floor("functions writing files", nsave, 30)
    ck.floor("functions reading files or parsing streams", nload, 6)
    ck.floor("functions writing to a caller's stream", nhelp, 8)
    ck.cov["functions handing an outcome on"] = nwrap
    ck.floor("calls whose outcome must be used", ncall, 30)
    ck.cov["abstract states visited"] = A.run_
