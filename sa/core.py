"""Loading of the resolved program and common helpers. Standard library only."""
import hashlib, json, os, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MML_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
RES = "/usr/lib/llvm-18/lib/clang/18"


class Broken(Exception):
    """The analysis could not be carried out (vanished anchor, parse failure, ...): error exit."""


def headers(repo=None):
    repo = repo or REPO
    out = []
    base = os.path.join(repo, "mml")
    for d, dn, fs in os.walk(base):
        dn.sort()
        if "single_header" in d:
            continue
        for f in sorted(fs):
            if f.endswith(".h"):
                out.append(os.path.relpath(os.path.join(d, f), repo))
    return sorted(out)


def tool():
    r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh")], capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("extractor build failed: " + r.stderr[-2000:])
    return r.stdout.strip().splitlines()[-1]


def tree_hash(repo, hs, extra=()):
    h = hashlib.sha256()
    for f in hs:
        h.update(f.encode()); h.update(open(os.path.join(repo, f), "rb").read())
    for e in extra:
        h.update(open(e, "rb").read())
    return h.hexdigest()[:24]


def extract(repo=None, source=None, tag="all"):
    """Runs the extractor on all headers (or on the given source text); returns path of the JSONL."""
    repo = repo or REPO
    hs = headers(repo)
    if source is None and len(hs) < 150:
        raise Broken("only %d headers found under %s/mml" % (len(hs), repo))
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        t = tool()
        wit = os.path.join(VERIF, "witness", "witness.inc")
        if source is None:
            src = "".join('#include "%s"\n' % h for h in hs) + open(wit).read()
        else:
            src = source
        hsh = hashlib.sha256((tree_hash(repo, hs, [t]) + src).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "ast-%s-%s.jsonl" % (tag, hsh))
        if os.path.exists(out):
            return out
        for f in os.listdir(BUILD):           # keep the cache small
            if f.startswith("ast-%s-" % tag):
                os.remove(os.path.join(BUILD, f))
        cpp = os.path.join(BUILD, "umbrella-%s.cpp" % tag)
        open(cpp, "w").write(src)
        tmp = out + ".tmp"
        r = subprocess.run([t, repo, tmp, cpp, "--", "-std=c++17", "-I" + repo, "-I" + repo + "/mml", "-resource-dir", RES],
                           capture_output=True, text=True, cwd=BUILD)
        if not os.path.exists(tmp) or os.path.getsize(tmp) < 1000 and source is None:
            raise Broken("extractor failed rc=%d: %s" % (r.returncode, r.stderr[-2000:]))
        if r.returncode < 0:
            raise Broken("extractor crashed rc=%d: %s" % (r.returncode, r.stderr[-1500:]))
        os.rename(tmp, out)
        open(out + ".log", "w").write(r.stderr)
        return out
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


class Fn:
    __slots__ = ("d", "key", "q", "n", "f", "l", "el", "cls", "kind", "params", "body", "_p")

    def __init__(s, d):
        s.d = d; s.key = d["key"]; s.q = d["q"]; s.n = d["n"]; s.f = d["f"]; s.l = d["l"]; s.el = d.get("el", d["l"])
        s.cls = d.get("cls"); s.kind = d["kind"]; s.params = d["params"]; s.body = d.get("body")

    def get(s, k, dflt=None):
        return s.d.get(k, dflt)

    @property
    def where(s):
        return "%s:%d" % (s.f, s.l)

    def __repr__(s):
        return "<%s %s>" % (s.q, s.where)


class Program:
    def __init__(s, path):
        s.fns = {}; s.recs = {}; s.recs_all = []; s.enums = {}; s.vars = []; s.incs = []; s.types = {}; s.meta = None
        ty = []
        for L in open(path):
            d = json.loads(L); k = d["k"]
            if k == "fn": s.fns[d["key"]] = Fn(d)
            elif k == "rec": s.recs_all.append(d)
            elif k == "enum": s.enums[d["q"]] = d
            elif k == "var": s.vars.append(d)
            elif k == "inc": s.incs.append(d)
            elif k == "ty": ty.append(d)
            elif k == "meta": s.meta = d
        s.tn = {t["i"]: t["n"] for t in ty}
        s.tc = {t["i"]: t.get("c", t["n"]) for t in ty}
        for r in s.recs_all:
            o = s.recs.get(r["key"])
            # prefer: non-dependent over dependent
            if o is None or (o.get("dep") and not r.get("dep")):
                s.recs[r["key"]] = r
        s.byq = {}
        for f in s.fns.values():
            s.byq.setdefault(nt(f.q), []).append(f)
        s.bycls = {}
        for f in s.fns.values():
            if f.cls: s.bycls.setdefault(f.cls, []).append(f)

    def T(s, n):
        """canonical type string of node / param / field"""
        t = n.get("t") if isinstance(n, dict) else n
        return s.tc.get(t, "?")

    def TS(s, n):
        t = n.get("t") if isinstance(n, dict) else n
        return s.tn.get(t, "?")

    def callee(s, n):
        ck = n.get("ck")
        return s.fns.get(ck) if ck else None


def nt(q):
    """strip template arguments from a qualified name"""
    if "operator<" in q or "operator>" in q or "operator-" in q:
        i = q.find("operator"); head = q[:i]; return nt(head) + q[i:] if "<" in head else q
    o = []; d = 0
    for c in q:
        if c == "<": d += 1
        elif c == ">": d -= 1
        elif d == 0: o.append(c)
    return "".join(o)


_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program(extract())
        if len(_prog.fns) < 3500:
            raise Broken("only %d functions extracted" % len(_prog.fns))
    return _prog


CH = ("init", "cv_", "cond", "inc", "then", "else", "body", "var", "range", "v", "obj", "callee")


def children(n):
    for k in CH:
        x = n.get(k)
        if isinstance(x, dict):
            yield x
    for k in ("c", "h", "ci"):
        x = n.get(k)
        if isinstance(x, list):
            for y in x:
                if isinstance(y, dict): yield y


def walk(n, lambdas=True):
    if n is None: return
    st = [n]
    while st:
        x = st.pop()
        yield x
        if x.get("k") == "Lambda" and not lambdas and x is not n:
            continue
        st.extend(reversed(list(children(x))))


def strip(n):
    """drop value-preserving wrappers"""
    while n is not None:
        k = n.get("k")
        if k in ("ICast", "DefArg", "DefInit") and n.get("c"): n = n["c"][0]
        elif k == "Cast" and n.get("c") and n.get("cs") in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"): n = n["c"][0]
        elif k == "Ctor" and n.get("cp") and len(n.get("c", [])) == 1: n = n["c"][0]
        elif k == "Call" and n.get("fn") in ("std::move", "std::forward") and n.get("c"): n = n["c"][0]
        elif k == "InitList" and len(n.get("c", [])) == 1 and False: n = n["c"][0]
        else: return n
    return n


def show(n, depth=0):
    """compact source-like rendering for reports and canonical comparison"""
    if n is None: return ""
    k = n.get("k"); c = n.get("c", [])
    if k in ("ICast", "DefArg", "DefInit"): return show(c[0]) if c else ""
    if k in ("Ref",): return n["n"]
    if k == "Mem":
        b = c[0] if c else None
        if b is not None and b.get("k") == "This": return n["n"]
        return show(b) + ("->" if n.get("arrow") else ".") + n["n"]
    if k == "DepMem": return (show(c[0]) + "." if c else "") + n["n"]
    if k == "DepRef": return n["n"]
    if k in ("Int", "Float"): return n.get("s") or n["v"]
    if k == "Bool": return "true" if n["v"] else "false"
    if k == "Str": return json.dumps(n.get("v", ""))
    if k == "This": return "this"
    if k == "Bin": return "(%s %s %s)" % (show(c[0]), n["op"], show(c[1]))
    if k == "Un":
        return (show(c[0]) + n["op"][1:]) if n["op"].startswith("p") else n["op"] + show(c[0])
    if k == "Cond": return "(%s ? %s : %s)" % tuple(show(x) for x in c)
    if k == "Idx": return "%s[%s]" % (show(c[0]), show(c[1]))
    if k == "Cast": return "(%s)" % (show(c[0]) if c else "")
    if k == "Call":
        op = n.get("op")
        if op:
            a = ([n["obj"]] if n.get("obj") else []) + c
            if op == "[]" and len(a) == 2: return "%s[%s]" % (show(a[0]), show(a[1]))
            if op == "()": return "%s(%s)" % (show(a[0]), ", ".join(show(x) for x in a[1:]))
            if len(a) == 2: return "(%s %s %s)" % (show(a[0]), op, show(a[1]))
            if len(a) == 1: return op + show(a[0])
        args = ", ".join(show(x) for x in c)
        nm = n.get("fn", "").split("::")[-1] if n.get("fn") else show(n.get("callee"))
        if n.get("obj"):
            o = n["obj"]
            return (show(o) + "." if o.get("k") != "This" else "") + "%s(%s)" % (nm, args)
        return "%s(%s)" % (nm, args)
    if k == "Ctor":
        if n.get("cp") and len(c) == 1: return show(c[0])
        return "%s(%s)" % (n.get("cls", "").split("::")[-1], ", ".join(show(x) for x in c))
    if k == "InitList": return "{%s}" % ", ".join(show(x) for x in c)
    if k == "Throw": return "throw %s" % (show(c[0]) if c else "")
    if k == "Lambda": return "[lambda@%d]" % n["l"]
    if k == "Return": return "return %s" % (show(c[0]) if c else "")
    if k == "Var": return "%s%s" % (n["n"], " = " + show(c[0]) if c else "")
    if k == "Decl": return "; ".join(show(x) for x in c)
    return "%s(%s)" % (k, ", ".join(show(x) for x in c)) if depth < 4 else k


def const(n):
    """numeric constant value of an expression node or None (python int/float via string)"""
    n0 = n
    n = strip(n)
    if n is None: return None
    k = n.get("k")
    if k == "Int": return int(n["v"])
    if k == "Float": return float(n["v"])
    if k == "Bool": return int(n["v"])
    if k == "Char": return int(n["v"])
    if "cv" in n:
        v = n["cv"]
        try: return int(v)
        except ValueError:
            try: return float(v)
            except ValueError: return None
    if n0 is not n and "cv" in n0:
        try: return int(n0["cv"])
        except ValueError: return None
    return None


def is_float_type(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return t in ("double", "float", "long double")


# ------------------------------------------------------------------ reporting
class Check:
    def __init__(s, pid, tier="quick"):
        s.pid = pid; s.tier = tier; s.t0 = time.time()
        s.viol = []; s.cov = {}; s.obl = 0; s.ok = 0; s.notes = []; s.assumptions = []; s.samples = []

    def need(s, cond, msg):
        if not cond: raise Broken("%s: %s" % (s.pid, msg))

    def good(s, what=None):
        s.obl += 1; s.ok += 1
        if what and len(s.samples) < 12: s.samples.append(what)

    def bad(s, key, where, msg):
        """key: stable identity of the construct (function + construct), where: file:line"""
        s.obl += 1
        s.viol.append({"key": key, "where": where, "msg": msg})

    def floor(s, name, n, minimum):
        s.cov[name] = n
        s.need(n >= minimum, "instance count of %s is %d, below the confirmed floor %d" % (name, n, minimum))


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p))["findings"]
