"""C10: every header stands alone, in any order and in several source files; every member of every named instance compiles.

Type-level witnesses decided by the compiler's semantic analysis (no object code is produced or run):
 R1 a translation unit that includes one header, twice, and nothing else, is accepted - for every header of the library;
 R2 all headers together are accepted in path order and in reverse path order;
 R3 the program formed from all headers defines nothing with strong external linkage (else two source files clash);
 R4 every member of every template instance the library names (aliases) or documents (witness/c10.inc) is accepted."""
import concurrent.futures, os, re, subprocess, tempfile
from . import core

CC = ["clang++", "-std=c++17", "-Wno-everything", "-I", None, "-I", None, "-x", "c++", "-"]
INTERNAL = re.compile(r"(^|/)(detail|details|impl|internal)/|[._-](impl|detail|internal)\.h$", re.I)
# members that have no meaning for the instance (C++ cannot remove them from an explicit instantiation)
EXEMPT = {
    r"Polynom<.*,.+>::FromValues": "interpolating values of a field wider than the coefficients has no result with those coefficients",
    r"Vector<.*complex.*>::UnitVector": "rejected by a static assertion with a message",
    r"Graph<.*basic_string.*>::Graph": "vertices numbered 0..n-1 have no text label to convert the number to",
}
OPEN = ("Vector", "VectorN", "Matrix", "MatrixNM", "Polynom", "Matrix3D", "MatrixSym", "TridiagonalMatrix")


def cc(src, flags):
    a = [core.REPO + "/mml" if x is None and i == 4 else core.REPO if x is None else x for i, x in enumerate(CC)]
    r = subprocess.run(a[:-3] + flags + a[-3:], input=src, capture_output=True, text=True, cwd="/")
    if r.returncode < 0 or "PLEASE submit a bug report" in r.stderr: raise core.Broken("clang crashed: " + r.stderr[-300:])
    return r


def diags(text):
    """[(file, line, message, requested-by, instance member or None, surrounding class)] of the errors in a clang run"""
    out = []
    for l in text.splitlines():
        m = re.match(r"(\S+?):(\d+):\d+: (?:fatal )?error: (.*)", l)
        if m: out.append([os.path.normpath(m.group(1)).replace(core.REPO + "/", ""), int(m.group(2)), m.group(3), None]); continue
        m = re.search(r"note: in instantiation of (?:member function|function template specialization|member class|template class|static data member|default function argument expression for|exception specification for|template type alias) '(.*?)' requested here", l)
        if m and out and out[-1][3] is None: out[-1][3] = m.group(1).replace("MML::", "")
    for a, b in zip(out, out[1:]):          # the compiler names the instance once, at the first of several errors in one body
        if b[3] is None and a[0] == b[0]: b[3] = a[3]
    return out


def short(m): return re.sub(r"\s+", " ", re.sub(r"\(aka '[^']*'\)", "", m))[:110]


def aliases():
    """instances of the container templates that the library gives a name to: their text, as written after the alias"""
    out = []
    for h in core.headers():
        txt = open(os.path.join(core.REPO, h), encoding="latin-1").read()
        for i, l in enumerate(txt.splitlines(), 1):
            m = re.match(r"\s*(?:typedef\s+(\w+\s*<.*>)\s+\w+\s*;|using\s+\w+\s*=\s*(\w+\s*<.*>)\s*;)", l)
            t = m and (m.group(1) or m.group(2)).strip()
            if t and re.sub(r"\s*<.*", "", t) in OPEN and not re.search(r"\b(?!(?:Real|Complex|double|float|int|long|%s)\b)[A-Za-z_]\w*" % "|".join(OPEN), t): out.append(re.sub(r"\bdouble\b", "Real", t))
    return out


def run(ck):
    hs = core.headers()
    pub = [h for h in hs if not INTERNAL.search(h)]
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        f_fwd = ex.submit(cc, "".join('#include "%s"\n' % h for h in hs), ["-S", "-emit-llvm", "-O0", "-ferror-limit=0", "-o", "-"])
        f_rev = ex.submit(cc, "".join('#include "%s"\n' % h for h in reversed(pub)), ["-fsyntax-only", "-ferror-limit=0"])
        wit = open(os.path.join(core.VERIF, "witness", "c10.inc")).read()
        al = sorted({x for x in aliases()})
        extra = [x for x in al if "template class %s;" % x not in wit]
        if extra: wit += "namespace MML {\n" + "".join("template class %s;\n" % x for x in extra) + "}\n"
        off = len(hs)
        f_wit = ex.submit(cc, "".join('#include "%s"\n' % h for h in hs) + wit, ["-fsyntax-only", "-ferror-limit=0"])
        alone = {h: ex.submit(cc, '#include "%s"\n#include "%s"\n' % (h, h), ["-fsyntax-only", "-ferror-limit=20"]) for h in pub}
        res = {h: f.result() for h, f in alone.items()}
        fwd, rev, ww = f_fwd.result(), f_rev.result(), f_wit.result()

    # R1
    failing = {h for h, r in res.items() if r.returncode != 0}
    for h in pub:
        r = res[h]
        if r.returncode == 0: ck.good("%s compiles on its own" % h); continue
        d = diags(r.stderr)
        if not d: raise core.Broken("clang failed on %s without a diagnostic: %s" % (h, r.stderr[-300:]))
        # blame the header the error is in; a header that only includes a failing one repeats its error
        f, l, m, who = d[0]
        if f != h and f in failing: continue
        ck.bad("%s: not usable on its own: %s" % (h, short(m)), "%s:%d" % (f, l),
               "a source file that includes only this header is rejected: %s" % m[:200])
    # thorough: the same source files through the other compiler
    if ck.tier == "thorough":
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            def gcc(src): return subprocess.run(["g++", "-std=c++17", "-w", "-fsyntax-only", "-I", core.REPO + "/mml", "-I", core.REPO, "-x", "c++", "-"],
                                                input=src, capture_output=True, text=True, cwd="/")
            g = {h: ex.submit(gcc, '#include "%s"\n#include "%s"\n' % (h, h)) for h in pub}
            g = {h: f.result() for h, f in g.items()}
        gf = {h for h, r in g.items() if r.returncode != 0}
        for h in pub:
            if h in failing: continue
            if g[h].returncode == 0: ck.good("%s compiles on its own (g++)" % h); continue
            d = diags(g[h].stderr)
            if not d: raise core.Broken("g++ failed on %s without a diagnostic: %s" % (h, g[h].stderr[-300:]))
            f, l, m, who = d[0]
            if f != h and f in gf: continue
            ck.bad("%s: not usable on its own: %s" % (h, short(m)), "%s:%d" % (f, l), "a source file that includes only this header is rejected by g++: %s" % m[:200])
    # R2
    for name, r in (("path order", fwd), ("reverse path order", rev)):
        d = diags(r.stderr)
        if r.returncode != 0 and not d: raise core.Broken("clang failed on all headers in %s: %s" % (name, r.stderr[-300:]))
        seen = set()
        for f, l, m, who in d:
            if (f, m) in seen or f in failing: continue
            seen.add((f, m))
            ck.bad("all headers in %s: %s: %s" % (name, f, short(m)), "%s:%d" % (f, l), "including all headers in %s is rejected: %s" % (name, m[:200]))
        if not d: ck.good("all headers accepted in %s" % name)
    # R3
    nd = 0
    if fwd.returncode == 0:
        strong = []
        for l in fwd.stdout.splitlines():
            m = re.match(r"(?:define|@)", l)
            if not m: continue
            if l.startswith("define "):
                nd += 1
                if re.match(r"define (?:dso_local )?(?:linkonce|weak|internal|private|available_externally|appending)", l) or re.search(r"define [^@]*\b(linkonce_odr|internal|private|weak_odr|weak)\b[^@]*@", l): continue
                n = re.search(r'@("?)([\w.$]+)\1\(', l)
                if n: strong.append(n.group(2))
            else:
                m = re.match(r'@"?([\w.$ ]+)"? = (.*)', l)
                if not m: continue
                nd += 1
                if re.match(r"(?:dso_local )?(?:private|internal|linkonce|weak|external|appending|available_externally|common)", m.group(2)) or m.group(1).startswith("llvm."): continue
                if re.search(r"\b(global|constant|alias)\b", m.group(2)): strong.append(m.group(1))
        for s in strong:
            dn = subprocess.run(["c++filt", s], capture_output=True, text=True).stdout.strip() if s.startswith("_Z") else s
            ck.bad("%s: defined in every source file" % dn, "mml (header)", "%s has a strong external definition in a header: two source files that include it do not link" % dn)
        if not strong: ck.good("no strong definition among the definitions of the headers")
    # R4
    inst = re.findall(r"^template (?:class|struct) (.*);$", wit, re.M)
    nm = 0; ex_n = set(); bad = {}; gone = set()
    d = diags(ww.stderr)
    if ww.returncode != 0 and not d: raise core.Broken("clang failed on the witness: %s" % ww.stderr[-300:])
    lines = wit.splitlines()
    for f, l, m, who in d:
        if f in failing: continue
        if f.startswith("<stdin>") or f == "<stdin>":
            w = lines[l - 1 - off] if 0 <= l - 1 - off < len(lines) else "?"
            gone.add(w.strip()); continue       # the library no longer offers this instance under this spelling
        e = [r for p, r in EXEMPT.items() if re.search(p, who or "")]
        if e: ex_n.add(who); continue
        bad.setdefault(who or f, (f, l, m))
    for who, (f, l, m) in sorted(bad.items()):
        ck.bad("%s: member does not compile" % who, "%s:%d" % (f, l), "instantiating %s is rejected: %s" % (who, m[:200]))
    owners = {re.sub(r"<.*", "", b.split(" ")[-1]) for b in bad}
    inst = [i for i in inst if not any(g.endswith(" %s;" % i) for g in gone)]
    for i in inst:
        if not any(re.sub(r"<.*", "", i).split("::")[-1] == o.split("::")[-1] for o in owners): ck.good("every member of %s" % i)
    ck.floor("headers", len(pub), 150); ck.floor("instances", len(inst), 120); ck.floor("definitions_examined", nd, 500 if fwd.returncode == 0 else 0)
    ck.floor("named_instances", len(al), 25)
    ck.cov.update(unresolved_witnesses=sorted(gone), exempt_members=sorted(ex_n))
    return ck
