"""C02: no writable state shared between threads: static storage is never written by a computation, const members write nothing."""
from .effects import *

# classes whose const members are documented / designed to update the object itself; one owner thread (one line of reason each)
OWNER = {
    "MML::Systems::LinearSystem": "facade with lazily computed, cached decompositions",
    "MML::ThreadPool": "locks its own mutexes (decided by C03)",
    "MML::BulirschStoer_Stepper": "documented: one stepper instance per thread",
    "MML::BulirschStoerRational_Stepper": "documented: one stepper instance per thread",
    "MML::Integral2DOuter": "integrand adapter, lives on the stack of one integration call",
    "MML::Integral2DInner": "integrand adapter, lives on the stack of one integration call",
    "MML::Integral3DOuter": "integrand adapter, lives on the stack of one integration call",
    "MML::Integral3DInner": "integrand adapter, lives on the stack of one integration call",
    "MML::Integral3DInnermost": "integrand adapter, lives on the stack of one integration call",
    "MML::Optimization::DLineFunction": "line-search adapter, lives on the stack of one minimisation call",
    "MML::TablePrinter": "console output helper, tools layer documents no thread safety",
}
IGNORED_GLOB = ("std::cout", "std::cerr", "std::clog", "std::cin")
CONFIG_WRITERS = ("Set", "set", "reset", "Reset")


def run(ck):
    P = program(); E = effects()
    tls = set(nt(v["q"]) for v in P.vars if v.get("tls"))
    tlsf = set()
    for f in P.fns.values():
        if f.body and any(v.get("k") == "Var" and v.get("static") and v.get("tls") for v in walk(f.body)): tlsf.add(f.key)
    statics = 0
    for v in P.vars:
        t = P.T(v)
        if v.get("const") or v.get("cexpr") or v.get("tls") or (t.startswith("const ") and not t.endswith("*")): continue
        statics += 1
        # a static-storage reference / pointer initialised from per-thread storage is bound once, to one thread's object
        if v.get("ref"):
            hit = [P.callee(n) for n in walk((v.get("c") or [None])[0]) if n.get("k") == "Call"] if v.get("c") else []
            if any(h is not None and h.key in tlsf for h in hit):
                ns = nt(v["q"]).rsplit("::", 1)[0]
                ck.bad("%s: static reference bound to one thread's thread_local object" % ns, "%s:%d" % (v["f"], v["l"]),
                       "%s is a process-wide reference initialised from a thread_local object: every thread that uses it shares the initialising thread's value" % v["q"])
                continue
        ck.good()
    fns = consts = 0
    for k in sorted(E.sum):
        f = P.fns[k]; fns += 1
        for r in sorted(E.sum[k], key=str):
            if r[0] == "glob" and r[1] not in tls and r[1] not in IGNORED_GLOB and not r[1].startswith("std::"):
                if E.via[(k, r)][1] is not None: continue                 # reported at the function that contains the write
                if (f.n.startswith(CONFIG_WRITERS)): continue
                ck.bad("%s writes static storage %s" % (nt(f.q), r[1]), "%s:%d" % (f.f, E.via[(k, r)][0]),
                       "%s writes the static-storage object %s (%s): concurrent independent calls race on it" % (f.q, r[1], E.chain(k, r)))
        if f.get("cst") and f.cls:
            consts += 1
            if nt(f.cls) in OWNER: continue
            ws = sorted(set(r[1] for r in E.sum[k] if r[0] == "this"))
            # members that synchronise themselves
            if ws: ws = [w for w in ws if not selfsync(P, f.cls, w)]
            if ws and not locked(P, f):
                direct = [r for r in E.sum[k] if r[0] == "this" and r[1] in ws]
                if all(E.via[(k, r)][1] is not None and P.fns[E.via[(k, r)][1]].get("cst") and P.fns[E.via[(k, r)][1]].cls == f.cls for r in direct): continue
                for r in direct:
                    ck.bad("%s: const member writes %s" % (nt(f.cls), r[1]), "%s:%d" % (f.f, E.via[(k, r)][0]),
                           "%s is const but writes the member %s (%s) without synchronisation: concurrent reads of one object race" % (f.q, r[1], E.chain(k, r)))
            else: ck.good(f.q + " writes no member" if len(ck.samples) < 6 else None)
    # no per-call static locals with a non-constant, later written value
    for f in P.fns.values():
        for v in (walk(f.body) if f.body else ()):
            if v.get("k") == "Var" and v.get("static") and not v.get("tls") and v.get("c"):
                dep = [x for x in walk(v["c"][0]) if x.get("k") == "Ref" and x.get("dk") in ("parm", "local")] + [x for x in walk(v["c"][0]) if x.get("k") == "This"]
                if dep:
                    ck.bad("%s: static local %s initialised from a call's arguments" % (nt(f.q), v["n"]), "%s:%d" % (f.f, v["l"]),
                           "%s keeps the value computed from the first call's arguments in static local %s and reuses it for every later call" % (f.q, v["n"]))
                else: ck.good()
    ck.floor("functions_with_effect_summary", fns, 3500)
    ck.floor("const_members", consts, 1000)
    ck.floor("mutable_static_objects", statics, 20)
    ck.cov["owner_thread_classes"] = OWNER


def selfsync(P, cls, m):
    r = P.recs.get(nt(cls)) or next((x for x in P.recs.values() if nt(x["q"]) == nt(cls)), None)
    for f in (r or {}).get("fields", []):
        if f["n"] == m:
            t = P.T(f)
            return t.startswith(("std::atomic", "std::mutex", "std::shared_mutex", "std::recursive_mutex", "std::once_flag"))
    return False


def locked(P, f):
    return any(n.get("k") == "Var" and any(x in P.T(n) for x in ("lock_guard", "unique_lock", "scoped_lock")) for n in walk(f.body))
