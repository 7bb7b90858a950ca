"""Structured path-set executor over the extracted AST, parameterised by a domain.
A state is an immutable dict (Fz). The domain supplies
  expr(st, n)  -> list of states        effects of evaluating n
  cond(st, n, loop) -> list of (state, bool)
  decl(st, var) -> list of states
  ret(st, n)   -> list of (state, value)
Loops run to a fixpoint over the finite state set; handlers start from every state seen in the try body."""
from .core import *

CAP = 4000


class Fz(dict):
    def set(s, k, v):
        if s.get(k) == v: return s
        t = Fz(s); t[k] = v; return t

    def drop(s, *ks):
        if not any(k in s for k in ks): return s
        t = Fz(s)
        for k in ks: t.pop(k, None)
        return t

    def key(s): return frozenset(s.items())


def uniq(l):
    d = {}
    for x in l: d.setdefault(x.key(), x)
    return list(d.values())


class Flow:
    def __init__(s, D):
        s.D = D; s.rets = []; s.trycol = None; s.steps = 0

    def run(s, body, st):
        """returns list of (state, value, return node or None)"""
        sv = s.rets, s.trycol
        s.rets = []; s.trycol = None
        f, _, _ = s.block([st], body)
        r = s.rets + [(x, None, None) for x in f]
        s.rets, s.trycol = sv
        return r

    def many(s, states, n):
        o = []
        for st in states: o += s.D.expr(st, n)
        return uniq(o)

    def block(s, states, n):
        if n is None or not states: return states, [], []
        s.steps += len(states)
        if len(states) > CAP: raise Broken("flow: state explosion")
        k = n.get("k"); D = s.D
        if k == "Block":
            br, co = [], []
            for c in n["c"]:
                if s.trycol is not None: s.trycol.extend(states)
                states, b, cc = s.block(states, c); br += b; co += cc
                if s.trycol is not None: s.trycol.extend(states)
                if not states: break
            return states, uniq(br), uniq(co)
        if k == "Decl":
            for v in n["c"]:
                nx = []
                for st in states: nx += D.decl(st, v)
                states = uniq(nx)
            return states, [], []
        if k == "If":
            if n.get("init"): states, _, _ = s.block(states, n["init"])
            if n.get("cv_"):
                nx = []
                for st in states: nx += D.decl(st, n["cv_"])
                states = nx
            t, e = [], []
            for st in states:
                for a, b in D.cond(st, n["cond"], False): (t if b else e).append(a)
            t1, b1, c1 = s.block(uniq(t), n["then"])
            e1, b2, c2 = s.block(uniq(e), n["else"]) if n.get("else") else (uniq(e), [], [])
            return uniq(t1 + e1), b1 + b2, c1 + c2
        if k in ("For", "While", "Do", "RFor"):
            if n.get("init"): states, _, _ = s.block(states, n["init"])
            if k == "RFor" and n.get("range"): states = s.many(states, n["range"])
            seen = {}; work = list(states); exits = []
            while work:
                st = work.pop(); kk = st.key()
                if kk in seen: continue
                seen[kk] = st
                if len(seen) > CAP: raise Broken("flow: loop state explosion")
                ent = []
                if k == "Do": ent = [st]
                elif k == "RFor":
                    exits.append(st)
                    ent = D.decl(st, n["var"]) if isinstance(n.get("var"), dict) and n["var"].get("k") == "Var" else [st]
                elif n.get("cond") is None: ent = [st]
                else:
                    for a, b in D.cond(st, n["cond"], True): (ent if b else exits).append(a)
                f, br, co = s.block(uniq(ent), n["body"])
                exits += br
                f = uniq(f + co)
                if k == "For" and n.get("inc"): f = s.many(f, n["inc"])
                if k == "Do":
                    nf = []
                    for a in f:
                        for x, b in D.cond(a, n["cond"], True): (nf if b else exits).append(x)
                    f = nf
                work += uniq(f)
            return uniq(exits), [], []
        if k == "Return":
            c = n.get("c")
            for st in states:
                if c:
                    for a, v in D.ret(st, c[0]): s.rets.append((a, v, n))
                else: s.rets.append((st, None, n))
            seen = {}
            for r in s.rets: seen.setdefault((r[0].key(), repr(r[1]), id(r[2])), r)
            s.rets = list(seen.values())
            if s.trycol is not None: s.trycol.extend(states)
            return [], [], []
        if k == "Break": return [], states, []
        if k == "Continue": return [], [], states
        if k == "Switch":
            if n.get("init"): states, _, _ = s.block(states, n["init"])
            entry = s.many(states, n["cond"]); cur = []; brk = []; co = []; hasdef = False
            body = n["body"].get("c", []) if n["body"] else []
            for c in body:
                x = c
                while x is not None and x.get("k") in ("Case", "Default"):
                    hasdef |= x["k"] == "Default"
                    cur = uniq(cur + entry); x = x["c"][0]
                cur, b, cc = s.block(cur, x); brk += b; co += cc
            return uniq(cur + brk + ([] if hasdef else entry)), [], co
        if k == "Try":
            sv = s.trycol; s.trycol = list(states)
            f, b, c = s.block(states, n["body"])
            mid = uniq(s.trycol + f); s.trycol = sv
            if sv is not None: sv.extend(mid)
            for h in n.get("h", []):
                a, b2, c2 = s.block(mid, h["body"])
                f = uniq(f + a); b += b2; c += c2
            return f, b, c
        if k in ("Null", "Goto", "Label", "Other"): return states, [], []
        if k == "Throw":
            if s.trycol is not None: s.trycol.extend(s.many(states, n["c"][0]) if n.get("c") else states)
            return [], [], []
        r = s.many(states, n)
        if D.noreturn(n): return [], [], []
        return r, [], []
