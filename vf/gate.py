"""Gated value numbering: join (phi) terms become conditional terms over the branch conditions between the join and its
immediate dominator, so that the value of a variable is one closed expression; cofactors of that expression with respect to
its conditions give the value in each combination of branches. Also: contents of arrays filled element by element in a loop."""
from .gvn import *
from .alg import same

class Gate:
    def __init__(self, F, limit=4000):
        self.F = F; self.memo = {}; self.limit = limit; self.steps = 0
        self.busy = set()
    def term(self, t):
        return subst(t, self._one, {})
    def _one(self, t):
        if t.op == "phi" and t.args[0] >= 0 and t.args[0] not in self.F.loops: return self.phi(t)
        return None
    def phi(self, t):
        if t in self.memo: return self.memo[t]
        if t in self.busy: return None
        F = self.F; i, loc = t.args
        if i not in F.idom or F.byid.get(i) is None: return None
        self.busy.add(t)
        d = F.idom[i]
        try:
            r = self.walk(d, i, loc, {}, True)
        finally: self.busy.discard(t)
        self.memo[t] = r
        return r
    def walk(self, n, i, loc, seen, first=False):
        """value loc has at join i when control is at n"""
        F = self.F
        if n in seen: return seen[n]
        seen[n] = None
        self.steps += 1
        if self.steps > self.limit: return None
        if n in F.loops:
            # leave the loop: all exits must lead to one node outside
            body = F.loops[n]
            if i in body:
                if first: pass
                else: return None
            else:
                ex = {(a, j, lab) for a in body for j, lab in F.succ[a] if j not in body}
                if len({j for _, j, _ in ex}) != 1 or any(F.byid[a].id != n and len(F.succ[a]) > 1 and a not in self._tests(n) for a, _, _ in ex): 
                    if len(ex) != 1: return None
                a, j, _ = next(iter(ex))
                r = self.edge(a, j, i, loc, seen)
                seen[n] = r
                return r
        ss = F.succ[n]
        if len(ss) == 1: r = self.edge(n, ss[0][0], i, loc, seen)
        elif len(ss) == 2 and F.byid[n].kind == "cond":
            a, pol = F.cond_term(n)
            y = z = None
            for j, lab in ss:
                v = self.edge(n, j, i, loc, seen)
                if v is None: seen[n] = None; return None
                if lab is True: y = v
                else: z = v
            a = self.term(a)
            if not pol: y, z = z, y
            r = y if y is z else mk("ite", a, y, z)
        elif F.byid[n].kind == "switch":
            r = None
            x = self.term(F.ev(F.byid[n].ast, dict(F.IN[n]), n))
            dflt = None; arms = []
            for j, lab in ss:
                v = self.edge(n, j, i, loc, seen)
                if v is None: return None
                if isinstance(lab, tuple): arms.append((lab[1], v))
                else: dflt = v
            if dflt is None: dflt = arms[-1][1]
            r = dflt
            for c, v in sorted(arms, key=lambda p: -p[0]):
                if v is not r: r = mk("ite", mk("eq", *sorted((x, num(c)), key=lambda t: t.id)), v, r)
        else: r = None
        seen[n] = r
        return r
    def _tests(self, h): return ()
    def edge(self, a, j, i, loc, seen):
        F = self.F
        if j == i:
            env = F.OUT.get(a)
            if env is None: return None
            v = env[loc] if loc in env else F._initial(env, loc)
            return self.term(v)
        return self.walk(j, i, loc, seen)

# ---------------------------------------------------------------- conditional terms
def cond_atoms(t):
    """conditions of ite terms in t that contain no further ite"""
    out = []
    for s in sorted((s for s in subterms(t) if s.op == "ite"), key=lambda s: s.id):
        a = s.args[0]
        if not any(x.op == "ite" for x in subterms(a)): out.append(a)
    return out

def split(a):
    """atoms a condition is built from"""
    if a.op in ("&&", "||"):
        return split(a.args[0]) + split(a.args[1])
    if a.op == "not": return split(a.args[0])
    if a.op == "nz" and a.args[0].op in ("lt", "eq", "&&", "||", "not", "nz"): return split(a.args[0])
    return [a]

def holds(a, facts):
    if a.op == "true": return True
    if a.op == "c": return a.args[0] != 0
    if a in facts: return facts[a]
    if a.op == "not":
        v = holds(a.args[0], facts); return None if v is None else not v
    if a.op in ("&&", "||"):
        x, y = holds(a.args[0], facts), holds(a.args[1], facts)
        if a.op == "&&":
            if x is False or y is False: return False
            return True if x and y else None
        if x or y: return True
        return False if x is False and y is False else None
    if a.op == "nz":
        if a.args[0].op == "c": return a.args[0].args[0] != 0
        if a.args[0].op in ("lt", "eq", "&&", "||", "not", "nz"): return holds(a.args[0], facts)
        return None
    if a.op == "lt":
        x, y = a.args
        if x.op == "c" and y.op == "c": return x.args[0] < y.args[0]
        if x is y: return False
    if a.op == "eq":
        x, y = a.args
        if x is y: return True
        if x.op == "c" and y.op == "c": return x.args[0] == y.args[0]
    return None

def reduce(t, facts, norm=None):
    """t with the conditions decided by facts resolved"""
    def f(x):
        if x.op == "ite":
            c = subst(x.args[0], f, memo)
            if norm: c = norm(c)
            v = holds(c, facts)
            if v is True: return subst(x.args[1], f, memo)
            if v is False: return subst(x.args[2], f, memo)
            y, z = subst(x.args[1], f, memo), subst(x.args[2], f, memo)
            return y if y is z else mk("ite", c, y, z)
        return None
    memo = {}
    return subst(t, f, memo)

class TooMany(Exception): pass
def leaves(terms, facts=None, norm=None, consistent=None, limit=3000):
    """[(facts, terms)]: every combination of branch outcomes the terms depend on"""
    out = []
    def go(ts, fs):
        if len(out) > limit: raise TooMany()
        ts = [reduce(t, fs, norm) for t in ts]
        pick = None
        for t in ts:
            for a in cond_atoms(t):
                for b in split(norm(a) if norm else a):
                    if holds(b, fs) is None: pick = b; break
                if pick is not None: break
            if pick is not None: break
        if pick is None:
            out.append((fs, ts)); return
        for v in (True, False):
            n = dict(fs); n[pick] = v
            if consistent is None or consistent(n): go(ts, n)
    go(list(terms), dict(facts or {}))
    return out

def feasible(facts):
    """no two linear facts contradict each other on an open set"""
    es = []
    for a, v in facts.items():
        if a.op == "lt":
            d = sub(a.args[1], a.args[0]) if v else sub(a.args[0], a.args[1])
            es.append(d)
    for i in range(len(es)):
        for j in range(i):
            k = cval(add(es[i], es[j]))
            if k is not None and k <= 0: return False
    return True

# ---------------------------------------------------------------- canonical names
class Names:
    """rewrites terms of one function so that terms of different functions can be compared: no versions, arrays named by the
    vector or field they come from, contexts named by field only, loop counters by nesting depth"""
    def __init__(self, F, intfields=frozenset()):
        self.F = F; self.argof = {}; self.scal = {}
        for n, c, args in F.sites():
            self.argof.setdefault((n.id, c.get("fn")), args)
            ts = F.f.types
            self.scal[(n.id, c.get("fn"))] = [a for a, x in zip(args, c["a"]) if ts[x["t"]][2] in ("int", "flt", "enum", "bool")]
        self.depth = {}
        self.ints = intfields
    def counters(self, node):
        """phi term of the counter -> its depth at node"""
        hs = self.F.loops_of(node)[::-1]
        out = {}
        rg = self.F.ranges()
        for t in rg:
            if t.args[0] in hs: out[t] = hs.index(t.args[0])
        return out
    def canon(self, t, names, memo=None):
        """names: counter phi -> symbol"""
        if memo is None: memo = {}
        def f(x):
            if x in names: return names[x]
            if x.op == "ld":
                return mk("ld", subst(x.args[0], f, memo), mk("v0"))
            if x.op == "out":
                a = self.argof.get((x.args[0], x.args[2].args[0] if x.args[2].op == "fn" else None))
                fn = x.args[2].args[0] if x.args[2].op == "fn" else "?"
                if fn.startswith("VecGetArray") and a: return mk("arrayof", subst(a[0], f, memo))
                return mk("out", 0, x.args[1], x.args[2], *[subst(b, f, memo) for b in self.scal.get((x.args[0], fn), ())])
            if x.op == "D" and x.args[0].op == "ld" and x.args[0].args[0].op == "F":
                return mk("D", mk("ld", subst(x.args[0].args[0], f, memo), mk("v0")))
            if x.op == "F" and x.args[0].op in ("D", "*") : return mk("F", mk("*"), x.args[1])
            if x.op == "V": return mk("V", 0, x.args[1])
            return None
        return subst(t, f, memo)
    def norm_atom(self, a):
        """integer comparisons in one form: lt(x, k) only"""
        if a.op == "lt" and a.args[0].op == "c" and self.isint(a.args[1]):
            return mk("not", mk("lt", a.args[1], num(a.args[0].args[0] + 1)))
        if a.op == "eq":
            return a
        return a
    def isint(self, t):
        if t.op == "ld":
            l = t.args[0]
            while l.op in ("E", "D"): 
                l = l.args[0]
                if l.op == "ld": l = l.args[0]
            return l.op == "F" and l.args[1] in self.ints
        return False
