"""Element-wise meaning of arrays: functions that fill arrays one element per loop iteration (or through calls that work point by
point) are read as maps; the content of an array element at a program point is obtained by composing the maps that reach it."""
from .core import *
from .gvn import *
from .gate import *
from .alg import *

# functions that work point by point on whole arrays: positions of (points list or None, inputs, outputs)
POINT = {
    "SaturationCompute": (None, (1, 2), (3, 4, 5)),
    "SaturationComputeOnPoints": (2, (3, 4), (5, 6, 7)),
    "RelativePermeabilityCompute": (None, (1,), (2, 3)),
    "RelativePermeabilityComputeOnPoints": (2, (3,), (4, 5)),
}
CTX = mk("sym", "ctx")
SKIP = mk("skip")

class Elem:
    def __init__(self, prog, f, keep, depth=8, peel=0, copies=True):
        """keep(name): the function stays opaque"""
        self.prog = prog; self.f = f
        self.F = F = Flow(prog, f, inline=lambda g, c, s: g.name not in POINT and not keep(g.name) and not (c.get("m") or "").startswith("TDY_"), depth=depth, peel=peel, copies=copies)
        self.ok = F.exit.id in F.alive
        if not self.ok: return
        self.G = Gate(F)
        self.inner = None
        self.writers = {}; self.bycall = {}
        self._collect()
        self._memo = {}
        self._reach = None
    # ---- arrays
    def key(self, b, node):
        """identity of the array with base term b"""
        while b.op == "D" and b.args[0].op == "ptr": b = b.args[0].args[0]; b = mk("D", b)
        if b.op == "D":
            p = b.args[0]
            if p.op == "ld": return self.place(p.args[0], node)
            if p.op == "out": return mk("key", "out", self.outof(p, node))
            if p.op == "p": return mk("key", "p", p.args[1])
            if p.op == "addr": return self.key(p.args[0], node)
            if p.op == "call": return mk("key", "call", p)
            return mk("key", "?", p)
        if b.op in ("V", "G"): return mk("key", b.op, *b.args)
        if b.op in ("F", "E"): return self.place(b, node)
        return mk("key", "?", b)
    def outof(self, p, node):
        """what a pointer set by a call points into"""
        nid, k, fn = p.args
        for n, c, args in self.F.sites(lambda c: c.get("fn") == fn.args[0]):
            if n.id == nid:
                if re.match(r"Vec(Get|Restore)Array", fn.args[0]): return mk("arr", self.canon(args[0], nid))
                return mk("by", fn.args[0], num(k), *[self.canon(a, nid) for j, a in enumerate(args) if j != k and a.op not in ("addr", "ptr")])
        return p
    def place(self, l, node):
        if l.op == "F":
            b = l.args[0]
            if b.op == "D" and self.isctx(b.args[0]): return mk("key", "f", l.args[1])
            return mk("key", "F", self.place(b, node), l.args[1])
        if l.op == "E": return mk("key", "E", self.place(l.args[0], node), self.canon(l.args[1], node))
        if l.op == "D":
            p = l.args[0]
            if p.op == "ld": return mk("key", "*", self.place(p.args[0], node))
            if p.op == "p": return mk("key", "p", p.args[1])
            return mk("key", "*", self.canon(p, node))
        return mk("key", l.op, *l.args)
    def isctx(self, p):
        if p.op == "p": return self.f.types[self.f.params[p.args[0]]["t"]][1].replace("const ", "") == "void *" or bool(re.search(r"TDy(MPFAO|FVTPF|WY|BDM)\b", self.f.types[self.f.params[p.args[0]]["t"]][1]))
        return p.op == "ld" and p.args[0].op == "F" and p.args[0].args[1] == "context"
    def _collect(self):
        """writers: (key, loop head or None, node, base, index, kind)"""
        F = self.F; seen = set()
        def put(loc, n):
            if loc.op == "F" or loc.op == "V" or loc.op == "G": return
            base, idx = (loc.args[0], loc.args[1]) if loc.op == "E" else (loc, ZERO)
            k = self.key(base, n.id)
            hs = F.loops_of(n.id)
            h = hs[0] if hs else None
            if (h, loc) in seen and h is not None: 
                for w in self.writers[k]:
                    if w[0] == h and w[2] is loc: w[1].append(n)
                return
            seen.add((h, loc))
            self.writers.setdefault(k, []).append((h, [n], loc, base, idx))
        for n, a, loc, val, old in F.stores(): put(loc, n)
        for n, c, args in F.sites():
            fn = c.get("fn")
            if fn in POINT:
                for j in POINT[fn][2]:
                    d = F.deref(args[j]); base = d.args[0] if d.op == "E" else d
                    self.writers.setdefault(self.key(base, n.id), []).append((None, [n], None, base, (fn, j, args)))
                continue
            for j in self.outs(c, args):
                t = args[j]
                if fn in ("VecGetArray", "VecRestoreArray") or (fn or "").startswith(("PetscError", "PetscPrintf", "PetscMalloc", "PetscFree")): continue
                loc = F.deref(t)
                if loc.op in ("E", "D"): put(loc, n); self.bycall[n.id, loc] = (fn, j)
    # ---- values
    def canon(self, t, node):
        return self.value(t, node)
    def value(self, t, node, depth=0):
        """t evaluated at node, as an expression over parameters, fields, elements of arrays as they were on entry, loop
        counters, and results of opaque functions"""
        t = self.G.term(t)
        def f(x):
            if x.op == "ld":
                loc = x.args[0]
                if loc.op == "E" or loc.op == "D":
                    v = x.args[1]
                    if v.op == "vc":
                        r = self.set_by_call(v.args[0], v.args[1], loc, depth)
                        if r is not None: return r
                    base, idx = (loc.args[0], loc.args[1]) if loc.op == "E" else (loc, ZERO)
                    k = self.key(base, node)
                    return self.read(k, self.value(idx, node, depth), node, depth)
                if loc.op == "F":
                    if loc.args[0].op == "D" and self.isctx(loc.args[0].args[0]): return mk("sym", loc.args[1])
                    return mk("val", self.place(loc, node))
                return mk("val", self.place(loc, node))
            if x.op == "out":
                nid, k, fn = x.args
                return self.result(nid, k, fn.args[0], depth)
            if x.op == "call":
                fn, args, nid = x.args
                at = nid if isinstance(nid, int) else node
                return mk("fnv", fn.args[0] if fn.op == "fn" else self.value(fn, node, depth), *[self.arg(a, at, depth) for a in args])
            if x.op == "p":
                return CTX if self.isctx(x) else mk("sym", x.args[1])
            return None
        return subst(t, f, {})
    def arg(self, a, nid, depth):
        if a.op in ("addr", "ptr"):
            l = self.F.deref(a)
            return mk("at", self.place(l, nid) if l.op != "E" else mk("key", "E", self.key(l.args[0], nid), self.value(l.args[1], nid, depth)))
        return self.value(a, nid, depth)
    def outs(self, c, args):
        """positions of the arguments a call writes through"""
        fn = c.get("fn") or ""
        if re.match(r"ConditionsCompute|MaterialPropCompute", fn): return [len(args) - 1]
        tgt = self.prog.resolve(self.f, fn) if fn else None
        mods = self.F.mods[tgt] if tgt is not None and tgt.body is not None else None
        out = []
        for j, t in enumerate(args):
            if t.op not in ("addr", "ptr"): continue
            if mods is not None and "p%d" % j not in mods and "*" not in mods: continue
            if mods is None and j in c.get("cp", ()): continue
            out.append(j)
        return out
    def extent(self, fn, j):
        """number of elements a function stores through its argument at constant positions"""
        tgt = self.prog.resolve(self.f, fn) if fn else None
        if tgt is None or tgt.body is None or j >= len(tgt.params): return 1
        d = tgt.params[j]["d"]; top = 0
        for x in walk(tgt.body):
            if x["k"] == "idx":
                b = uncast(x["b"])
                if b["k"] == "ref" and b.get("d") == d and const(x["i"]) is not None: top = max(top, int(const(x["i"])))
        return top + 1
    def set_by_call(self, nid, j, loc, depth):
        F = self.F
        for n, c, args in F.sites():
            if n.id == nid and c.get("fn") not in POINT and j < len(args) and args[j].op in ("ptr", "addr") and self.G.term(F.deref(args[j])) is self.G.term(loc) and j in self.outs(c, args):
                return self.result(nid, j, c.get("fn"), depth)
        return None
    def result(self, nid, k, fn, depth):
        for n, c, args in self.F.sites(lambda c: c.get("fn") == fn):
            if n.id == nid:
                if fn in ("VecGetArray", "VecGetArrayRead"): return mk("arr", self.canon(args[0], nid))
                outs = self.outs(c, args)
                if depth > 12: return mk("unknown", nid, k)
                return mk("res", fn, k, *[self.arg(a, nid, depth + 1) for j, a in enumerate(args) if j not in outs])
        return mk("unknown", nid, k)
    def reaching(self, key, node):
        """writers of the array that may be the last one before node; the array as on entry is None"""
        F = self.F
        ws = self.writers.get(key, ())
        if not ws: return [None]
        pos = {}
        mine = set()
        hs = set(F.loops_of(node))
        def outer(w):
            for h in F.loops_of(w[1][0].id)[::-1]:
                if h not in hs: return h
            return None
        for i, w in enumerate(ws):
            o = outer(w)
            if o is None:
                for n in w[1]: pos.setdefault(n.id, []).append((i, True))
            else: pos.setdefault(o, []).append((i, False))
        memo = {}
        def back(x, first=False):
            """walk backwards over predecessors"""
            out = set(); st = [x]; seen = set(); start = True
            while st:
                y = st.pop()
                for j, _ in F.pred[y]:
                    # step over completed loops
                    l = [h for h in F.loops_of(j) if h not in hs]
                    if l: j = l[-1]
                    if j in seen: continue
                    seen.add(j)
                    if j in pos:
                        for i, own in pos[j]: out.add(i)
                        continue
                    if j == F.entry.id: out.add(None); continue
                    if j in hs:
                        # loop head around node: previous iterations and before the loop
                        pass
                    st.append(j)
            return out
        r = back(node)
        return [None if i is None else ws[i] for i in sorted(r, key=lambda i: -1 if i is None else i)]
    def read(self, key, idx, node, depth):
        if depth > 12: return mk("unknown", "depth")
        ws = self.reaching(key, node)
        vs = []
        own = mk("el", key, idx)
        for w in ws:
            v = own if w is None else self.content(w, key, idx, node, depth)
            if v is SKIP: continue
            if v is None: v = mk("unknown", key, idx)
            if v not in vs: vs.append(v)
        return vs[0] if len(vs) == 1 else mk("any", *vs)
    def content(self, w, key, idx, node, depth):
        h, ns, loc, base, at = w
        F = self.F
        n = ns[0]
        if loc is None:
            fn, j, args = at
            return self.point(fn, j, args, idx, n.id, depth)
        if h is not None and node in F.loops[h]:
            # written in the same loop: other iterations touch other elements
            e = self.value(at, n.id, depth + 1)
            if e is idx and not (n.id != node and F.dominates(n.id, node)): return SKIP
            k = cval(sub(idx, e))
            if (n.id, loc) in self.bycall and k is not None and k > 0 and F.dominates(n.id, node):
                fn, j = self.bycall[n.id, loc]
                return mk("el", mk("key", "res", self.result(n.id, j, fn, depth + 1)), sub(idx, e))
            return None
        if h is None:
            e = self.value(at, n.id, depth + 1)
            if e is not idx:
                k = cval(sub(idx, e))
                if (n.id, loc) in self.bycall and k is not None and k > 0:
                    fn, j = self.bycall[n.id, loc]
                    return mk("el", mk("key", "res", self.result(n.id, j, fn, depth + 1)), sub(idx, e))
                return None
            env = F.OUT[n.id]
            return self.value(env[loc], n.id, depth + 1) if loc in env else None
        e = self.value(at, n.id, depth + 1)
        if (n.id, loc) in self.bycall:
            fn, j = self.bycall[n.id, loc]
            for k in range(1, self.extent(fn, j)):
                u = unify(e, sub(idx, num(k)), F)
                if u is not None: return subst(mk("el", mk("key", "res", self.result(n.id, j, fn, depth + 1)), num(k)), lambda x: u.get(x), {})
        v = self.latch(h, loc)
        if v is None: return None
        u = unify(e, idx, F)
        if u is None: return SKIP if disjoint(e, idx) else None
        v = self.value(v, n.id, depth + 1)
        return subst(v, lambda x: u.get(x), {})
    def point(self, fn, j, args, idx, nid, depth):
        pts, ins, outs = POINT[fn]
        vals = []
        for k in ins:
            d = self.F.deref(args[k])
            base, off = (d.args[0], d.args[1]) if d.op == "E" else (d, ZERO)
            vals.append(self.read(self.key(base, nid), add(idx, self.value(off, nid, depth)), nid, depth + 1))
        if pts is None: p = idx
        else:
            d = self.F.deref(args[pts]); base, off = (d.args[0], d.args[1]) if d.op == "E" else (d, ZERO)
            p = self.read(self.key(base, nid), add(idx, self.value(off, nid, depth)), nid, depth + 1)
        return mk("pt", fn.replace("OnPoints", ""), outs.index(j), self.value(args[0], nid, depth), p, *vals)
    def latch(self, h, loc):
        from .system import System
        return System.latch(self, h, loc)
    # ---- final contents
    def final(self, key):
        """[(writer, index, value)] the array holds on normal exit; None among the writers if it may be untouched"""
        F = self.F
        out = []
        for w in self.reaching(key, F.exit.id):
            if w is None: out.append((None, None, None)); continue
            h, ns, loc, base, at = w
            n = ns[0]
            if loc is None:
                i = mk("sym", "i")
                fn, j, args = at
                d = F.deref(args[j]); off = d.args[1] if d.op == "E" else ZERO
                out.append((w, i, self.point(fn, j, args, sub(i, self.value(off, n.id)), n.id, 0)))
                continue
            e = self.value(at, n.id)
            if h is None:
                env = F.OUT[n.id]
                out.append((w, e, self.value(env[loc], n.id) if loc in env else None))
            else:
                v = self.latch(h, loc)
                out.append((w, e, None if v is None else self.value(v, n.id)))
        return out

def disjoint(a, b):
    """linear indices s*x + p and s*y + q with 0 < |p - q| < s never meet"""
    P, Q = dict(poly(a)), dict(poly(b))
    p, q = P.pop((), 0), Q.pop((), 0)
    cs = {abs(c) for c in P.values()} | {abs(c) for c in Q.values()}
    return len(cs) == 1 and p != q and all(c.denominator == 1 for c in cs) and (p - q).denominator == 1 and (p - q) % next(iter(cs)) != 0

def unify(pat, t, F):
    """substitution of loop counters in the linear index `pat` that makes it t (strides separate the parts)"""
    if pat.op == "phi" and pat.args[0] in F.loops: return {pat: t}
    if pat is t: return {}
    if pat.op != "poly": return None
    P, Q = dict(poly(pat)), dict(poly(t))
    u = {}
    items = sorted(((c, m) for m, c in P.items()), key=lambda x: -x[0])
    for c, m in items:
        if not m:
            if Q.get(m) != c: return None
            Q.pop(m); continue
        if len(m) != 1 or m[0][1] != 1: return None
        v = m[0][0]
        if not (v.op == "phi" and v.args[0] in F.loops):
            if Q.get(m) != c: return None
            Q.pop(m); continue
        part = {k: x for k, x in Q.items() if (x % c == 0 if c != 1 else True)}
        if c != 1: part = {k: x for k, x in part.items() if x == c}
        for k in part: Q.pop(k)
        if not part: return None
        u[v] = frompoly({k: x / c for k, x in part.items()})
    return u if not Q else None

def leaves(t):
    """alternatives of a value with the conditions under which they apply"""
    out = []
    def rec(x, conds):
        if x.op == "ite":
            rec(x.args[1], conds + [(x.args[0], True)]); rec(x.args[2], conds + [(x.args[0], False)])
        elif x.op == "any":
            for y in x.args: rec(y, conds)
        else:
            s = next((y for y in subterms(x) if y.op in ("ite", "any")), None)
            if s is None: out.append((x, conds)); return
            if s.op == "any":
                for y in s.args: rec(subst(x, lambda z: y if z is s else None, {}), conds)
            else:
                rec(subst(x, lambda z: s.args[1] if z is s else None, {}), conds + [(s.args[0], True)])
                rec(subst(x, lambda z: s.args[2] if z is s else None, {}), conds + [(s.args[0], False)])
    rec(t, [])
    return out
