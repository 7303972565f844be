"""Rule: each geometric or linear-algebra helper returns the quantity it is named for: its result, as a rational normal
form over the components of its arguments (calls inlined, constant-trip loops unrolled by peeling), is identical to the
defining formula, for every input and for dimensions 1 to 3."""
from ..core import *
from ..gvn import *
from ..alg import same, ratio, HALF, absolute

def comp(prm, k):
    """k-th element of an array parameter, as the engine names it on entry"""
    b = mk("D", prm)
    l = b if k == 0 else mk("E", b, num(k))
    return mk("ld", l, mk("v0"))

def vec(prm, n=3): return [comp(prm, k) for k in range(n)]
def S(xs):
    r = ZERO
    for x in xs: r = add(r, x)
    return r
def dot(a, b): return S(mul(x, y) for x, y in zip(a, b))
def vsub(a, b): return [sub(x, y) for x, y in zip(a, b)]
def vadd(*vs): return [S(c) for c in zip(*vs)]
def scal(k, a): return [mul(k, x) for x in a]
def cross(a, b): return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]
def sq(x): return power(x, HALF)
def norm(a): return sq(dot(a, a))
def unit(a): return scal(inv(norm(a)), a)
def tri(a, b, c): return mul(HALF, norm(cross(vsub(b, a), vsub(c, a))))
def det3(m): return dot(m[0:3], cross(m[3:6], m[6:9]))
def ABS(x): return mk("abs", x)
def mean(*ps): return scal(num(Fraction(1, len(ps))), vadd(*ps))

class Run:
    """a helper specialised for constant arguments, with its results"""
    def __init__(self, prog, f, consts=None, peel=200):
        self.f = f
        self.P = [mk("p", k, p["n"]) for k, p in enumerate(f.params)]
        bind = {f.params[k]["n"]: num(v) for k, v in (consts or {}).items()}
        self.F = Flow(prog, f, inline=lambda g, c, s: not (c.get("m") or "").startswith("TDY_"), bind=bind, peel=peel)
        self.ok = self.F.entry.id in self.F.alive and self.F.exit.id in self.F.alive
        self.env = self.F.IN[self.F.exit.id] if self.ok else {}
    def out(self, j, k=0):
        """component k written through parameter j"""
        b = mk("D", self.P[j])
        l = b if k == 0 else mk("E", b, num(k))
        return self.env.get(l) if l in self.env else None
    def ret(self):
        r = [(frozenset(self.F.guard_facts(getattr(n, "id", n))), t) for n, t in self.F.retvals()]
        return r[0][1] if len(r) == 1 else r or None

def plane_spec(p1, p2, p3):
    n = cross(vsub(p2, p1), vsub(p3, p1))
    return n + [neg(dot(n, p1))]

# name: list of (constant arguments, results): result = (where, index) -> spec(P) ; where "ret" or parameter number
def spec():
    V = lambda P, j, n=3: vec(P[j], n)
    D = {}
    def add_(name, consts, outs): D.setdefault(name, []).append((consts, outs))
    for d in (1, 2, 3):
        add_("TDyL1norm", {2: d}, lambda P, d=d: {("ret", 0): S(ABS(x) for x in vsub(V(P, 0, d), V(P, 1, d)))})
        add_("TDyADotBMinusC", {3: d}, lambda P, d=d: {("ret", 0): dot(V(P, 0, d), vsub(V(P, 1, d), V(P, 2, d)))})
        add_("TDyADotB", {2: d}, lambda P, d=d: {("ret", 0): dot(V(P, 0, d), V(P, 1, d))})
        add_("TDyComputeLength", {2: d}, lambda P, d=d: {(3, 0): norm(vsub(V(P, 0, d), V(P, 1, d)))})
        for nm in ("KDotADotB", "TDyKDotADotB"):
            add_(nm, {3: d}, lambda P, d=d: {("ret", 0): S(mul(mul(comp(P[0], j * d + i), comp(P[1], j)), comp(P[2], i)) for i in range(d) for j in range(d))})
    add_("TDyCrossProduct", {}, lambda P: {(2, k): x for k, x in enumerate(cross(V(P, 0), V(P, 1)))})
    add_("TDyDotProduct", {}, lambda P: {(2, 0): dot(V(P, 0), V(P, 1))})
    add_("Norm", {}, lambda P: {(1, 0): norm(V(P, 0))})
    add_("ConvertToUnitVector", {}, lambda P: {(0, k): x for k, x in enumerate(unit(V(P, 0)))})
    add_("TDyCreateVecJoiningTwoVertices", {}, lambda P: {(2, k): x for k, x in enumerate(vsub(V(P, 1), V(P, 0)))})
    add_("TDyTriangleArea", {}, lambda P: {(3, 0): tri(V(P, 0), V(P, 1), V(P, 2))})
    def quad(P):
        n = [V(P, k) for k in range(4)]; c = mean(*n)
        return S(tri(c, n[k], n[(k + 1) % 4]) for k in range(4))
    add_("TDyQuadrilateralArea", {}, lambda P: {(4, 0): quad(P)})
    add_("TDyUnitNormalVectorJoiningTwoVertices", {}, lambda P: {(2, k): x for k, x in enumerate(unit(vsub(V(P, 1), V(P, 0))))})
    add_("TDyNormalToTriangle", {}, lambda P: {(3, k): x for k, x in enumerate(cross(vsub(V(P, 1), V(P, 0)), vsub(V(P, 2), V(P, 0))))})
    add_("TDyUnitNormalToTriangle", {}, lambda P: {(3, k): x for k, x in enumerate(unit(cross(vsub(V(P, 1), V(P, 0)), vsub(V(P, 2), V(P, 0)))))})
    def qn(P):
        n = [V(P, k) for k in range(4)]; c = mean(*n)
        return mean(*[unit(cross(vsub(n[k], c), vsub(n[(k + 1) % 4], c))) for k in range(4)])
    add_("TDyNormalToQuadrilateral", {}, lambda P: {(4, k): x for k, x in enumerate(qn(P))})
    def tet(P): return div(ABS(det3(vsub(V(P, 1), V(P, 0)) + vsub(V(P, 2), V(P, 0)) + vsub(V(P, 3), V(P, 0)))), num(6))
    add_("TDyComputeVolumeOfTetrahedron", {}, lambda P: {(4, 0): tet(P)})
    add_("VolumeofTetrahedron", {}, lambda P: {(4, 0): tet(P)})
    add_("ComputeDeterminantOf3by3Matrix", {}, lambda P: {(1, 0): det3(V(P, 0, 9))})
    def inverse(P):
        a = V(P, 0, 9); r = {}
        for i in range(3):
            for j in range(3):
                c = [a[3 * x + y] for x in range(3) if x != j for y in range(3) if y != i]
                r[(1, 3 * i + j)] = div(mul(num((-1) ** (i + j)), sub(mul(c[0], c[3]), mul(c[1], c[2]))), det3(a))
        return r
    add_("ComputeInverseOf3by3Matrix", {}, inverse)
    add_("ComputePlaneGeometry", {}, lambda P: {(3, k): x for k, x in enumerate(plane_spec(V(P, 0), V(P, 1), V(P, 2)))})
    def icept(P):
        pl, a, b = V(P, 0, 4), V(P, 1), V(P, 2)
        u = div(add(dot(pl[:3], a), pl[3]), dot(pl[:3], vsub(a, b)))
        return vadd(a, scal(u, vsub(b, a)))
    add_("GeometryGetPlaneIntercept", {}, lambda P: {(3, k): x for k, x in enumerate(icept(P))})
    def proj(P):
        pl, a = V(P, 0, 4), V(P, 1)
        return vsub(a, scal(div(add(dot(pl[:3], a), pl[3]), dot(pl[:3], pl[:3])), pl[:3]))
    add_("GeometryProjectPointOnPlane", {}, lambda P: {(2, k): x for k, x in enumerate(proj(P))})
    return D

def leaves(F, t, limit=300):
    """values t can have, branch by branch: [(term without joins, facts of the branches taken)]; None when a loop decides"""
    out = []; seen = set(); bad = []
    heads = set(F.loops)
    def go(t, facts):
        if bad or len(out) > limit: return
        if (t, facts) in seen: return
        seen.add((t, facts))
        ss = list(subterms(t))
        ite = next((s for s in ss if s.op == "ite"), None)
        if ite is not None:
            for k, pol in ((1, True), (2, False)):
                go(subst(t, lambda x: ite.args[k] if x is ite else None), facts | {(ite.args[0], pol)})
            return
        ph = sorted({s.args[0] for s in ss if s.op == "phi"}, key=lambda i: -F.rpon.get(i, 0))
        if not ph: out.append((t, facts)); return
        i = ph[0]
        if i in heads: bad.append(i); return
        for j, lab in F.pred.get(i, []):
            if j not in F.OUT: continue
            env = F.OUT[j]
            n = F.byid[j]
            fs = set(F.guard_facts(j))
            if n.kind == "cond":
                a, pol = F.cond_term(j); fs.add((a, pol if lab is True else not pol))
            go(subst(t, lambda x: (env[x.args[1]] if x.args[1] in env else F._initial(env, x.args[1])) if x.op == "phi" and x.args[0] == i else None), facts | fs)
    go(t, frozenset())
    return None if bad or len(out) > limit else out

def degenerate(facts):
    """branches taken only when some quantity is exactly zero or two are equal"""
    return any(pol and a.op == "eq" or not pol and a.op == "nz" for a, pol in facts)

def contradictory(facts):
    fs = set(facts)
    return any((a, not p) in fs for a, p in fs)

def signed(want, facts):
    """want with absolute values resolved as the branch facts allow"""
    A = sorted({s for s in subterms(want) if s.op == "abs"}, key=lambda x: x.id)
    res = [want]
    for s in A[:6]:
        u = s.args[0]; sg = set()
        for a, pol in facts:
            if a.op != "lt": continue
            x, y = a.args
            k = 1 if same(sub(x, y), u) else -1 if same(sub(y, x), u) else 0
            if k: sg.add(k * (-1 if pol else 1))
        new = []
        for w in res:
            new.append(w)
            for g in (1, -1):
                if not sg or g in sg: new.append(subst(w, lambda x: (u if g > 0 else neg(u)) if x is s else None))
        res = new
    return res

def run(ctx):
    prog = ctx.p
    D = spec()
    byname = {}
    for f in prog.libfuncs: byname.setdefault(f.name, []).append(f)
    R = "result equals the defining formula"
    for name, cases in D.items():
        for f in byname.get(name, []):
            for consts, outs in cases:
                r = Run(prog, f, consts)
                if not r.ok:
                    ctx.viol("%s|%s" % (name, consts), f, f.line, R, "%s always fails" % name); continue
                for (wh, k), want in outs(r.P).items():
                    got = r.ret() if wh == "ret" else r.out(wh, k)
                    inst = "%s%s %s[%s]" % (name, tuple(consts.values()) or "", "result" if wh == "ret" else f.params[wh]["n"], k)
                    if isinstance(got, list): alts = got
                    else: alts = [(frozenset(), got)]
                    if got is None or any(s.op == "unk" for _, g in alts for s in subterms(g)):
                        ctx.note(inst + ": no normal form"); continue
                    ctx.ob(R, inst)
                    if len(alts) > 1 or any(s.op in ("phi", "ite") for s in subterms(got)):
                        for fx, g in alts:
                            ls = leaves(r.F, g)
                            if ls is None: ctx.note(inst + ": decided by a loop"); continue
                            for t, facts in ls:
                                facts = facts | fx
                                if degenerate(facts) or contradictory(facts): continue
                                if not any(same(t, w) for w in signed(want, facts)):
                                    ctx.viol("%s|%s|%s%d" % (name, ",".join(map(str, consts.values())), wh, k), f, f.line, R, "%s is %s on one branch" % (inst, tshow(t)[:160])); break
                        continue
                    if not same(got, want):
                        ctx.viol("%s|%s|%s%d" % (name, ",".join(map(str, consts.values())), wh, k), f, f.line, R, "%s is %s" % (inst, tshow(got)[:160]))
    ctx.need(R, 20)
    ctx.assume("identities are those of exact real arithmetic")
