"""The value returned by every constitutive function equals, by algebraic normal form of its value-numbered result, the law it is
named after, in every region of its arguments (branches are decided by sign facts describing the region, not by executing them),
for every model the type field selects.  The smoothing polynomial of the Mualem curve is fitted at the points where it is used:
each row of the linear system is the polynomial that is evaluated (or its derivative) at one end of the interval, with the
unsmoothed value and slope at the lower end and one and zero at the upper end."""
from ..core import *
from ..gvn import *
from ..alg import *
# laws are compared with the literature
import re

def lit(s): return num(Fraction(s))
def f_exp(x): return mk("f_exp", x)

class Region(Flow):
    """value numbering in which branches contradicting the region's sign facts are discarded"""
    facts = ()
    def sign(self, t):
        if t.op == "c": return (t.args[0] > 0) - (t.args[0] < 0)
        for d, s in self.facts:
            k = ratio_const_of(t, d)
            if k is not None: return s * ((k > 0) - (k < 0))
            # t = k*d + c with c of the same sign
            r = part(t, d)
            if r is not None and r[0] * s * r[1] > 0: return s if r[0] > 0 else -s
        return None
    def _known(self, t):
        v = Flow._known(self, t)
        if v is not None: return v
        if t.op == "addr" or t.op == "nz" and t.args[0].op == "addr": return 1
        if t.op == "eq" and ZERO in t.args and any(a.op == "addr" for a in t.args): return 0
        return self.decide(t)
    def decide(self, t):
        if t.op == "nz": s = self.sign(t.args[0]); return None if s is None else int(s != 0)
        if t.op in ("lt", "eq"):
            s = self.sign(sub(t.args[0], t.args[1]))
            if s is None: return None
            return int(s < 0) if t.op == "lt" else int(s == 0)
        return None
    def simplify(self, t):
        def go(x):
            if x.op == "ite":
                v = self._known(x.args[0])
                if v is not None: return self.simplify(x.args[1] if v else x.args[2])
            return None
        return subst(t, go, {})

def ratio_const_of(t, d):
    p, q = poly(t), poly(d)
    if not p or set(p) != set(q): return None
    r = {p[m] / q[m] for m in p}
    return r.pop() if len(r) == 1 else None

def part(t, d):
    """t = k*d + c: (k, c)"""
    p, q = dict(poly(t)), dict(poly(d))
    ms = [m for m in q if m]
    if not ms or ms[0] not in p: return None
    k = p[ms[0]] / q[ms[0]]
    c = sub(t, mul(num(k), d))
    v = cval(c)
    return None if v is None else (k, v)

def values(F, l):
    """values l may have at the exit"""
    out = {}
    def go(t, d):
        if t.op == "phi" and d < 12 and t.args[1] is l:
            for j, _ in F.pred.get(t.args[0], []):
                if j in F.OUT and j in F.alive: go(F.OUT[j][l] if l in F.OUT[j] else F._initial(F.OUT[j], l), d + 1)
        else: out[F.simplify(t)] = 1
    env = F.IN[F.exit.id]
    go(env[l] if l in env else F._initial(env, l), 0)
    return list(out)

def params(f): return [mk("p", k, p["n"]) for k, p in enumerate(f.params)]

def flow(ctx, f, facts=(), init=None):
    P = params(f)
    cls = type("R", (Region,), {"facts": tuple(facts)})
    ptr = [P[k] for k, p in enumerate(f.params) if f.types[p["t"]][2] == "ptr"]
    return cls(ctx.p, f, inline=lambda g, c, s: not (c.get("m") or "").startswith("TDY_") and g.file == f.file, nonnull=ptr, init=init), P

def law(ctx, f, name, out, region, facts, want, init=None):
    F, P = flow(ctx, f, facts, init)
    inst = "%s where %s" % (name, region)
    key = "%s|%s" % (name, region)
    if F.exit.id not in F.alive:
        ctx.check("law", inst, False, key, f, f.line, "%s has no result where %s" % (name, region)); return
    l = mk("D", P[out])
    vs = values(F, l)
    for v in vs:
        if any(s.op in ("phi", "unk", "call", "out", "uninit") for s in subterms(v)):
            ctx.check("law", inst, False, key, f, f.line, "%s: the value where %s is not a closed form of its arguments: %s" % (name, region, tshow(v)[:120])); continue
        ctx.check("law", inst, psame(v, want), key, f, f.line, "%s returns %s where %s; the law is %s" % (name, tshow(v)[:160], region, tshow(want)[:160]))
    return

def gardner(P):
    n, m, a, Sr, Pc = P[:5]
    return 5, [("Pc < 0", [(Pc, -1)], ONE), ("Pc > 0", [(Pc, 1)], add(mul(sub(ONE, Sr), f_exp(neg(div(mul(a, Pc), m)))), Sr))]
def vangenuchten(P):
    m, a, Sr, Pc = P[:4]
    n = inv(sub(ONE, m))
    return 4, [("Pc < 0", [(Pc, -1)], ONE), ("Pc > 0", [(Pc, 1)], add(mul(sub(ONE, Sr), power(add(ONE, power(mul(Pc, a), n)), neg(m))), Sr))]
def irmay(P):
    m, Se = P[:2]
    return 2, [("Se > 1", [(sub(Se, ONE), 1)], ONE), ("Se < 1", [(sub(Se, ONE), -1)], power(Se, m))]
def mualem_value(m, Se): return mul(power(Se, HALF), ipow(sub(ONE, power(sub(ONE, power(Se, inv(m))), m)), 2))

def eosinit(f, P, field, v):
    def init(env, params):
        env[mk("F", mk("D", P[0]), field)] = num(v)
    return init

def densities(P):
    p, T, S = P[1:4]
    M = lit("1/1000000")
    pm = mul(p, M)
    q = lambda *a: product(a)
    pw = mul(lit(1000), add(ONE, mul(M, total([q(lit(-80), T), q(lit("-3.3"), T, T), q(lit("0.00175"), T, T, T), q(lit(489), pm), q(lit(-2), T, pm), q(lit("0.016"), T, T, pm),
         q(num(Fraction("-1.3") / 100000), T, T, T, pm), q(lit("-0.333"), pm, pm), q(lit("-0.002"), T, pm, pm)]))))
    inner = total([q(lit(300), pm), q(lit(-2400), pm, S), mul(T, total([lit(80), q(lit(3), T), q(lit(-3300), S), q(lit(-13), pm), q(lit(47), pm, S)]))])
    bw = add(pw, mul(lit(1000), mul(S, total([lit("0.668"), q(lit("0.44"), S), mul(M, inner)]))))
    ref = sub(p, lit(101325))
    return {"WATER_DENSITY_CONSTANT": [("any pressure", [], lit(998))],
            "WATER_DENSITY_EXPONENTIAL": [("p < 101325", [(ref, -1)], lit("997.16")), ("p > 101325", [(ref, 1)], mul(lit("997.16"), f_exp(mul(lit("1/100000000"), ref))))],
            "WATER_DENSITY_BATZLE_AND_WANG": [("any pressure", [], bw)]}
def viscosities(P):
    p, T, S = P[1:4]
    e = neg(mul(add(mul(lit("0.42"), ipow(sub(power(S, lit("0.8")), lit("0.17")), 2)), lit("0.045")), power(T, lit("0.8"))))
    bw = mul(lit("1/1000"), total([lit("0.1"), mul(lit("0.333"), S), mul(add(lit("1.65"), mul(lit("91.9"), ipow(S, 3))), f_exp(e))]))
    return {"WATER_VISCOSITY_CONSTANT": [("any pressure", [], lit("0.000994"))], "WATER_VISCOSITY_BATZLE_AND_WANG": [("any pressure", [], bw)]}
def enthalpies(P): return {"WATER_ENTHALPY_CONSTANT": [("any pressure", [], lit("1.8890"))]}

def total(xs):
    r = ZERO
    for x in xs: r = add(r, x)
    return r
def product(xs):
    r = ONE
    for x in xs: r = mul(r, x)
    return r

CURVES = {"PressureSaturation_Gardner": gardner, "PressureSaturation_VanGenuchten": vangenuchten, "RelativePermeability_Irmay": irmay}
EOSF = {"EOSComputeWaterDensity": ("density_type", densities, 4), "EOSComputeWaterViscosity": ("viscosity_type", viscosities, 4), "EOSComputeWaterEnthalpy": ("enthalpy_type", enthalpies, 3)}

def elements(F, nid, base):
    """contents of a small array before a node: index -> term"""
    out = {}
    env = F.IN[nid]
    root = base.args[0] if base.op in ("addr", "ptr") else mk("D", base)
    while root.op == "E": root = root.args[0]
    for l, v in env.items():
        if l.op == "E" and (l.args[0] is root) and cval(l.args[1]) is not None: out[int(cval(l.args[1]))] = v
        if l is root and root.op == "D": out.setdefault(0, v)
    return out

def mualem(ctx):
    f = ctx.p.func("RelativePermeability_Mualem"); g = ctx.p.func("RelativePermeability_Mualem_GetSmoothingCoeffs")
    if f is None or g is None or f.body is None or g.body is None: ctx.note("no smoothed Mualem curve"); return
    P = params(f); m, x0, x1, dx, co, Se, Kr = P[:7]
    below = [(sub(Se, x1), -1), (sub(Se, ONE), -1)]
    law(ctx, f, f.name, 6, "Se below the smoothing interval", below, mualem_value(m, Se))
    F, _ = flow(ctx, f, [(sub(Se, x1), 1)])
    vs = values(F, mk("D", Kr))
    ctx.check("smooth", "one polynomial above the cutoff", len(vs) == 1, "smooth|branches", f, f.line, "above the smoothing cutoff the value still depends on a branch")
    v = vs[0]
    basis = coefficients(v, co)
    ok = basis is not None and sorted(basis) == [0, 1, 2, 3]
    ctx.check("smooth", "above the cutoff the value is a cubic in the stored coefficients", ok, "smooth|cubic", f, f.line, "above the smoothing cutoff the value is %s, not a polynomial with the four coefficients" % tshow(v)[:120])
    if not ok: return
    Q = params(g); gm, g0, g1, g2, gdx = Q[:5]
    G, _ = flow(ctx, g, [(sub(g1, ONE), -1)])
    sites = G.sites(lambda c: re.match(r"dgesv_?$", c.get("fn") or ""))
    for n, c, a in sites:
        A, b = elements(G, n.id, a[2]), elements(G, n.id, a[5])
        ctx.check("fit", "matrix and right-hand side are set", len(A) == 16 and len(b) == 4, "fit|set", g, c["l"], "%d entries of the matrix and %d of the right-hand side are set" % (len(A), len(b)))
        if len(A) != 16 or len(b) != 4: continue
        def at(t, x): return subst(t, lambda y: {m: gm, x0: g0, x1: g1, dx: gdx, Se: x}.get(y), {})
        want = []
        for nm, x, d in (("value at the lower end", g1, 0), ("slope at the lower end", g1, 1), ("value at the upper end", g2, 0), ("slope at the upper end", g2, 1)):
            row = [at(deriv(basis[k], Se) if d else basis[k], x) for k in range(4)]
            hit = [r for r in range(4) if all(psame(A[r + 4 * k], row[k]) for k in range(4))]
            ctx.check("fit", "one row is the %s" % nm, len(hit) == 1, "fit|row|" + nm, g, c["l"], "no row of the linear system sets the %s of the polynomial that is evaluated" % nm)
            if len(hit) != 1: continue
            rhs = b[hit[0]]
            if "upper" in nm: ctx.check("fit", "%s is %d" % (nm, 1 - d), psame(rhs, num(1 - d)), "fit|rhs|" + nm, g, c["l"], "the %s of the smoothed curve is set to %s" % (nm, tshow(rhs)[:100]))
            else:
                vals = choice(G, rhs)
                w = mualem_value(gm, g1)
                if d: w = deriv(w, g1)
                ok = vals and all(psame(x, w) for x in vals)
                ctx.check("fit", "%s is that of the unsmoothed curve" % nm, bool(ok), "fit|rhs|" + nm, g, c["l"], "the %s of the polynomial is set to %s" % (nm, " or ".join(tshow(x)[:100] for x in vals)))
    if not sites: ctx.note("the smoothing coefficients are not found by a linear solve: not analysed")

def choice(F, t, d=0):
    if t.op == "phi" and d < 6:
        out = []
        for j, _ in F.pred.get(t.args[0], []):
            if j in F.OUT: out += choice(F, F.OUT[j].get(t.args[1]) if t.args[1] in F.OUT[j] else F._initial(F.OUT[j], t.args[1]), d + 1)
        return out
    return [t]

def coefficients(v, co):
    """v = sum coeffs[k]*basis[k]: {k: basis}"""
    out = {}
    for mono, c in poly(v).items():
        hit = None; rest = num(c)
        for a, e in mono:
            k = which(a, co)
            if k is not None:
                if hit is not None or e != 1: return None
                hit = k
            else: rest = mul(rest, ipow(a, e))
        if hit is None: return None
        out[hit] = add(out.get(hit, ZERO), rest)
    return out

def which(a, co):
    if a.op != "ld": return None
    l = a.args[0]
    if l.op == "E" and l.args[0].op == "D" and l.args[0].args[0] is co:
        k = cval(l.args[1]); return int(k) if k is not None else None
    if l.op == "D" and l.args[0] is co: return 0
    return None

def run(ctx):
    for name, fn in CURVES.items():
        f = ctx.p.func(name)
        if f is None or f.body is None: ctx.note("no function %s" % name); continue
        P = params(f); out, regions = fn(P)
        for region, facts, want in regions: law(ctx, f, name, out, region, facts, want)
    ev = {n: int(v) for tu in ctx.p.tus for e in tu.enums for n, v in e["consts"]}
    for name, (field, fn, out) in EOSF.items():
        f = ctx.p.func(name)
        if f is None or f.body is None: ctx.note("no function %s" % name); continue
        P = params(f)
        for en, regions in fn(P).items():
            if en not in ev: ctx.note("no model %s" % en); continue
            for region, facts, want in regions: law(ctx, f, "%s (%s)" % (name, en), out, region, facts, want, eosinit(f, P, field, ev[en]))
    f = ctx.p.func("EOSComputeSalinityFraction")
    if f is not None and f.body is not None:
        P = params(f); x = mul(P[1], P[2])
        law(ctx, f, f.name, 4, "any concentration", [], div(x, add(x, num(999))))
    mualem(ctx)
    ctx.need("law", 8)
