"""Rule: the reference-element ingredients of the finite-element discretizations agree with each other: the quadrature
points are the vertices of [-1,1]^d in the vertex order used everywhere else with total weight 2^d; each H(div) basis
function has unit outward normal component at its own vertex and face, none at the other vertices and on the other faces,
and a constant divergence; the Piola map is DF u / J; vertex-to-face direction tables name the diagonally opposite vertex of
the face. Decided on polynomial normal forms and constants obtained by specialising each function for d = 1, 2, 3."""
from ..core import *
from ..gvn import *
from ..alg import same
from .C28 import Run, comp, S

def corner(v, d): return [1 if (v >> k) & 1 else -1 for k in range(d)]

def toexp(t, X, n):
    """polynomial in the reference coordinates: {exponents: coefficient}"""
    out = {}
    for m, c in poly(t).items():
        e = [0] * n
        for a, k in m:
            if a not in X or k < 0: return None
            e[X.index(a)] += k
        out[tuple(e)] = out.get(tuple(e), 0) + c
    return out
def peval(p, pt):
    r = Fraction(0)
    for e, c in p.items():
        x = c
        for k, v in zip(e, pt): x *= Fraction(v) ** k
        r += x
    return r
def restrict(p, k, v):
    out = {}
    for e, c in p.items():
        f = e[:k] + (0,) + e[k + 1:]
        out[f] = out.get(f, 0) + c * Fraction(v) ** e[k]
    return {e: c for e, c in out.items() if c}
def ddx(p, k):
    return {e[:k] + (e[k] - 1,) + e[k + 1:]: c * e[k] for e, c in p.items() if e[k]}

def run(ctx):
    prog = ctx.p
    fn = lambda n: next((f for f in prog.libfuncs if f.name == n), None)
    # ---- basis functions
    for name, d in (("HdivBasisQuad", 2), ("HdivBasisHex", 3)):
        f = fn(name)
        if f is None: continue
        F = Flow(prog, f, inline=lambda g, c, s: False)
        P = [mk("p", k, p["n"]) for k, p in enumerate(f.params)]
        X = [comp(P[0], k) for k in range(d)]
        nb = d * 2 ** d
        B = {}
        base = mk("D", P[1])
        pio = F.sites("Piola")
        first = pio[0][0] if pio else None
        env = F.IN[first.id] if first is not None else F.IN[F.exit.id]
        for k in range(nb * d):
            l = base if k == 0 else mk("E", base, num(k))
            t = env.get(l)
            if t is None or t.op == "phi":
                # value at loop entry: look at the unique store
                st = [v for n, a, loc, v, o in F.stores() if loc is l]
                t = st[0] if len(st) == 1 else None
            p = toexp(t, X, d) if t is not None else None
            if p is not None: B[k] = p
        R = "basis component is a polynomial in the reference coordinates"
        if len(B) < nb * d: ctx.note("%s: %d of %d components readable" % (name, len(B), nb * d))
        for k in B: ctx.ob(R, "%s B[%d]" % (name, k))
        if len(B) < nb * d: continue
        R1 = "unit outward flux at its own vertex, none at the others"
        R2 = "no flux through the other faces"
        R3 = "constant divergence"
        for v in range(2 ** d):
            for a in range(d):
                i = v * d + a
                comps = [B[i * d + k] for k in range(d)]
                s = corner(v, d)[a]
                for w in range(2 ** d):
                    c = corner(w, d)
                    if c[a] != s: continue
                    val = peval(comps[a], c) * s
                    want = 1 if w == v else 0
                    ctx.ob(R1, "%s dof %d (vertex %d, direction %d) at vertex %d: %s" % (name, i, v, a, w, val))
                    if val != want: ctx.viol("%s|nodal|%d|%d" % (name, i, w), f, f.line, R1, "basis %d of %s has normal flux %s at vertex %d, not %d" % (i, name, val, w, want))
                for k in range(d):
                    for side in (-1, 1):
                        if (k, side) == (a, s): continue
                        r = restrict(comps[k], k, side)
                        ctx.ob(R2, "%s dof %d face %d%+d" % (name, i, k, side))
                        if r: ctx.viol("%s|flux|%d|%d%+d" % (name, i, k, side), f, f.line, R2, "basis %d of %s has flux %s through face %d%+d" % (i, name, r, k, side))
                dv = {}
                for k in range(d):
                    for e, c in ddx(comps[k], k).items(): dv[e] = dv.get(e, 0) + c
                dv = {e: c for e, c in dv.items() if c}
                ctx.ob(R3, "%s dof %d" % (name, i))
                if any(any(e) for e in dv): ctx.viol("%s|div|%d" % (name, i), f, f.line, R3, "divergence of basis %d of %s is not constant: %s" % (i, name, dv))
        # every basis vector mapped once, after it is complete
        R4 = "every basis vector is mapped by Piola once"
        if pio:
            if len(pio) == 1:
                n, c, args = pio[0]
                rg = F.ranges()
                off = args[0]
                k = off.args[1] if off.op == "ptr" else (off.args[0].args[1] if off.op == "addr" and off.args[0].op == "E" else None)
                dd = args[3] if len(args) > 3 else None
                ok = None
                if k is not None:
                    for phi, (lo, hi, step, exact) in rg.items():
                        st = sub(k, mul(num(d), phi))
                        if st.op == "c" and cval(lo) is not None and cval(hi) is not None:
                            ok = exact and st.args[0] + d * cval(lo) == 0 and cval(hi) - cval(lo) == nb and abs(step) == 1
                if ok is not None:
                    ctx.ob(R4, "%s: %d vectors" % (name, nb))
                    if not ok or (dd is not None and cval(dd) not in (None, d)):
                        ctx.viol("%s|piola" % name, f, n.line, R4, "%s does not map exactly its %d basis vectors of length %d" % (name, nb, d))
            else: ctx.note("%s: several Piola calls" % name)
        else: ctx.viol("%s|piola" % name, f, f.line, R4, "%s never applies the Piola map" % name)
    # ---- Piola
    f = fn("Piola")
    R = "Piola map is DF u / J"
    if f is not None:
        for d in (2, 3):
            r = Run(prog, f, {3: d})
            if not r.ok: continue
            u = [comp(r.P[0], k) for k in range(d)]; DF = [comp(r.P[1], k) for k in range(d * d)]
            for i in range(d):
                want = div(S(mul(DF[i * d + j], u[j]) for j in range(d)), r.P[2])
                got = r.out(0, i)
                if got is None or any(s.op in ("phi", "unk") for s in subterms(got)): ctx.note("Piola: no normal form"); continue
                ctx.ob(R, "dimension %d component %d" % (d, i))
                if not same(got, want): ctx.viol("Piola|%d|%d" % (d, i), f, f.line, R, "component %d in %dD is %s" % (i, d, tshow(got)[:120]))
    # ---- vertex quadrature
    f = fn("SetQuadrature")
    R = "quadrature points are the vertices in order, total weight 2^d"
    if f is not None:
        for d in (1, 2, 3):
            F = Flow(prog, f, inline=lambda g, c, s: not (c.get("m") or "").startswith("TDY_"), bind={f.params[1]["n"]: num(d)}, peel=200)
            if F.exit.id not in F.alive:
                ctx.viol("SetQuadrature|%d" % d, f, f.line, R, "SetQuadrature fails in %dD" % d); continue
            for n, c, a in F.sites("PetscQuadratureSetData"):
                env = F.IN[n.id]
                got = [cval(a[k]) for k in (1, 2, 3)]
                if None in got: ctx.note("SetQuadrature %d: sizes not constant" % d); continue
                ctx.ob(R, "%dD: dimension, components, points %s" % (d, [int(x) for x in got]))
                if got != [d, 1, 2 ** d]: ctx.viol("SetQuadrature|%d|sizes" % d, f, n.line, R, "%dD rule declared with (dim,nc,npoints)=%s" % (d, got))
                xs, ws = elems(F, env, a[4]), elems(F, env, a[5])
                if None in (xs, ws): ctx.note("SetQuadrature %d: points not constant" % d); continue
                for v in range(2 ** d):
                    p = [xs.get(v * d + k) for k in range(d)]
                    ctx.ob(R, "%dD point %d = %s weight %s" % (d, v, p and [str(x) for x in p], ws.get(v)))
                    if p != corner(v, d): ctx.viol("SetQuadrature|%d|%d" % (d, v), f, n.line, R, "point %d in %dD is %s, vertex %d is %s" % (v, d, [str(x) for x in p], v, corner(v, d)))
                    if ws.get(v) != 1: ctx.viol("SetQuadrature|%d|w%d" % (d, v), f, n.line, R, "weight of point %d in %dD is %s" % (v, d, ws.get(v)))
    # ---- sides
    f = fn("ElementSide")
    R = "side of a vertex follows its index bits"
    if f is not None:
        for v in range(8):
            for a in range(3):
                F = Flow(prog, f, inline=lambda g, c, s: True, bind={f.params[0]["n"]: num(v), f.params[1]["n"]: num(a)}, peel=60)
                r = {t for _, t in F.retvals()}
                if len(r) != 1 or cval(next(iter(r))) is None: ctx.note("ElementSide(%d,%d) not constant" % (v, a)); continue
                x = cval(r.pop())
                ctx.ob(R, "ElementSide(%d,%d) = %s" % (v, a, x))
                if x != corner(v, 3)[a]: ctx.viol("ElementSide|%d|%d" % (v, a), f, f.line, R, "ElementSide(%d,%d) is %s" % (v, a, x))
    # ---- direction tables
    R = "direction table names the opposite vertex of the face"
    for f in prog.libfuncs:
        if not (f.rel.startswith("src/fe") or "fe" in f.rel): continue
        arrs = {}
        for n in walk(f.body):
            if n["k"] == "var" and f.types[n["t"]][2] == "carr" and f.types[n["t"]][3] == "24" and "int" in f.types[n["t"]][1]: arrs[n["d"]] = n["n"]
        if not arrs: continue
        F = Flow(prog, f, inline=lambda g, c, s: False)
        groups = {}
        for n, a, loc, val, old in F.stores():
            if loc.op == "E" and loc.args[0].op == "V" and loc.args[0].args[0] in arrs and loc.args[1].op == "c" and val.op == "c":
                facts = F.guard_facts(n.id)
                dim = None
                for at, pol in facts:
                    if at.op == "eq" and pol:
                        cs = [cval(x) for x in at.args if cval(x) is not None]
                        if cs: dim = int(cs[0])
                groups.setdefault((loc.args[0].args[1], dim), {})[int(loc.args[1].args[0])] = (int(val.args[0]), n.line)
        for (nm, dim), g in groups.items():
            if dim not in (2, 3) or len(g) != dim * 2 ** dim or nm.startswith("lside"): continue
            for v in range(2 ** dim):
                for a in range(dim):
                    want = (~v & (2 ** dim - 1)) ^ (1 << a)
                    got, ln = g.get(v * dim + a, (None, f.line))
                    ctx.ob(R, "%s %s %dD vertex %d direction %d -> %s" % (f.name, nm, dim, v, a, got))
                    if got != want: ctx.viol("%s|%s|%d|%d" % (f.name, nm, dim, v * dim + a), f, ln, R, "%s[%d] in %dD is %s; the vertex opposite %d on the face normal to direction %d is %d" % (nm, v * dim + a, dim, got, v, a, want))
    ctx.need("basis component is a polynomial in the reference coordinates", 0)
    ctx.assume("polynomial identities over exact reals")

def elems(F, env, ptr):
    """constants stored through a pointer value"""
    base = F.deref(ptr)
    base = base.args[0] if base.op == "E" else base
    out = {}
    for k, v in env.items():
        if k.op == "E" and k.args[0] is base and k.args[1].op == "c": out[int(k.args[1].args[0])] = cval(v)
        elif k is base: out[0] = cval(v)
        elif k.op == "E" and k.args[0] is base: return None
    return out or None
