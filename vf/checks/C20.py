"""The water flux every residual assigns to a face is compared, case by case and as an algebraic identity, with Darcy's law
(density, mobility, transmissibility applied to the pressures, density times gravity); the helpers that supply the two-point
conductance, the face permeability and the gravity term of a face are evaluated in closed form over the cells' permeabilities,
centres and distances (branches decided by which side of the face is the boundary, loops over the dimension unrolled) and compared
with the harmonic mean and the projection of gravity on the line joining the centres."""
from ..core import *
from ..gvn import *
from ..gate import *
from ..alg import *
from ..system import System, STAR
from .C13 import registrations, ROLES, Shape, UP, DN, local, consistent, normalise, at, pick, total, decode_all, skip, leaf, PEEL, C
from .C12 import lv, whole, side, show_facts
from .C15 import Region

def run(ctx):
    p = ctx.p
    seen = set()
    for kind, what, fn, sel, where in registrations(p):
        if what != "R" or fn in seen: continue
        seen.add(fn)
        f = p.func(fn)
        if f is not None: residual(ctx, kind, f)
    gravity(ctx)
    ctx.need("darcy", 8); ctx.need("conductance", 2); ctx.need("gravity-term", 3); ctx.need("face-permeability", 3)

# ---------------------------------------------------------------- names for what is read
def S(*a): return mk("sym", "_".join(str(x) for x in a))
def bump(l):
    """(element designator, index) of the last subscript"""
    if l.op == "E": return l.args
    if l.op == "D": return l, ZERO
    return None, None
def pointed(b):
    """field whose pointer value is dereferenced by D(ld F(.., field))"""
    if b is not None and b.op == "D" and b.args[0].op == "ld" and b.args[0].args[0].op == "F": return b.args[0].args[0]
    return None
def cellside(t):
    """which entry of the face's pair of cells a cell number is"""
    if t is UP: return "u"
    if t is DN: return "d"
    if t.op != "ld": return None
    b, i = bump(t.args[0]); fl = pointed(b)
    if fl is None or fl.args[1] != "cell_ids" or fl.args[0].op != "F" or fl.args[0].args[1] != "faces": return None
    def off(x):
        if x.op != "ld": return False
        b2, _ = bump(x.args[0]); g = pointed(b2)
        return g is not None and g.args[1] == "cell_offset"
    return "u" if off(i) else "d" if off(sub(i, ONE)) else None

def name(t):
    """symbol of a value read from the geometry or the material data of the face's two cells"""
    if t.op == "abs":
        x = name(t.args[0])
        return x if x is not None and x.args[0].startswith("g_") else None
    if t.op != "ld": return None
    l = t.args[0]
    b, i = bump(l)
    if l.op == "F": b, i = l, ZERO
    if b is None: return None
    k = cval(i)
    if b.op == "F" and b.args[1] == "gravity" and k is not None: return S("g", k)
    if b.op == "F" and b.args[1] in ("X", "V") and k is not None:           # centroid[c].X[k], normal[f].V[k]
        c, j = bump(b.args[0]); fl = pointed(c)
        if fl is None: return None
        of = fl.args[0].args[1] if fl.args[0].op == "F" else None
        if fl.args[1] == "centroid" and of == "cells":
            s = cellside(j); return S("X", s, k) if s else None
        if of == "faces": return S("X" if fl.args[1] == "centroid" else fl.args[1], "f", k)
        return None
    fl = pointed(b)
    if fl is not None:
        if fl.args[1] == "K0":
            p = poly(i)
            for m, c in p.items():
                s = cellside(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
                if s and c == 9:
                    r = cval(sub(i, mul(num(9), m[0][0])))
                    if r is not None: return S("K", s, r)
            return None
        if fl.args[1] in ("projected_area", "face_area"): return S("A")
        return None
    if b.op == "D" and b.args[0].op == "ld" and k is not None:                # dist_up_dn[f][k], unit_vec_up_dn[f][k]
        c, j = bump(b.args[0].args[0]); fl = pointed(c)
        if fl is not None and fl.args[1] == "dist_up_dn": return S("d", "ud"[int(k)]) if k in (0, 1) else None
        if fl is not None and fl.args[1] == "unit_vec_up_dn": return S("u", k)
    return None
def named(t): return subst(t, name, {})

def closed(t): return not any(s.op in ("phi", "unk", "out", "call", "uninit", "ld") for s in subterms(t))

# ---------------------------------------------------------------- specialised evaluation
def reads(p, g, field):
    memo = p.__dict__.setdefault("_reads_" + field, {})
    if g.name in memo: return memo[g.name]
    memo[g.name] = False
    r = False
    for x in walk(g.body):
        if x["k"] == "mem" and x["f"] == field: r = True
        if x["k"] == "call" and x.get("fn"):
            h = p.resolve(g, x["fn"])
            if h is not None and h.body is not None and reads(p, h, field): r = True
    memo[g.name] = r
    return r

class Case(Region):
    """three dimensions, one of the two cells of the face (or none) a boundary cell, one method"""
    case = None; method = None
    def outv(self, nid, j, fn):
        if fn in ("DMGetDimension", "DMGetCoordinateDim") and j == 1: return num(3)
        return Flow.outv(self, nid, j, fn)
    def _initial(self, env, loc):
        if loc.op == "F" and loc.args[1] == "gmatrix_method" and self.method is not None: return num(self.method)
        return Flow._initial(self, env, loc)
    def _known(self, t):
        v = Region._known(self, t)
        if v is not None: return v
        if t.op == "lt":
            for a, b, first in ((t.args[0], t.args[1], True), (t.args[1], t.args[0], False)):
                w = cellside(a)
                if w is None or b.op != "c": continue
                isneg = self.case == w
                if first and b is ZERO: return int(isneg)
                if not first and b.args[0] == -1: return int(not isneg)
        return None

def flow(p, f, case, method=None, stop=lambda g: False):
    cls = type("C", (Case,), {"case": case, "method": method, "facts": ()})
    return cls(p, f, inline=lambda g, c, s: not (c.get("m") or "").startswith("TDY_") and g.name != "TDyMeshGetSubcellIDGivenCellIdVertexIdFaceId" and not stop(g), peel=400,
        bind={q["n"]: num(3) for q in f.params if q["n"] == "dim"}, nonnull=[mk("p", k, q["n"]) for k, q in enumerate(f.params) if f.types[q["t"]][2] == "ptr"])

def result(F, j):
    if F.exit.id not in F.alive: return None
    l = mk("D", mk("p", j, F.f.params[j]["n"]))
    env = F.IN[F.exit.id]
    return F.simplify(env[l]) if l in env else None

# ---------------------------------------------------------------- expected geometry
def X(s, case): return [S("X", "f" if case == s else s, k) for k in range(3)]
def summed(xs):
    r = ZERO
    for x in xs: r = add(r, x)
    return r
def dotp(a, b): return summed(mul(x, y) for x, y in zip(a, b))
def minus(a, b): return [sub(x, y) for x, y in zip(a, b)]
def length(a): return power(dotp(a, a), HALF)
def unit(case):
    d = minus(X("d", case), X("u", case))
    return [div(x, length(d)) for x in d]
def along(u, s): return inv(summed(div(mul(u[k], u[k]), S("K", s, 4 * k)) for k in range(3)))
def g(u): return dotp([S("g", k) for k in range(3)], u)
def dists(case): return [ZERO if case == s else length(minus(X(s, None), X("f", None))) for s in "ud"]
CASES = ((None, "interior"), ("u", "boundary, first cell outside"), ("d", "boundary, second cell outside"))

# ---------------------------------------------------------------- residuals
def residual(ctx, kind, f):
    p = ctx.p
    Sy = System(p, f, ROLES[kind, "R"], peel=PEEL)
    if not Sy.ok: return
    for vec, adds in Sy.filled().items():
        groups = {}
        for n, row, v, nest, delta in adds: groups.setdefault(nest, []).append((n, row, v))
        for nest, gr in groups.items():
            if any(t is None for n, row, v in gr for t in (row, v)): continue
            shape = Shape([t for n, row, v in gr for t in (row, v)])
            if len(shape.faces) == 1: face(ctx, f, [(n, normalise(shape(row)), normalise(shape(v))) for n, row, v in gr])

def entry(t, field):
    """element of the array of a vector kept in the context"""
    l = leaf(t)
    return l is not None and l[0] == "a" and tshow(l[2]).endswith(field)

def face(ctx, f, gr):
    cells = (UP, DN)
    bs = max([decode_all(row, cells) for n, row, v in gr] + [1])
    inc = {(r, k): total(mul(pick(row, lambda x: at(x, r, k, bs, cells)), v) for n, row, v in gr) for r in cells for k in range(bs)}
    line = gr[0][0].line
    if all(v is ZERO for v in inc.values()): return
    ok = consistent(C)
    bad = {}
    n = {"interior": 0, "boundary": 0}
    for case, facts in (("interior", {mk("lt", UP, ZERO): False, mk("lt", DN, ZERO): False, local(UP): True, local(DN): True}),
                        ("boundary", {mk("lt", UP, ZERO): True, mk("lt", DN, ZERO): False, local(DN): True}),
                        ("boundary", {mk("lt", DN, ZERO): True, mk("lt", UP, ZERO): False, local(UP): True})):
        qs = [inc[UP, k] if not facts[mk("lt", UP, ZERO)] else neg(inc[DN, k]) for k in range(bs)]
        for fs, out in lv(qs, facts, lambda fs: ok(fs) and whole(fs)):
            q = out[0]
            if skip(fs) or same(q, ZERO): continue
            n[case] += 1
            for key, msg in law(ctx, f, case, q, out[1] if bs > 1 else None): bad.setdefault("%s:%s" % (case, key), (fs, msg))
    for case in n: ctx.ob("darcy", "%s: %s face, %d cases" % (f.name, case, n[case]))
    for key, (fs, msg) in sorted(bad.items()):
        ctx.viol("%s:%s" % (f.name, key), f, line, "darcy", "%s when %s" % (msg, show_facts(fs)))

def law(ctx, f, case, q, q2):
    r = S("r")
    by = {}
    for s in subterms(q):
        x = side(s)
        if x: by.setdefault(x[0], set()).add(s)
    if not by.get("Kr") or not by.get("vis"): return
    q1 = subst(q, lambda s: r if (side(s) or ("",))[0] == "rho" else None, {})
    if len(by["Kr"]) != 1 or len(by["vis"]) != 1:
        yield "mobility", "the flux uses more than one mobility"; return
    kr, vis = next(iter(by["Kr"])), next(iter(by["vis"]))
    if side(kr)[1] is not side(vis)[1]: yield "mobility", "relative permeability and viscosity are those of different cells"
    TP = [s for s in subterms(q1) if entry(s, "TtimesP_vec") and not entry(s, "Temp_TtimesP_vec")]
    G = [s for s in subterms(q1) if entry(s, "GravDisVec")]
    mob = div(mul(r, kr), vis)
    if TP:
        want0 = mul(mob, neg(TP[0]))
        if len(TP) > 1: yield "pressure", "the flux mixes entries of the product of transmissibilities and pressures"; return
        if not same(subst(q1, lambda s: ZERO if s in G else None, {}), want0):
            yield "pressure", "without gravity the water flux is %s, not -density*kr/viscosity*(T*P)" % tshow(subst(q1, lambda s: ZERO if s in G else None, {}))[:200]; return
        if not G: yield "gravity", "the water flux has no gravity term"
        elif len(G) > 1 or leaf(G[0])[3] is not leaf(TP[0])[3] or not same(q1, sub(want0, mul(mul(mob, r), G[0]))):
            yield "gravity", "the gravity part of the water flux is %s, not -density^2*kr/viscosity*G of the same sub-face" % tshow(sub(q1, want0))[:200]
        H = [s for s in subterms(q2) if entry(s, "Temp_TtimesP_vec")] if q2 is not None else []
        if H:
            rest = subst(q2, lambda s: ZERO if s in H else None, {})
            if len(H) > 1 or leaf(H[0])[3] is not leaf(TP[0])[3] or not same(sub(q2, rest), neg(H[0])): yield "conduction", "the conducted heat is %s, not -(T*T) of the same sub-face" % tshow(sub(q2, rest))[:160]
        return
    # two points
    outs = sorted({s for s in subterms(q1) if s.op == "out"}, key=lambda s: s.id)
    c = "u" if case == "boundary" else None
    P = {x: [s for s in subterms(q1) if (side(s) or ("",))[0] in ("pressure", "P") and side(s)[1] is x] for x in (UP, DN)}
    if any(len(v) != 1 for v in P.values()):
        yield "pressure", "the flux is not driven by the pressures on both sides of the face"; return
    u = [S("u", k) for k in range(3)]
    du, dd = S("d", "u"), S("d", "d")
    ku, kd = along(u, "d" if c == "u" else "u"), along(u, "d")
    cond, head = inv(add(div(du, ku), div(dd, kd))), mul(add(du, dd), g(u))
    role = {}
    for s in outs:
        k = helper(ctx, f, s, c, cond, head)
        if k is None: yield "helper", "%s cannot be expressed by the geometry and the permeabilities of the two cells" % tshow(s.args[2])[:80]; return
        role[s] = k
    q1 = subst(q1, lambda s: role.get(s), {})
    q1 = named(q1)
    roles = {x.args[0] for x in role.values() if x.op == "sym"}
    want = mul(mul(mul(mob, S("A")), S("conductance") if "conductance" in roles else cond), sub(sub(P[UP][0], P[DN][0]), mul(r, S("head") if "head" in roles else head)))
    ctx.ob("conductance", "%s: %s face" % (f.name, case))
    if not sameat(q1, named(want)):
        flat = [subst(x, lambda s: ZERO if s.op == "sym" and s.args[0] in ("head", "g_0", "g_1", "g_2") else None, {}) for x in (q1, named(want))]
        if not sameat(*flat): yield "conductance", "without gravity the water flux is %s; expected density*kr/viscosity*area*(P_up-P_dn)/(sum of distance/permeability)" % tshow(flat[0])[:200]
        else: yield "gravity", "the driving force is not P_up - P_dn - density*gravity*(distance along gravity)"

def helper(ctx, f, s, c, cond, head):
    """what an output of a helper called for the face is: its conductance, the gravity head across it, or some other closed form"""
    memo = ctx.p.__dict__.setdefault("_c20", {})
    key = (s.args[2].args[0], s.args[1], c)
    if key not in memo:
        memo[key] = None
        h = ctx.p.resolve(f, key[0])
        if h is not None and h.body is not None:
            v = result(flow(ctx.p, h, c), key[1])
            if v is not None:
                v = named(v)
                if same(v, head): memo[key] = S("head")
                elif same(v, cond): memo[key] = S("conductance")
                elif closed(v): memo[key] = v
    return memo[key]

# ---------------------------------------------------------------- the gravity term of MPFA-O
def gravity(ctx):
    p = ctx.p
    mm = method_names(p)
    for f in p.libfuncs:
        if not any((c.get("fn") or "").startswith("VecGetArray") and c["a"] and "GravDisVec" in show(c["a"][0]) for c in calls(f.body)): continue
        done = {}
        for case, what in CASES:
            for m, mname in mm:
                # the face permeability is supplied by a helper; wrappers around that helper are opened until the identity holds
                first, opened = None, set()
                for _ in range(4):
                    got = list(entries(p, f, case, m, opened))
                    res = [(line, term(val, case, mname)) for line, val in got]
                    if first is None: first = res
                    wrong = [t for line, t in res if t[1] is not None]
                    more = {s.args[2].args[0] for t in wrong for s in t[0]} - opened
                    if not wrong or not more: break
                    opened = opened | more
                if not res or any(t[1] is not None for line, t in res): res = first
                for line, (outs, bad) in res:
                    ctx.check("gravity-term", "%s: %s, %s" % (f.name, mname, what), bad is None, "%s:%s:%s" % (f.name, mname, case or "interior"), f, line,
                        "the gravity term of a face (%s, %s) %s" % (mname, what, bad))
                    if len(outs) != 1: continue
                    h = p.resolve(f, outs[0].args[2].args[0])
                    if h is None or h.body is None or (h.name, case, m) in done: continue
                    done[h.name, case, m] = 1
                    (tpf if mname == "TPF" else full)(ctx, h, outs[0].args[1], case, what, m)

def entries(p, f, case, m, opened):
    F = flow(p, f, case, m, stop=lambda g: g.name not in opened and reads(p, g, "K0"))
    if F.exit.id not in F.alive: return
    arr = {n.id for n, c, a in F.sites(lambda c: (c.get("fn") or "").startswith("VecGetArray")) if a and a[0].op == "ld" and a[0].args[0].op == "F" and a[0].args[0].args[1] == "GravDisVec"}
    for n, asg, loc, val, old in F.stores():
        b, i = bump(loc)
        if b is None or b.op != "D" or b.args[0].op != "out" or b.args[0].args[0] not in arr: continue
        val = F.simplify(val)
        if val is ZERO and excused(F, n): continue
        yield n.line, val

def excused(F, n):
    """under a test of the kind of boundary condition: no gravity where there is no flux"""
    ways = {}
    for b, lab in F.guards(n.id): ways.setdefault(b, set()).add(lab)
    for b, labs in ways.items():
        nd = F.byid[b]
        if nd.kind not in ("cond", "switch") or len(labs) != 1: continue            # reached on both sides of the test
        t = F.ev(nd.ast, dict(F.IN[b]), b)
        if not isinstance(t, T) or not any(s.op == "ld" and s.args[0].op == "F" and s.args[0].args[1] == "bc_type" for s in subterms(t)): continue
        lab = next(iter(labs))
        if nd.kind == "switch" or (t.op == "eq" and lab is True or t.op == "ne" and lab is False) : return True
    return False

def term(val, case, mname):
    """(helpers the term depends on, what is wrong with it)"""
    outs = sorted({s for s in subterms(val) if s.op == "out" and s.args[2].args[0] != "TDyMeshGetSubcellIDGivenCellIdVertexIdFaceId"}, key=lambda s: s.id)
    v = named(val)
    u = unit(case)
    k = S("k")
    if len(outs) != 1: return outs, "depends on %s instead of one face permeability" % ([tshow(s)[:60] for s in outs],)
    v = subst(v, lambda s: k if s is outs[0] else None, {})
    want = mul(mul(S("A"), k), g(u))
    if mname == "TPF": want = mul(want, dotp([S("normal", "f", j) for j in range(3)], u))
    if not samepoint(v, want, u, ZERO, ZERO): return outs, "is not area * face permeability * gravity along the line joining the two centres: %s" % tshow(v)[:160]
    return outs, None

def method_names(p):
    for name, consts in enums(p):
        if any(c == "MPFAO_GMATRIX_TPF" for c, v in consts): return [(v, "TPF" if c.endswith("TPF") else "default") for c, v in consts]
    raise AnalysisBroken("the G-matrix methods are not enumerated")
def enums(p):
    for tu in p.tus:
        for e in tu.enums: yield e.get("n"), e["consts"]

def tpf(ctx, h, j, case, what, m):
    v = result(flow(ctx.p, h, case, m), j)
    key = "%s:%s" % (h.name, case or "interior")
    v = named(v) if v is not None else None
    u = unit(case)
    ku, kd = along(u, "d" if case == "u" else "u"), along(u, "u" if case == "d" else "d")
    du, dd = dists(case)
    want = div(add(du, dd), add(div(du, ku), div(dd, kd)))
    ok = v is not None and samepoint(v, want, u, du, dd)
    ctx.check("face-permeability", "%s: %s" % (h.name, what), ok, key, h, h.line, "the permeability of a face (%s) is not the distance-weighted harmonic mean of its two cells' permeabilities along the line joining them" % what)
def abstract(t, u, du, dd):
    """lengths as unknowns of their own"""
    by = {x.args[0]: S("len", k) for k, x in (("L", length_of(u)), ("du", du), ("dd", dd)) if x.op == "pow"}
    return subst(t, lambda s: by.get(s.args[0]) if s.op == "pow" and s.args[1] is HALF else None, {})
POINTS = ({"u": (3, -5, 7), "d": (11, 2, -13), "f": (17, 19, 4)}, {"u": (-2, 23, 5), "d": (29, -3, 8), "f": (1, 6, 31)})
def samepoint(a, b, u, du, dd):
    """identity of two rational functions of permeabilities and lengths, at two generic positions of the centres"""
    a, b = abstract(a, u, du, dd), abstract(b, u, du, dd)
    for P in POINTS:
        def at(s):
            if s.op == "sym":
                m = s.args[0].split("_")
                if m[0] == "X": return num(P[m[1]][int(m[2])])
            return None
        if not same(subst(a, at, {}), subst(b, at, {})): return False
    return True
def sameat(a, b):
    """identity of two rational functions, at three generic values of permeabilities, distances and directions"""
    if same(a, b): return True
    for seed in (3, 5, 11):
        def at(s):
            if s.op != "sym" or s.args[0] in ("r", "head", "conductance"): return None
            return num(2 + sum((k + 1) * ord(c) for k, c in enumerate(s.args[0])) * seed % 97)
        if not same(subst(a, at, {}), subst(b, at, {})): return False
    return True
def length_of(u):
    for s in subterms(u[0]):
        if s.op == "pow" and s.args[1] is HALF: return s
    return None

def origins(F, t, base, memo):
    """indices of the elements of an array, filled by a call, that a value comes from"""
    r = set()
    for y in subterms(t):
        if y.op == "ld" and y.args[0].op == "E" and y.args[0].args[0] is base and cval(y.args[0].args[1]) is not None: r.add(cval(y.args[0].args[1]))
        elif y.op == "phi":
            if y not in memo:
                memo[y] = set()
                i, loc = y.args
                for j, _ in F.pred.get(i, ()):
                    env = F.OUT.get(j)
                    if env is not None: memo[y] |= origins(F, F.simplify(env[loc] if loc in env else F._initial(env, loc)), base, memo)
            r |= memo[y]
    return r
def full(ctx, h, j, case, what, m):
    """n . (Kface u) with Kface the inverse of the weighted mean of the inverses, entries cut off at zero"""
    F = flow(ctx.p, h, case, m, stop=lambda g: g.name == "ComputeInverseOf3by3Matrix")
    key = "%s:%s" % (h.name, case or "interior")
    inst = "%s: %s" % (h.name, what)
    v = result(F, j)
    u = unit(case); n = [S("normal", "f", k) for k in range(3)]
    bad = None
    calls_ = [(nd, a) for nd, c, a in F.sites("ComputeInverseOf3by3Matrix")]
    def content(nd, a, k):
        env = F.IN[nd.id]
        if a.op != "addr": return None
        l = a.args[0]; b = l.args[0] if l.op == "E" else l
        l = mk("E", b, num(k))
        return named(F.simplify(env[l] if l in env else F._initial(env, l)))
    ins = [[content(nd, a[0], k) for k in range(9)] for nd, a in calls_]
    outs = [a[1].args[0].args[0] if a[1].op == "addr" and a[1].args[0].op == "E" else None for nd, a in calls_]
    if v is None or len(calls_) != 3: bad = "the permeability of the face is not built from the inverses of the two cells' tensors"
    else:
        want = {"u": [S("K", "d" if case == "u" else "u", k) for k in range(9)], "d": [S("K", "u" if case == "d" else "d", k) for k in range(9)]}
        tr = lambda M: [M[3 * (k % 3) + k // 3] for k in range(9)]
        who = {}
        for i in range(3):
            for s in "ud":
                for M in (want[s], tr(want[s])):
                    if ins[i] == M and s not in who.values() and i not in who: who[i] = s
        rest = [i for i in range(3) if i not in who]
        if len(who) != 2 or len(rest) != 1: bad = "the tensors inverted are not those of the two cells of the face"
        else:
            i3 = rest[0]
            du, dd = dists(case)
            w = {"u": div(du, add(du, dd)), "d": div(dd, add(du, dd))}
            for k in range(9):
                t = ins[i3][k]
                for i, s in who.items():
                    rd = [x for x in subterms(t) if x.op == "ld" and x.args[0] is mk("E", outs[i], num(k))]
                    if same(w[s], ZERO) and not rd: continue
                    if len(rd) != 1 or not samepoint(deriv(t, rd[0]), w[s], u, du, dd): bad = "the inverse tensors of the two cells are not weighted by their distances to the face (entry %d)" % k
            # entries of the inverse of the mean, cut off at zero in whatever way
            ks = {}
            def rep(x):
                got = origins(F, x, outs[i3], {}) if x.op in ("phi", "ite", "ld", "max", "min") else ()
                if len(got) != 1: return None
                i = next(iter(got))
                ks[int(i)] = S("k", int(i))
                return ks[int(i)]
            V = subst(named(v), rep, {})
            if set(ks) != set(range(9)): bad = bad or "not all components of the face's tensor enter"
            else:
                wantv = summed(mul(mul(n[a], ks[3 * a + b]), u[b]) for a in range(3) for b in range(3))
                wantt = summed(mul(mul(n[a], ks[3 * b + a]), u[b]) for a in range(3) for b in range(3))
                if not same(V, wantv) and not same(V, wantt): bad = bad or "the face permeability is not normal . (K * direction)"
    ctx.check("face-permeability", inst, bad is None, key, h, h.line, "face permeability (%s): %s" % (what, bad))
