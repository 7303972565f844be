"""The terms every residual callback (and every assembler of the steady system) adds to the two cells of a face, and to a cell,
are obtained as closed conditional expressions and checked case by case: opposite signs on the two sides, nothing depending on
which rank owns the other cell, nothing written to ghost rows, mobility and transported enthalpy taken from the cell the flux
leaves, storage terms equal to the rate of change of the stored quantity, sources entering with the cell's volume."""
from ..core import *
from ..gvn import *
from ..gate import *
from ..alg import *
from ..system import System, STAR
from .C13 import registrations, selectors, ROLES, Shape, UP, DN, LC, leaf, local, consistent, normalise, at, pick, total, decode_all, load, Chain, atoms, skip, PEEL, eq, K, C

NOROW = mk("none")
def run(ctx):
    p = ctx.p
    seen = set()
    regs = registrations(p)
    for kind, what, fn, sel, where in regs:
        if what != "R" or fn in seen: continue
        seen.add(fn)
        f = p.func(fn)
        if f is None: continue
        residual(ctx, kind, f, transient(p, where, sel))
    for f in p.libfuncs:
        if f.name in seen: continue
        mats = [i for i, q in enumerate(f.params) if f.types[q["t"]][0] == "Mat"]
        if mats and any(c.get("fn") == "MatSetValue" for c in calls(f.body)): steady(ctx, f)
    previous(ctx)
    ctx.need("opposite", 8); ctx.need("storage", 5); ctx.need("upwind", 10)

def transient(p, where, sel):
    """[stored-quantity callbacks] registered together with a residual selected by sel"""
    if not any(c.get("fn") == "DMTSSetTransientVariable" for c in calls(where.body)): return []
    F = Flow(p, where, inline=lambda g, c, s: False)
    out = []
    for n, c, args in F.sites("DMTSSetTransientVariable"):
        s2 = selectors(F, n)
        if all(s2[x] & sel[x] for x in s2 if x in sel) and args[1].op == "fn": out.append(args[1].args[0])
    return out

def residual(ctx, kind, f, tv):
    p = ctx.p
    S = System(p, f, ROLES[kind, "R"], peel=PEEL)
    if not S.ok: return
    fields = set()
    cellmodels = []
    for vec, adds in S.filled().items():
        if vec.op == "arrayof": pass
        groups = {}
        for n, row, v, nest, delta in adds: groups.setdefault(nest, []).append((n, row, v))
        for nest, g in groups.items():
            if any(t is None for n, row, v in g for t in (row, v)):
                ctx.note("%s: a term was not resolved" % f.name); continue
            shape = Shape([t for n, row, v in g for t in (row, v)])
            if len(shape.faces) > 1: ctx.note("%s: more than one face per iteration" % f.name); continue
            g = [(n, normalise(shape(row)), normalise(shape(v))) for n, row, v in g]
            if shape.faces: face(ctx, f, g)
            elif nest and vec is mk("sym", "R"): cellmodels.append(g)
    cleared(ctx, S, f)
    visited(ctx, S, f, {n for vec, adds in S.filled().items() for n, *_ in adds})
    for g in cellmodels: cell(ctx, S, f, g, tv)

def wet(g):
    return any((leaf(s) or (0, 0, None))[2] in ("rho", "source_sink") for n, row, v in g for s in atoms_in(v))
def atoms_in(t):
    return {s for s in subterms(t) if s.op == "ld"}

# ---------------------------------------------------------------- faces
def face(ctx, f, g):
    cells = (UP, DN)
    bs = max([decode_all(row, cells) for n, row, v in g] + [1])
    inc = {(r, k): total(mul(pick(row, lambda x: at(x, r, k, bs, cells)), v) for n, row, v in g) for r in cells for k in range(bs)}
    line = g[0][0].line
    if all(v is ZERO for v in inc.values()): return
    ok = consistent(C)
    both = {mk("lt", UP, ZERO): False, mk("lt", DN, ZERO): False}
    for k in range(bs):
        what = ("mass", "energy or solute")[k]
        u, d = inc[UP, k], inc[DN, k]
        facts = dict(both); facts[local(UP)] = True; facts[local(DN)] = True
        if u is not ZERO and d is not ZERO:
            bad = None; n = 0
            s = reduce(add(u, d), facts)
            for fs, (t,) in lv([s], facts, ok): 
                n += 1
                if not same(t, ZERO): bad = (fs, t); break
            ctx.ob("opposite", "%s: %s flux, %d cases" % (f.name, what, n))
            if bad: ctx.viol("%s:%s:opposite" % (f.name, what), f, line, "opposite", "what the %s equation of the upstream-side cell gains is not what the other cell's loses: they sum to %s when %s" % (what, tshow(bad[1])[:200], show_facts(bad[0])))
        for r, o in ((UP, DN), (DN, UP)):
            v = inc[r, k]
            # the owner of the other cell does not matter
            facts = dict(both); facts[local(r)] = True
            a = dict(facts); a[local(o)] = True
            b = dict(facts); b[local(o)] = False
            bad = None; n = 0
            t = sub(reduce(v, a), reduce(v, b))
            for fs, (t,) in lv([t], facts, lambda fs: ok(fs) and whole(fs)):
                n += 1
                if not same(t, ZERO): bad = (fs, t); break
            ctx.ob("any-owner", "%s: %s row of %s, %d cases" % (f.name, what, tshow(r), n))
            if bad: ctx.viol("%s:%s:owner" % (f.name, what), f, line, "any-owner", "the flux added to a cell depends on whether the other cell of the face is owned by this process, when %s" % show_facts(bad[0]))
            facts = {local(r): False, mk("lt", r, ZERO): False}
            bad = None
            for fs, (t,) in lv([reduce(v, facts)], facts, lambda fs: ok(fs) and whole(fs)):
                if not same(t, ZERO): bad = fs; break
            ctx.ob("own-rows", "%s: %s row of %s" % (f.name, what, tshow(r)))
            if bad: ctx.viol("%s:%s:ghost" % (f.name, what), f, line, "own-rows", "a flux is added to the row of a cell this process does not own, when %s" % show_facts(bad))
    upwind(ctx, f, line, inc, bs)

def whole(fs):
    """a face that is local and on the boundary has a local cell"""
    b = [o for r, o in ((UP, DN), (DN, UP)) if fs.get(mk("lt", r, ZERO)) or not_internal(fs)]
    loc = any(v and a.op == "nz" and face_local(a.args[0]) for a, v in fs.items())
    if loc and fs.get(mk("lt", UP, ZERO)) and fs.get(local(DN)) is False: return False
    if loc and fs.get(mk("lt", DN, ZERO)) and fs.get(local(UP)) is False: return False
    if loc and not_internal(fs) and (fs.get(local(UP)) is False or fs.get(local(DN)) is False): return False
    if loc and fs.get(local(UP)) is False and fs.get(local(DN)) is False: return False
    return True
def not_internal(fs):
    for a, v in fs.items():
        if a.op == "nz" and not v:
            l = leaf(a.args[0])
            if l and l[0] == "f" and l[2] == "is_internal": return True
    return False
def face_local(t):
    l = leaf(t)
    return bool(l and l[0] == "f" and l[2] == "is_local" and l[1].op == "F" and l[1].args[1] == "faces")

def lv(ts, facts, ok):
    try: return leaves(ts, facts, normalise, ok, 4000)
    except TooMany: return []
def show_facts(fs): return ", ".join(("" if v else "not ") + tshow(a) for a, v in fs.items())[:300] or "always"

def side(t):
    """which cell of the face a load is about: (field, UP or DN)"""
    l = leaf(t)
    if l is None: return None
    i = l[3]; name = l[2] if l[0] == "f" else tshow(l[2])
    for c in (UP, DN):
        if i is c or same_index(i, c): return (re.sub(r"_bnd$", "", name), c)
        if i is sub(neg(c), ONE): return (re.sub(r"_bnd$", "", name), c)
    return None
def same_index(i, c):
    return i.op == "poly" and any(cval(sub(i, mul(num(b), c))) in tuple(range(b)) for b in (2, 3))

MOBILITY = ("Kr", "vis")
def upwind(ctx, f, line, inc, bs):
    """the mobility is that of the cell the flux leaves, and so is what it carries"""
    ok = consistent(C)
    bad = {}
    for case, facts in (("interior", {mk("lt", UP, ZERO): False, mk("lt", DN, ZERO): False, local(UP): True, local(DN): True}),
                        ("boundary", {mk("lt", UP, ZERO): True, mk("lt", DN, ZERO): False, local(DN): True}),
                        ("boundary", {mk("lt", DN, ZERO): True, mk("lt", UP, ZERO): False, local(UP): True})):
        qs = [inc[UP, k] if not facts[mk("lt", UP, ZERO)] else neg(inc[DN, k]) for k in range(bs)]
        for fs, out in lv(qs, facts, lambda fs: ok(fs) and whole(fs)):
            if skip(fs): continue
            q = out[0]
            sides = {side(s) for s in atoms(q)} - {None}
            mob = {c for n, c in sides if n in MOBILITY}
            if same(q, ZERO): continue
            key = "%s:%s" % (f.name, case)
            if not mob: continue
            ctx.ob("upwind", "%s: %s face, %d conditions" % (f.name, case, len(fs)))
            if len(mob) > 1:
                bad.setdefault(key + ":mixed", (fs, "the flux mixes the mobilities of both cells")); continue
            c = next(iter(mob))
            dirs = direction(q, fs)
            if not dirs: bad.setdefault(key + ":direction", (fs, "the cell whose mobility is used is not chosen by the direction of the flux"))
            elif c not in dirs: bad.setdefault(key + ":side", (fs, "the mobility is that of the cell the flux enters"))
            for k in range(1, bs):
                ctx.ob("carried", "%s: %s face, %d conditions" % (f.name, case, len(fs)))
                kr = [s for s in atoms(q) if (side(s) or ("",))[0] == "Kr"][0]
                adv = mul(kr, deriv(out[k], kr))
                xs = [s for s in atoms(adv) if s not in atoms(q)]
                if not (len(xs) == 1 and side(xs[0]) and side(xs[0])[1] is c and same(adv, mul(q, xs[0]))):
                    bad.setdefault(key + ":carried", (fs, "the flux does not carry the %s of the cell it leaves" % "enthalpy or concentration"))
    for key, (fs, msg) in sorted(bad.items()):
        ctx.viol(key, f, line, "upwind", "%s when %s" % (msg, show_facts(fs)))

def direction(q, fs):
    """{cells the flux q (out of UP) can leave}, decided by a comparison the branch made, proportional to the flux"""
    for a, v in sorted(fs.items(), key=lambda p: p[0].id):
        if a.op != "lt": continue
        x = sub(a.args[0], a.args[1])              # a true: x < 0
        aq, ax = atoms(q), atoms(x)
        if not ax <= aq: continue
        for s in sorted(ax, key=lambda s: s.id):
            try: dx, dq = deriv(x, s), deriv(q, s)
            except NotSmooth: continue
            if dx is ZERO or s in subterms(dx) or s in subterms(dq): continue
            k = mul(dq, inv(dx))
            if not same(q, mul(k, x)): continue
            sg = sign(k)
            if sg == 0: continue
            pos = (sg > 0) != v                    # q > 0 (or >= 0)
            return {UP} if pos else {DN}
    return set()

def sign(t, depth=0):
    """sign of a product of quantities that are positive (densities, mobilities, permeabilities, areas, weights in [0,1])"""
    n, d = ratio(t)
    a, b = psign(n, depth), psign(d, depth)
    return a * b
def psign(t, depth=0):
    if t.op == "c": return (t.args[0] > 0) - (t.args[0] < 0)
    if t.op != "poly": return 1
    cs = [c for m, c in t.args[0]]
    if all(c > 0 for c in cs): return 1
    if all(c < 0 for c in cs): return -1
    if depth > 3: return 0
    # affine in something between 0 and 1
    for x in sorted(atoms_or_out(t), key=lambda s: s.id):
        if leaf(x) is not None: continue
        try:
            y = [subst(t, lambda s: v if s is x else None, {}) for v in (ZERO, ONE)]
        except ZeroDivisionError: continue
        dd = deriv(t, x)
        if x in subterms(dd): continue
        s0, s1 = psign(y[0], depth + 1), psign(y[1], depth + 1)
        if s0 and s0 == s1: return s0
    # a factor common to all terms, then a sum of one sign
    return 0
def atoms_or_out(t):
    return {a for m, c in t.args[0] for a, e in m if e == 1} if t.op == "poly" else set()

# ---------------------------------------------------------------- cells
def content(f, name, i, comp, kind):
    """the stored amount of what equation comp balances"""
    V = load("volume", i, mk("F", STAR, "cells"))
    L = lambda x: load(x, i)
    m = mul(mul(L("rho"), L("porosity")), L("S"))
    if kind == "mass": return mul(m, V)
    if kind == "energy": return mul(add(mul(m, L("u")), mul(mul(mul(L("rho_soil"), L("c_soil")), sub(ONE, L("porosity"))), state(i, 1))), V)
    if kind == "solute": return mul(mul(m, state(i, 1)), V)
def state(i, k, vec="U"): return mk("ld", mk("E", mk("D", mk("arrayof", mk("sym", vec))), add(mul(num(2), i), num(k))), mk("v0"))

def cell(ctx, S, f, g, tv):
    p = ctx.p
    if not tv and not wet(g): return
    bs = max([decode_all(row, (LC,)) for n, row, v in g] + [1])
    line = g[0][0].line
    inc = [total(mul(pick(row, lambda x: at(x, LC, k, bs, (LC,))), v) for n, row, v in g) for k in range(bs)]
    facts = {local(LC): True}
    V = load("volume", LC, mk("F", STAR, "cells"))
    for k in range(bs):
        for fs, (t,) in lv([inc[k]], {local(LC): False}, lambda fs: True):
            ctx.check("own-rows", "%s: cell row" % f.name, same(t, ZERO), "%s:cell:ghost" % f.name, f, line, "a cell term is added to the row of a cell this process does not own")
            break
    for fs, out in lv(inc, facts, lambda fs: True):
        src = []
        for k in range(bs):
            name = ("mass", "energy or solute")[k]
            ss = [s for s in atoms(out[k]) if leaf(s) and str(leaf(s)[2]).endswith("source_sink")]
            for s in ss:
                ctx.check("source", "%s: %s" % (f.name, name), same(deriv(out[k], s), neg(V)) or same(deriv(out[k], s), num(-1)), "%s:%s:source" % (f.name, name), f, line, "the source of the %s equation does not enter as -source, per cell or per volume, but with factor %s" % (name, tshow(deriv(out[k], s))[:120]))
                src.append((k, s))
            out[k] = subst(out[k], lambda x: ZERO if x in ss else None, {})
        ctx.check("source", "%s: one per equation" % f.name, len({s for k, s in src}) == len(src), "%s:shared-source" % f.name, f, line, "two equations share a source term")
        storage(ctx, S, f, out, bs, tv, line)

def uses(t, vec): return [s for s in atoms(t) if leaf(s) and leaf(s)[0] == "a" and leaf(s)[2] is mk("sym", vec)]
def index(s, bs):
    k = cval(sub(leaf(s)[3], mul(num(bs), LC)))
    return None if k is None else int(k)

def kinds(t, bs):
    names = {str((leaf(s) or (0, 0, ""))[2]) for s in atoms(t)}
    return "energy" if "c_soil" in names or "u" in names else "solute"

def storage(ctx, S, f, out, bs, tv, line):
    p = ctx.p
    names = ("mass", "second")
    rate = [uses(t, "Udot") for t in out]
    prev = [[s for s in atoms(t) if leaf(s) and leaf(s)[0] == "a" and "accumulation_prev" in tshow(leaf(s)[2])] for t in out]
    dt = [[s for s in atoms(t) if s.op == "ld" and s.args[0].op == "F" and s.args[0].args[1] == "dtime"] for t in out]
    def verdict(k, ok, msg): ctx.check("storage", "%s: equation %d" % (f.name, k), ok, "%s:storage:%d" % (f.name, k), f, line, msg)
    for k in range(bs):
        t = out[k]
        if prev[k]:
            kind = "mass" if k == 0 else kinds(t, bs)
            M = content(f, f.name, LC, k, kind)
            s = prev[k][0]
            ok = len(prev[k]) == 1 and index(s, bs) == k and len(dt[k]) == 1
            if ok:
                d = dt[k][0]
                ok = same(add(t, s), mul(M, inv(d)))
            verdict(k, ok, "the change of stored %s over the step is not (content now - content before)/dt: found %s" % (kind, tshow(t)[:200]))
        elif rate[k]:
            us = [index(s, bs) for s in rate[k]]
            if us and all(u == k for u in us) and tv:
                for cb in tv:
                    g = p.func(cb)
                    if g is None: continue
                    SC = System(p, g, {1: "U", 2: "M"}, peel=PEEL)
                    ms = [x for x in SC.filled().get(mk("sym", "M"), ()) if x[1] is LC and x[2] is not None]
                    m = [reduce(x[2], {local(LC): True}) for x in ms]
                    ok = len(m) == 1 and len(rate[k]) == 1 and not ms[0][4]
                    got = mul(deriv(t, rate[k][0]), subst(m[0], lambda x: None, {})) if ok else None
                    verdict(k, ok and same(got, content(f, f.name, LC, k, "mass")), "the rate of the transient variable %s times its factor is not the rate of the stored mass: the factor and variable make %s" % (cb, tshow(got)[:200] if got is not None else "?"))
            elif bs == 2 and us == [1] and k == 0 and not rate[1]:
                # the second equation defines the second unknown
                arr = [s for s in atoms(out[1]) if leaf(s) and leaf(s)[0] == "a"]
                ok = len(arr) == 1
                got = None
                if ok:
                    e = sub(arr[0], out[1])
                    got = mul(deriv(t, rate[0][0]), e)
                    ok = arr[0] not in atoms(e) and same(got, content(f, f.name, LC, 0, "mass")) and same(deriv(t, rate[0][0]), sub(deriv(t, rate[0][0]), ZERO)) and rate[0][0] not in atoms(deriv(t, rate[0][0]))
                verdict(k, ok, "the rate of the second unknown times its factor is not the rate of the stored mass, given the equation that defines it: they make %s" % (tshow(got)[:200] if got is not None else "?"))
            else:
                kind = "mass" if k == 0 else kinds(t, bs)
                M = content(f, f.name, LC, k, kind)
                fields = {fl["n"] for r in p.records.values() for fl in r["fields"] if any(x["n"] == "drho_dP" for x in r["fields"])}
                ch = Chain(fields, bs, ("P",) if bs == 1 else ("P", "T"))
                want = ZERO
                for j, u in enumerate(ch.unk):
                    ud = mk("ld", mk("E", mk("D", mk("arrayof", mk("sym", "Udot"))), add(mul(num(bs), LC), num(j))), mk("v0"))
                    want = add(want, mul(ch.of(M, u, LC), ud))
                verdict(k, same(t, want), "the storage term is not the rate of change of the stored %s; the difference is %s" % (kind, tshow(sub(t, want))[:200]))
        elif t is not ZERO and bs == 1:
            verdict(k, False, "no storage term was found in %s" % tshow(t)[:200])

def previous(ctx):
    """functions that fill the content at the beginning of the step"""
    p = ctx.p
    for f in p.libfuncs:
        if not any(x["k"] == "mem" and x["f"] == "accumulation_prev" for x in walk(f.body)): continue
        if not any((c.get("fn") or "").startswith("VecGetArray") and any(x["k"] == "mem" and x["f"] == "accumulation_prev" for a in c["a"] for x in walk(a)) for c in calls(f.body)): continue
        S = System(p, f, {}, peel=PEEL)
        if not S.ok: continue
        for vec, adds in S.filled().items():
            if "accumulation_prev" not in tshow(vec): continue
            if any(t is None for n, row, v, nest, delta in adds for t in (row, v)): ctx.note("%s: a term was not resolved" % f.name); continue
            bs = max([decode_all(row, (LC,)) for n, row, v, nest, delta in adds] + [1])
            for n, row, v, nest, delta in adds:
                k = next((k for k in range(bs) if at(row, LC, k, bs, (LC,))), None)
                for fs, (t,) in lv([v], {local(LC): True}, lambda fs: True):
                    d = [s for s in atoms(t) if s.op == "ld" and s.args[0].op == "F" and s.args[0].args[1] == "dtime"]
                    kind = "mass" if k == 0 else "solute"
                    M = content(f, f.name, LC, k or 0, kind)
                    st = [s for s in atoms(t) if leaf(s) and leaf(s)[0] == "a"]
                    M = subst(M, lambda x: st[0] if st and x is state(LC, 1) and leaf(st[0])[3] is leaf(x)[3] else None, {})
                    ok = k is not None and len(d) == 1 and not delta and same(t, mul(M, inv(d[0])))
                    ctx.check("content-before", "%s: equation %s" % (f.name, k), ok, "%s:previous:%s" % (f.name, k), f, n.line, "the content at the beginning of the step is not content/dt: found %s" % tshow(t)[:200])
                    if st: ctx.check("content-before", "%s: state" % f.name, all("soln_prev" in tshow(leaf(s)[2]) for s in st), "%s:previous:state" % f.name, f, n.line, "the content at the beginning of the step is not computed from the solution at its beginning")
            ups = [(n, c, args) for n, c, args in S.F.sites("TDyUpdateState")]
            ok = any("soln_prev" in tshow(S.post(S.roleof(S.N.canon(S.G.term(args[1]), {})))) and all(S.F.dominates(n.id, m.id) for m, *_ in adds) for n, c, args in ups)
            ctx.check("content-before", "%s: state update" % f.name, ok, "%s:previous:update" % f.name, f, f.line, "the content at the beginning of the step is computed without updating the state from the solution at its beginning")

def cleared(ctx, S, f):
    """what is added to R is added to zeros"""
    F = S.F
    R = mk("sym", "R")
    zs = [n.id for n, c, args in F.sites(lambda c: c.get("fn") in ("VecZeroEntries", "VecSet")) if S.key(args[0]) is R and (c["fn"] == "VecZeroEntries" or args[1] is ZERO)]
    adds = S.filled().get(R, ())
    # an entry that was given a value earlier in the same iteration is not added to as it was before
    sets = [(n.id, row) for n, row, v, nest, delta in adds if not delta]
    first = [n.id for n, row, v, nest, delta in adds if delta and not any(
        row is q and F.dominates(m, n.id) and F.loops_of(m) == F.loops_of(n.id) for m, q in sets)]
    if not first: return
    ok = any(all(F.dominates(z, a) for a in first) and not F.loops_of(z) for z in zs)
    ctx.check("from-zero", f.name, ok, "%s:zero" % f.name, f, f.line, "the residual is added to without being set to zero first")

def visited(ctx, S, f, nodes):
    """loops over cells, faces and vertices go through all of them (owned cells come first, so a loop over cells may end at the
    first one that is not)"""
    for n in sorted(nodes, key=lambda n: n.id):
        if not S.F.loops_of(n.id): continue
        bad = [y for y, c, d in S.early(n) if c is not None and c not in (mk("nz", load("is_local", mk("sym", "L%d" % d), mk("F", STAR, "cells"))), )]
        ctx.check("all-visited", "%s:%d" % (f.name, n.line), not bad, "%s:early:%s" % (f.name, S.F.fnof[n.id].name), S.F.fnof[n.id], bad[0].line if bad else n.line, "the loop that adds the terms of line %d is left before all elements were visited" % n.line)

# ---------------------------------------------------------------- steady systems
def steady(ctx, f):
    p = ctx.p
    roles = {i: "A%d" % i for i, q in enumerate(f.params) if f.types[q["t"]][0] in ("Mat", "Vec")}
    S = System(p, f, roles, peel=PEEL)
    if not S.ok: return
    groups = {}
    for i, r in roles.items():
        if f.types[f.params[i]["t"]][0] == "Mat":
            for n, row, col, v, nest, br, bc in S.entries(r): groups.setdefault((r, nest), []).append((n, row, v, col))
        else:
            for vec, adds in S.filled().items():
                if vec is mk("sym", r):
                    for n, row, v, nest, delta in adds: groups.setdefault((r, nest), []).append((n, row, v, None))
    visited(ctx, S, f, {n for (r, nest), g in groups.items() for n, *_ in g})
    glob = lambda c: load("global_id", c, mk("F", STAR, "cells"))
    for (r, nest), g in groups.items():
        if any(t is None for n, row, v, col in g for t in (row, v)): continue
        shape = Shape([t for n, row, v, col in g for t in (row, v)])
        if len(shape.faces) != 1: continue
        g = [(n, normalise(shape(row)), normalise(shape(v)), col) for n, row, v, col in g]
        cols = {col for n, row, v, col in g}
        for col in cols:
            mine = [x for x in g if x[3] is col]
            inc = {c: total(mul(pick(row, lambda x: x is glob(c)), v) for n, row, v, _ in mine) for c in (UP, DN)}
            if inc[UP] is ZERO or inc[DN] is ZERO: continue
            facts = {mk("lt", UP, ZERO): False, mk("lt", DN, ZERO): False, local(UP): True, local(DN): True}
            bad = None; n = 0
            for fs, (t,) in lv([reduce(add(inc[UP], inc[DN]), facts)], facts, consistent(C)):
                n += 1
                if not same(t, ZERO): bad = (fs, t); break
            ctx.ob("opposite", "%s: %s, %d cases" % (f.name, r, n))
            if bad: ctx.viol("%s:%s:opposite" % (f.name, r), f, mine[0][0].line, "opposite", "a face's entries for its two cells do not cancel: they sum to %s when %s" % (tshow(bad[1])[:200], show_facts(bad[0])))
