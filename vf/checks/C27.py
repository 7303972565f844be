"""Rule: for every supported cell type, the functions answering for it (numbers of vertices, edges, faces, neighbours,
vertices and type of the i-th face, the face-vertex table, the tetrahedra a volume is summed over) describe the polyhedron
the type names: counts match, every face lists distinct vertices of the cell in cyclic order, every edge is shared by
exactly two faces that traverse it in opposite directions, maxima are attained, the tetrahedra tile the cell. Answers are
obtained by conditional constant propagation of each function for each enumerator and face index."""
from ..core import *
from ..gvn import *

SHAPE = {"TET": (4, 6, 4), "PYRAMID": (5, 8, 5), "WEDGE": (6, 9, 5), "HEX": (8, 12, 6)}
FACE = {"TRI": 3, "QUAD": 4}

def answer(prog, f, args):
    """set of constants f returns for constant arguments; None: it reports an error; 'var': not constant"""
    bind = {p["n"]: num(a) for p, a in zip(f.params, args) if a is not None}
    F = Flow(prog, f, inline=lambda g, c, s: True, bind=bind, peel=40)
    if F.entry.id not in F.alive or F.exit.id not in F.alive: return None
    vs = set()
    for n, t in F.retvals():
        for x in leaves(F, t): vs.add(int(x.args[0]) if x.op == "c" else "var")
    return vs

def leaves(F, t, seen=None):
    seen = seen or set()
    if t.op == "phi" and t not in seen:
        seen = seen | {t}; out = set()
        for j, _ in F.pred.get(t.args[0], []):
            v = F.OUT[j].get(t.args[1]) if j in F.OUT else None
            out |= leaves(F, v, seen) if v is not None else {t}
        return out
    if t.op == "ite": return leaves(F, t.args[1], seen) | leaves(F, t.args[2], seen)
    return {t}

def run(ctx):
    prog = ctx.p
    enums = {}
    for tu in prog.tus:
        for e in tu.enums: enums.setdefault(e["name"], e)
    ce = next((e for e in enums.values() if any(c[0] == "CELL_HEX_TYPE" for c in e["consts"])), None)
    fe = next((e for e in enums.values() if any(c[0] == "QUAD_FACE_TYPE" for c in e["consts"])), None)
    if ce is None: raise AnalysisBroken("no cell type enumeration")
    cells = {}
    for n, v in ce["consts"]:
        for s in SHAPE:
            if s in n: cells[n] = (int(v), SHAPE[s])
    faces = {n: (int(v), FACE[s]) for n, v in (fe["consts"] if fe else []) for s in FACE if s in n}
    def fn(name):
        f = next((g for g in prog.libfuncs if g.name == name), None)
        return f
    def one(R, f, args, what):
        r = answer(prog, f, args)
        if r is None: return None
        if "var" in r: ctx.note("%s%s: answer not constant" % (f.name, tuple(args))); return "var"
        if len(r) != 1:
            ctx.viol("%s|ambiguous|%s" % (f.name, what), f, f.line, R, "%s has several answers for %s: %s" % (f.name, what, sorted(r))); return "var"
        return next(iter(r))
    # counts
    R = "counts are those of the polyhedron"
    for name, idx in (("GetNumVerticesForCellType", 0), ("GetNumEdgesForCellType", 1), ("GetNumFacesForCellType", 2), ("GetNumNeighborsForCellType", 2)):
        f = fn(name)
        if f is None: continue
        for cn, (v, shape) in cells.items():
            r = one(R, f, [v], cn)
            ctx.ob(R, "%s(%s) = %s" % (name, cn, r))
            if r not in ("var", shape[idx]):
                ctx.viol("%s|%s" % (name, cn), f, f.line, R, "%s(%s) is %s; a %s has %d" % (name, cn, r, cn, shape[idx]))
    R = "the cell type is recovered from its number of vertices"
    f = fn("GetCellType")
    if f is not None:
        for cn, (v, shape) in cells.items():
            r = one(R, f, [shape[0]], cn)
            ctx.ob(R, "GetCellType(%d) = %s" % (shape[0], r))
            if r not in ("var", v): ctx.viol("GetCellType|%s" % cn, f, f.line, R, "GetCellType(%d) is %s, not %s" % (shape[0], r, cn))
        for k in range(0, 12):
            if k in [s[0] for _, s in cells.values()]: continue
            if answer(prog, f, [k]) is not None:
                ctx.viol("GetCellType|%d" % k, f, f.line, R, "GetCellType(%d) succeeds" % k)
    # faces
    nv = {}
    table = {}
    ff = fn("GetFaceVertices"); fc = fn("GetNumOfVerticesOfIthFacesForCellType"); ft = fn("TDyGetFaceTypeForCellType"); fq = fn("TDyGetNumVerticesForFaceType")
    R = "face types have the vertices they are named for"
    if fq is not None:
        for n, (v, k) in faces.items():
            r = one(R, fq, [v], n)
            ctx.ob(R, "%s -> %s" % (n, r))
            if r not in ("var", k): ctx.viol("%s|%s" % (fq.name, n), fq, fq.line, R, "%s(%s) is %s" % (fq.name, n, r))
    R = "each face lists its vertices"
    for cn, (v, (NV, NE, NF)) in cells.items():
        polys = []
        for i in range(NF):
            cnt = None
            if fc is not None:
                cnt = one(R, fc, [v, i], "%s face %d" % (cn, i))
                ctx.ob(R, "%s face %d: %s vertices" % (cn, i, cnt))
            if ft is not None:
                ty = one(R, ft, [v, i], "%s face %d type" % (cn, i))
                want = next((k for n, (x, k) in faces.items() if x == ty), None)
                ctx.ob(R, "%s face %d: type %s" % (cn, i, ty))
                if ty != "var" and cnt != "var" and want != cnt:
                    ctx.viol("facetype|%s|%d" % (cn, i), ft, ft.line, R, "face %d of %s has type %s but %s vertices" % (i, cn, ty, cnt))
            if ff is not None:
                row = facerow(prog, ff, v, i)
                if row == "var": continue
                ctx.ob(R, "%s face %d: %s" % (cn, i, row))
                if row is None:
                    ctx.viol("facetable|%s|%d" % (cn, i), ff, ff.line, R, "%s has no face %d in %s" % (cn, i, ff.name)); continue
                used = [x for x in row if x != -1]
                if any(not 0 <= x < NV for x in used) or len(set(used)) != len(used) or row[:len(used)] != used or (cnt not in ("var", None) and len(used) != cnt):
                    ctx.viol("facetable|%s|%d" % (cn, i), ff, ff.line, R, "face %d of %s lists vertices %s (%s expected)" % (i, cn, row, cnt)); continue
                polys.append(used)
        if ff is not None:
            if facerow(prog, ff, v, NF) not in (None, "var"):
                ctx.viol("facetable|%s|%d" % (cn, NF), ff, ff.line, R, "%s answers for a %d-th face of %s" % (ff.name, NF, cn))
        if len(polys) == NF:
            table[cn] = polys
            R2 = "faces close up with consistent orientation"
            dirs = {}
            for p_ in polys:
                for a, b in zip(p_, p_[1:] + p_[:1]): dirs[(a, b)] = dirs.get((a, b), 0) + 1
            ctx.ob(R2, "%s: %d directed edges over %d faces" % (cn, len(dirs), NF))
            bad = [e for e in dirs if dirs[e] != 1 or dirs.get((e[1], e[0])) != 1]
            if bad or len(dirs) != 2 * NE:
                ctx.viol("closed|%s" % cn, ff, ff.line, R2, "faces of %s do not form a closed surface: edges %s" % (cn, sorted(bad)[:4]))
    # maxima
    R = "maximum is the largest answer"
    for name in ("GetMaxNumOfFaceVerticesForCellType", "GetMaxNumOfFaceEdgesForCellType"):
        f = fn(name)
        if f is None: continue
        for cn, (v, shape) in cells.items():
            want = 3 if "TET" in cn else 4
            r = one(R, f, [v], cn)
            if r is None: continue
            ctx.ob(R, "%s(%s) = %s" % (name, cn, r))
            if r not in ("var", want): ctx.viol("%s|%s" % (name, cn), f, f.line, R, "%s(%s) is %s, faces have up to %d" % (name, cn, r, want))
    f = fn("GetMaxNumCellsPerFaceForCellType")
    if f is not None:
        for cn, (v, shape) in cells.items():
            r = one(R, f, [v], cn)
            ctx.ob(R, "%s(%s) = %s" % (f.name, cn, r))
            if r not in ("var", None, 2): ctx.viol("%s|%s" % (f.name, cn), f, f.line, R, "%s(%s) is %s" % (f.name, cn, r))
    # subcells of hexahedra
    R = "subcells are the corners of the cell"
    f = fn("GetSubcellTypeForCellType"); g = fn("GetNumSubcellsForSubcellType")
    sub = None
    if f is not None and g is not None:
        for cn, (v, shape) in cells.items():
            st = one(R, f, [v], cn)
            if st in (None, "var"): continue
            k = one(R, g, [st], cn)
            ctx.ob(R, "%s: %s subcells" % (cn, k))
            if k != "var" and (k is None or k < shape[0]):
                ctx.viol("subcells|%s" % cn, g, g.line, R, "%s has %d corners but %s subcells" % (cn, shape[0], k))
            for name, want in (("GetNumOfNuVectorsForSubcellType", 3), ("GetNumFacesForSubcellType", 3), ("GetNumVerticesForSubcellType", 8)):
                h = fn(name)
                if h is None: continue
                r = one(R, h, [st], cn)
                ctx.ob(R, "%s(%s) = %s" % (name, st, r))
                if r not in ("var", want): ctx.viol("%s|%s" % (name, cn), h, h.line, R, "%s is %s; a hexahedral subcell has %d" % (name, r, want))
    # tetrahedra that make up a volume
    R = "the tetrahedra tile the cell"
    for f in prog.libfuncs:
        if len(f.params) < 2 or f.name == "VolumeofTetrahedron" or not any(c.get("fn") == "VolumeofTetrahedron" for c in calls(f.body)): continue
        ip = next((p for p in f.params if f.types[p["t"]][2] in ("int", "enum")), None)
        if ip is None: continue
        for cn, (v, (NV, NE, NF)) in cells.items():
            key = v if f.types[ip["t"]][2] == "enum" else NV
            F = Flow(prog, f, bind={ip["n"]: num(key)}, peel=60)
            if F.exit.id not in F.alive:
                ctx.viol("tets|%s|%s" % (f.name, cn), f, f.line, R, "%s fails for %s" % (f.name, cn)); continue
            tets = []
            for n, c, args in F.sites("VolumeofTetrahedron"):
                tets.append([vindex(a) for a in args[:4]])
            if any(None in t for t in tets) or F.loops: ctx.note("%s: tetrahedra of %s not constant" % (f.name, cn)); continue
            ctx.ob(R, "%s: %s" % (cn, tets))
            msg = tiling(tets, table.get(cn), NV)
            if msg: ctx.viol("tets|%s|%s" % (f.name, cn), f, f.line, R, "tetrahedra %s of %s: %s" % (tets, cn, msg))
    ctx.need("counts are those of the polyhedron", 8)
    ctx.assume("the vertex order of a cell is the cyclic bottom/top order the face tables use")

def vindex(t):
    """&coords[k].X[0] -> k"""
    l = t.args[0] if t.op == "addr" else None
    while l is not None and l.op in ("E", "F"):
        if l.op == "F":
            b = l.args[0]
            if b.op == "D": return 0
            if b.op == "E": return int(b.args[1].args[0]) if b.args[1].op == "c" else None
        l = l.args[0]
    return None

def facerow(prog, f, v, i):
    bind = {p["n"]: num(a) for p, a in zip(f.params, (v, i))}
    F = Flow(prog, f, inline=lambda g, c, s: True, bind=bind, peel=40)
    if F.entry.id not in F.alive or F.exit.id not in F.alive: return None
    env = F.IN[F.exit.id]
    row = {}
    for k, val in env.items():
        if k.op in ("E", "D") and val.op == "c":
            idx = 0 if k.op == "D" else cval(k.args[1])
            if idx is None: return "var"
            row[int(idx)] = int(val.args[0])
        elif k.op in ("E", "D"): return "var"
    n = max(row) + 1 if row else 0
    if sorted(row) != list(range(n)): return "var"
    return [row[j] for j in range(n)]

def tiling(tets, polys, NV):
    if not tets: return "no tetrahedron"
    if any(len(set(t)) != 4 or not all(0 <= x < NV for x in t) for t in tets): return "degenerate tetrahedron"
    cnt = {}
    for t in tets:
        for k in range(4):
            fs = frozenset(t[:k] + t[k + 1:]); cnt[fs] = cnt.get(fs, 0) + 1
    if any(c > 2 for c in cnt.values()): return "tetrahedra overlap"
    if polys is None: return None
    bd = [s for s, c in cnt.items() if c == 1]
    per = {}
    for s in bd:
        home = [j for j, p in enumerate(polys) if s <= set(p)]
        if len(home) != 1: return "triangle %s is neither shared nor on a face" % sorted(s)
        per.setdefault(home[0], []).append(s)
    for j, p in enumerate(polys):
        tri = per.get(j, [])
        if len(tri) != len(p) - 2 or set().union(*tri) != set(p) if tri else True: return "face %s is not covered once" % p
    return None
