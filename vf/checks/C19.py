"""Numbering of vectors and identity of outputs.  A cell vector holds its values in global order (the solver's), in local order
(with ghosts) or in natural order (that of the input mesh, used in files and by the getters).  The order held by every vector
handle (local, argument, field of the dycore) is inferred over value numbers from the operations applied to it: PETSc's and the
library's conversions, solver callbacks, local-vector creation, arrays indexed with cell numbers that may be ghosts, HDF5 files,
copies and gathers, and the arguments of other library functions (bottom up).  A handle that must hold two orders is reported,
and each conversion or accessor of the interface must have the orders it documents, for every kind of mesh manager.
Identity: the field a getter gathers, the component a diagnostic is stored in and the vector written under a name must be those
of the quantity named; the regression file's columns and statistics must be those of its headings."""
from ..core import *
from ..gvn import *
import re

ORDER = {"G": "global", "L": "local", "N": "natural"}
PRIM = {"DMPlexGlobalToNaturalBegin": {1: "G", 2: "N"}, "DMPlexGlobalToNaturalEnd": {1: "G", 2: "N"},
        "DMPlexNaturalToGlobalBegin": {1: "N", 2: "G"}, "DMPlexNaturalToGlobalEnd": {1: "N", 2: "G"},
        "DMGlobalToLocal": {1: "G", 3: "L"}, "DMGlobalToLocalBegin": {1: "G", 3: "L"}, "DMGlobalToLocalEnd": {1: "G", 3: "L"},
        "DMLocalToGlobal": {1: "L", 3: "G"}, "DMLocalToGlobalBegin": {1: "L", 3: "G"}, "DMLocalToGlobalEnd": {1: "L", 3: "G"},
        "DMCreateLocalVector": {1: "L"}, "DMGetLocalVector": {1: "L"}, "DMRestoreLocalVector": {1: "L"},
        "SNESSolve": {1: "G", 2: "G"}, "TSSolve": {1: "G"}, "TSSetSolution": {1: "G"}, "SNESSetSolution": {1: "G"}, "SNESGetSolution": {1: "G"}, "TSGetSolution": {1: "G"},
        "SNESSetFunction": {1: "G"}, "TSSetIFunction": {1: "G"}}
SAME = {"VecCopy": (0, 1), "VecStrideGather": (0, 2), "VecStrideScatter": (0, 2), "VecAXPY": (0, 2), "VecAYPX": (0, 2), "VecWAXPY": (0, 2, 3), "VecPointwiseMult": (0, 1, 2),
        "VecPointwiseDivide": (0, 1, 2), "VecSwap": (0, 1), "VecAXPBY": (0, 3)}
# what the interface documents: function -> {argument: order}
API = {"TDyGlobalToNatural": {1: "G", 2: "N"}, "TDyNaturalToGlobal": {1: "N", 2: "G"}, "TDyGlobalToLocal": {1: "G", 2: "L"},
       "TDyDiscretizationGlobalToNatural": {1: "G", 2: "N"}, "TDyDiscretizationNaturalToGlobal": {1: "N", 2: "G"}, "TDyDiscretizationGlobalToLocal": {1: "G", 2: "L"},
       "TDyDiscretizationNaturaltoLocal": {1: "N", 2: "L"}, "TDyDiscretizationCreateLocalVector": {1: "L"}, "TDyCreateLocalVector": {1: "L"},
       "TDySetInitialCondition": {1: "N"}, "TDyGetInitialCondition": {1: "G"}, "TDyPostSolve": {1: "G"}, "TDySetPreviousSolutionForSNESSolver": {1: "G"},
       "TDyGetLiquidSaturation": {1: "N"}, "TDyGetLiquidMass": {1: "N"}, "TDyGetLiquidPressure": {1: "N"},
       "TDyIOWriteAsciiViewer": {0: "N"}, "TDyIOWriteHDF5Var": {2: "N"}}
# not inferred from their bodies: files carry natural order
FILE = {("TDyIOWriteAsciiViewer", 0), ("TDyIOWriteHDF5Var", 2)}
CONVERT = ["TDyDiscretizationGlobalToNatural", "TDyDiscretizationNaturalToGlobal", "TDyDiscretizationGlobalToLocal"]
IDS = re.compile(r"^(cell_ids|internal_cell_ids|neighbor_ids|id)$")

def isvec(f, e):
    t = f.types[e["t"]][1]
    return t.replace(" ", "") in ("struct_p_Vec*", "struct_p_Vec**")

class Infer:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.fs = [f for f in self.p.libfuncs if f.body is not None and
                   (any(re.search(r"_p_Vec \*", f.types[x["t"]][1]) for x in f.params) or any(x["k"] in ("ref", "mem", "var") and isvec(f, x) for x in walk(f.body)))]
        self.F = {f: Flow(self.p, f) for f in self.fs}
        self.par = {}
        self.cons = {}                      # key -> [(order, f, line, what)]
        self.sites = []
        for f in self.fs: self.function(f)
        self.propagate()
    def find(self, k):
        while self.par.get(k, k) != k: k = self.par[k]
        return k
    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b: self.par[a] = b
    def put(self, k, o, f, n, what): self.cons.setdefault(k, []).append((o, f, n.line if hasattr(n, "line") else f.line, what))
    def key(self, f, F, t, nid):
        """the vector a term denotes: the handle itself, or the handle kept at an address"""
        if t.op == "addr":
            l = t.args[0]
            if l.op == "F": return ("F", l.args[1])
            try: v = F._get(dict(F.IN[nid]), l) if hasattr(F, "_get") else F.IN[nid].get(l)
            except Exception: v = None
            return self.key(f, F, v, nid) if v is not None and v.op not in ("addr", "uninit", "c") else ("V", f, l)
        if t.op == "ld" and t.args[0].op == "F": return ("F", t.args[0].args[1])
        if t.op == "ld" and t.args[0].op == "D": return self.key(f, F, t.args[0].args[0], nid)
        if t.op == "p": return ("P", f, t.args[0])
        if t.op in ("c", "poly"): return None
        return ("T", f, t)
    def scatter(self, F, a, n):
        """orders of the two vectors of a scatter kept in the mesh manager"""
        s = a[0]
        if s.op != "ld" or s.args[0].op != "F": return {}
        m = re.match(r"Scatter_(\w+?)Cells_to_(\w+?)Cells$", s.args[0].args[1])
        d = cval(a[4]) if len(a) > 4 else None
        if not m or d is None: return {}
        o = {"Local": "L", "Global": "G", "Natural": "N", "Ghosted": "L"}
        x, y = o.get(m[1]), o.get(m[2])
        if not x or not y: return {}
        return {1: x, 2: y} if int(d) == 0 else {1: y, 2: x}
    def function(self, f):
        F = self.F[f]
        first = f.types[f.params[0]["t"]][1].replace(" ", "") if f.params else ""
        if first in ("struct_p_SNES*", "struct_p_TS*"):
            for k, x in enumerate(f.params):
                if f.types[x["t"]][1].replace(" ", "") == "struct_p_Vec*": self.put(("P", f, k), "G", f, f, "a solver's callback is given global vectors")
        hdf = any((c.get("fn") or "") == "PetscViewerHDF5Open" for c in calls(f.body))
        arrs = {}
        for n, c, a in F.sites():
            g = c.get("fn")
            if g is None: continue
            roles = dict(PRIM.get(g, {}))
            if g in ("VecScatterBegin", "VecScatterEnd"): roles = self.scatter(F, a, n)
            if g == "VecLoad" and hdf: roles = {0: "N"}
            if g == "VecView" and hdf: roles = {0: "N"}
            ln = c["l"]
            for k, o in roles.items():
                if k >= len(a): continue
                q = self.key(f, F, a[k], n.id)
                if q is None: continue
                if g in ("VecLoad", "VecView") and q[0] == "F": continue          # vectors laid out by their DM
                if g == "VecView" and (f.name, q[2] if q[0] == "P" else None) in FILE: continue
                self.cons.setdefault(q, []).append((o, f, ln, g)); self.ctx.ob("use", "%s:%d %s argument %d is %s" % (f.rel, ln, g, k, ORDER[o]))
            if g in SAME:
                ks = [self.key(f, F, a[k], n.id) for k in SAME[g] if k < len(a)]
                ks = [k for k in ks if k]
                for x, y in zip(ks, ks[1:]): self.union(x, y)
            if g == "VecDuplicate":
                pass
            h = self.p.resolve(f, g)
            if h is not None and h.body is not None:
                for k, t in enumerate(a):
                    if k < len(c["a"]) and isvec(f, c["a"][k]): self.sites.append((f, F, n, c, h, k, t))
                # a library function given the address of an existing vector fills that vector
                for k, t in enumerate(a):
                    if k < len(c["a"]) and isvec(f, c["a"][k]) and t.op == "addr" and not re.search(r"Create|Duplicate|Extract", h.name):
                        q = self.key(f, F, t, n.id)
                        if q: self.union(("T", f, mk("out", n.id, k, mk("fn", h.name))), q)
            if g in ("VecGetArray", "VecGetArrayRead") and len(a) > 1 and a[1].op == "addr":
                q = self.key(f, F, a[0], n.id)
                if q: arrs[mk("out", n.id, 1, mk("fn", g))] = q
        # arrays handed on, or gone through, for all cells of the process, ghosts included
        if arrs:
            for n, c, a in F.sites():
                if c.get("fn") is None or not any(self.every(t) for t in a): continue
                for t in a:
                    if t in arrs:
                        self.cons.setdefault(arrs[t], []).append(("L", f, c["l"], "%s is given it for all cells, ghosts included" % c["fn"]))
                        self.ctx.ob("use", "%s:%d %s goes through all cells, ghosts included" % (f.rel, c["l"], c["fn"]))
            whole = {h for h, (lo, hi, st, ex) in F.ranges().items() if hi is not None and self.every(hi)}
        # arrays indexed with the number of a cell found through the mesh: may be a ghost
            for i in F.rpo:
                n = F.byid[i]
                if n.ast is None or n.kind not in ("expr", "var", "cond", "ret"): continue
                for x in walk(n.ast):
                    if x["k"] != "idx": continue
                    try: l = F.lv(x, dict(F.IN[i]), i)
                    except Exception: continue
                    if l is None or l.op not in ("D", "E"): continue
                    b, ix = (l.args[0], l.args[1]) if l.op == "E" else (l, None)
                    root = b.args[0] if b.op == "D" else None
                    if root is None or root not in arrs or ix is None: continue
                    cells = [t for t in subterms(ix) if t.op == "ld" and t.args[0].op in ("E", "D") and self.listed(t)]
                    if not cells and not any(t in whole for t in subterms(ix)): continue
                    if self.owned(F, i, cells): continue
                    self.cons.setdefault(arrs[root], []).append(("L", f, x["l"], "cells that may be ghosts are looked up"))
                    self.ctx.ob("use", "%s:%d the array is indexed with numbers of cells that may be ghosts" % (f.rel, x["l"]))
    def every(self, t):
        return t.op == "ld" and t.args[0].op == "F" and t.args[0].args[1] == "num_cells"
    def listed(self, t):
        return any(s.op == "F" and IDS.match(str(s.args[1])) for s in self.locs(t.args[0], 0))
    def locs(self, l, d):
        if d > 6 or not isinstance(l, T): return
        yield l
        if l.op == "E": yield from self.locs(l.args[0], d + 1)
        elif l.op in ("D",): yield from self.locs(l.args[0], d + 1)
        elif l.op == "ld": yield from self.locs(l.args[0], d + 1)
        elif l.op == "ptr": yield from self.locs(l.args[0], d + 1)
    def owned(self, F, i, cells):
        """guarded by the cell being owned"""
        for t, pol in list(F.guard_facts(i)) + list(F.asserted(i)):
            for s in subterms(t):
                if s.op == "ld" and any(q.op == "F" and q.args[1] == "is_local" for q in self.locs(s.args[0], 0)): return True
            if any(s.op == "ld" and s.args[0].op == "F" and re.search(r"local", str(s.args[0].args[1])) for s in subterms(t)): return True
        return False
    def natural_off(self, F, nid):
        """on paths where the mesh keeps no natural order, global order takes its place"""
        for t, pol in list(F.guard_facts(nid)) + list(F.asserted(nid)):
            if any(s.op == "out" and s.args[2].op == "fn" and s.args[2].args[0] == "DMGetUseNatural" for s in subterms(t)):
                x = t
                if x.op == "nz" and pol is False: return True
                if x.op == "!" and pol is True: return True
                if x.op == "eq" and pol is True and any(cval(y) == 0 for y in x.args): return True
        return False
    def orders(self, k):
        r = self.find(k)
        return {o for q, cs in self.byroot.get(r, {}).items() for o, *_ in cs}
    def rebuild(self):
        self.byroot = {}
        for k, cs in self.cons.items(): self.byroot.setdefault(self.find(k), {})[k] = cs
    def propagate(self):
        done = set()
        while True:
            self.rebuild(); ch = False
            for f, F, n, c, h, k, t in self.sites:
                if (h.name, k) in FILE: o = {"N"}
                else: o = self.orders(("P", h, k))
                if len(o) != 1: continue
                o = next(iter(o))
                q = self.key(f, F, t, n.id)
                if q is None or (n.id, f, k, o) in done: continue
                done.add((n.id, f, k, o))
                if o == "N" and self.natural_off(F, n.id): continue
                self.cons.setdefault(q, []).append((o, f, c["l"], h.name)); ch = True
                self.ctx.ob("use", "%s:%d %s argument %d is %s" % (f.rel, c["l"], h.name, k, ORDER[o]))
                if t.op == "addr":
                    # the vector as it is after the call
                    self.cons.setdefault(("T", f, mk("out", n.id, k, mk("fn", c["fn"]))), []).append((o, f, c["l"], h.name))
            if not ch: return

def orders(ctx):
    I = Infer(ctx)
    for r, ks in sorted(I.byroot.items(), key=lambda z: str([(c[0][1].rel, c[0][2]) for c in z[1].values()][0])):
        allc = sorted({(o, f.rel, ln, f.name, what) for cs in ks.values() for o, f, ln, what in cs})
        os_ = {c[0] for c in allc}
        f = next(iter(ks.values()))[0][1]
        ctx.ob("handle", "%s %s: %s (%d uses)" % (f.rel, desc(r), "/".join(sorted(ORDER[o] for o in os_)), len(allc)))
        if len(os_) > 1:
            cnt = {o: sum(1 for c in allc if c[0] == o) for o in os_}
            odd = min(sorted(os_), key=lambda o: cnt[o])
            bad = [c for c in allc if c[0] == odd][0]; good = [c for c in allc if c[0] != odd][0]
            g = next((x for x in ctx.p.libfuncs if x.name == bad[3] and x.rel == bad[1]), f)
            ctx.viol("order|%s|%s" % (bad[3], desc(r)), g, bad[2], "order", "%s is used in %s order by %s but in %s order by %s (%s:%d)" %
                     (desc(r), ORDER[odd], bad[4], ORDER[good[0]], good[4], good[1], good[2]))
    for name, roles in API.items():
        h = ctx.p.func(name)
        if h is None or h.body is None: continue
        for k, o in roles.items():
            if (name, k) in FILE:
                ctx.ob("interface", "%s argument %d: %s (file)" % (name, k, ORDER[o])); continue
            got = I.orders(("P", h, k))
            ctx.check("interface", "%s argument %d: %s" % (name, k, "/".join(sorted(ORDER[x] for x in got)) or "unused"), o in got and len(got) == 1,
                      "interface|%s|%d" % (name, k), h, h.line, "argument %d of %s is documented in %s order; the function %s" %
                      (k, name, ORDER[o], "treats it as " + "/".join(sorted(ORDER[x] for x in got)) if got else "never converts or uses it in that order"))
    cases(ctx, I)
    return I

def desc(k):
    if k[0] == "F": return "field %s" % k[1]
    if k[0] == "P": return "argument %d of %s" % (k[2], k[1].name)
    if k[0] == "T": return "vector %s of %s" % (re.sub(r"out\(\d+, (\d+), (\w+)\)", r"made by \2", tshow(k[2])), k[1].name)
    return "local of %s" % k[1].name

def cases(ctx, I):
    """a conversion is carried out under every mesh manager"""
    for name in CONVERT:
        f = ctx.p.func(name)
        if f is None: continue
        F = I.F[f]
        for dm in (0, 1):
            hit = {"Begin": 0, "End": 0}
            for n, c, a in F.sites(lambda c: re.match(r"(DM(Plex)?(Global|Natural|Local)To\w+?|VecScatter|TDyDiscretization\w+)(Begin|End)?$", c.get("fn") or "")):
                ok = True
                for g in F.guards(n.id):
                    nd = F.byid[g[0]]
                    if nd.kind == "switch" and isinstance(g[1], tuple):
                        vals = {x[1][1] for x in F.guards(n.id) if x[0] == g[0] and isinstance(x[1], tuple)}
                        if dm not in vals: ok = False
                for t, pol in F.asserted(n.id):
                    if t.op == "eq" and any(s.op == "ld" and s.args[0].op == "F" and s.args[0].args[1] == "dmtype" for s in t.args):
                        v = next((cval(s) for s in t.args if cval(s) is not None), None)
                        if v is not None and (int(v) == dm) != pol: ok = False
                if ok:
                    m = re.search(r"(Begin|End)$", c["fn"])
                    for w in ([m[1]] if m else ["Begin", "End"]): hit[w] += 1
            ctx.check("managed", "%s with mesh manager %d" % (name, dm), hit["Begin"] and hit["End"], "managed|%s|%d" % (name, dm), f, f.line,
                      "%s converts nothing when the mesh manager is number %d" % (name, dm))


FIELD = {"LiquidSaturation": ("S",), "LiquidMass": ("S", "V", "porosity", "rho")}
GETTER = {"TDyGetLiquidSaturation": "LiquidSaturation", "TDyGetLiquidMass": "LiquidMass", "TDyGetLiquidPressure": "LiquidPressure"}

def lit(e):
    e = strip(e)
    while e is not None and e["k"] == "cast": e = strip(e["e"])
    return e["v"] if e is not None and e["k"] == "str" else None

def static(g, c, s): return g.static

def layout(ctx):
    """name of each diagnostic field -> its position"""
    out = {}
    for f in ctx.p.libfuncs:
        if f.body is None or not any(c.get("fn") == "PetscSectionSetFieldName" for c in calls(f.body)): continue
        F = Flow(ctx.p, f)
        for n, c, a in F.sites("PetscSectionSetFieldName"):
            s, k = lit(c["a"][2]), cval(a[1])
            if s in FIELD and k is not None:
                ctx.check("layout", "%s is field %d" % (s, int(k)), int(k) not in out.values() or out.get(s) == int(k), "layout|" + s, f, c["l"], "two diagnostics are given field %d" % int(k))
                out[s] = int(k)
    return out

def cone(prog, f, seen=None):
    """f and the library functions it reaches"""
    seen = set() if seen is None else seen
    if f in seen: return seen
    seen.add(f)
    for c in calls(f.body):
        g = prog.resolve(f, c["fn"]) if c.get("fn") else None
        if g is not None and g.body is not None: cone(prog, g, seen)
    return seen

def getters(ctx, lay):
    for name, q in GETTER.items():
        f = ctx.p.func(name)
        if f is None or f.body is None: continue
        F = Flow(ctx.p, f, inline=static, depth=6)
        gs = F.sites("VecStrideGather")
        if not gs: ctx.note("%s gathers nothing itself" % name); continue
        for n, c, a in gs:
            k = cval(a[1]); src = a[0]
            fl = src.args[0].args[1] if src.op == "ld" and src.args[0].op == "F" else None
            want = ("soln_prev", 0) if q == "LiquidPressure" else ("diag_vec", lay.get(q))
            if fl is None or k is None: continue
            ctx.check("getter", "%s gathers component %d of %s" % (name, int(k), fl), (fl == want[0] or fl == "soln" and want[0] == "soln_prev") and int(k) == want[1], "getter|" + name, f, f.line,
                      "%s returns component %d of %s; %s is component %s of %s" % (name, int(k), fl, q, want[1], want[0]))
            # what is gathered is what is returned
            conv = [b for m, d, b in F.sites(lambda d: re.match(r"TDy(Discretization)?GlobalToNatural$", d.get("fn") or ""))]
            if conv: ctx.check("getter", "%s converts what it gathered" % name, any(b[1] == a[2] for b in conv), "getter|%s|source" % name, f, f.line, "%s gathers one vector and converts another" % name)

def factors(t):
    """the fields of the record multiplied in t, with their common index, or None"""
    p = poly(t)
    if len(p) != 1: return None
    (m, c), = p.items()
    if c != 1: return None
    out, ix = [], set()
    for a, e in m:
        if e != 1 or a.op != "ld" or a.args[0].op != "E": return None
        b = a.args[0]
        r = b.args[0].args[0] if b.args[0].op == "D" else None
        if r is None or r.op != "ld" or r.args[0].op != "F": return None
        nm = r.args[0].args[1]
        out.append({"volume": "V"}.get(nm, nm)); ix.add(b.args[1])
    return (tuple(sorted(out)), ix)

def diagnostics(ctx, lay):
    fs = set()
    for f in ctx.p.libfuncs:
        if f.body is None: continue
        for x in walk(f.body):
            if x["k"] == "asg" and strip(x["l_"])["k"] == "mem" and strip(x["l_"])["f"] == "update_diagnostics":
                r = uncast(strip(x["r_"]))
                if r["k"] == "ref" and r["dk"] == "func": fs.add(r["n"])
    # functions the assigned name may come from a parameter of a helper
    fs |= {f.name for f in ctx.p.libfuncs if f.body is not None and re.match(r"TDyUpdateDiagnostics_", f.name)}
    nf = len(lay)
    for name in sorted(fs):
        f = ctx.p.func(name)
        if f is None or f.body is None: continue
        F = Flow(ctx.p, f, inline=static, depth=6)
        got = {}
        for n, a, l, v, o in F.stores():
            if l.op != "E" or l.args[0].op != "D": continue
            b = l.args[0].args[0]
            if b.op != "out" or b.args[2].op != "fn" or not b.args[2].args[0].startswith("VecGetArray"): continue
            p = poly(l.args[1]); off = p.get((), 0)
            rest = [c for m, c in p.items() if m]
            if off != int(off) or rest and rest != [nf]: 
                ctx.viol("diagnostic|%s|stride" % name, f, n.line, "diagnostic", "%s addresses the diagnostics with stride %s; there are %d of them per cell" % (name, rest, nf)); continue
            q = next((s for s, k in lay.items() if k == int(off)), None)
            fac = factors(v)
            if fac is None and v.op != "c": continue
            got[q] = True
            ok = fac is not None and q is not None and fac[0] == FIELD[q] and len(fac[1]) == 1
            ctx.check("diagnostic", "%s stores %s" % (name, q), ok, "diagnostic|%s|%s" % (name, q), f, n.line,
                      "%s stores %s as %s" % (name, "*".join(fac[0]) + (" of different cells" if fac and len(fac[1]) > 1 else "") if fac else tshow(v)[:80], q))
        for q in lay:
            if got: ctx.check("diagnostic", "%s fills %s" % (name, q), q in got, "diagnostic|%s|%s|missing" % (name, q), f, f.line, "%s never stores %s" % (name, q))

def provenance(ctx, f, F, h, nid, d=0):
    """quantity held by a vector at a node"""
    if d > 6: return None
    if h.op == "ld" and h.args[0].op == "F": return "LiquidPressure" if h.args[0].args[1] in ("soln", "soln_prev") else None
    if h.op == "phi":
        vs = {provenance(ctx, f, F, v, nid, d + 1) for v in phis(F, h)}
        return vs.pop() if len(vs) == 1 else None
    out = set()
    for n, c, a in F.sites(lambda c: re.match(r"TDy(Discretization)?GlobalToNatural$|VecCopy$|TDyGetLiquid\w+$", c.get("fn") or "")):
        g = c["fn"]
        if len(a) < 2 or a[-1] != h or not F.dominates(n.id, nid): continue
        out.add(GETTER[g] if g in GETTER else provenance(ctx, f, F, a[-2], n.id, d + 1) if not g.startswith("TDyGet") else None)
    return out.pop() if len(out) == 1 else None

def phis(F, t):
    i, loc = t.args[0], t.args[1]
    out = []
    for j, _ in F.pred[i]:
        o = F.OUT.get(j)
        if o is None: continue
        v = F._initial(o, loc) if loc not in o else o[loc]
        if v.op != "uninit": out.append(v)
    return out

def files(ctx):
    names = {}
    for f in ctx.p.libfuncs:
        if f.body is None: continue
        for c in calls(f.body):
            if c.get("fn") in ("strcpy", "__builtin___strcpy_chk", "PetscStrcpy", "strncpy", "PetscStrncpy") and lit(c["a"][1]):
                d = uncast(strip(c["a"][0]))
                if d["k"] == "idx" and const(d["i"]) is not None and any(x["k"] == "mem" and x["f"] == "zonalVarNames" for x in walk(d)): names[const(d["i"])] = lit(c["a"][1])
    for f in ctx.p.libfuncs:
        if f.body is None or not f.rel.endswith("tdyio.c"): continue
        cs = [c for c in calls(f.body) if re.match(r"TDyIOWrite\w*(Var|Viewer)$", c.get("fn") or "")]
        if not cs: continue
        F = Flow(ctx.p, f, inline=static, depth=6)
        for n, c, a in F.sites(lambda c: re.match(r"TDyIOWrite\w*(Var|Viewer)$", c.get("fn") or "")):
            vec = nm = None
            for k, e in enumerate(c["a"]):
                t = a[k]
                if F.fnof is not None and "_p_Vec" in (typ(ctx, f, F, n, e) or ""): vec = t
                j = named(t)
                if j is not None: nm = names.get(j)
                s = lit(e)
                if s in FIELD or s == "LiquidPressure": nm = s
            if vec is None or nm is None: continue
            q = provenance(ctx, f, F, vec, n.id)
            if q is None: continue
            ctx.check("file", "%s:%d %s is written as %s" % (f.rel, c["l"], q, nm), q == nm, "file|%s|%s" % (c["fn"], nm), f, c["l"], "%s writes %s under the name %s" % (f.name, q, nm))
        gets = F.sites(lambda c: c.get("fn") in ("TDyGetLiquidSaturation", "TDyGetLiquidMass"))
        ups = F.sites("TDyUpdateDiagnostics")
        for n, c, a in gets:
            ctx.check("fresh", "%s:%d diagnostics are updated first" % (f.rel, c["l"]), any(F.dominates(m.id, n.id) for m, d, b in ups), "fresh|" + f.name, f, c["l"],
                      "%s writes a diagnostic that was not brought up to date with the current state" % f.name)

def typ(ctx, f, F, n, e):
    g = F.fnof.get(n.id, f) if isinstance(F.fnof, dict) else f
    try: return g.types[e["t"]][1]
    except Exception: return None

def named(t):
    for s in subterms(t):
        if s.op == "ld" and s.args[0].op == "E":
            b, k = s.args[0].args[0], cval(s.args[0].args[1])
            if k is not None and b.op == "V" and "Names" in str(b.args[1]): return int(k)
            if k is not None and any(x.op == "F" and x.args[1] == "zonalVarNames" for x in [b] + [y for y in b.args if isinstance(y, T)]): return int(k)
        if s.op in ("addr", "ptr"):
            l = s.args[0]
            while isinstance(l, T):
                if l.op == "E" and isinstance(l.args[0], T) and l.args[0].op == "F" and l.args[0].args[1] == "zonalVarNames":
                    k = cval(l.args[1]); return int(k) if k is not None else None
                l = l.args[0] if l.args and isinstance(l.args[0], T) else None
    return None

def checkpoint(ctx):
    w, r = ctx.p.func("TDyIOOutputCheckpoint"), ctx.p.func("TDyIOReadIC")
    if not w or not r: return
    def scope(f): return [f] + [g for g in cone(ctx.p, f) if g is not f and g.static and g.rel == f.rel]
    given = {lit(c["a"][1]) for g in scope(w) for c in calls(g.body) if c.get("fn") == "PetscObjectSetName" and lit(c["a"][1])}
    read = {lit(e) for g in scope(r) for c in calls(g.body) for e in c["a"] if c.get("fn") in ("strcpy", "PetscStrcpy", "strncpy", "PetscStrncpy", "__builtin___strcpy_chk") or g is r and ctx.p.resolve(g, c.get("fn") or "") is not None if lit(e)}
    if given and read:
        ctx.check("checkpoint", "written as %s, read as %s by default" % (sorted(given), sorted(read)), bool(given & read), "checkpoint|name", w, w.line,
                  "check points are written under the name %s but the initial condition is read as %s" % ("/".join(sorted(given)), "/".join(sorted(read))))
    F = Flow(ctx.p, w, inline=static, depth=6)
    for n, c, a in F.sites("VecView"):
        q = provenance(ctx, w, F, a[0], n.id)
        ctx.check("checkpoint", "the check point holds the solution", q in ("LiquidPressure", None), "checkpoint|content", w, c["l"], "the check point does not hold the current solution")
        h = [d for m, d, b in F.sites("PetscObjectSetName") if b[0] == a[0] and F.dominates(m.id, n.id)]
        ctx.check("checkpoint", "the vector written is the one named", bool(h), "checkpoint|named", w, c["l"], "the vector written to the check point is not the one given the name of the initial condition")
    for n, c, a in F.sites("PetscViewerHDF5WriteAttribute"):
        s = lit(c["a"][2]); t = a[4]
        fl = t.args[0].args[1] if t.op == "addr" and t.args[0].op == "F" else None
        if s and fl: ctx.check("checkpoint", "attribute %s is %s" % (s, fl), not ("step" in s and fl != "istep" or s == "time" and fl != "time"), "checkpoint|" + s, w, c["l"], "the attribute %s of the check point is %s" % (s, fl))

def regression(ctx):
    f = ctx.p.func("TDyRegressionOutput")
    if f is None: return
    F = Flow(ctx.p, f, inline=lambda g, c, s: g.static and g.rel == f.rel, depth=6)
    # component copied into each work vector
    comp = {}
    arr = {}
    for n, c, a in F.sites(lambda c: (c.get("fn") or "").startswith("VecGetArray")):
        if a[1].op == "addr": arr[mk("out", n.id, 1, mk("fn", c["fn"]))] = a[0]
    def handle(t):
        if t in arr: return one(arr[t])
        if t.op == "phi":
            hs = {handle(v) for v in phis(F, t)}
            hs.discard(None)
            return hs.pop() if len(hs) == 1 else None
        return None
    def one(t):
        if t.op == "phi":
            vs = {one(v) for v in phis(F, t)}
            return vs.pop() if len(vs) == 1 else t
        return t
    for n, a, l, v, o in F.stores():
        if l.op != "E" or l.args[0].op != "D" or v.op != "ld" or v.args[0].op != "E" or v.args[0].args[0].op != "D": continue
        h = handle(l.args[0].args[0])
        if h is None: continue
        p, q = poly(l.args[1]), poly(v.args[0].args[1])
        s = [c for m, c in q.items() if m]
        if len(s) != 1: continue
        ctx.check("regression", "component %s of %s per cell" % (q.get((), 0), s[0]), len([m for m in p if m]) == 1 and {m: c * s[0] for m, c in p.items() if m} == {m: c for m, c in q.items() if m} and 0 <= q.get((), 0) < s[0],
                  "regression|copy|%s" % q.get((), 0), f, n.line, "a column of the regression file is gathered from other cells")
        comp.setdefault(h, set()).add(int(q.get((), 0)))
    heads = [(n, 0 if "PRESSURE" in lit(c["a"][1]) else 1) for n, c, a in F.sites("fprintf") if lit(c["a"][1]) and lit(c["a"][1]).startswith("-- ")]
    for n, c, a in F.sites("fprintf"):
        s = lit(c["a"][1]) or ""
        dom = [(m, k) for m, k in heads if F.dominates(m.id, n.id) and m.id != n.id]
        if not dom: continue
        k = next(k for m, k in dom if all(F.dominates(x.id, m.id) for x, _ in dom))
        if re.match(r"\s*(Max|Min|Mean):", s):
            w = re.match(r"\s*(\w+)", s)[1]
            t = one(a[2])
            outs = [x for x in subterms(t) if x.op == "out" and x.args[2].op == "fn" and re.match(r"Vec(Max|Min|Sum|GetSize|Norm)$", x.args[2].args[0])]
            if not outs: continue
            fn = {x.args[2].args[0] for x in outs}
            want = {"Max": {"VecMax"}, "Min": {"VecMin"}, "Mean": {"VecSum", "VecGetSize"}}[w]
            ctx.check("regression", "%s of component %d is computed by %s" % (w, k, "/".join(sorted(fn))), fn == want, "regression|%s|%d" % (w, k), f, c["l"], "the %s of component %d is computed by %s" % (w, k, "/".join(sorted(fn))))
            if w == "Mean" and fn == want:
                p = poly(t); ok = len(p) == 1 and list(p.values())[0] == 1 and {e for (m,) in [list(p)] for x, e in m} in ({1, -1}, {1})
                ctx.check("regression", "mean of component %d is sum/size" % k, ok and any(x.op == "out" and x.args[2].args[0] == "VecSum" and e == 1 for (m,) in [list(p)] for x, e in m), "regression|Mean|%d|value" % k, f, c["l"], "the mean of component %d is not the sum divided by the number of cells" % k)
            for x in outs:
                for m, d, b in F.sites(x.args[2].args[0]):
                    if m.id != x.args[0]: continue
                    h = one(b[0])
                    if h in comp: ctx.check("regression", "%s is taken of component %d" % (w, k), comp[h] <= {k}, "regression|%s|%d|of" % (w, k), f, c["l"], "the %s printed under the heading of component %d is that of component %s" % (w, k, sorted(comp[h])))
        elif s.startswith("%9d:") and len(a) > 3:
            v = one(a[3])
            if v.op != "ld" or v.args[0].op != "E": continue
            p = poly(v.args[0].args[1]); st = [x for m, x in p.items() if m]
            if len(st) != 1: continue
            off = p.get((), 0)
            ctx.check("regression", "cells listed under component %d: offset %s of %s" % (k, off, st[0]), off == (k if st[0] > 1 else 0), "regression|cells|%d|%s" % (k, st[0]), f, c["l"], "the cells listed under the heading of component %d show component %s" % (k, off))
            ids = [x for x in subterms(a[2]) if x.op == "ld" and x.args[0].op == "E"]
            for x in ids:
                q = poly(x.args[0].args[1])
                ctx.check("regression", "number and value of one cell (component %d, stride %s)" % (k, st[0]), {m: y for m, y in q.items() if m} == {m: y for m, y in p.items() if m}, "regression|number|%d|%s" % (k, st[0]), f, c["l"],
                          "the number printed with a value is that of another cell")

def naturalids(ctx):
    """natural numbers of cells are consecutive over all processes"""
    for f in ctx.p.libfuncs:
        if f.body is None or not any(x["k"] == "mem" and x["f"] == "natural_id" for x in walk(f.body)) or not any((c.get("fn") or "").startswith("DMPlexNaturalToGlobal") for c in calls(f.body)): continue
        F = Flow(ctx.p, f, inline=static, depth=6)
        for n, a, l, v, o in F.stores():
            if l.op != "E" or l.args[0].op != "D" or v.op == "c" or v.op == "ld" or v.op == "toint": continue
            b = l.args[0].args[0]
            if b.op != "out" or b.args[2].op != "fn" or not b.args[2].args[0].startswith("VecGetArray"): continue
            def ev(t, nf, cells, before, i):
                def r(x): return ev(x, nf, cells, before, i)
                if t.op == "c": return cval(t)
                if t.op == "poly":
                    s = 0
                    for m, c in poly(t).items():
                        z = c
                        for x, e in m:
                            y = r(x)
                            z = z * y ** e
                        s += z
                    return s
                if t.op == "idiv":
                    x, y = r(t.args[0]), r(t.args[1])
                    return int(x / y)
                if t.op == "toint": return int(r(t.args[0]))
                if t.op == "phi": return i
                if t.op == "out" and t.args[2].op == "fn":
                    g = t.args[2].args[0]
                    if g == "DMGetNumFields": return nf
                    if g == "VecGetLocalSize": return nf * cells
                    if g == "MPI_Scan": return nf * (before + cells)
                    if g in ("MPI_Exscan",): return nf * before
                    if g == "VecGetOwnershipRange": return nf * before if t.args[1] == 1 else nf * (before + cells)
                raise ValueError(tshow(t))
            try:
                bad = None
                for nf in (1, 2, 3):
                    for cell in range(5):
                        got = ev(v, nf, 5, 7, nf * cell)
                        if got != 7 + cell: bad = (nf, cell, got); break
                    if bad: break
            except (ValueError, ZeroDivisionError, TypeError): continue
            ctx.check("natural number", "%s:%d cell k of a process is given number (cells before) + k" % (f.rel, n.line), bad is None, "natural|" + f.name, f, n.line,
                      "with %s unknowns per cell, cell %s of a process preceded by 7 cells is given natural number %s" % (bad or (0, 0, 0)))

def run(ctx):
    orders(ctx)
    lay = layout(ctx)
    getters(ctx, lay)
    diagnostics(ctx, lay)
    files(ctx)
    checkpoint(ctx)
    regression(ctx)
    naturalids(ctx)
    ctx.need("handle", 30); ctx.need("use", 80); ctx.need("interface", 15)
