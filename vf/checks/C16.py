"""Entity numbers.  Every table of the mesh and of the discretizations belongs to one kind of entity (cell, face, boundary face,
edge, vertex, subcell) or is a list that is addressed through one offset table.  The kind of every integer value is inferred
from where it comes from (tables of numbers, loop bounds, depth strata of the DM, encoded boundary faces -1-cell) over value
numbers, through local arrays, joins, accessor functions, parameters and output arguments.  Obligations: every index of such a
table has its kind (and the multiplicity the table was allocated with), every number stored in a table of numbers has the kind
of the table, one value is not used as the number of two kinds of entity, and numbers of different kinds are not compared."""
from ..core import *
from ..gvn import *
import re

REC = {"TDyCell": "C", "TDyVertex": "V", "TDyFace": "F", "TDyEdge": "E", "TDySubcell": "S"}
NAME = {"C": "cell", "V": "vertex", "F": "face", "E": "edge", "S": "subcell", "B": "boundary face", "P": "mesh point", "i": "position in a list"}
# lists addressed through an offset table: (record, list) -> (offset table, kind of the numbers stored)
LIST = {("TDyCell", "vertex_ids"): ("vertex_offset", "V"), ("TDyCell", "edge_ids"): ("edge_offset", "E"), ("TDyCell", "face_ids"): ("face_offset", "F"),
        ("TDyCell", "neighbor_ids"): ("neighbor_offset", "C"),
        ("TDyVertex", "edge_ids"): ("edge_offset", "E"), ("TDyVertex", "face_ids"): ("face_offset", "F"), ("TDyVertex", "subface_ids"): ("face_offset", None),
        ("TDyVertex", "internal_cell_ids"): ("internal_cell_offset", "C"), ("TDyVertex", "subcell_ids"): ("subcell_offset", None),
        ("TDyVertex", "boundary_face_ids"): ("boundary_face_offset", "F"),
        ("TDyEdge", "cell_ids"): ("cell_offset", "C"),
        ("TDyFace", "vertex_ids"): ("vertex_offset", "V"), ("TDyFace", "edge_ids"): ("edge_offset", "E"), ("TDyFace", "cell_ids"): ("cell_offset", "C"),
        ("TDySubcell", "nu_vector"): ("nu_vector_offset", None), ("TDySubcell", "nu_star_vector"): ("nu_vector_offset", None),
        ("TDySubcell", "variable_continuity_coordinates"): ("nu_vector_offset", None), ("TDySubcell", "face_centroid"): ("nu_vector_offset", None),
        ("TDySubcell", "vertices_coordinates"): ("vertex_offset", None), ("TDySubcell", "face_ids"): ("face_offset", "F"),
        ("TDySubcell", "is_face_up"): ("face_offset", None), ("TDySubcell", "face_unknown_idx"): ("face_offset", None), ("TDySubcell", "face_flux_idx"): ("face_offset", None),
        ("TDySubcell", "face_area"): ("face_offset", None), ("TDySubcell", "vertex_ids"): ("face_offset", "V")}
# tables of the unstructured grid: kinds of the indices, kind of the numbers stored
UGRID = {"cell_vertices": ("C", None, "V"), "cell_num_vertices": ("C", None), "cell_ids_natural": ("C", None), "cell_ids_petsc": ("C", None),
         "cell_neighbors_local_ghosted": ("C", None, "C"), "cell_num_neighbors_local_ghosted": ("C", None), "vertices": ("V", None, None),
         "face_num_vertices": ("F", None), "face_to_vertex_natural": (None, "F", None), "face_to_vertex": (None, "F", "V"), "face_centroid": ("F", None, None),
         "face_area": ("F", None), "cell_to_face_ghosted": (None, "C", "F"), "connection_to_face": (None, "F"), "vertex_ids_natural": ("V", None)}
UCOUNT = {"num_cells_local": "C", "num_cells_global": "C", "num_verts_local": "V", "num_faces": "F"}
COUNT = {"num_cells": "C", "num_cells_local": "C", "num_faces": "F", "num_edges": "E", "num_vertices": "V", "num_boundary_faces": "B", "num_subcells": "S"}

# lists of equal length
SAME = {("subcell_offset", "num_internal_cells"), ("internal_cell_offset", "num_subcells"), ("vertex_offset", "num_subcells"), ("face_offset", "num_nu_vectors"), ("nu_vector_offset", "num_faces"), ("nu_vector_offset", "face_offset"),
        ("face_offset", "nu_vector_offset"), ("subcell_offset", "internal_cell_offset"), ("internal_cell_offset", "subcell_offset")}
NUM = {"vertex_offset": "num_vertices", "edge_offset": "num_edges", "face_offset": "num_faces", "neighbor_offset": "num_neighbors", "internal_cell_offset": "num_internal_cells",
       "boundary_face_offset": "num_boundary_faces", "cell_offset": "num_cells", "nu_vector_offset": "num_nu_vectors", "subcell_offset": "num_subcells"}

class Kinds:
    def __init__(self, prog, per, summ):
        self.p, self.per, self.summ = prog, per, summ
    def flow(self, f, F):
        self.f, self.F = f, F
        self.rec = {}
        self.memo = {}; self.busy = set()
        self.fixed = {}
        env0 = None
        for i in F.rpo:
            n = F.byid[i]
            if n.ast is None or n.kind not in ("expr", "var", "cond", "ret", "switch"): continue
            for a in walk(n.ast):
                if a["k"] == "mem":
                    try: self.rec.setdefault(F.lv(a, dict(F.IN[i]), i), a.get("r"))
                    except RecursionError: pass
        self.outs = {(n.id, k): t.args[0] for n, c, a in F.sites() for k, t in enumerate(a) if t.op == "addr"}
        # the kind of the numbers kept in local arrays
        loc = {}
        for n, a, l, val, old in F.stores():
            if l.op in ("E", "V") and self.base(l)[0].op == "V": loc.setdefault(self.base(l)[0], []).append(val)
        for n, c, a in F.sites():
            su = self.summ.get(c.get("fn"))
            if not su: continue
            for k, t in enumerate(a):
                if t.op == "addr" and k in su["fill"]:
                    l = t.args[0]
                    b = self.base(l)[0] if l.op in ("E", "D") else l
                    if b.op == "V": loc.setdefault(b, []).append(su["fill"][k])
        self.larr = loc
    def base(self, l):
        if l.op == "E": return l.args[0], l.args[1]
        if l.op == "D": return l, ZERO
        return l, None
    def table(self, l):
        """(record, field, index, level, levels before) of an element of a table kept in a record"""
        b, x = self.base(l)
        if x is None or b.op != "D": return None
        q = b.args[0]
        if q.op == "out":                                            # just allocated
            fl = self.outs.get((q.args[0], q.args[1]))
            return (self.rec[fl], fl.args[1], x, 0) if fl is not None and fl.op == "F" and fl in self.rec else None
        if q.op == "ld" and q.args[0].op == "F":
            fl = q.args[0]; r = self.rec.get(fl)
            return (r, fl.args[1], x, 0) if r else None
        if q.op == "ld":
            t = self.table(q.args[0])
            if t and t[0] in ("TDyMPFAO", "TDyFVTPF", "TDyUGrid"): return t[:2] + (x, t[3] + 1)
        return None
    def dims(self, t):
        def f(x):
            if x.op == "out" and x.args[2].op == "fn" and x.args[2].args[0] in ("DMGetDimension", "DMGetCoordinateDim"): return num(3)
            if x.op == "ld" and x.args[0].op == "F" and x.args[0].args[1] == "dim": return num(3)
            return None
        return subst(t, f, {})
    def stratum(self, t):
        """kind of the points whose range starts (0) or ends (1) at this value"""
        if t.op == "out" and t.args[2].op == "fn":
            m = re.match(r"DMPlexGet(Depth|Height)Stratum$", t.args[2].args[0])
            if m and t.args[1] in (2, 3):
                for n, c, a in self.F.sites(t.args[2].args[0]):
                    if n.id == t.args[0]:
                        v = cval(a[1])
                        if v is None: return None
                        k = "VEFC"[int(v)] if m.group(1) == "Depth" else "CFEV"[int(v)] if 0 <= v < 4 else None
                        return k, t.args[1] - 2
        return None
    def kind(self, t, d=0):
        if t in self.memo: return self.memo[t]
        if t in self.busy or d > 12: return None
        self.busy.add(t)
        k = self._kind(t, d)
        self.busy.discard(t)
        self.memo[t] = k
        return k
    def _kind(self, t, d):
        if t.op == "ld":
            tab = self.table(t.args[0])
            if tab:
                r, n, x, lev = tab
                if r == "TDyUGrid": return UGRID[n][-1] if n in UGRID and lev == len(UGRID[n]) - 2 else None
                if (r, n) in LIST: return LIST[r, n][1]
                if r in REC and n in {o for (q, _), (o, _) in LIST.items() if q == r}: return (r, n)
                if r in REC and n == "id": return REC[r]
                if (r, n) == ("TDyEdge", "vertex_ids"): return "V"
                if (r, n) == ("TDySubcell", "cell_id"): return "C"
                return None
            l = t.args[0]
            b, x = self.base(l)
            if b.op == "V" and x is not None and b in self.larr: return self.join([v for v in self.larr[b]], d)
            return None
        if t.op == "phi":
            rg = self.F.ranges().get(t)
            if rg and cval(rg[0]) in (0, 1) and abs(rg[2]) == 1:
                k = self.count(rg[1])
                if k: return k
                if self.length(rg[1]) or self.tally(rg[1]): return "i"
            i, loc = t.args
            vs = []
            for j, _ in self.F.pred[i]:
                o = self.F.OUT.get(j)
                if o is None: continue
                vs.append(self.F._initial(o, loc) if loc not in o else o[loc])
            if rg: return None
            return self.join([v for v in vs if v is not t], d)
        if t.op == "out" and t.args[2].op == "fn":
            s = self.summ.get(t.args[2].args[0])
            return s["out"].get(t.args[1]) if s else None
        if t.op == "call" and False: return None
        if t.op == "abs": return self.kind(t.args[0], d + 1)
        if t.op == "ite": return self.join([t.args[1], t.args[2]], d)
        if t.op == "poly":
            p = poly(t)
            one = [(m[0][0], c) for m, c in p.items() if len(m) == 1 and m[0][1] == 1]
            if len(one) == len(p) - (() in p):
                if len(one) == 1 and one[0][1] == -1 and p.get((), 0) == -1 and self.kind(one[0][0], d + 1) == "C": return "B"
                if len(one) == 2 and () not in p:
                    for (a, ca), (b, cb) in (one, one[::-1]):
                        s = self.stratum(b)
                        if s and s[1] == 0 and cb == -1 and ca == 1:
                            if a.op == "phi":
                                rg = self.F.ranges().get(a)
                                if rg: 
                                    e = self.stratum(rg[1])
                                    return e[0] if e and e[1] == 1 else None
                            return s[0]
                        if s and s[1] == 0 and cb == 1 and ca == 1 and self.kind(a, d + 1) == s[0]: return "P"      # number of the DM's point
            # subcell = cell * (subcells per cell) + which
            for m, c in p.items():
                if len(m) == 2 and c == 1 and all(e == 1 for _, e in m):
                    ks = [self.kind(a, d + 1) for a, _ in m]
                    nm = [a.op == "ld" and a.args[0].op in ("E", "F", "V") and "num_subcells" in tshow(a.args[0]) for a, _ in m]
                    if any(k == "C" and nm[1 - i] for i, k in enumerate(ks)): return "S"
        return None
    def join(self, vs, d):
        ks = set()
        for v in vs:
            if not isinstance(v, T): ks.add(v); continue
            if cval(v) is not None: continue
            ks.add(self.kind(v, d + 1))
        return ks.pop() if len(ks) == 1 else None
    def length(self, t):
        """number of entries of one entity's list"""
        if cval(t) is not None: return cval(t) <= 30
        if t.op == "ld":
            tab = self.table(t.args[0])
            return bool(tab and tab[0] in REC and tab[1].startswith("num_"))
        if t.op == "poly":
            p = poly(t); ks = []
            if len(p) != 2 or () in p: return False
            for m, c in p.items():
                if len(m) != 1 or m[0][0].op != "ld": return False
                tab = self.table(m[0][0].args[0])
                if not tab or tab[0] not in REC: return False
                ks.append((c, tab[0], tab[1]))
            return {c for c, _, _ in ks} == {1, -1} and ks[0][1] == ks[1][1] and all(k[2].endswith("_offset") for k in ks)
        return False
    def tally(self, t):
        """a number counted up from zero, by one, in some rounds of a loop only"""
        seen, todo, more = set(), [t], False
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            if x.op == "phi":
                i, loc = x.args
                for j, _ in self.F.pred[i]:
                    o = self.F.OUT.get(j)
                    if o is None: continue
                    todo.append(self.F._initial(o, loc) if loc not in o else o[loc])
            elif x.op == "poly":
                q = poly(x); a = [m for m in q if m]
                if len(q) != 2 or q.get(()) != 1 or len(a) != 1 or len(a[0]) != 1 or a[0][0][1] != 1 or q[a[0]] != 1 or a[0][0][0].op != "phi": return False
                more = True; todo.append(a[0][0][0])
            elif x.op == "ite": todo += [x.args[1], x.args[2]]
            elif cval(x) != 0: return False
        return more and len([x for x in seen if x.op == "phi"]) > 1
    def lentab(self, t):
        """(record, table, entity) of the number of entries of one entity's list"""
        if t.op == "ld":
            tab = self.table(t.args[0])
            return tab[:3] if tab and tab[0] in REC and tab[1].startswith("num_") else None
        if t.op == "poly" and self.length(t):
            for m, c in poly(t).items():
                if c == -1: return self.table(m[0][0].args[0])[:3]
        return None
    def count(self, t):
        """kind of entity this is the number of"""
        if t.op == "ld" and t.args[0].op == "F" and self.rec.get(t.args[0]) == "TDyMesh": return COUNT.get(t.args[0].args[1])
        if t.op == "ld" and t.args[0].op == "F" and self.rec.get(t.args[0]) == "TDyUGrid": return UCOUNT.get(t.args[0].args[1])
        if t.op == "poly":
            p = poly(t)
            one = {c: m[0][0] for m, c in p.items() if len(m) == 1 and m[0][1] == 1}
            if len(p) == 2 and set(one) == {1, -1}:
                a, b = self.stratum(one[1]), self.stratum(one[-1])
                if a and b and a[0] == b[0] and a[1] == 1 and b[1] == 0 and one[1].args[0] == one[-1].args[0]: return a[0]
        if t.op == "out" and t.args[2].op == "fn":
            s = self.summ.get(t.args[2].args[0])
            k = s["out"].get(t.args[1]) if s else None
            return k[1] if isinstance(k, tuple) and k[0] == "#" else None
        return None

def show(k): return NAME[k] if k in NAME else "%s.%s entry" % k if isinstance(k, tuple) else str(k)

def accessor(g):
    return re.match(r"TDyMeshGet|TDyMeshIs", g.name) or g.static and len(list(walk(g.body))) < 80

class Check:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.summ = {}; self.per = {}
        self.flows = {}
        self.n = {}
        self.written, self.read, self.must = {}, {}, {}
    def funcs(self):
        fs = [f for f in self.p.libfuncs if f.body is not None and "/fv/" in "/" + f.rel and
              any(x["k"] == "mem" and (x.get("r") in REC or x.get("r") in ("TDyMesh", "TDyMPFAO", "TDyFVTPF", "TDyUGrid")) or x["k"] == "idx" for x in walk(f.body))]
        s = set(fs); out = []; seen = set()
        def go(f):
            if f in seen: return
            seen.add(f)
            for c in calls(f.body):
                g = self.p.resolve(f, c["fn"]) if c.get("fn") else None
                if g in s: go(g)
            out.append(f)
        for f in sorted(fs, key=lambda f: (f.rel, f.line)): go(f)
        return out
    def allocations(self):
        """kind and multiplicity of the fields that hold (constant x number of entities) elements"""
        out = {}
        for f in self.fs:
            if not any(re.match(r"TDyAllocate_\w+Array_|PetscMallocA$", c.get("fn") or "") for c in calls(f.body)): continue
            K = self.K(f)
            for n, c, a in K.F.sites(lambda c: re.match(r"TDyAllocate_\w+Array_[1-4]D$|PetscMallocA$", c.get("fn") or "")):
                dst, size = (a[-1], [a[-2]]) if c["fn"] == "PetscMallocA" else (a[0], a[1:])
                if dst.op != "addr" or dst.args[0].op != "F": continue
                r = K.rec.get(dst.args[0])
                if r not in ("TDyMPFAO", "TDyFVTPF"): continue
                w = 1
                if c["fn"] == "PetscMallocA":
                    w = 64 if c.get("m") == "TDyAlloc" else 8      # TDyAlloc multiplies by the size of an element once more
                for lev, t in enumerate(size):
                    k = self.extent(K, t, w if len(size) == 1 else 1)
                    out.setdefault((r, dst.args[0].args[1], lev), set()).add(k)
        return {k: v.pop() for k, v in out.items() if len(v) == 1 and None not in v}
    def extent(self, K, t, w):
        p = poly(K.dims(t))
        cs = sorted({abs(c) for c in p.values()})
        if len(cs) != 1: return None
        k = K.count(frompoly({m: v / cs[0] for m, v in p.items()}))
        c = cs[0] / w
        return (k, int(c)) if k and c == int(c) else None
    def K(self, f):
        if f not in self.flows:
            F = Flow(self.p, f, inline=lambda g, c, s: accessor(g))
            K = Kinds(self.p, self.per, self.summ); K.flow(f, F)
            self.flows[f] = K
        return self.flows[f]
    def write(self, K, l, whole=False):
        while True:
            t = K.table(l) if l.op != "F" else None
            if t: self.written.setdefault(t[:2], K.f); return
            if l.op == "F" and K.rec.get(l) in REC:
                n = l.args[1]
                if not whole or re.search(r"^num_|^id$|_ids?$|_offset$|global_id|is_", n): self.written.setdefault((K.rec[l], n), K.f)
                return
            if l.op in ("F", "E"): l = l.args[0]
            elif l.op == "D" and l.args[0].op == "ld": l = l.args[0].args[0]
            elif l.op == "D" and l.args[0].op == "ptr" and l.args[0].args[0].op == "ld": l = l.args[0].args[0].args[0]
            else: return
    def lhs(self, top, a):
        """the construct is (the base of) the target of an assignment, or its address is taken"""
        for x in walk(top):
            if x["k"] == "asg" and x["op"] == "=" or x["k"] == "un" and x["op"] == "&":
                e = x["l_"] if x["k"] == "asg" else strip(x["e"])
                while e is not None:
                    if e is a: return True
                    e = e.get("b")
        return False
    def facts(self, K, i):
        """outcomes of the tests that every path to this point has taken last"""
        if (K, i) not in self.must:
            F = K.F; out = set()
            for b in F.alive:
                if F.byid[b].kind != "cond" or b == i or not F.dominates(b, i): continue
                for s, lab in F.succ[b]:
                    if len(F.pred[s]) == 1 and len(F.succ[b]) == 2 and (s == i or F.dominates(s, i)):
                        a, pol = F.cond_term(b)
                        out.add((a, pol if lab is True else not pol))
            self.must[K, i] = out
        return self.must[K, i]
    def sign(self, K, n, x, what, store=False):
        """an entry of a face's cells is a cell's number where it is not negative, and -1 minus a boundary face's number where it is"""
        for m, c in poly(x).items():
            if len(m) != 1 or m[0][1] != 1 or abs(c) != 1 or K.kind(m[0][0]) != "C": continue
            a = m[0][0]
            if c == 1 and (store or len(poly(x)) > 1): continue
            if c == -1 and poly(x).get(()) != -1: continue
            bad = [pol for t, pol in self.facts(K, n.id) if t.op == "lt" and t.args[0] is a and cval(t.args[1]) == 0 and pol == (c == 1)]
            if c == -1:                                     # of the two entries of a boundary face one is a cell
                for t, pol in self.facts(K, n.id):
                    if t.op == "lt" and pol and cval(t.args[1]) == 0 and t.args[0].op == "ld" and a.op == "ld":
                        (b1, x1), (b2, x2) = K.base(a.args[0]), K.base(t.args[0].args[0])
                        if b1 is b2 and x1 is not None and x2 is not None and cval(sub(x1, x2)) in (1, -1): bad.append(pol)
            self.rep(K, n, "sign", not bad, "%s is %s, where %s is %s" % (what, "addressed with the number of a cell" if c == 1 else "given the number of a boundary face", tshow(a)[:60], "negative" if c == 1 else "not negative"), what)
    # ---- requirements
    def want(self, K, t, k, n, what):
        """the value t is used as the number of an entity of kind k"""
        if cval(t) is not None: return
        have = K.kind(t)
        if have is not None and not (isinstance(have, tuple) and have[0] == "#"):
            self.rep(K, n, "kind", have == k, "%s is addressed with %s (%s), not with the number of a %s" % (what, "the number of a " + show(have) if have != "i" else "a position in a list", tshow(t)[:100], show(k)), what)
            return
        self.req.setdefault(t, {}).setdefault(k, (n, what))
    def rep(self, K, n, rule, ok, msg, what):
        key = (K.f.name, rule, what)
        line = n.ast["l"] if n.ast is not None else K.f.line
        g = K.F.fnof.get(n.id, K.f)
        self.n[rule] = self.n.get(rule, 0) + 1
        if ok: self.ctx.ob(rule, "%s:%s:%s" % (g.name, line, what))
        else: self.ctx.check(rule, "%s:%s:%s" % (g.name, line, what), False, "%s|%s|%s" % key, g, line, "in %s: %s" % (K.f.name, msg))
    def own(self, K, n, slot, offs, pos, what):
        """a position that runs over the entries of a list of the same kind of entity runs over the list it is added to"""
        mine = {K.table(a.args[0])[2] for a in offs if a.op == "ld" and K.table(a.args[0])}
        for a in pos:
            rg = K.F.ranges().get(a)
            if not rg or len(mine) != 1: continue
            t = K.lentab(rg[1])
            if not t or t[0] != slot[0]: continue
            if t[1] == "num_boundary_faces" and slot[1] == "face_offset": continue      # the boundary faces are the last of the faces
            self.rep(K, n, "own", t[1] in (slot[1], NUM.get(slot[1])) or (slot[1], t[1]) in SAME,
                     "%s is run through up to %s.%s, the length of another list" % (what, t[0], t[1]), what)
            o = next(iter(mine))
            self.rep(K, n, "own", t[2] is None or t[2] is o, "%s is run through for %s up to the number of entries of %s" % (what, tshow(o)[:60], tshow(t[2])[:60] if t[2] is not None else ""), what)
    def element(self, K, n, l):
        t = K.table(l)
        if not t: return
        r, fl, x, lev = t
        what = "%s.%s" % (r, fl)
        self.sign(K, n, x, what)
        if r in REC:
            p = poly(x)
            one = [(m[0][0], c) for m, c in p.items() if len(m) == 1 and m[0][1] == 1]
            offs = {o for (q, _), (o, _) in LIST.items() if q == r}
            if (r, fl) in LIST:
                slot = (r, LIST[r, fl][0])
                ks = [(K.kind(a), a) for a, c in one if c == 1]
                known = [(k, a) for k, a in ks if k is not None]
                if any(k == slot for k, a in known): 
                    bad = [k for k, a in known if k != slot and k != "i"]
                    self.rep(K, n, "list", not bad, "%s is addressed by adding a %s number to its offset" % (what, show(bad[0]) if bad else ""), what)
                    self.own(K, n, slot, [a for k, a in known if k == slot], [a for k, a in known if k == "i"], what)
                elif known and len(one) == len(p) - (() in p):
                    k, a = known[0]
                    self.rep(K, n, "list", False, "%s is addressed through %s, not through %s.%s" % (what, show(k), r, slot[1]), what)
            elif (r, fl) == ("TDyEdge", "vertex_ids"):
                for a, c in one:
                    k = K.kind(a)
                    if k is not None and k != "i": self.rep(K, n, "kind", k == "E" and c == 2, "%s is addressed with %d x the number of a %s" % (what, c, show(k)), what)
            else:
                if K.kind(x) is None and len(one) == 1 and set(p) <= {(), ((one[0][0], 1),)} and one[0][1] == 1 and () in p:
                    k = K.kind(one[0][0])
                    if fl in offs and p[()] == 1: self.want(K, one[0][0], REC[r], n, what)
                    elif k is not None and k in NAME: self.rep(K, n, "kind", False, "%s is addressed with the number of a %s plus %s" % (what, show(k), p[()]), what)
                    return
                self.want(K, x, REC[r], n, what)
        elif r == "TDyUGrid":
            b = K.base(l)[0]
            if b.op == "D" and b.args[0].op == "out" and K.kind(x) == "i": return      # a table allocated here is numbered by what it was allocated for
            if fl in UGRID and lev < len(UGRID[fl]) - 1 and UGRID[fl][lev]: self.want(K, x, UGRID[fl][lev], n, what)
        elif r in ("TDyMPFAO", "TDyFVTPF"):
            e = self.per.get((r, fl, lev))
            if fl in ("X", "N") and lev == 0: e = ("P", 3)
            if e is None: return
            k, m = e
            if m == 1:
                self.want(K, x, k, n, what); return
            p = poly(K.dims(x))
            hit = []
            for mm, c in p.items():
                if len(mm) != 1 or mm[0][1] != 1: continue
                a = mm[0][0]; ka = K.kind(a)
                if ka is None or ka not in NAME or ka == "i" and c != m:
                    if c == m: hit.append(a)
                    continue
                ok = (ka == k or k == "P") and c == m
                self.rep(K, n, "kind", ok, "%s (%d values per %s) is addressed with %s x the number of a %s" % (what, m, show(k) if k != "P" else "mesh point", c, show(ka)), what)
            if len(hit) == 1 and k != "P": self.want(K, hit[0], k, n, what)
            if k == "P":
                q = {mm: c / m for mm, c in p.items() if c == m or c == -m}
                kk = K.kind(frompoly(q)) if q else None
                if kk is not None: self.rep(K, n, "point", kk in ("P", "C"), "%s is addressed with the number of a %s although it is kept by mesh point" % (what, show(kk)), what)
    def function(self, f):
        K = self.K(f); F = K.F
        self.req = {}
        for n, a, l, val, old in F.stores(): self.write(K, l)
        for n, c, a in F.sites():
            if "Free" in (c.get("fn") or "") or "Free" in (c.get("m") or "") or re.match(r"TDyAlloc|PetscMalloc", c.get("fn") or ""): continue
            for t in a:
                if t.op == "addr": self.write(K, t.args[0], True)
                q = t
                while q.op == "ptr": q = q.args[0]
                if q.op == "ld": self.write(K, q.args[0])
        for i in F.rpo:
            n = F.byid[i]
            if n.ast is None or n.kind not in ("expr", "var", "cond", "ret", "switch"): continue
            for a in walk(n.ast):
                if a["k"] == "idx":
                    l = F.lv(a, dict(F.IN[i]), i)
                    self.element(K, n, l)
                    t = K.table(l)
                    if t and t[0] in REC and not self.lhs(n.ast, a): self.read.setdefault(t[:2], (K.f, a["l"]))
                elif a["k"] == "bin" and a["op"] in ("==", "!="):
                    x, y = F.value(i, a["l_"]), F.value(i, a["r_"])
                    kx, ky = K.kind(x), K.kind(y)
                    if kx in NAME and ky in NAME and "i" not in (kx, ky): self.rep(K, n, "compare", kx == ky, "the number of a %s is compared with the number of a %s (%s, %s)" % (show(kx), show(ky), tshow(x)[:60], tshow(y)[:60]), "%s:%s" % (kx, ky))
        for n, a, l, val, old in F.stores():
            if val.op == "poly" and K.kind(val) == "B": self.sign(K, n, val, tshow(l)[:40], True)
            t = K.table(l)
            if not t: continue
            k = LIST[t[:2]][1] if t[:2] in LIST else UGRID[t[1]][-1] if t[0] == "TDyUGrid" and t[1] in UGRID and t[3] == len(UGRID[t[1]]) - 2 else "C" if t[:2] == ("TDySubcell", "cell_id") else None
            if k and a["k"] == "asg" and a["op"] == "=" and cval(val) is None:
                have = K.kind(val)
                if have in NAME and not (have == "B" and k == "C"): self.rep(K, n, "stored", have == k, "%s.%s receives the number of a %s" % (t[0], t[1], show(have)), "%s.%s" % t[:2])
        # calls of functions that are not read in place
        for n, c, a in F.sites():
            su = self.summ.get(c.get("fn"))
            if not su: continue
            for k, t in enumerate(a):
                for kk in su["in"].get(k, ()): self.want(K, t, kk, n, "%s#%d" % (c["fn"], k + 1))
        for t, ks in sorted(self.req.items(), key=lambda x: x[0].id):
            if len(ks) > 1:
                (k1, (n1, w1)), (k2, (n2, w2)) = sorted(ks.items(), key=lambda x: str(x[0]))[:2]
                self.rep(K, n2, "conflict", False, "the same value %s is used as the number of a %s (%s) and of a %s (%s)" % (tshow(t)[:80], show(k1), w1, show(k2), w2), "%s:%s" % (w1, w2))
            else: self.rep(K, next(iter(ks.values()))[0], "consistent", True, "", tshow(t)[:60])
        su = {"in": {}, "out": {}, "fill": {}}
        for t, ks in self.req.items():
            if t.op == "p": su["in"].setdefault(t.args[0], set()).update(ks)
        st = {}
        for n, a, l, val, old in F.stores():
            b = K.base(l)[0]
            if b.op == "D" and b.args[0].op == "p": st.setdefault(b.args[0].args[0], []).append(val)
        for k, vs in st.items():
            kk = K.join(vs, 0)
            if kk is None:
                cs = {K.count(v) for v in vs}
                if len(cs) == 1 and None not in cs: kk = ("#", cs.pop())
            if kk is not None: su["out"][k] = su["fill"][k] = kk
        self.summ[f.name] = su

def run(ctx):
    C = Check(ctx)
    C.fs = C.funcs()
    C.per.update(C.allocations())
    C.flows.clear()
    for f in C.fs: C.function(f)
    for k, (f, l) in sorted(C.read.items()):
        ctx.check("filled", "%s.%s" % k, k in C.written, "%s.%s|filled" % k, f, l, "%s.%s is read here, but nothing ever stores a value in it" % k)
    ctx.note("%d functions; tables of the discretizations by their allocation: %s; obligations %s" % (len(C.fs), len(C.per), C.n))
    ctx.need("kind", 500); ctx.need("list", 100)
