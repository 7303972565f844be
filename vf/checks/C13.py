"""For every registered pair of residual and Jacobian callbacks, what the Jacobian adds to a row and column is compared with the
derivative of what the residual adds to that row, in every combination of branch outcomes (which cell is upstream, interior or
boundary face, boundary-condition type, local or ghost cell). Rules: entries of cell terms and of face terms equal the chain-rule
derivative, with X_dY fields as the derivatives of field X; loops cover the same faces and cells; rows use the unknowns' order."""
from ..core import *
from ..gvn import *
from ..gate import *
from ..alg import *
from ..system import System, STAR

def face_of(t):
    """(which, face term) if t is a cell of a face"""
    if t.op == "ld" and t.args[0].op == "E":
        b, i = t.args[0].args
        if b.op == "D" and b.args[0].op == "ld" and b.args[0].args[0].op == "F" and b.args[0].args[0].args[1] == "cell_ids" and i.op in ("poly", "ld"):
            offs = [s for s in ([i] if i.op == "ld" else [m[0][0] for m, c in i.args[0] if len(m) == 1]) if s.op == "ld" and s.args[0].op == "E" and "cell_offset" in tshow(s.args[0].args[0])]
            if len(offs) == 1:
                k = cval(sub(i, offs[0]))
                if k in (0, 1): return int(k), offs[0].args[0].args[1]
    return None

UP, DN = mk("sym", "UP"), mk("sym", "DN")

class Shape:
    """renames the two cells of the face a nest works on"""
    def __init__(self, terms):
        self.faces = set()
        for t in terms:
            for s in subterms(t):
                f = face_of(s)
                if f: self.faces.add(f[1])
    def __call__(self, t):
        if len(self.faces) != 1: return t
        def f(x):
            w = face_of(x)
            if w: return UP if w[0] == 0 else DN
            return None
        return subst(t, f, {})

def load(field, idx, base=STAR):
    return mk("ld", mk("E", mk("D", mk("ld", mk("F", base, field), mk("v0"))), idx), mk("v0"))

def leaf(t):
    """(base, field or array term, index) of a load of an array element"""
    if t.op == "ld" and t.args[0].op == "E":
        b, i = t.args[0].args
        if b.op == "D":
            x = b.args[0]
            if x.op == "ld" and x.args[0].op == "F": return ("f", x.args[0].args[0], x.args[0].args[1], i)
            if x.op == "arrayof": return ("a", None, x.args[0], i)
    return None

class Chain:
    """derivative of state quantities with respect to the unknown u ("P", "T") of cell c"""
    def __init__(self, fields, bs, unknowns, trans=None, shift=None):
        self.fields = fields; self.bs = bs; self.unk = unknowns; self.trans = trans or {}; self.shift = shift
    def field(self, X, u, i):
        fs = self.fields
        n = "d%s_d%s" % (X, u)
        if n in fs: return load(n, i)
        m = re.fullmatch(r"d(\w+)_d(\w)", X)
        if m:
            n = "d2%s_d%s2" % (m[1], u)
            return load(n, i) if m[2] == u and n in fs else ZERO
        if "d%s_dS" % X in fs and "dS_d%s" % u in fs: return mul(load("d%s_dS" % X, i), load("dS_d%s" % u, i))
        if {"pressure": "P", "temperature": "T"}.get(X) == u: return ONE
        return ZERO
    def of(self, t, u, c, col=None):
        r = ZERO
        for s in sorted(atoms(t), key=lambda s: s.id):
            l = leaf(s)
            if l is None: continue
            if l[0] == "f":
                if l[1] is not STAR or l[3] is not c: continue
                d = self.field(l[2], u, l[3])
            else:
                d = ZERO
                if l[2] is mk("sym", "U") or l[2] is mk("sym", "Udot"):
                    k = cval(sub(l[3], mul(num(self.bs), c)))
                    if k is not None and k == self.unk.index(u): d = ONE if l[2] is mk("sym", "U") else self.shift
                elif col is not None:
                    d = self.trans.get((tshow(l[2]), u), lambda i, col: ZERO)(l[3], col)
            if d is ZERO: continue
            r = add(r, mul(deriv(t, s), d))
        return r

def atoms(t):
    """loads t depends on, those used as indices excluded"""
    out = set(); st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == "ld": out.add(x); continue
        if x.op == "poly":
            for m, c in x.args[0]:
                for a, e in m: st.append(a)
        else:
            for a in x.args:
                if isinstance(a, T): st.append(a)
    return out

def normalise(t):
    """integer comparisons of cells and boundary condition codes in one form"""
    def f(x):
        if x.op == "lt":
            a, b = subst(x.args[0], f, {}), subst(x.args[1], f, {})
            if a.op == "c" and cellish(b): return mk("not", mk("lt", b, num(a.args[0] + 1)))
            return mk("lt", a, b)
        return None
    return subst(t, f, {})
def cellish(b): return b in (UP, DN) or b.op == "sym"

def consistent(C):
    def ok(fs):
        lu = fs.get(mk("lt", UP, ZERO)); ld_ = fs.get(mk("lt", DN, ZERO))
        if lu and ld_: return False
        e1 = e2 = None
        for a, v in fs.items():
            if a.op == "eq":
                if set(a.args) == {C, UP}: e1 = v
                if set(a.args) == {C, DN}: e2 = v
                if v and a.args[0].op == "c":
                    for b, w in fs.items():
                        if w and b is not a and b.op == "eq" and b.args[1] is a.args[1] and b.args[0].op == "c": return False
                if set(a.args) == {UP, DN} and v: return False
            # |x| < tiny is the exceptional case
            if a.op == "lt" and a.args[0].op == "abs" and a.args[1].op == "c" and a.args[1].args[0] < Fraction(1, 10**6) and v: return False
        if e1 and e2: return False
        if e1 and lu: return False
        if e2 and ld_: return False
        # a local cell has local faces and vertices
        if not feasible(fs): return False
        for a, v in fs.items():
            if a.op == "nz":
                l = leaf(a.args[0])
                if l and l[0] == "f" and l[2] == "is_internal":
                    if v and (lu or ld_): return False
                    if not v and lu is False and ld_ is False: return False
        loc = any(v and a.op == "nz" and is_cell_local(a.args[0]) for a, v in fs.items())
        if loc and any(v is False and a.op == "nz" and is_part_local(a.args[0]) for a, v in fs.items()): return False
        return True
    return ok
def is_cell_local(t):
    l = leaf(t)
    return bool(l and l[0] == "f" and l[2] == "is_local" and l[1].op == "F" and l[1].args[1] == "cells" and l[3] in (UP, DN))
def is_part_local(t):
    l = leaf(t)
    return bool(l and l[0] == "f" and l[2] == "is_local" and l[1].op == "F" and l[1].args[1] in ("faces", "vertices"))
def local(r): return mk("nz", load("is_local", r, mk("F", STAR, "cells")))

# ---------------------------------------------------------------- pairs
REG = {"TSSetIFunction": ("TS", 2, "R"), "DMTSSetIFunction": ("TS", 1, "R"), "TSSetIJacobian": ("TS", 3, "J"),
       "SNESSetFunction": ("SNES", 2, "R"), "SNESSetJacobian": ("SNES", 3, "J")}
ROLES = {("TS", "R"): {2: "U", 3: "Udot", 4: "R"}, ("TS", "J"): {2: "U", 3: "Udot", 4: "shift", 5: "A", 6: "B"},
         ("SNES", "R"): {1: "U", 2: "R"}, ("SNES", "J"): {1: "U", 2: "A", 3: "B"}}

def registrations(prog):
    """[(kind, 'R'|'J', callback, facts of the selecting switches)]"""
    out = []
    for f in prog.libfuncs:
        if not any(c.get("fn") in REG for c in calls(f.body)): continue
        F = Flow(prog, f, inline=lambda g, c, s: False)
        for n, c, args in F.sites(lambda c: c.get("fn") in REG):
            kind, k, what = REG[c["fn"]]
            if k >= len(args) or args[k].op != "fn": continue
            out.append((kind, what, args[k].args[0], selectors(F, n), f))
    return out

def selectors(F, n):
    """{option field: set of values} under which n runs"""
    out = {}
    for g in F.guards(n.id):
        src, lab = g[0], g[1]
        nd = F.byid[src]
        if nd.kind != "switch": continue
        t = F.ev(nd.ast, dict(F.IN[src]), src)
        if t.op == "ld" and t.args[0].op == "F": key = t.args[0].args[1]
        else: key = tshow(t)
        if isinstance(lab, tuple): out.setdefault(key, set()).add(lab[1])
    return out

def pairs(prog):
    regs = registrations(prog)
    out = []
    for k, w, r, gr, f in regs:
        if w != "R": continue
        for k2, w2, j, gj, f2 in regs:
            if w2 != "J" or k2 != k: continue
            both = [x for x in gr if x in gj]
            if not all(gr[x] & gj[x] for x in both): continue
            if not gr and not gj and f is not f2: continue
            sel = {x: (gr.get(x) or gj.get(x)) & (gj.get(x) or gr.get(x)) for x in set(gr) | set(gj)}
            out.append((k, r, j, sel))
    return out

# ---------------------------------------------------------------- comparison
K, C, LC = mk("sym", "K"), mk("sym", "C"), mk("sym", "L0")
def isvert(r):
    """a vertex's list of internal cells, at position K"""
    if r.op == "ld" and r.args[0].op == "E":
        b, i = r.args[0].args
        if b.op == "D" and b.args[0].op == "ld" and b.args[0].args[0].op == "F" and b.args[0].args[0].args[1] == "internal_cell_ids":
            return any(s is K for s in subterms(i))
    return False

def column(t):
    return subst(t, lambda x: C if isvert(x) else None, {})

def decode(row, cells):
    """[(cell, component, unknowns per cell)] readings of an index"""
    out = []
    for c in cells:
        if row is c: return (c, 0, 1)
        for b in (2, 3):
            k = cval(sub(row, mul(num(b), c)))
            if k is not None and 0 <= k < b: return (c, int(k), b)
    return None

def run(ctx):
    p = ctx.p
    done = set()
    for kind, rn, jn, sel in pairs(p):
        if (rn, jn) in done: continue
        done.add((rn, jn))
        rf, jf = p.func(rn), p.func(jn)
        if rf is None or jf is None: continue
        ctx.ob("pair", "%s with %s" % (rn, jn))
        compare(ctx, kind, rf, jf)
    ctx.need("pair", 3); ctx.need("row-column", 20)

def statefields(p, terms):
    names = set()
    for t in terms:
        for s in atoms(t):
            l = leaf(s)
            if l and l[0] == "f" and l[1] is STAR_F(l): names.add(l[2])
    best = set()
    for r in p.records.values():
        fs = {f["n"] for f in r["fields"]}
        if "rho" in fs and len(names & fs) > len(names & best): best = fs
    return best
def STAR_F(l): return STAR if l[1] is STAR else None

def compare(ctx, kind, rf, jf):
    p = ctx.p
    SR = System(p, rf, ROLES[kind, "R"], peel=PEEL); SJ = System(p, jf, ROLES[kind, "J"], peel=PEEL)
    if not SR.ok or not SJ.ok: return
    pair = "%s/%s" % (rf.name, jf.name)
    whole(ctx, SJ, jf)
    groups = {}
    for n, row, v, nest, val, old in SR.additions("R"): groups.setdefault(nest, []).append((n, row, v))
    jac = {}
    for n, row, col, v, nest, br, bc in SJ.entries("B"): jac.setdefault(nest, []).append((n, row, col, v, br, bc))
    used = set()
    for nest, adds in groups.items():
        d = len(nest)
        mine = []
        for jn, es in jac.items():
            if jn[:d] == nest and len(jn) in (d, d + 1):
                used.add(jn)
                k = {mk("sym", "L%d" % d): K}
                for n, row, col, v, br, bc in es:
                    f = lambda t: None if t is None else subst(t, lambda x: k.get(x), {})
                    mine.append((n, f(row), f(col), f(v), br, bc))
        group(ctx, kind, rf, jf, pair, adds, mine)
    for jn in jac:
        if jn not in used:
            n = jac[jn][0][0]
            ctx.viol(pair + ":range", jf, n.line, "same-range", "%s adds to the matrix over a range that %s does not add to the residual over" % (jf.name, rf.name))
def whole(ctx, S, f):
    """the matrix is emptied before it is filled, and the loops that fill it visit everything"""
    F = S.F
    sites = [n for n, c, args in F.sites(lambda c: re.match(r"MatSetValue(s|sLocal|sBlocked|sBlockedLocal)?$", c.get("fn") or "")) if S.key(args[0]) is mk("sym", "B")]
    zs = [n.id for n, c, args in F.sites("MatZeroEntries") if S.key(args[0]) is mk("sym", "B")]
    if not sites: return
    ctx.check("from-zero", f.name, any(all(F.dominates(z, n.id) for n in sites) and not F.loops_of(z) for z in zs), f.name + ":zero", f, f.line, "entries are added to the Jacobian of the previous iterate: it is not set to zero first")
    for n in sites:
        bad = [y for y, c, d in S.early(n) if c is not None and c is not mk("nz", load("is_local", mk("sym", "L%d" % d), mk("F", STAR, "cells")))]
        g = F.fnof[n.id]
        ctx.check("all-visited", "%s:%d" % (f.name, n.line), not bad, "%s:early:%s" % (f.name, g.name), g, bad[0].line if bad else n.line, "the loop that adds the entries of line %d is left before all elements were visited" % n.line)

PEEL = 80; WIDTH = int(os.environ.get("VF_WIDTH", "300"))

UNK = {1: ("P",), 2: ("P", "T")}
def group(ctx, kind, rf, jf, pair, adds, ents):
    p = ctx.p
    terms = [t for n, row, v in adds for t in (row, v)] + [t for n, row, col, v, br, bc in ents for t in (row, col, v)]
    if any(t is None for t in terms):
        ctx.note("%s: a term was not resolved" % pair); return
    shape = Shape(terms)
    face = bool(shape.faces)
    if len(shape.faces) > 1: ctx.note("%s: more than one face per iteration" % pair); return
    f = lambda t: normalise(shape(column(t)))
    adds = [(n, f(row), f(v)) for n, row, v in adds]
    ents = [(n, f(row), f(col), f(v), br, bc) for n, row, col, v, br, bc in ents]
    cells = (UP, DN) if face else (LC,)
    # unknowns per cell
    bs = max([decode_all(row, cells) for n, row, v in adds] + [1])
    unk = UNK[min(bs, 2)]; bs = len(unk)
    if bs > 1 and ents and all(br == 0 and bc == 0 and decode_all(row, cells) == 1 for n, row, col, v, br, bc in ents) and not any(e[4] for e in ents):
        ctx.check("every-unknown", pair, False, pair + ":size", jf, jf.line, "%s fills one row per cell, %s has %d equations per cell" % (jf.name, rf.name, bs))
        return
    ctx.ob("every-unknown", pair)
    hasC = any(C in subterms(col) for n, row, col, v, br, bc in ents)
    fields = statefields(p, [v for n, row, v in adds])
    bad = {}
    for r in cells:
        own = {local(r): True}
        if face: own[mk("lt", r, ZERO)] = False
        for c, cc, facts0 in columns(cells, face, hasC):
            facts0 = dict(facts0); facts0.update(own)
            if not consistent(C)(facts0) or any(facts0.get(a) is not v for a, v in own.items()): continue
            R, J = [], []
            for comp in range(bs):
                R.append(total(mul(pick(row, lambda x: at(x, r, comp, bs, cells)), v) for n, row, v in adds))
                for ui in range(bs):
                    J.append(total(mul(mul(pick(row, lambda x: at(x, r, comp, bs, cells, br)), pick(col, lambda x: at(x, c, ui, bs, cells, bc, facts0))), v) for n, row, col, v, br, bc in ents))
            try: ls = leaves(R + J, facts0, normalise, consistent(C), 3000)
            except TooMany:
                ctx.note("%s: too many branch combinations for row %s" % (pair, tshow(r))); continue
            ch = Chain(fields, bs, unk, trans(), mk("sym", "shift"))
            for facts, out in ls:
                if skip(facts): continue
                for comp in range(bs):
                    for ui, u in enumerate(unk):
                        key = "%s:%s:%s/%s" % (pair, ("boundary" if facts.get(mk("lt", UP, ZERO)) or facts.get(mk("lt", DN, ZERO)) else "interior") if face else "cell", "PT"[comp], u)
                        got = out[bs + bs * comp + ui]
                        ctx.ob("row-column", "%s row %s column %s under %d conditions" % (key, tshow(r), tshow(c), len(facts)))
                        if key in bad: continue
                        want = ch.of(out[comp], u, cc if cc is not None else mk("none"), K if c is C else None)
                        if not same(got, want): bad[key] = (r, c, facts, got, want)
    for key, (r, c, facts, got, want) in sorted(bad.items()):
        ctx.viol(key, jf, jf.line, "jacobian-is-derivative", "%s: entry differs from the derivative of the residual of %s; row %s, column %s, when %s; excess %s" % (jf.name, rf.name, tshow(r), tshow(c), ", ".join(("" if v else "not ") + tshow(a) for a, v in facts.items())[:WIDTH], tshow(sub(got, want))[:300]))

def total(ts):
    r = ZERO
    for t in ts: r = add(r, t)
    return r
def pick(t, f):
    """1 where f holds of the outcome of t, else 0"""
    if t.op == "ite":
        y, z = pick(t.args[1], f), pick(t.args[2], f)
        return y if y is z else mk("ite", t.args[0], y, z)
    return ONE if f(t) else ZERO
def columns(cells, face, hasC):
    """[(column, cell it is, facts)]"""
    if not face: return [(cells[0], cells[0], {})]
    if hasC: return [(C, UP, {eq(C, UP): True, eq(C, DN): False, mk("lt", UP, ZERO): False}),
                     (C, DN, {eq(C, UP): False, eq(C, DN): True, mk("lt", DN, ZERO): False}),
                     (C, None, {eq(C, UP): False, eq(C, DN): False})]
    return [(c, c, {mk("lt", c, ZERO): False}) for c in cells]
def eq(a, b): return mk("eq", *sorted((a, b), key=lambda t: t.id))
def decode_all(row, cells):
    d = decode(row, cells)
    if d: return d[2]
    return max([decode_all(x, cells) for x in row.args if isinstance(x, T)] + [1]) if row.op == "ite" else 1
def at(row, cell, comp, bs, cells, blk=None, facts=None):
    if row is None: return False
    if facts is not None and row in (C, UP, DN) and cell in (C, UP, DN) and row is not cell:
        if facts.get(eq(row, cell)) is not True: return False
        row = cell
    if row is cell: return comp == (blk or 0)
    d = decode(row, (cell,))
    return bool(d and d[0] is cell and d[1] == comp and d[2] == bs)
def skip(facts):
    """a no-flow boundary face: its row of the transmissibility matrix and its gravity term are zero"""
    b = any(facts.get(mk("lt", x, ZERO)) for x in (UP, DN))
    return b and any(v and a.op == "eq" and "bc_type" in tshow(a) and any(x.op == "c" and x.args[0] == 1 for x in a.args) for a, v in facts.items())
PRODUCTS = {("TtimesP_vec", "P"): "Trans", ("Temp_TtimesP_vec", "T"): "Temp_Trans"}
def trans():
    """derivative of an entry of T*P: the transmissibility of that vertex, face and internal cell"""
    def of(field):
        def f(i, col):
            w = vertex_row(i)
            if w is None: return mk("unknown", field)
            t = mk("F", STAR, field)
            for k in (w[0], w[1], col): t = mk("E", mk("D", mk("ld", t, mk("v0"))), k)
            return mk("ld", t, mk("v0"))
        return f
    return {("*().%s" % v, u): of(fl) for (v, u), fl in PRODUCTS.items()}
def vertex_row(i):
    """(vertex, position in its list of faces) of index 4*face + subface"""
    if i.op != "poly": return None
    got = {}
    for m, c in i.args[0]:
        if len(m) != 1: return None
        t = m[0][0]
        l = leaf(t)
        if not l or l[0] != "f": return None
        got[l[2]] = (c, l[3])
    if set(got) != {"face_ids", "subface_ids"} or got["face_ids"][0] != 4 or got["subface_ids"][0] != 1: return None
    x = got["face_ids"][1]
    offs = [s for s in atoms(x) if (leaf(s) or (0, 0, ""))[2] == "face_offset"]
    if len(offs) != 1: return None
    y = got["subface_ids"][1]
    offy = [s for s in atoms(y) if (leaf(s) or (0, 0, ""))[2] == "subface_offset"] or [s for s in atoms(y) if (leaf(s) or (0, 0, ""))[2] == "face_offset"]
    if len(offy) != 1 or leaf(offy[0])[3] is not leaf(offs[0])[3] or sub(x, offs[0]) is not sub(y, offy[0]): return None
    return leaf(offs[0])[3], sub(x, offs[0])
