"""The functions that turn the unknowns into state quantities (the ops->update_state callbacks, the boundary-state and
boundary-value functions, the reference properties on the boundary) are read as maps over array elements: every loop that fills
an array and every call that works point by point becomes an equation for one element, and the equations are composed until an
element of a state array is a closed term in the unknowns of one cell, material data of one cell, and calls of the equations of
state.  Each such term is compared, as an algebraic expression, with the definition of the quantity at that cell or face."""
from ..elem import *
from .C13 import registrations

ST = ("S", "dS_dP", "d2S_dP2")
DEN = ("rho", "drho_dP", "d2rho_dP2")
VIS = ("vis", "dvis_dP", "d2vis_dP2")
ENT = ("h", "dh_dP", "dh_dT")
def keep(n): return n.startswith(("EOS", "Conditions", "TDyGlobalTo"))

# ---------------------------------------------------------------- normal form
SAT, REL = mk("sym", "saturation curve"), mk("sym", "relative permeability curve")
def norm(t):
    """element terms without the paths by which the curves and the equations of state are reached"""
    def f(x):
        if x.op == "pt":
            c = x.args[2]
            n = c.args[0].args[-1] if c.op == "val" and c.args[0].op == "key" else None
            c = SAT if n == "saturation" else REL if n == "rel_perm" else c
            return mk("pt", x.args[0], x.args[1], c, *[subst(a, f, memo) for a in x.args[3:]])
        if x.op == "res" and x.args[0].startswith("EOSCompute"):
            a = [subst(y, f, memo) for y in x.args[3:]]
            if x.args[0] == "EOSComputeSalinityFraction": a = a[:2]
            return mk("res", x.args[0], x.args[1], *a)
        if x.op == "res" and x.args[0].startswith("Conditions"):
            return mk("res", x.args[0], x.args[1], *[subst(y, f, memo) for y in x.args[3:]])
        return None
    memo = {}
    return subst(t, f, memo)

def eos(fn, k, *a): return mk("res", fn, k, *a)
PREF, TREF = mk("sym", "Pref"), mk("sym", "Tref")
def fld(n, i): return mk("el", mk("key", "f", n), i)

def expected(P, T, m, Sr, cell, pre=None):
    """definitions of the state quantities at one point: field -> term"""
    pc = sub(PREF, P)
    sat = [mk("pt", "SaturationCompute", k, SAT, cell, Sr, pc) for k in range(3)]
    q = inv(sub(ONE, Sr))
    se = mul(sub(sat[0], Sr), q)
    kr = [mk("pt", "RelativePermeabilityCompute", k, REL, cell, se) for k in range(2)]
    E = dict(zip(ST, sat))
    E["Kr"] = kr[0]; E["dKr_dS"] = mul(kr[1], q)
    if m is not None:
        for t, fs, fn in ((T[0], DEN, "EOSComputeWaterDensity"), (T[0], VIS, "EOSComputeWaterViscosity")):
            for k, n in enumerate(fs): E[n] = eos(fn, 4 + k, P, t, m)
    return E

def same_pt(a, b):
    """equality of terms whose point-wise results have algebraically equal inputs"""
    if a is b: return True
    return same(canon_pts(a), canon_pts(b))
_cp = {}
def canon_pts(t):
    """inner arguments of opaque results brought to polynomial normal form"""
    def f(x):
        if x in _cp: return _cp[x]
        if x.op in ("pt", "res"):
            r = mk(x.op, *[rat(subst(a, f, {})) if isinstance(a, T) else a for a in x.args])
            _cp[x] = r
            return r
        return None
    return subst(t, f, {})
def rat(t):
    try: n, d = ratio(t)
    except Exception: return t
    if not isinstance(n, T): return t
    return mul(n, inv(d)) if d is not ONE else n

# ---------------------------------------------------------------- loops
def covers(S, e, hi):
    """the loop counters in the linear index e run over all positions up to hi (a predicate on terms)"""
    rg = S.F.ranges()
    ps = [x for x in subterms(e) if x.op == "phi" and x.args[0] in S.F.loops]
    if not ps: return e.op == "sym"
    for x in ps:
        r = rg.get(x)
        if r is None: return False
        lo, up, st, ok = r
        if not ok or abs(st) != 1 or cval(lo) != 0: return False
    return True

def counter_of(e, S):
    """the counter with the largest stride in a linear index, its range's upper end, and the inner counters"""
    rg = S.F.ranges()
    ps = [x for x in subterms(e) if x.op == "phi" and x.args[0] in S.F.loops]
    return [(x, rg.get(x)) for x in ps]

def bound(S, r, node):
    return S.value(r[1], node) if isinstance(r[1], T) else None

# ---------------------------------------------------------------- cells
def updaters(prog):
    """{function name: mode values} of the callbacks assigned to update_state"""
    from .C06 import installed
    return installed(prog, "update_state")

def enums(prog):
    out = {}
    for tu in prog.tus:
        for e in tu.enums: out.update(dict(e['consts']))
    return out

def ctxrec(f):
    for n in walk(f.body):
        if n["k"] == "var":
            m = re.search(r"\bTDy(MPFAO|FVTPF|WY|BDM)\b", f.types[n["t"]][1])
            if m: return m.group(1)
    return None

def run(ctx):
    p = ctx.p
    modes = {v: k for k, v in enums(p).items() if k in ("RICHARDS", "TH", "SALINITY")}
    ups = updaters(p)
    if not ups: raise AnalysisBroken("no update_state callback found")
    for name in sorted(ups):
        f = p.func(name)
        if f is None or f.body is None: continue
        ms = {modes.get(v) for v in ups[name]} - {None}
        cells(ctx, f, ms)
    ctx.need("cell-state", 40)
    boundary(ctx)
    current(ctx)

def cells(ctx, f, ms):
    p = ctx.p
    S = Elem(p, f, keep)
    if not S.ok: ctx.note("%s always fails" % f.name); return
    rec = ctxrec(f)
    k = 2 if ms & {"TH", "SALINITY"} else 1
    U = mk("key", "p", f.params[-1]["n"]); N = mk("sym", f.params[-2]["n"])
    i = mk("sym", "i")
    P = mk("el", U, mul(num(k), i)); X = mk("el", U, add(mul(num(k), i), ONE))
    Sr = fld("Sr", i)
    wr = {}
    for key in S.writers:
        n = None
        if key.args[0] == "f": n = key.args[1]
        elif key.args[0] == "out" and key.args[1].op == "arr" and key.args[1].args[0].op == "sym": n = key.args[1].args[0].args[0]
        if n: wr[n] = S.final(key)
    saline = "SALINITY" in ms; th = "TH" in ms
    Ts = [TREF, X] if th else [TREF]
    m0 = eos("EOSComputeSalinityFraction", 4, X, fld("mu_saline", i)) if saline else None
    mopts = [m0] if saline else [fld("m_nacl", i), ZERO]
    alts = []
    for t in Ts:
        for m in mopts:
            E = expected(P, (t,), m if rec != "WY" else None, Sr, i)
            alts.append(E)
    for E in alts:
        if saline: E["m_nacl"] = m0
        if th or saline: E[["Temp_P_vec", "Psi_vec"][saline]] = X
        if rec == "MPFAO": E["P_vec"] = P
        if rec == "FVTPF": E["pressure"] = P
        if th:
            for j, n in enumerate(ENT): E[n] = eos("EOSComputeWaterEnthalpy", 3 + j, X, P)
            q = inv(E["rho"])
            E["u"] = sub(E["h"], mul(P, q))
            E["du_dP"] = add(sub(E["dh_dP"], q), mul(mul(P, mul(q, q)), E["drho_dP"]))
            E["du_dT"] = E["dh_dT"]
    names = sorted(alts[0])
    for n in names:
        inst = "%s:%s" % (f.name, n)
        if n not in wr:
            ctx.check("cell-state", inst, False, "%s|%s|unset" % (f.name, n), f, f.line,
                      "%s is never set by %s, so it does not follow the unknowns" % (n, f.name)); continue
        for w, e, v in wr[n]:
            line = w[1][0].line if w is not None else f.line
            why = element(S, w, e, v, i, N, [E[n] for E in alts])
            ctx.check("cell-state", inst, why is None, "%s|%s" % (f.name, n), f, line, "%s set by %s %s" % (n, f.name, why))
    # tensors: element j of the cell's block
    for n, src, factor in (("K", "K0", "Kr"),) + ((("Kappa", "Kappa0", None),) if th else ()):
        inst = "%s:%s" % (f.name, n)
        if n not in wr:
            ctx.check("cell-state", inst, False, "%s|%s|unset" % (f.name, n), f, f.line, "%s is never set by %s" % (n, f.name)); continue
        for w, e, v in wr[n]:
            line = w[1][0].line if w is not None else f.line
            why = tensor(S, f, w, e, v, N, src, alts[0][factor] if factor else ONE, i)
            ctx.check("cell-state", inst, why is None, "%s|%s" % (f.name, n), f, line, "%s set by %s %s" % (n, f.name, why))

def element(S, w, e, v, i, N, alts):
    """None, or why the writer does not make element i equal to one of the expected terms for every i below N"""
    if w is None: return "may keep its old value"
    if v is None: return "could not be read as one value per element"
    if e is not i:
        cs = counter_of(e, S)
        if len(cs) != 1: return "is stored at %s, not at the cell's own position" % tshow(e)[:80]
        c, r = cs[0]
        if e is not c: return "is stored at %s, not at the cell's own position" % tshow(e)[:80]
        if r is None or not r[3] or cval(r[0]) != 0 or abs(r[2]) != 1 or S.value(r[1], w[1][0].id) is not N:
            return "is not set for every cell"
        v = subst(v, lambda x: i if x is c else None, {})
    v = norm(v)
    for E in alts:
        if same_pt(v, E): return None
    return "is %s, which is not its definition at the same cell" % tshow(v)[:200]

def tensor(S, f, w, e, v, N, src, factor, i):
    if w is None: return "may keep its old value"
    if v is None: return "could not be read as one value per element"
    cs = counter_of(e, S)
    # the counter running over the cells
    cell = [(c, r) for c, r in cs if r is not None and r[3] and S.value(r[1], w[1][0].id) is N]
    if len(cell) != 1 or cval(cell[0][1][0]) != 0 or abs(cell[0][1][2]) != 1: return "is not set for every cell"
    c = cell[0][0]
    e0 = subst(e, lambda x: ZERO if x is c else None, {})
    stride = sub(subst(e, lambda x: ONE if x is c else None, {}), e0)
    if not same(e, add(mul(stride, c), e0)) or c in set(subterms(stride)): return "has an index that is not linear in the cell"
    size = ONE; st = {}
    for x, r in cs:
        if x is c: continue
        if r is None or not r[3] or cval(r[0]) != 0 or abs(r[2]) != 1: return "is not set for every component"
        size = mul(size, S.value(r[1], w[1][0].id))
    if not same(size, stride): return "covers %s of %s components" % (tshow(size)[:40], tshow(stride)[:40])
    if cval(stride) is not None and cval(stride) != 9: return "has %s components per cell" % tshow(stride)
    want = mul(mk("el", mk("key", "f", src), e), subst(factor, lambda x: c if x is i else None, {}))
    if not same_pt(norm(v), want): return "is %s, not %s of the same cell and component times its factor" % (tshow(norm(v))[:160], src)
    return None

# ---------------------------------------------------------------- boundary faces
def closure_of(p, f):
    """library functions reachable from f"""
    memo = p.__dict__.setdefault("_c11_reach", {})
    if f in memo: return memo[f]
    out = {f}; st = [f]
    while st:
        g = st.pop()
        if g.body is None: continue
        for c in calls(g.body):
            h = p.resolve(g, c["fn"]) if c.get("fn") else None
            if h is not None and h not in out: out.add(h); st.append(h)
    memo[f] = out
    return out

def roots(p, field, among):
    """non-static functions among the given ones that fill the field's array, closest to the stores"""
    M = Mods.of(p)
    c = [f for f in among if f.body is not None and not f.static and "." + field in M[f] and not any(storage(g, field) for g in closure_of(p, f))]
    return [f for f in c if not any(g is not f and g in c and f not in closure_of(p, g) for g in closure_of(p, f))]

def storage(f, field):
    """f obtains or gives back the memory of the array"""
    if f.body is None: return False
    for c in calls(f.body):
        for a in c["a"]:
            x = uncast(a)
            if x["k"] == "un" and x["op"] == "&": 
                x = uncast(x["e"])
                if x["k"] == "mem" and x["f"] == field: return True
            elif x["k"] == "mem" and x["f"] == field and re.search("Free|Destroy", c.get("fn") or ""): return True
    return False

def residuals(p):
    return sorted({r[2] for r in registrations(p) if r[1] == "R"} | {c for c in transient(p)})

def transient(p):
    """callbacks computing the transient variable"""
    out = set()
    for f in p.libfuncs:
        for c in calls(f.body):
            if c.get("fn") in ("TSSetTransientVariable", "DMTSSetTransientVariable"):
                for a in c["a"]:
                    a = uncast(a)
                    if a["k"] == "ref" and a.get("dk") == "func": out.add(a["n"])
                    elif a["k"] == "un" and uncast(a["e"]).get("dk") == "func": out.add(uncast(a["e"])["n"])
    return out

def lin(t, env):
    """value of a linear integer expression under sample values, or None"""
    v = env(t)
    if v is not None: return v
    if t.op == "c": return t.args[0]
    if t.op == "poly":
        s = 0
        for m, c in poly(t).items():
            x = c
            for b, e in m:
                y = env(b)
                if y is None: return None
                x *= y ** int(e)
            s += x
        return s
    return None

def decide(c, env):
    """truth of a condition under sample values of its atoms"""
    if c.op == "true": return True
    if c.op == "not":
        v = decide(c.args[0], env); return None if v is None else not v
    if c.op in ("&&", "||"):
        x, y = decide(c.args[0], env), decide(c.args[1], env)
        if c.op == "&&": return False if x is False or y is False else True if x and y else None
        return True if x or y else False if x is False and y is False else None
    if c.op == "nz":
        if c.args[0].op in ("lt", "eq", "nz", "not", "&&", "||"): return decide(c.args[0], env)
        v = lin(c.args[0], env); return None if v is None else v != 0
    if c.op in ("lt", "eq"):
        x, y = lin(c.args[0], env), lin(c.args[1], env)
        if x is None or y is None: return None
        return x < y if c.op == "lt" else x == y
    v = lin(c, env)
    return None if v is None else v != 0

def settle(t, env):
    """t with the conditional terms decided by env resolved"""
    memo = {}
    def f(x):
        if x.op == "ite":
            v = decide(subst(x.args[0], f, memo), env)
            if v is True: return subst(x.args[1], f, memo)
            if v is False: return subst(x.args[2], f, memo)
            y, z = subst(x.args[1], f, memo), subst(x.args[2], f, memo)
            return y if y is z else mk("ite", subst(x.args[0], f, memo), y, z)
        return None
    return subst(t, f, memo)

def last(k): return k.args[-1] if k.op == "key" and isinstance(k.args[-1], str) else None

def faceid(t):
    """(face counter, key of the face's cell list, position of its first entry) used in t"""
    for x in sorted(subterms(t), key=lambda x: x.id):
        if x.op == "el" and last(x.args[0]) == "cell_ids":
            for y in subterms(x.args[1]):
                if y.op == "el" and last(y.args[0]) == "cell_offset" and same(y, x.args[1]): return y.args[1], x.args[0], y
                if y.op == "el" and last(y.args[0]) == "cell_offset" and cval(sub(x.args[1], y)) is not None: return y.args[1], x.args[0], y
    return None

def cases(S, w, e, v):
    """the writer's (index, value) on a boundary face, by which side of the face carries the boundary index and by whether a
    boundary condition is prescribed: [(side, prescribed, cell, boundary index, index, value, face)]"""
    fc = faceid(mk("tup", e, v))
    if fc is None: return None
    face, key, off = fc
    ids = [mk("el", key, off), mk("el", key, add(off, ONE))]
    out = []
    for side in (0, 1):
        for has in (True, False):
            def env(x):
                if x is ids[side]: return -7
                if x is ids[1 - side]: return 5
                if x.op == "el" and last(x.args[0]) == "is_internal": return 0
                if x.op == "fnv" and isinstance(x.args[0], str) and x.args[0].startswith("ConditionsHas"): return 1 if has else 0
                return None
            out.append((side, has, ids[1 - side], sub(num(-1), ids[side]), settle(e, env), settle(v, env), face))
    return out

def fieldsof(S):
    wr = {}
    for key in S.writers:
        n = None
        if key.args[0] == "f": n = key.args[1]
        elif key.args[0] == "out" and key.args[1].op == "arr" and key.args[1].args[0].op == "sym": n = key.args[1].args[0].args[0]
        if n: wr[n] = key
    # arrays allocated in the function itself, by the field they end up in
    F = S.F; env = F.IN.get(F.exit.id) or {}
    for loc, v in env.items():
        if loc.op == "F" and loc.args[0].op == "D" and S.isctx(loc.args[0].args[0]) and isinstance(v, T) and v.op == "out":
            k = S.key(mk("D", v), F.exit.id)
            if k in S.writers: wr.setdefault(loc.args[1], k)
    return wr

def allfaces(S, face, node):
    """the face counter runs over all faces of the mesh"""
    r = S.F.ranges().get(face)
    if r is None or not r[3] or cval(r[0]) != 0 or abs(r[2]) != 1: return False
    return last_val(S.value(r[1], face.args[0])) == "num_faces"

def last_val(t): return last(t.args[0]) if t.op == "val" else None

def compact(S, w, e0):
    """index of the copy loop: it visits every entry collected in the loop over the faces"""
    n = w[1][0]
    for h in S.F.loops_of(n.id):
        for x, r in S.F.ranges().items():
            if x.args[0] == h:
                if not r[3] or cval(r[0]) != 0 or abs(r[2]) != 1: return False
    return True

def boundary(ctx):
    p = ctx.p
    rs = [p.func(n) for n in residuals(p)]
    among = {f for f in p.libfuncs if f.rel.startswith("src/") and f.body is not None}
    # state on the boundary
    done = set()
    for field in ST + ("Kr", "dKr_dS"):
        rts = roots(p, field + "_bnd", among)
        for f in rts:
            if f in done: continue
            done.add(f)
            S = Elem(p, f, keep)
            if not S.ok: continue
            wr = fieldsof(S)
            for n in ST + ("Kr", "dKr_dS"):
                inst = "%s:%s_bnd" % (f.name, n)
                if n + "_bnd" not in wr:
                    ctx.check("boundary-state", inst, False, "%s|%s_bnd|unset" % (f.name, n), f, f.line, "%s_bnd is never set by %s" % (n, f.name)); continue
                for w, e, v in S.final(wr[n + "_bnd"]):
                    if w is None: continue
                    why = None
                    cs = None if v is None else cases(S, w, e, v)
                    if cs is None: why = "could not be read as one value per boundary face"
                    else:
                        for side, has, cell, b, ee, vv, face in cs:
                            if not has: continue
                            Sr = fld("Sr", cell)
                            E = expected(fld("P_bnd", b), (TREF,), None, Sr, cell)[n]
                            if not same(ee, b): why = "is stored at %s, not at the boundary index of the face" % tshow(ee)[:120]
                            elif not same_pt(norm(vv), E): why = "is %s, which is not its definition at the face's boundary pressure with the data of the face's cell" % tshow(norm(vv))[:200]
                            elif not allfaces(S, face, w[1][0].id) or not compact(S, w, e): why = "is not set for every boundary face"
                            if why: break
                    ctx.check("boundary-state", inst, why is None, "%s|%s_bnd" % (f.name, n), f, w[1][0].line, "%s_bnd set by %s %s" % (n, f.name, why))
    ctx.need("boundary-state", 5)
    # values on the boundary
    for field, vec, has, o in (("P_bnd", "P_vec", "BoundaryPressure", 0), ("T_bnd", "Temp_P_vec", "BoundaryTemperature", 1), ("Psi_bnd", "Psi_vec", "BoundarySalineConcentration", 1)):
        for f in roots(p, field, among):
            values(ctx, f, field, vec, "ConditionsCompute" + has, o)
    ctx.need("boundary-value", 3)
    reference(ctx)

def scenarios(f, field):
    """(description, truth of the tests that tell the modes apart, unknowns per cell)"""
    if field != "P_bnd": return [("", None, 2)]
    return [("with an energy equation", "Temp_subc_Gmatrix", 2), ("with a salinity equation", "Psi_subc_Gmatrix", 2), ("with the pressure equation only", "", 1)]

class Scenario(Elem):
    """Elem in which writers guarded against the scenario do not exist"""
    env = None
    def reaching(self, key, node):
        ws = Elem.reaching(self, key, node)
        if self.env is None: return ws
        out = []
        for w in ws:
            if w is not None and len(w[1]) == 1:
                dead = False
                for g, b in self.F.guard_facts(w[1][0].id):
                    if not isinstance(b, bool) or g.op == "sw": continue
                    if any(x.op == "phi" and x.args[0] in self.F.loops for x in subterms(g)): continue
                    v = decide(self.value(g, w[1][0].id), self.env)
                    if v is not None and v != b: dead = True
                if dead: continue
            out.append(w)
        return out or ws

def values(ctx, f, field, vec, cond, o):
    p = ctx.p
    S = Scenario(p, f, keep)
    if not S.ok: return
    rec = ctxrec(f)
    modes = dict((k, v) for k, v in enums(p).items() if k in ("RICHARDS", "TH", "SALINITY"))
    Uname = next((q["n"] for q in f.params if re.match(r"struct _p_Vec \*|Vec\b", f.types[q["t"]][1])), None)
    wr = fieldsof(S)
    if field not in wr:
        ctx.check("boundary-value", f.name, False, "%s|%s" % (f.name, field), f, f.line, "%s is never set by %s" % (field, f.name)); return
    for what, flag, k in scenarios(f, field):
        if rec != "MPFAO" and flag: continue
        mode = {"Temp_subc_Gmatrix": "TH", "Psi_subc_Gmatrix": "SALINITY", "": "RICHARDS"}.get(flag)
        def menv(x, flag=flag, mode=mode):
            if flag is None: return None
            n = x.args[0] if x.op == "sym" else last_val(x)
            if n in ("Temp_subc_Gmatrix", "Psi_subc_Gmatrix"): return 1 if n == flag else 0
            if n == "mode" and mode in modes: return modes[mode]
            return None
        S.env = menv
        inst = "%s:%s %s" % (f.name, field, what)
        tail = [(field, ZERO)] + ([(vec, mk("sym", "ncells"))] if vec in wr and rec == "MPFAO" else [])
        if rec == "MPFAO" and vec not in wr:
            ctx.check("boundary-value", inst, False, "%s|%s" % (f.name, vec), f, f.line, "%s does not carry the boundary values set by %s" % (vec, f.name))
        for n, shift in tail:
            for w, e, v in S.final(wr[n]):
                if w is None: continue
                why = None
                cs = None if v is None else cases(S, w, e, v)
                if cs is None: why = "could not be read as one value per boundary face"
                else:
                    for side, hasbc, cell, b, ee, vv, face in cs:
                        vv = settle(vv, menv); ee = settle(ee, menv)
                        vv, ee = [subst(t, lambda x: mk("sym", "ncells") if x.op == "val" and last(x.args[0]) == "num_cells" else None, {}) for t in (vv, ee)]
                        if not same(ee, add(b, shift)): why = "is stored at %s" % tshow(ee)[:120]
                        elif hasbc:
                            ok = vv.op == "res" and vv.args[0] == cond and same(vv.args[3], ONE) and centroid(vv.args[4], face)
                            if not ok: why = "is %s, not the boundary condition at the centroid of the face" % tshow(vv)[:160]
                        else:
                            ok = vv.op == "el" and vv.args[0] is mk("key", "out", mk("arr", mk("sym", Uname))) and same(vv.args[1], add(mul(num(k), cell), num(o)))
                            if not ok: why = "is %s, not the value of the adjacent cell, when no condition is given" % tshow(vv)[:200]
                        if why is None and not allfaces(S, face, w[1][0].id): why = "is not set for every boundary face"
                        if why: break
                ctx.check("boundary-value", inst + (" in " + n if n != field else ""), why is None, "%s|%s|%s" % (f.name, n, what), f, w[1][0].line, "%s set by %s %s %s" % (n, f.name, what, why))

def centroid(t, face):
    """t is the address of the coordinates of the centroid of the face"""
    return t.op in ("at", "val", "el") and any(last(x) == "centroid" for x in subterms(t) if x.op == "key") and face in subterms(t) and not any(x.op == "phi" and x is not face for x in subterms(t))

def reference(ctx):
    """water properties on the boundary"""
    p = ctx.p
    M = Mods.of(p)
    for n, fn, k, args in (("rho_bnd", "EOSComputeWaterDensity", 4, "PTm"), ("vis_bnd", "EOSComputeWaterViscosity", 4, "PTm"), ("h_bnd", "EOSComputeWaterEnthalpy", 3, "TP")):
        c = [f for f in p.libfuncs if "." + n in M[f] and any(x.get("fn") == fn for g in closure_of(p, f) if g.body is not None for x in calls(g.body))]
        c = [f for f in c if not any(g is not f and g in c for g in closure_of(p, f))]
        for f in c:
            S = Elem(p, f, keep)
            if not S.ok: continue
            wr = fieldsof(S)
            inst = "%s:%s" % (f.name, n)
            if n not in wr:
                ctx.check("boundary-reference", inst, False, "%s|%s" % (f.name, n), f, f.line, "%s is never set by %s" % (n, f.name)); continue
            for w, e, v in S.final(wr[n]):
                if w is None: continue
                why = None
                want = [eos(fn, k, PREF, TREF, m) for m in (ZERO, fld("m_nacl", ZERO))] if args == "PTm" else [eos(fn, k, TREF, PREF)]
                r = S.F.ranges().get(e)
                if v is None or not any(same_pt(norm(v), x) for x in want): why = "is %s, not the property at reference pressure and temperature" % (tshow(norm(v))[:160] if v is not None else "not one value per face")
                elif r is None or not r[3] or cval(r[0]) != 0 or abs(r[2]) != 1 or last_val(S.value(r[1], w[1][0].id)) != "num_boundary_faces": why = "is not set for every boundary face"
                ctx.check("boundary-reference", inst, why is None, "%s|%s" % (f.name, n), f, w[1][0].line, "%s set by %s %s" % (n, f.name, why))
    ctx.need("boundary-reference", 3)

# ---------------------------------------------------------------- the residual uses the state of its own iterate
STATE = set(ST + DEN + VIS + ENT + ("Kr", "dKr_dS", "K", "Kappa", "u", "du_dP", "du_dT", "m_nacl", "pressure"))
BSTATE = {n + "_bnd" for n in ST + ("Kr", "dKr_dS")}
BVAL = {"P_bnd": "P_vec", "T_bnd": "Temp_P_vec", "Psi_bnd": "Psi_vec"}

def mentions(n):
    return {x["f"] for x in walk(n) if x["k"] == "mem"}

def current(ctx):
    p = ctx.p
    rs = [p.func(n) for n in residuals(p)]
    among = {f for f in p.libfuncs if f.rel.startswith("src/") and f.body is not None}
    M = Mods.of(p)
    upd = {g.name for g in among if any(c.get("fe") is not None and any(x["k"] == "mem" and x["f"] == "update_state" for x in walk(c["fe"])) for c in calls(g.body))} if among else set()
    bst = {g.name for fl in BSTATE for g in roots(p, fl, among)}
    bval = {fl: {g.name for g in roots(p, fl, among)} for fl in BVAL}
    stop = upd | bst | set().union(*bval.values()) | {"TDyGlobalToLocal"}
    def through(g): return g.name not in stop and any(h.name in stop and h.name != "TDyGlobalToLocal" for h in closure_of(p, g))
    for f in rs + presolves(p, rs, upd):
        isR = f in rs
        S = Elem(p, f, lambda n: not any(through(g) for g in [p.resolve(f, n)] if g is not None and g.body is not None))
        if not S.ok: continue
        F = S.F
        us = F.sites(lambda c: c.get("fn") in upd)
        if not us:
            if isR and mentions(f.body) & {"S", "rho"}:
                ctx.check("current", f.name, False, "%s|update" % f.name, f, f.line, "%s uses the state quantities but never updates them from its unknowns" % f.name)
            continue
        g2l = [(n, args) for n, c, args in F.sites(lambda c: c.get("fn") == "TDyGlobalToLocal")]
        for n, c, args in us:
            arr = S.value(args[1], n.id); cnt = last_val(S.value(args[2], n.id))
            src = vecof(S, args[1], n.id)
            why = None
            if src is None: why = "from something that is not the array of a vector"
            else:
                V = src
                loc = [(m, a) for m, a in g2l if F.dominates(m.id, n.id) and S.value(a[2], m.id) is V]
                if isR:
                    par = [q["n"] for q in f.params if re.match(r"struct _p_Vec \*", f.types[q["t"]][1])]
                    if not loc: why = "from a vector that was not filled from the unknowns of this call"
                    elif S.value(loc[-1][1][1], loc[-1][0].id) is not mk("sym", par[0]): why = "from a vector filled from something else than the unknowns of this call"
                    elif cnt == "num_cells_local": why = "for the locally owned cells only, although the fluxes need their neighbours too"
                elif not loc and cnt != "num_cells_local" and last(V) != "soln_loc" and V.op == "val": why = "with more cells than the global vector has entries for on this process"
            ctx.check("current", "%s:update" % f.name, why is None, "%s|update" % f.name, f, n.line, "%s updates the state %s" % (f.name, why))
        if not isR: continue
        used = set().union(*[mentions(g.body) for g in closure_of(p, f) if g.name not in stop and not any(h.name in stop for h in ())])
        un = [n.id for n, c, a in us]
        bn = [n.id for n, c, a in F.sites(lambda c: c.get("fn") in bst)]
        vn = {fl: [(n.id, a) for n, c, a in F.sites(lambda c: c.get("fn") in names)] for fl, names in bval.items()}
        for fl, sites in vn.items():
            for i, a in sites:
                ok = any(F.dominates(m.id, i) for m, _ in g2l)
                V = source(S, S.value(a[1], i))
                ok = ok and any(S.value(x[2], m.id) is V for m, x in g2l)
                ctx.check("current", "%s:%s" % (f.name, fl), ok, "%s|%s" % (f.name, fl), f, F.byid[i].line, "%s sets the boundary values %s from a vector that does not hold the unknowns of this call" % (f.name, fl))
        for i in bn:
            ctx.check("current", "%s:boundary" % f.name, any(F.dominates(j, i) for j, _ in vn["P_bnd"]), "%s|boundary" % f.name, f, F.byid[i].line,
                      "%s updates the state on the boundary before the boundary pressure is set from the unknowns of this call" % f.name)
        # uses
        for i in sorted(F.alive):
            n = F.byid[i]
            if n.kind not in ("stmt", "cond", "switch", "ret") and not isinstance(n.ast, dict): continue
            if not isinstance(n.ast, dict): continue
            ms = set(); 
            here = [x.get("fn") for x in calls(n.ast)]
            if any(h in stop for h in here): continue
            ms |= mentions(n.ast)
            for x in calls(n.ast):
                g = p.resolve(F.fnof(i) if callable(getattr(F, "fnof", None)) else f, x["fn"]) if x.get("fn") else None
                if g is not None and g.body is not None and not through(g):
                    for h in closure_of(p, g): ms |= mentions(h.body) if h.body is not None else set()
            need = []
            if ms & STATE: need.append((un, "the state of the cells", sorted(ms & STATE)))
            if ms & BSTATE: need.append((bn, "the state on the boundary", sorted(ms & BSTATE)))
            for fl, v in BVAL.items():
                if ms & {fl, v}: need.append(([j for j, _ in vn[fl]], "the boundary values " + fl, [fl]))
            for doms, what, fs in need:
                ok = any(F.dominates(j, i) for j in doms)
                ctx.check("current", "%s:%d" % (f.name, n.line or 0), ok, "%s|uses|%s" % (f.name, what), f, n.line, "%s uses %s (%s) before bringing it up to date with the unknowns of this call" % (f.name, what, ", ".join(fs[:4])))
    ctx.need("current", 10)

def presolves(p, rs, upd):
    return [f for f in p.libfuncs if f not in rs and f.rel.startswith("src/fv") and any(c.get("fn") in upd for c in calls(f.body))]

def vecof(S, t, node):
    """vector whose array t is, looking through element-by-element copies and component extraction"""
    v = S.value(t, node)
    if v.op != "arr": return None
    el = S.read(mk("key", "out", v), mk("sym", "i"), node, 0)
    if el.op == "el" and el.args[0].op == "key" and el.args[0].args[0] == "out" and el.args[0].args[1].op == "arr": v = el.args[0].args[1]
    return source(S, v.args[0])

def source(S, V):
    """the vector V holds component 0 of, or V"""
    if V.op == "res":
        g = S.prog.resolve(S.f, V.args[0])
        if g is not None and g.body is not None and any(c.get("fn") == "VecStrideGather" for c in calls(g.body)) and len(V.args) > 3 and V.args[3] is ZERO: return V.args[2]
    return V
