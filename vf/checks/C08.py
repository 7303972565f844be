"""Rule: for every quantity q of the records Conditions and MaterialProp (fields compute_q|assign_q, q_context, q_dtor):
every function that registers q ends with the triple holding the caller's function, context and destructor, after the
previous context has been destroyed with the previous destructor; queries test, and evaluations call, the members of the
same triple with the caller's arguments; destruction releases every quantity; the public, constant, named and Fortran
setters reach exactly the quantity in their name; wrapper functions write the right component at every point; consumers
store a quantity where that quantity is kept and evaluate conditions only when they are set. Decided by value numbering
(dataflow with polynomial normal forms) on the inlined control-flow graphs."""
from ..core import *
from ..gvn import *

RECORDS = {"Conditions": "Conditions", "MaterialProp": "MaterialProp"}
ALIAS = {"boundary_saline_concentration": "boundary_saline_conc", "boundary_saline_concenctration": "boundary_saline_conc"}
# where the discretizations keep each material property
STORE = {"porosity": {"porosity"}, "permeability": {"K0", "K"}, "thermal_conductivity": {"Kappa", "Kappa0"},
         "residual_saturation": {"Sr"}, "soil_density": {"rho_soil"}, "soil_specific_heat": {"c_soil"},
         "saline_diffusivity": {"D_saline"}, "saline_molecular_weight": {"mu_saline"}}

def quantities(prog):
    out = {}
    for rec in RECORDS:
        r = prog.records.get(rec)
        if r is None:
            for td in prog.tus:
                for t in td.typedefs:
                    if t.get("n") == rec or t.get("name") == rec: r = prog.records.get(t.get("record"))
        if r is None: raise AnalysisBroken("record %s not found" % rec)
        names = [x["n"] for x in r["fields"]]
        for n in names:
            m = re.match(r"(compute|assign)_(.*)$", n)
            if m:
                q = m[2]
                if q + "_context" not in names or q + "_dtor" not in names: raise AnalysisBroken("%s.%s has no context/dtor" % (rec, n))
                out[q] = (rec, n, q + "_context", q + "_dtor")
    return out

def snake(s): return re.sub(r"(?<!^)(?=[A-Z])", "_", s).lower()

def name_quantity(name, Q):
    """(quantity, shape, kind) encoded in an API name, or None"""
    m = re.match(r"(TDySet|TDySelect|ConditionsSet|MaterialPropSet|ConditionsHas|MaterialPropHas|ConditionsCompute|ConditionsAssign|MaterialPropCompute)(.*)$", name)
    if not m: return None
    s = m[2]
    kind = "plain"
    s = re.sub(r"F90$", "", s)
    if s.endswith("Function"): s = s[:-8]; kind = "function"
    if s.startswith("Constant"): s = s[8:]; kind = "constant"
    elif s.startswith("Heterogeneous"): s = s[13:]; kind = "function"
    shape = "scalar"
    for p in ("Isotropic", "Diagonal", "Tensor"):
        if s.startswith(p): s = s[len(p):]; shape = p.lower()
    q = snake(s); q = ALIAS.get(q, q)
    return (q, shape, kind) if q in Q else None

def fieldmap(Q):
    m = {}
    for q, (rec, fn, cx, dt) in Q.items():
        m[fn] = (q, "fn"); m[cx] = (q, "ctx"); m[dt] = (q, "dtor")
    return m

def in_record(loc, prog, rec): return True

def stored(F, fm):
    """final values of quantity fields that the function changes: field -> (base, value)"""
    out = {}
    env = F.OUT.get(F.exit.id) or F.IN.get(F.exit.id) or {}
    for loc, v in env.items():
        if loc.op == "F" and loc.args[1] in fm and not (v.op == "ld" and v.args[0] is loc):
            out.setdefault(loc.args[1], []).append((loc, v))
    return out

def dtor_calls(F, q, Q):
    rec, fn, cx, dt = Q[q]
    out = []
    for n, c, args in F.sites(lambda c: not c.get("fn")):
        cal = F.callee(n, c)
        if cal.op == "ld" and cal.args[0].op == "F" and cal.args[0].args[1] == dt and cal.args[1].op == "v0": out.append((n, c, args, cal))
    return out

def check_release(F, q, Q, ob, viol, f, why):
    """previous context destroyed exactly once with its own destructor, on every path where both exist"""
    rec, fn, cx, dt = Q[q]
    ds = dtor_calls(F, q, Q)
    inst = "%s: %s" % (f.name, q)
    ob("release of the previous context", inst)
    if not ds:
        viol("%s|%s|norelease" % (f.name, q), f, f.line, "release of the previous context",
             "%s: the previous %s context is not released with its destructor" % (why, q)); return
    if len(ds) > 1:
        viol("%s|%s|twice" % (f.name, q), f, ds[1][0].line, "release of the previous context", "destructor of %s called at %d places" % (q, len(ds))); return
    n, c, args, cal = ds[0]
    base = cal.args[0].args[0]
    want = mk("ld", mk("F", base, cx), mk("v0"))
    if len(args) != 1 or args[0] is not want:
        viol("%s|%s|arg" % (f.name, q), f, n.line, "release of the previous context", "destructor of %s is applied to %s instead of the stored %s" % (q, tshow(args[0]) if args else "nothing", cx)); return
    if F.loops_of(n.id):
        viol("%s|%s|loop" % (f.name, q), f, n.line, "release of the previous context", "destructor of %s is called repeatedly" % q)
    ok = {(mk("nz", want), True), (mk("nz", cal), True)}
    ok2 = {("&&",)}
    for a, pol in F.guard_facts(n.id):
        if (a, pol) in ok: continue
        if a.op == "&&" and pol: continue
        viol("%s|%s|guard" % (f.name, q), f, n.line, "release of the previous context",
             "destructor of %s runs only if %s%s, which does not follow from the context and destructor being set" % (q, "" if pol else "not ", tshow(a)))
    if (mk("nz", cal), True) not in F.guard_facts(n.id):
        viol("%s|%s|null" % (f.name, q), f, n.line, "release of the previous context", "destructor of %s is called without testing that it is set" % q)

def run(ctx): analyse(ctx.p, ctx.ob, ctx.viol, ctx)

def analyse(prog, ob, viol, ctx=None):
    Q = quantities(prog)
    fm = fieldmap(Q)
    if ctx:
        ctx.need("setter stores its triple", 16); ctx.need("release of the previous context", 32); ctx.need("query tests its own function", 16)
        ctx.need("evaluation calls its own function", 16); ctx.need("API name reaches its quantity", 50); ctx.need("wrapper writes every point", 6)
        ctx.need("consumer", 25)
    loc_static = lambda g, c, s: g.static
    setters = {}
    # --- primitive setters: every function that stores a quantity field
    writers = set()
    for f in prog.libfuncs:
        if any(x["k"] == "asg" and uncast(x["l_"])["k"] == "mem" and uncast(x["l_"])["f"] in fm and
               uncast(x["l_"]).get("r", "") in ("", "Conditions", "MaterialProp") or
               x["k"] == "un" and x["op"] == "&" and uncast(x["e"])["k"] == "mem" and uncast(x["e"])["f"] in fm for x in walk(f.body)):
            if not f.static: writers.add(f)
    for f in sorted(writers, key=lambda f: f.name):
        F = Flow(prog, f, inline=loc_static)
        st = stored(F, fm)
        qs = {fm[x][0] for x in st}
        nq = name_quantity(f.name, Q)
        inst = f.name
        ob("setter stores its triple", inst)
        if nq is None or nq[2] != "plain" or len(f.params) != 4:
            if qs: viol("%s|writer" % f.name, f, f.line, "setter stores its triple", "writes %s outside the registration functions" % ", ".join(sorted(st)))
            continue
        q = nq[0]; rec, fn, cx, dt = Q[q]
        setters[q] = f
        for x in sorted(st):
            if fm[x][0] != q: viol("%s|other|%s" % (f.name, x), f, f.line, "setter stores its triple", "registers %s but changes %s" % (q, x))
        pt = {"ctx": 1, "fn": 2, "dtor": 3}
        for fld, role in ((cx, "ctx"), (fn, "fn"), (dt, "dtor")):
            vs = st.get(fld, [])
            want = mk("p", pt[role], f.params[pt[role]]["n"])
            if len(vs) != 1 or vs[0][1] is not want or not (vs[0][0].args[0].op == "D" and vs[0][0].args[0].args[0].op == "p" and vs[0][0].args[0].args[0].args[0] == 0):
                viol("%s|%s" % (f.name, fld), f, f.line, "setter stores its triple",
                     "on return %s holds %s instead of the caller's %s" % (fld, tshow(vs[0][1]) if vs else "its old value", f.params[pt[role]]["n"]))
        check_release(F, q, Q, ob, viol, f, "replacing %s" % q)
    for q in Q:
        if q not in setters: raise AnalysisBroken("no registration function found for " + q)
    # --- queries and evaluations
    for q, (rec, fn, cx, dt) in Q.items():
        camel = None
        for f in prog.libfuncs:
            nq = name_quantity(f.name, Q)
            if nq is None or nq[0] != q: continue
            if re.match(r"(Conditions|MaterialProp)Has", f.name):
                F = Flow(prog, f, inline=loc_static)
                ob("query tests its own function", f.name)
                rets = [n for n in F.byid.values() if n.kind == "ret" and n.id in F.alive]
                want = mk("ld", mk("F", mk("D", mk("p", 0, f.params[0]["n"])), fn), mk("v0"))
                if ret_truth(F, rets) is False: continue
                r = ret_truth(F, rets)
                if r is None: ctx and ctx.note("%s: return value not reduced" % f.name); continue
                if r != (mk("nz", want), True):
                    viol("%s|has" % f.name, f, f.line, "query tests its own function", "answers %s%s != NULL instead of %s != NULL" % ("" if r[1] else "!", tshow(r[0].args[0]) if r[0].args else tshow(r[0]), fn))
            elif re.match(r"(ConditionsCompute|ConditionsAssign|MaterialPropCompute)", f.name):
                F = Flow(prog, f, inline=loc_static)
                ob("evaluation calls its own function", f.name)
                b = mk("D", mk("p", 0, f.params[0]["n"]))
                cs = [(n, c, a, F.callee(n, c)) for n, c, a in F.sites(lambda c: not c.get("fn"))]
                if len(cs) != 1:
                    viol("%s|count" % f.name, f, f.line, "evaluation calls its own function", "%d evaluations of a registered function" % len(cs)); continue
                n, c, a, cal = cs[0]
                wantf = mk("ld", mk("F", b, fn), mk("v0"))
                if cal is not wantf: viol("%s|callee" % f.name, f, n.line, "evaluation calls its own function", "evaluates %s instead of %s" % (tshow(cal), fn)); continue
                want = [mk("ld", mk("F", b, cx), mk("v0"))] + [mk("p", j, f.params[j]["n"]) for j in (1, 2, 3)]
                for j, (x, y) in enumerate(zip(a, want)):
                    if x is not y: viol("%s|arg%d" % (f.name, j), f, n.line, "evaluation calls its own function", "argument %d is %s instead of %s" % (j + 1, tshow(x), tshow(y)))
                if F.loops_of(n.id): viol("%s|loop" % f.name, f, n.line, "evaluation calls its own function", "evaluated repeatedly")
                for g, pol in F.guard_facts(n.id):
                    if (g, pol) != (mk("nz", wantf), True):
                        viol("%s|guard" % f.name, f, n.line, "evaluation calls its own function", "evaluated only if %s%s" % ("" if pol else "not ", tshow(g)))
    # --- destruction
    for rec in RECORDS:
        f = prog.func(rec + "Destroy")
        F = Flow(prog, f, inline=lambda g, c, s: g.static or g.name.startswith(rec + "Set"))
        for q in Q:
            if Q[q][0] == rec: check_release(F, q, Q, ob, viol, f, "destruction")
    # --- end-to-end setters
    INL = ("MaterialPropSet", "ConditionsSet", "Create", "TDySet")
    def want(g, c, s): return (g.static or g.name.startswith(INL)) and g.body is not None
    wrappers = {}
    for f in prog.libfuncs:
        nq = name_quantity(f.name, Q)
        if nq is None or f in setters.values() or not re.match(r"(TDySet|TDySelect|ConditionsSet|MaterialPropSet)", f.name) or len(f.params) != 2: continue
        q, shape, kind = nq
        rec, fn, cx, dt = Q[q]
        F = Flow(prog, f, inline=want)
        st = stored(F, fm)
        ob("API name reaches its quantity", "%s -> %s" % (f.name, q))
        qs = {fm[x][0] for x in st}
        for o in sorted(qs - {q}): viol("%s|routes|%s" % (f.name, o), f, f.line, "API name reaches its quantity", "changes %s, whereas its name says %s" % (o, q))
        if q not in qs:
            viol("%s|noset" % f.name, f, f.line, "API name reaches its quantity", "does not register %s" % q); continue
        v = {r: st[x][0] for x, r in ((fn, "fn"), (cx, "ctx"), (dt, "dtor")) if x in st}
        # the object reached
        base = v["fn"][0].args[0] if "fn" in v else None
        if f.name.startswith("TDy") and base is not None:
            want_f = {"Conditions": "conditions", "MaterialProp": "matprop"}[rec]
            if not (base.op == "D" and base.args[0].op == "ld" and base.args[0].args[0].op == "F" and base.args[0].args[0].args[1] == want_f):
                viol("%s|object" % f.name, f, f.line, "API name reaches its quantity", "registers with %s instead of the dycore's %s" % (tshow(base), want_f))
        if "dtor" in v and "ctx" in v and not (v["dtor"][1].op == "fn" and v["dtor"][1].args[0] == "TDyFree"):
            viol("%s|dtor" % f.name, f, f.line, "API name reaches its quantity", "the context it allocates is not released (destructor %s)" % tshow(v["dtor"][1]))
        if "fn" not in v or "ctx" not in v: continue
        wf = v["fn"][1]
        if wf.op != "fn": ctx and ctx.note("%s: evaluator not a known function" % f.name); continue
        env = F.OUT.get(F.exit.id) or F.IN[F.exit.id]
        ctxb = mk("D", v["ctx"][1])
        datum = None
        param = mk("p", 1, f.params[1]["n"])
        selected = f.name.startswith("TDySelect")
        if kind == "constant":
            # scalar-like: first element is the value; arrays: every element used is the caller's
            vals = {}
            for loc, x in env.items():
                b = loc
                if loc.op == "E" and cval(loc.args[1]) is not None: b = loc.args[0]
                if loc.op == "E" and loc.args[0].op == "F" and loc.args[0].args[0] is ctxb: vals[int(cval(loc.args[1]))] = x
                elif loc is ctxb: vals[0] = x
            cp = env.get(mk("copy", mk("F", ctxb, "value")))
            arr = f.types[f.params[1]["t"]][2] in ("ptr", "carr", "arr")
            if not arr:
                if not vals and not cp: ctx and ctx.note("%s: constant not tracked" % f.name)
                elif vals.get(0) is not param: viol("%s|value" % f.name, f, f.line, "API name reaches its quantity", "the stored constant is %s instead of the caller's value" % tshow(vals.get(0, mk("unset"))))
            else:
                need = 3 if shape == "diagonal" else 9
                whole = cp is not None and cp.args[0] is mk("D", param)
                if not whole:
                    for k in range(need):
                        w = mk("ld", mk("E", mk("D", param), num(k)) if k else mk("D", param), mk("v0"))
                        if vals and vals.get(k) is not w:
                            viol("%s|value%d" % (f.name, k), f, f.line, "API name reaches its quantity", "component %d of the stored constant is %s instead of the caller's" % (k, tshow(vals.get(k, mk("unset"))))); break
        elif not f.name.endswith("F90") and not (f.name.startswith("TDySetSoilSpecificHeat") and f.tu.file.endswith("tdycoref.c")):
            fns = [x for loc, x in env.items() if loc.op == "F" and loc.args[0] is ctxb and loc.args[1] == "func"]
            if fns:
                ok = fns[0] is param or selected and fns[0].op == "out" and fns[0].args[2] is mk("fn", "TDyGetFunction")
                if not ok: viol("%s|func" % f.name, f, f.line, "API name reaches its quantity", "the stored function is %s instead of the caller's" % tshow(fns[0]))
            if selected:
                gs = F.sites("TDyGetFunction")
                if len(gs) == 1 and gs[0][2][0] is not param: viol("%s|name" % f.name, f, f.line, "API name reaches its quantity", "looks up %s instead of the caller's name" % tshow(gs[0][2][0]))
        else:
            ids = [x for loc, x in env.items() if loc.op == "F" and loc.args[0] is ctxb and loc.args[1] == "id"]
            if ids and ids[0] is not param: viol("%s|id" % f.name, f, f.line, "API name reaches its quantity", "the stored Fortran function id is %s instead of the caller's" % tshow(ids[0]))
        ndim = [x for loc, x in env.items() if loc.op == "F" and loc.args[0] is ctxb and loc.args[1] == "dim"]
        wrappers.setdefault((wf.args[0], f.tu.file if True else None), []).append((f, shape, kind))
    # --- wrappers
    seen = set()
    for (w, file), users in sorted(wrappers.items()):
        g = None
        for x in prog.functions:
            if x.name == w and x.body is not None and (x.file == users[0][0].file or x.tu.file == file or not x.static or any(x.tu is u[0].tu for u in users)): g = x; break
        cands = [x for x in prog.functions if x.name == w and x.body is not None]
        if g is None and len(cands) >= 1: g = cands[0]
        if g is None: raise AnalysisBroken("wrapper %s has no definition" % w)
        # a wrapper with a given shape must be used for API names of that shape
        for f, shape, kind in users:
            key = (g, shape, kind)
            if key in seen: continue
            seen.add(key)
            check_wrapper(prog, g, shape, kind, f, ob, viol, ctx)
    consumers(prog, Q, ob, viol, ctx)

def ret_truth(F, rets):
    """truth condition of the returned value over all returns, when it reduces"""
    vals = set()
    def tr(t):
        if t.op == "ite":
            y, z = t.args[1], t.args[2]
            if cval(y) is not None and cval(z) is not None and bool(cval(y)) != bool(cval(z)): return (t.args[0], bool(cval(y)))
            return None
        return F.truth(t)
    if len(rets) == 1:
        t = F.value(rets[0].id, rets[0].ast["e"])
        if t.op == "phi":
            return None
        return tr(t)
    if len(rets) == 2:
        # if (c) return A; return B;
        out = []
        for r in rets:
            t = F.value(r.id, r.ast["e"])
            g = F.guard_facts(r.id)
            out.append((t, g))
        cs = [(t, g) for t, g in out if cval(t) is not None]
        if len(cs) == 2:
            for t, g in cs:
                if cval(t) and len(g) == 1: return next(iter(g))
            for t, g in cs:
                if not cval(t) and len(g) == 1:
                    a, p = next(iter(g)); return (a, not p)
    return None

def check_wrapper(prog, g, shape, kind, user, ob, viol, ctx):
    ob("wrapper writes every point", "%s for %s %s" % (g.name, kind, shape))
    F = Flow(prog, g, inline=lambda h, c, s: h.static)
    rg = F.ranges()
    out = mk("D", mk("p", 3, g.params[3]["n"]))
    n_ = mk("p", 1, g.params[1]["n"])
    ctxb = mk("D", mk("p", 0, g.params[0]["n"]))
    dim = mk("ld", mk("F", ctxb, "dim"), mk("v0"))
    def isdim(t): return t is dim or t.op == "ld" and t.args[0].op == "F" and t.args[0].args[1] == "dim"
    sts = []
    unk = False
    for nd, a, loc, val, old in F.stores():
        if loc is out: sts.append((nd, ZERO, val))
        elif loc.op == "E" and loc.args[0] is out: sts.append((nd, loc.args[1], val))
    key = "%s|%s|%s" % (g.name, kind, shape)
    R = "wrapper writes every point"
    copies = F.sites(lambda c: c.get("fn") in ("memcpy", "memmove", "PetscMemcpy"))
    if any(out in subterms(a[0]) or any(t.op == "p" and t.args[0] == 3 for t in subterms(a[0])) for n, c, a in copies):
        ctx and ctx.note("%s: output filled by block copies, components not compared" % g.name); return
    x_ = mk("p", 2, g.params[2]["n"])
    if sts:
        for nd, c, a in F.sites(lambda c: not c.get("fn")):
            if len(a) == 3 and (a[0] is not n_ or a[1] is not x_):
                viol(key + "|call", g, nd.line, R, "the registered function is evaluated with (%s, %s) instead of the caller's points" % (tshow(a[0]), tshow(a[1])))
    if not sts:
        # delegates: func(n, x, out)
        cs = [(nd, c, a) for nd, c, a in F.sites(lambda c: not c.get("fn") or c.get("fn", "").startswith("TDyCallF90"))]
        good = [a for nd, c, a in cs if a and mk("p", 3, g.params[3]["n"]) in a and mk("p", 2, g.params[2]["n"]) in a and n_ in a]
        for nd, c, a in cs:
            if c.get("fn") and a in good:
                if not (a[0].op == "ld" and a[0].args[0].op == "F" and a[0].args[0].args[1] == "id"):
                    viol(key + "|id", g, nd.line, R, "calls the Fortran function %s instead of the registered id" % tshow(a[0]))
            elif a in good:
                cal = F.callee(nd, c)
                if not (cal.op == "ld" and cal.args[0].op == "F" and cal.args[0].args[0] is ctxb):
                    viol(key + "|func", g, nd.line, R, "calls %s instead of the registered function" % tshow(cal))
        if shape in ("isotropic", "diagonal") or kind == "constant":
            viol(key + "|shape", g, g.line, R, "used for a %s %s quantity by %s but does not fill the tensor components itself" % (kind, shape, user.name)); return
        if not good:
            viol(key + "|delegate", g, g.line, R, "does not evaluate the registered function with the caller's n, x and output"); return
        for nd, c, a in cs:
            if a in good and (F.loops_of(nd.id) or F.guard_facts(nd.id)):
                gf = F.guard_facts(nd.id)
                viol(key + "|cond", g, nd.line, R, "the registered function is evaluated only if %s" % ", ".join(("" if p else "not ") + tshow(t) for t, p in gf))
        return
    # explicit component stores
    decided = 0
    for nd, idx, val in sts:
        phis = sorted({t for t in subterms(idx) if t.op == "phi"}, key=lambda t: t.id)
        if any(p not in rg for p in phis): continue
        if val.op == "c" and shape in ("isotropic", "diagonal", "tensor"): continue     # zero fill of off-diagonals
        want = []
        for I in phis:
            lo, hi, st, ex = rg[I]
            if not (lo is ZERO and hi is n_ and abs(st) == 1): continue
            others = [p for p in phis if p is not I]
            d = dim
            if kind == "constant" and shape == "scalar": want.append((I, I, None, {0}))
            if shape in ("isotropic", "diagonal"):
                for J in others:
                    want.append((I, add(add(mul(mul(d, d), I), mul(d, J)), J), (J, d), None))
            if shape == "tensor":
                for J in others: want.append((I, add(mul(mul(d, d), I), J), (J, mul(d, d)), None))
                for J in others:
                    for K in others:
                        if J is not K and all(rg[t][0] is ZERO and rg[t][1] is d and abs(rg[t][2]) == 1 for t in (J, K)):
                            want.append((I, add(add(mul(mul(d, d), I), mul(d, J)), K), (add(mul(d, J), K), None), None))
            if not others and shape == "scalar": want.append((I, I, None, None))
        if len(phis) == 0 or not any(rg[p][0] is ZERO and rg[p][1] is n_ for p in phis):
            if phis and all(p in rg for p in phis):
                viol(key + "|points", g, nd.line, R, "the loop over points covers [%s, %s) instead of all n points" % (tshow(rg[phis[0]][0]), tshow(rg[phis[0]][1])))
            continue
        m = [w for w in want if w[1] is idx]
        if not m:
            dimv = [p for p in phis]
            viol(key + "|index", g, nd.line, R, "writes output element %s, not the %s component of point i" % (tshow(idx), shape)); decided += 1; continue
        I, _, jr, _ = m[0]
        if jr is not None:
            J, hi = jr
        if jr is not None and jr[1] is not None:
            lo2, hi2, st2, _ = rg[J]
            if lo2 is not ZERO or hi2 is not hi or abs(st2) != 1:
                viol(key + "|comp", g, nd.line, R, "component loop covers [%s, %s) instead of [0, %s)" % (tshow(lo2), tshow(hi2), tshow(hi)))
        decided += 1
        # value component
        src = val
        if src.op == "ld" and src.args[0].op == "E" or src.op == "ld" and src.args[0].op in ("D",):
            b = src.args[0]
            k = b.args[1] if b.op == "E" else ZERO
            base = b.args[0] if b.op == "E" else b
            J = jr[0] if jr else None
            if base is ctxb or base.op == "F" and base.args[0] is ctxb:
                exp = {"scalar": ZERO, "isotropic": ZERO, "diagonal": J, "tensor": J}[shape]
                if k is not exp: viol(key + "|value", g, nd.line, R, "component takes constant entry %s instead of %s" % (tshow(k), tshow(exp)))
            else:
                exp = {"scalar": [I], "isotropic": [I], "diagonal": [add(mul(num(3), I), J), add(mul(dim, I), J)] if J is not None else [], "tensor": []}[shape]
                if exp and k not in exp: viol(key + "|value", g, nd.line, R, "component takes function value %s instead of %s" % (tshow(k), tshow(exp[0])))
        for a, pol in F.guard_facts(nd.id):
            if a.op == "lt" and any(p in subterms(a) for p in phis): continue
            viol(key + "|guard", g, nd.line, R, "component is written only if %s%s" % ("" if pol else "not ", tshow(a)))

def consumers(prog, Q, ob, viol, ctx):
    has = {}
    callers = {}
    for f in prog.libfuncs:
        for c in calls(f.body):
            if c.get("fn"): callers.setdefault(c["fn"], set()).add(f)
    done = {}
    def flow(f):
        if f not in done: done[f] = Flow(prog, f, inline=lambda g, c, s: False)
        return done[f]
    def guarded(f, nid, q):
        F = flow(f)
        for a, pol in F.guard_facts(nid) | F.asserted(nid):
            if pol and a.op == "nz" and a.args[0].op == "call" and a.args[0].args[0].op == "fn":
                nq = name_quantity(a.args[0].args[0].args[0], Q)
                if nq and nq[0] == q and "Has" in a.args[0].args[0].args[0]: return True
            if pol and a.op == "nz" and a.args[0].op == "ld" and a.args[0].args[0].op == "F" and a.args[0].args[0].args[1] == Q[q][1]: return True
        # Has tested on the left of a conjunction kept as one condition
        return False
    def all_callers_guard(f, q, seen):
        cs = callers.get(f.name, set())
        if not cs or f in seen: return False
        for g in cs:
            F = flow(g)
            for n, c, a in F.sites(f.name):
                if not guarded(g, n.id, q) and not all_callers_guard(g, q, seen | {f}): return False
        return True
    for f in prog.libfuncs:
        names = {c.get("fn") for c in calls(f.body)}
        if not any(n and re.match(r"(MaterialPropCompute|ConditionsCompute|ConditionsAssign)", n) and name_quantity(n, Q) for n in names): continue
        F = flow(f)
        for n, c, args in F.sites(lambda c: c.get("fn") and re.match(r"(MaterialPropCompute|ConditionsCompute|ConditionsAssign)", c["fn"]) and name_quantity(c["fn"], Q)):
            q = name_quantity(c["fn"], Q)[0]
            ob("consumer", "%s:%d %s" % (f.rel, n.line, c["fn"]))
            rec = Q[q][0]
            if rec == "MaterialProp":
                d = args[3]
                nm = None
                if d.op == "ld" and d.args[0].op == "F": nm = d.args[0].args[1]
                elif d.op == "ptr" and d.args[0].op == "ld": nm = d.args[0].args[0].args[1] if d.args[0].args[0].op == "F" else None
                allst = set().union(*STORE.values())
                if nm in allst and nm not in STORE[q]:
                    viol("%s|dest|%s" % (f.name, q), f, n.line, "consumer", "%s values are stored in %s" % (q, nm))
                # same number of points as coordinates of the same object
                x = args[2]
                if x.op == "ld" and x.args[0].op == "F" and x.args[0].args[1] != "X": viol("%s|x|%s" % (f.name, q), f, n.line, "consumer", "%s is evaluated at %s" % (q, x.args[0].args[1]))
            else:
                if not guarded(f, n.id, q) and not all_callers_guard(f, q, frozenset()):
                    viol("%s|unset|%s" % (f.name, q), f, n.line, "consumer", "%s is evaluated although it may not be set" % q)
        # a guard that tests another quantity
