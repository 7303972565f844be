"""Rules: for every (mode, discretization) pair, the selection function either refuses or installs every operation (none left
over from an earlier selection); operations that are called without a NULL test are functions; all functions serving the pair
interpret the context as the record its create operation allocates, use only context data the pair's setup provides and
address as many unknowns per cell as the pair has; the solver hooks of the pair are installed exactly once or refused, and
the nonlinear-solver hooks are accepted or refused together.  Decided by conditional constant propagation of every
dispatching function for each pair, closure over the call graph resolved for that pair, and value numbering of indices."""
from ..core import *
from ..gvn import *

REG = {"TSSetIFunction": 2, "DMTSSetIFunction": 1, "TSSetIJacobian": 3, "DMTSSetIJacobian": 1, "SNESSetFunction": 2, "SNESSetJacobian": 3,
       "TSSetRHSFunction": 2, "DMTSSetTransientVariable": 1, "DMTSSetRHSFunction": 1}
VECARG = {"TSSetIFunction": 4, "DMTSSetIFunction": 4, "SNESSetFunction": 2}     # residual parameter of the callback
MATARG = {"TSSetIJacobian": (5, 6), "SNESSetJacobian": (2, 3)}
SUPPORT = {("RICHARDS", d) for d in ("MPFA_O", "MPFA_O_DAE", "MPFA_O_TRANSIENTVAR", "BDM", "WY", "FV_TPF")} | {("TH", "MPFA_O"), ("SALINITY", "MPFA_O")}
MTAG = {"RICHARDS": r"Richards", "TH": r"(?:^TDyTH[A-Z]|_TH(?:_|$)|_TH[A-Z])", "SALINITY": r"Salin"}
DTAG = {"MPFAO": r"MPFAO", "DAE": r"_DAE", "TransientVar": r"TransientVar", "BDM": r"BDM", "WY": r"WY", "FVTPF": r"FVTPF"}
DOK = {"MPFA_O": {"MPFAO"}, "MPFA_O_DAE": {"MPFAO", "DAE"}, "MPFA_O_TRANSIENTVAR": {"MPFAO", "TransientVar"}, "BDM": {"BDM"}, "WY": {"WY"}, "FV_TPF": {"FVTPF"}}

def tags(n): return {m for m, r in MTAG.items() if re.search(r, n)}, {d for d, r in DTAG.items() if re.search(r, n)}

def enumvals(prog, member):
    for tu in prog.tus:
        for e in tu.enums:
            d = dict((n, int(v)) for n, v in e["consts"])
            if member in d: return d
    raise AnalysisBroken("no enumeration with " + member)

notimer = lambda c: not (c.get("m") or "").startswith("TDY_")

def specialiser(prog):
    def special(f, m, d):
        """f specialised to a dycore whose settings are (m, d)"""
        k = next((i for i, p in enumerate(f.params) if f.types[p["t"]][1].replace("const ", "").startswith("struct _p_TDy *")), None)
        if k is None: return None
        o = mk("F", mk("D", mk("p", k, f.params[k]["n"])), "options")
        own = next((p["n"] for p in f.params if "TDyDiscretization" == f.types[p["t"]][0]), None)
        def init(env, params):
            env[mk("F", o, "mode")] = num(m)
            if own is None: env[mk("F", o, "discretization")] = num(d)
        return Flow(prog, f, inline=lambda g, c, s: g.file == f.file and notimer(c) and True, bind={own or "__": num(d)}, init=init)
    return special

def installed(prog, op):
    """{function name: mode values} of the functions the selection installs as operation `op`"""
    modes = {n: v for n, v in enumvals(prog, "RICHARDS").items() if n in MTAG}
    discs = {n: v for n, v in enumvals(prog, "MPFA_O").items() if n in DOK}
    sel = prog.func("TDySetDiscretization"); special = specialiser(prog)
    if sel is None: raise AnalysisBroken("TDySetDiscretization is missing")
    out = {}
    for m in modes:
        for d in discs:
            F = special(sel, modes[m], discs[d])
            if F.exit.id not in F.alive: continue
            for k, v in F.IN[F.exit.id].items():
                if k.op == "F" and k.args[1] == op and v.op == "fn" and re.search(r"\bops(\[0\])?$", tshow(k.args[0])): out.setdefault(v.args[0], set()).add(modes[m])
    return out

def run(ctx):
    prog = ctx.p
    modes = {n: v for n, v in enumvals(prog, "RICHARDS").items() if n in ("RICHARDS", "TH", "SALINITY")}
    discs = {n: v for n, v in enumvals(prog, "MPFA_O").items() if n in DOK}
    byname = {}
    for f in prog.libfuncs: byname.setdefault(f.name, f)
    special = specialiser(prog)
    sel = byname.get("TDySetDiscretization")
    if sel is None: raise AnalysisBroken("TDySetDiscretization is missing")
    R1 = "pair refused or all its operations installed"
    ops = {}; ret = {}; where = {}
    for m in modes:
        for d in discs:
            F = special(sel, modes[m], discs[d])
            ok = F.entry.id in F.alive and F.exit.id in F.alive
            ctx.ob(R1, "%s x %s: %s" % (m, d, "served" if ok else "refused"))
            if ok != ((m, d) in SUPPORT):
                ctx.viol("support|%s|%s" % (m, d), sel, sel.line, R1, "%s x %s is %s" % (m, d, "accepted although the library has no implementation for it" if ok else "refused although it is a supported pair"))
            if not ok: continue
            env = F.IN[F.exit.id]
            t = {}
            for k, v in env.items():
                if k.op == "F" and re.search(r"\bops(\[0\])?$", tshow(k.args[0])): t[k.args[1]] = v
            ops[m, d] = t
            for n, a, loc, val, old in F.stores():
                if loc.op == "F" and loc.args[1] in t: where[m, d, loc.args[1]] = n.line
            o = next((v for k, v in env.items() if k.op == "F" and k.args[1] == "discretization"), None)
            if o is not None:
                ctx.ob(R1, "%s x %s: recorded" % (m, d))
                if cval(o) is None or int(cval(o)) != discs[d]: ctx.viol("recorded|%s|%s" % (m, d), sel, sel.line, R1, "after selecting %s the recorded discretization is %s" % (d, tshow(o)))
    allops = set().union(*[set(t) for t in ops.values()])
    # operations invoked without a test that they are there
    need = {}
    for f in prog.libfuncs:
        if not any(c.get("fe") and uncast(c["fe"])["k"] == "mem" and uncast(c["fe"])["f"] in allops for c in calls(f.body)): continue
        F = Flow(prog, f, inline=lambda g, c, s: False)
        for n, c, a in F.sites(lambda c: c.get("fe") is not None and uncast(c["fe"])["k"] == "mem" and uncast(c["fe"])["f"] in allops):
            t = F.callee(n, c); fld = uncast(c["fe"])["f"]
            facts = F.guard_facts(n.id) | F.asserted(n.id)
            if any(at.op == "nz" and at.args[0] is t and pol or at.op == "eq" and ZERO in at.args and t in at.args and not pol for at, pol in facts): continue
            need.setdefault(fld, (f, n.line))
    for (m, d), t in sorted(ops.items()):
        for o in sorted(allops | set(need)):
            ctx.ob(R1, "%s x %s: %s = %s" % (m, d, o, tshow(t[o]) if o in t else "left over"))
            v = t.get(o)
            if v is None or any(s.op == "ld" or s.op == "phi" for s in subterms(v)):
                ctx.viol("ops|%s|%s|%s" % (m, d, o), sel, sel.line, R1, "selecting %s x %s leaves the %s operation as it was before (unset, or that of an earlier selection)" % (m, d, o))
            elif o in need and v.op != "fn":
                f, ln = need[o]
                ctx.viol("null|%s|%s|%s" % (m, d, o), f, ln, R1, "%s calls the %s operation without a test, but %s x %s has none" % (f.name, o, m, d))
    # ---- solver hooks
    R4 = "solver hook installed exactly once or refused"
    hooks = {}
    disp = {}
    for f in prog.libfuncs:
        if f.file != sel.file or f is sel: continue
        if not any(n["k"] == "mem" and n["f"] in ("discretization", "mode") and (n.get("r") or "").replace("struct ", "") in ("TDyOptions", "_TDyOptions") for n in walk(f.body)): continue
        kinds = {c["fn"] for c in calls(f.body) if c.get("fn") in REG}
        direct = {c["fn"] for c in calls(f.body) if c.get("fn") in byname and tags(c["fn"])[1] and byname[c["fn"]].file != f.file}
        if kinds or direct: disp[f.name] = (f, kinds)
    for name, (f, kinds) in sorted(disp.items()):
        for m, d in sorted(ops):
            F = special(f, modes[m], discs[d])
            if F is None: continue
            ok = F.entry.id in F.alive and F.exit.id in F.alive
            inst = []
            if ok:
                for n, c, a in F.sites(lambda c: c.get("fn") in REG or (c.get("fn") in byname and tags(c["fn"])[1])):
                    if c.get("fn") in REG:
                        cb = a[REG[c["fn"]]]
                        inst.append((c["fn"], cb.args[0] if cb.op == "fn" else None, n))
                    elif byname[c["fn"]].file != f.file: inst.append(("call", c["fn"], n))
            hooks[name, m, d] = (ok, inst, f)
            ctx.ob(R4, "%s %s x %s: %s" % (name, m, d, ", ".join(str(i[1]) for i in inst) if ok else "refused"))
            main = [i for i in inst if i[0] != "DMTSSetTransientVariable"]
            jac = any("Jacobian" in k for k in kinds) and any(c.get("fn") == "TDyCreateJacobian" for c in calls(f.body))
            if ok and (len(main) > 1 or (not main and not jac)):
                ctx.viol("hook|%s|%s|%s" % (name, m, d), f, main[1][2].line if len(main) > 1 else f.line, R4,
                         "%s for %s x %s %s" % (name, m, d, "installs " + " and ".join(str(i[1]) for i in main) if main else "succeeds without installing anything"))
            tv = [i for i in inst if i[0] != "DMTSSetTransientVariable" and i[1] in byname and "TransientVar" in tags(i[1])[1]]
            if ok and tv and not any(i[0] == "DMTSSetTransientVariable" for i in inst):
                ctx.viol("transient|%s|%s|%s" % (name, m, d), f, tv[0][2].line, R4, "%s installs %s for %s x %s without the transient variable whose rate it is given" % (name, tv[0][1], m, d))
            if ok and len(inst) != len(main) and not tv:
                ctx.viol("transient|%s|%s|%s" % (name, m, d), f, f.line, R4, "%s installs a transient variable for %s x %s, but its residual is written for rates of the unknowns" % (name, m, d))
    tri = [n for n in disp if disp[n][1] & {"SNESSetFunction", "SNESSetJacobian"} or "PreSolveSNES" in n]
    R5 = "nonlinear-solver hooks accepted or refused together"
    if len(tri) > 1:
        for m, d in sorted(ops):
            acc = {n: hooks[n, m, d][0] for n in tri if (n, m, d) in hooks}
            ctx.ob(R5, "%s x %s: %s" % (m, d, "accepted" if all(acc.values()) else "refused" if not any(acc.values()) else acc))
            if len(set(acc.values())) > 1:
                ctx.viol("together|%s|%s" % (m, d), sel, sel.line, R5, "%s x %s: %s accept it, %s refuse it" % (m, d, ", ".join(sorted(n for n in acc if acc[n])), ", ".join(sorted(n for n in acc if not acc[n]))))
    # ---- closures
    R2 = "functions of a pair treat the context as that pair's record"
    R6 = "context data a pair uses is provided by its setup"
    R7 = "functions of a pair address that pair's unknowns"
    R8 = "function installed for a pair is not another's"
    R3 = "number of unknowns reported is the number of fields set"
    for (m, d), t in sorted(ops.items()):
        fns = {o: byname[v.args[0]] for o, v in t.items() if v.op == "fn" and v.args[0] in byname}
        rec = record_made(prog, fns.get("create"))
        if rec is None: ctx.note("%s x %s: record made by create not recognised" % (m, d)); continue
        hk = [(n, i) for (n, mm, dd), (ok, inst, f) in hooks.items() if ok and (mm, dd) == (m, d) for i in inst if i[1] in byname]
        run_roots = [f for o, f in fns.items() if o not in ("create", "destroy", "set_from_options", "setup")] + [byname[i[1]] for _, i in hk]
        set_roots = [f for o, f in fns.items() if o in ("create", "set_from_options", "setup")]
        for o, f in sorted(fns.items()):
            ctx.ob(R8, "%s x %s: %s = %s" % (m, d, o, f.name)); foreign(ctx, R8, m, d, o, f, sel, where.get((m, d, o), sel.line), prog)
        for n, i in hk:
            ctx.ob(R8, "%s x %s: %s -> %s" % (m, d, n, i[1])); foreign(ctx, R8, m, d, n, byname[i[1]], disp[n][0], i[2].line, prog)
        rc, sc = closure(prog, byname, run_roots, t), closure(prog, byname, set_roots, t)
        used, given = {}, set()
        # entry points common to all pairs, in the state this pair leaves them
        api = [f for f in prog.libfuncs if f.file == sel.file and not f.static and not any(tags(f.name)) and any(istdy(f, p) for p in f.params)]
        ac = closure(prog, byname, api, t, lambda f: special(f, modes[m], discs[d]) if dispatches(f) else None, (m, d))
        for f in ac: ctx.ob(R2, "%s x %s: %s" % (m, d, f.name))
        for f in set(rc) | set(sc) | set(ac) | ({fns["destroy"]} if "destroy" in fns else set()):
            for r, n in context_records(f, f not in rc and f not in sc):
                ctx.ob(R2, "%s x %s: %s" % (m, d, f.name))
                if r != rec: ctx.viol("context|%s|%s|%s" % (m, d, f.name), f, n["l"], R2, "%s treats the context of %s x %s as %s; it is %s" % (f.name, m, d, r, rec))
        for f, asts in rc.items():
            for fld, n in field_uses(f, rec, asts)[0]:
                if handle(f, n): used.setdefault(fld, (f, n["l"]))
        for f, asts in sc.items():
            given |= {fld for fld, n in field_uses(f, rec, asts)[1]}
        for fld, (f, ln) in sorted(used.items()):
            ctx.ob(R6, "%s x %s: %s.%s used by %s" % (m, d, rec, fld, f.name))
            if fld not in given:
                ctx.viol("unprovided|%s|%s|%s" % (m, d, fld), f, ln, R6, "%s uses %s->%s, which nothing in the setup of %s x %s provides" % (f.name, rec, fld, m, d))
        # unknowns
        nf = None
        if "get_num_dm_fields" in fns:
            F = Flow(prog, fns["get_num_dm_fields"], inline=lambda g, c, s: notimer(c))
            vs = {cval(v) for _, v in F.retvals()}
            if len(vs) == 1 and None not in vs: nf = int(vs.pop())
        if "set_dm_fields" in fns:
            ns = fields_set(prog, fns["set_dm_fields"], byname)
            if nf is not None and ns is not None:
                ctx.ob(R3, "%s x %s: %d" % (m, d, nf))
                if ns != nf: ctx.viol("fields|%s|%s" % (m, d), fns["set_dm_fields"], fns["set_dm_fields"].line, R3, "%s x %s: %s reports %d unknowns, %s sets %d" % (m, d, fns["get_num_dm_fields"].name, nf, fns["set_dm_fields"].name, ns))
            n1 = ns or nf
            for n, i in hk:
                f = byname[i[1]]
                st = strides(prog, f, i[0])
                if not st: continue
                ctx.ob(R7, "%s x %s: %s addresses %s unknowns per cell" % (m, d, f.name, sorted(st)))
                if n1 and any(s != n1 for s in st):
                    ctx.viol("unknowns|%s|%s|%s" % (m, d, n), disp[n][0], i[2].line, R7, "%s installs %s for %s x %s, which has %d unknowns per cell, but that function addresses %s" % (n, f.name, m, d, n1, "/".join(str(s) for s in sorted(st))))
    ctx.need(R1, 30); ctx.need(R4, 10); ctx.need(R2, 10)
    ctx.assume("a solver calls back only what was installed on it")

def foreign(ctx, R, m, d, role, f, at, line, prog):
    mt, dt = tags(f.name)
    if (not mt or mt == {m}) and dt <= DOK[d]: return
    # a function that never looks at its arguments behaves the same for every pair
    if not any(n["k"] == "ref" and n["dk"] == "parm" for n in walk(f.body)): return
    ctx.viol("foreign|%s|%s|%s|%s" % (m, d, role, f.name), at, line, R, "%s, written for %s, is installed as %s of %s x %s" % (f.name, "/".join(sorted(mt | dt)), role, m, d))

def record_made(prog, f):
    if f is None: return None
    rs = set()
    for n in walk(f.body):
        src = None
        if n["k"] == "asg" and n["op"] == "=": src = (n["l_"], n["r_"])
        elif n["k"] == "call" and any(x in (n.get("fn") or "") for x in ("Alloc", "alloc", "New")):
            for a in n["a"]:
                a = uncast(a)
                if a["k"] == "un" and a["op"] == "&":
                    r = ptrrec(f, uncast(a["e"])["t"])
                    if r: rs.add(r)
        if src is not None and f.types[src[0]["t"]][1].replace(" ", "") == "void*":
            r = ptrrec(f, uncast(src[1])["t"])
            if r: rs.add(r)
    return rs.pop() if len(rs) == 1 else None

def ptrrec(f, t):
    ty = f.types[t]
    m = re.match(r"^(?:const )?struct (\w+) \*$", ty[1]) or re.match(r"^(?:const )?(\w+) \*$", ty[1])
    if m and ty[2] == "ptr" and m[1] not in ("void", "char", "double", "int", "long"): return m[1]
    return None

def isctx(f, e, strict=False):
    e = uncast(e)
    if e["k"] == "mem" and e["f"] == "context" and "TDy" in (e.get("r") or ""): return True
    return not strict and e["k"] == "ref" and e["dk"] == "parm" and e.get("n") == "context" and f.types[e["t"]][1].replace(" ", "") == "void*"

def context_records(f, strict=False):
    for n in walk(f.body):
        if n["k"] == "var" and n.get("init") is not None and isctx(f, n["init"], strict):
            r = ptrrec(f, n["t"])
            if r: yield r, n
        elif n["k"] == "asg" and isctx(f, n["r_"], strict):
            r = ptrrec(f, n["l_"]["t"])
            if r: yield r, n
        elif n["k"] == "cast" and isctx(f, n["e"], strict):
            r = ptrrec(f, n["t"])
            if r: yield r, n

def istdy(f, p): return f.types[p["t"]][1].replace("const ", "").startswith("struct _p_TDy *")
def dispatches(f):
    return f.body is not None and any(n["k"] == "mem" and n["f"] in ("discretization", "mode") for n in walk(f.body))

def closure(prog, byname, roots, ops, spec=None, pair=None, cache={}):
    """functions reachable for a pair, as (function, asts of the nodes that stay reachable for the constants it is called with)"""
    seen = {}; todo = [(f, ()) for f in roots]
    skip = ("TDySetDiscretization", "TDySetMode", "TDyDestroy")
    while todo:
        f, b = todo.pop()
        if (f, b) in seen or f.body is None or f.name in skip: continue
        key = (f, b)
        if spec is not None and dispatches(f): key = (f, b, pair)
        if key not in cache:
            F = spec(f) if len(key) == 3 else None
            if F is None: F = Flow(prog, f, inline=lambda g, c, s: False, bind={n: num(v) for n, v in b} or None)
            asts = [F.byid[i].ast for i in F.alive if F.byid[i].ast is not None] if F.entry.id in F.alive else []
            if not asts: asts = [f.body]
            if len(key) == 3 and F.exit.id not in F.alive: asts = []
            cs = []
            for i in (F.rpo if asts and F.entry.id in F.alive else []):
                n = F.byid[i]
                if n.ast is None: continue
                for c in calls(n.ast):
                    g = prog.resolve(f, c["fn"]) if c.get("fn") else None
                    bb = []
                    if g is not None and g.body is not None and len(g.params) == len(c["a"]):
                        for p, x in zip(g.params, c["a"]):
                            if g.types[p["t"]][2] in ("int", "enum", "bool"):
                                t = F.ev(x, dict(F.IN[i]), i)
                                if t.op == "c" and t.args[0].denominator == 1: bb.append((p["n"], int(t.args[0])))
                        cs.append((g, tuple(bb)))
                    elif c.get("fe"): cs.append((uncast(c["fe"]), None))
            for x in asts:
                called = {id(uncast(c["fe"])) for c in calls(x) if c.get("fe")}
                for n in walk(x):
                    if n["k"] == "ref" and n["dk"] == "func" and n["n"] in byname:
                        g = prog.resolve(f, n["n"])
                        if g is not None and not any(h is g for h, _ in cs): cs.append((g, ()))
            cache[key] = (asts, cs)
        asts, cs = cache[key]
        seen[f, b] = asts
        for g, bb in cs:
            if bb is None:
                if g["k"] == "mem" and g["f"] in ops and ops[g["f"]].op == "fn" and ops[g["f"]].args[0] in byname: todo.append((byname[ops[g["f"]].args[0]], ()))
            else: todo.append((g, bb))
    out = {}
    for (f, b), asts in seen.items(): out.setdefault(f, []).extend(asts)
    return out

def field_uses(f, rec, asts):
    used, given = [], []
    # members whose presence the function itself tests
    tested = set()
    for n in walk(f.body):
        q = n.get("cond") if n["k"] in ("if", "while") else n.get("q") if n["k"] == "cond" else None
        if q is None: continue
        for x in walk(q):
            if x["k"] == "mem" and handle(f, x): tested.add(x["f"])
    def go(n, ctxt):
        if n["k"] == "mem" and (n.get("r") or "").replace("struct ", "") == rec:
            if ctxt in ("lhs", "addr"): given.append((n["f"], n))
            elif n["f"] not in tested: used.append((n["f"], n))
            return go(n["b"], None)
        if n["k"] == "asg":
            l = n["l_"]
            while l["k"] in ("cast", "paren"): l = l["e"]
            go(l, "lhs" if l["k"] == "mem" and n["op"] == "=" else None); go(n["r_"], None); return
        if n["k"] == "un" and n["op"] == "&":
            e = n["e"]
            while e["k"] in ("cast", "paren"): e = e["e"]
            go(e, "addr" if e["k"] == "mem" else None); return
        if n["k"] == "cast": return go(n["e"], ctxt)
        for k in kids(n): go(k, None)
    for x in asts: go(x, None)
    return used, given

def handle(f, n):
    """a pointer or PETSc object, not an array inside the record"""
    return f.types[n["t"]][2] == "ptr" or f.types[n["t"]][1].startswith("struct _p_")

def fields_set(prog, f, byname):
    F = Flow(prog, f, inline=lambda g, c, s: not (c.get("m") or "").startswith("TDY_"), peel=20)
    n = {cval(a[1]) for _, c, a in F.sites("DMSetNumFields")}
    if len(n) == 1 and None not in n: return int(n.pop())
    s = F.sites("DMSetField")
    if s and not n: return len({cval(a[1]) for _, c, a in s})
    s = [a for _, c, a in F.sites("PetscSectionSetNumFields")]
    if len(s) == 1 and cval(s[0][1]) is not None: return int(cval(s[0][1]))
    s = [a for _, c, a in F.sites("SetFields")]
    if len(s) == 1 and cval(s[0][1]) is not None: return int(cval(s[0][1]))
    return None

def strides(prog, f, how):
    """unknowns per cell addressed when a callback stores its result"""
    F = Flow(prog, f, inline=lambda g, c, s: False)
    if F.exit.id not in F.alive: return set()
    out = set()
    def cell(t):
        rg = F.ranges()
        for s in subterms(t):
            if s in rg:
                k = sub(subst(t, lambda x: add(s, num(1)) if x is s else None), t)
                if cval(k) is not None: return int(cval(k))
        return None
    if how in VECARG:
        R = mk("p", VECARG[how], f.params[VECARG[how]]["n"]) if VECARG[how] < len(f.params) else None
        bases = set()
        for n, c, a in F.sites(lambda c: (c.get("fn") or "").startswith("VecGetArray")):
            if a[0] is R:
                bases.add(mk("out", n.id, 1, mk("fn", c["fn"])))
        for n, e, loc, val, old in F.stores():
            b = i = None
            if loc.op == "E" and loc.args[0].op == "D": b, i = loc.args[0].args[0], loc.args[1]
            elif loc.op == "D" and loc.args[0].op == "ptr": b, i = loc.args[0].args
            if b is None: continue
            if b in bases or (b.op == "out" and any(b.args[0] == x.args[0] for x in bases)):
                k = cell(i)
                if k is not None: out.add(k)
    elif how in MATARG:
        for n, c, a in F.sites(lambda c: (c.get("fn") or "") in ("MatSetValuesLocal", "MatSetValues", "MatSetValueLocal", "MatSetValuesBlockedLocal")):
            r = a[2]
            if r.op == "addr" or r.op == "ptr":
                loc = r.args[0] if r.op == "addr" else mk("D", r)
                v = F.IN[n.id].get(loc)
                if v is None: continue
                if cval(a[1]) != 1: continue
                k = cell(v)
                if k is None: continue
                if c["fn"] == "MatSetValuesBlockedLocal":
                    b = None
                    out.add(("block", k))
                else: out.add(k)
    # blocked insertion adapts to the block size: it addresses all unknowns of a cell
    return {k for k in out if not isinstance(k, tuple)}
