"""Rules: (1) every C function bound by name in the Fortran module exists with the same number, kinds and passing mode of
arguments, and every C-callable Fortran routine agrees with its C declaration; (2) every external routine the module declares
has a C stub of the mangled name whose arguments have the declared kinds; (3) every C stub takes its arguments by reference,
calls the C function of its own name once, with its arguments in order (values and handles dereferenced, output handles
passed through), and stores the result in the error argument; (4) every module procedure that wraps a C function calls the
one of its own name with its own arguments and returns its status; named selections reach the setter of the same quantity;
(5) every registry counter belongs to one registry and the arrays the Fortran routines receive have the length the C caller
provides; (6) the name-mangling tables map every stub, spelled as defined, to its own name."""
from ..core import *
from ..gvn import *
from .. import fortran as FT

DIR = "src/f90-mod"

def run(ctx): analyse(ctx.p, ctx.ob, ctx.viol, ctx)

class Pos:
    def __init__(self, rel, name): self.rel = rel; self.file = rel; self.name = name

def ckind(f, t):
    x = f.types[t]
    if x[2] == "int" or x[2] == "enum" or x[2] == "bool": return "int"
    if x[2] == "flt": return "flt"
    if x[2] in ("fnptr",): return "fnptr"
    if x[2] in ("ptr", "carr", "vla", "arr"):
        c = re.sub(r"\b(const|volatile|restrict)\b", "", x[1]).strip()
        if "(*" in c: return "fnptr"
        c = re.sub(r"\s*\[[^\]]*\]\s*$", " *", c)
        base = c.rstrip("* ")
        n = c.count("*")
        if base.startswith("struct"): return ("handle" if n == 1 else "*handle" if n == 2 else "?")
        if base in ("double", "float"): return "*flt" if n == 1 else "?"
        if base in ("char",): return "*char"
        if base == "void": return "*void"
        if "int" in base or "long" in base or base.startswith("enum") or base in ("short",): return "*int" if n == 1 else "?"
        return "*?"
    return x[2]

def fkind(d):
    """kind of a Fortran dummy seen from C"""
    typ, par, at, _ = d
    val = "value" in at
    if typ == "type" and "c_ptr" in par: return "ptr" if val else "*ptr"
    if typ == "type" and "c_funptr" in par: return "fnptr" if val else "*fnptr"
    b = "int" if typ in ("integer", "petscint", "petscerrorcode", "petscenum", "petscbool", "logical", "mpi_comm", "petscmpiint") else \
        "flt" if typ in ("real", "petscreal", "petscscalar", "double precision") else \
        "char" if typ == "character" else "handle" if typ in ("tdy", "vec", "mat", "snes", "ts", "dm", "ksp", "is") or typ.startswith("tdy") or typ == "type" else "proc" if typ == "procedure" else "?"
    return b if val else "*" + b

def compatible(fk, ck):
    if fk == "ptr": return ck in ("handle", "*handle", "*flt", "*int", "*void", "*char", "*?")
    if fk == "fnptr": return ck == "fnptr"
    if fk in ("int", "flt"): return ck == fk
    if fk in ("*int", "*flt"): return ck == fk or ck == "*void"
    if fk == "*handle": return ck in ("handle", "*handle")
    if fk == "*ptr": return ck in ("*handle", "*?", "?")
    if fk == "*char": return ck == "*char"
    if fk == "*proc": return ck == "fnptr"
    return False

def analyse(prog, ob, viol, ctx=None):
    root = getattr(prog, "root", REPO)
    path_ = os.path.join(root, DIR, "tdycoremod.F90")
    if not os.path.exists(path_): raise AnalysisBroken("%s is missing" % path_)
    rel = DIR + "/tdycoremod.F90"
    units, mdecls = FT.parse(path_)
    byname = {}
    for f in prog.libfuncs: byname.setdefault(f.name, f)
    stubs = {f.name: f for f in prog.libfuncs if re.fullmatch(r"tdy[a-z0-9]*_", f.name)}
    R1, R2, R3, R4, R5, R6 = ("bound C function agrees with its Fortran interface", "declared routine has a stub with its arguments",
        "stub forwards its arguments to the C function of its name", "Fortran procedure reaches the C function of its name",
        "Fortran function registry and array lengths", "mangling table maps each stub to its own name")
    def fv(key, u, line, rule, msg): viol(key, Pos(rel, u.name if u else "module"), line, rule, msg)
    allu = []
    def rec(u):
        allu.append(u)
        for v in u.interfaces + u.contained: rec(v)
    for u in units: rec(u)
    # ---- 1
    for u in allu:
        if not u.bind: continue
        if u.isinterface:
            f = byname.get(u.bind)
            ob(R1, u.bind)
            if f is None: fv("bind|%s" % u.bind, u, u.line, R1, "binds %s, which the library does not define" % u.bind); continue
            if f.static: fv("bind|%s" % u.bind, u, u.line, R1, "binds %s, which is static" % u.bind); continue
            if len(f.params) != len(u.args):
                fv("bindargs|%s" % u.bind, u, u.line, R1, "%s has %d arguments in Fortran, %d in C" % (u.bind, len(u.args), len(f.params))); continue
            for a, p in zip(u.args, f.params):
                d = u.decls.get(a)
                fk, ck = fkind(d) if d else "undeclared", ckind(f, p["t"])
                ob(R1, "%s(%s)" % (u.bind, a))
                if not compatible(fk, ck): fv("bindkind|%s|%s" % (u.bind, a), u, u.line, R1, "argument %s of %s is passed as %s; C expects %s" % (a, u.bind, fk, ck))
            if u.kind == "function":
                d = u.decls.get(u.result)
                if not d or fkind(d).strip("*") != "int": fv("bindres|%s" % u.bind, u, u.line, R1, "the status of %s is not an integer" % u.bind)
        else:
            # defined in Fortran, called from C: compare with every call
            for f in prog.libfuncs:
                for c in calls(f.body):
                    if c.get("fn") != u.bind: continue
                    ob(R1, "%s called by %s" % (u.bind, f.name))
                    if len(c["a"]) != len(u.args): viol("callf|%s|%s" % (u.bind, f.name), f, c["l"], R1, "%s is called with %d arguments; it has %d" % (u.bind, len(c["a"]), len(u.args))); continue
                    for a, x in zip(u.args, c["a"]):
                        d = u.decls.get(a)
                        fk, ck = fkind(d) if d else "undeclared", ckind(f, x["t"])
                        if not compatible(fk, ck): viol("callfkind|%s|%s|%s" % (u.bind, f.name, a), f, c["l"], R1, "argument %s of %s is %s in Fortran; C passes %s" % (a, u.bind, fk, ck))
    # ---- 2
    ext = [u for u in units if u.isinterface and not u.abstract and not u.bind]
    for u in ext:
        s = stubs.get(u.name + "_")
        ob(R2, u.name)
        if s is None: fv("nostub|%s" % u.name, u, u.line, R2, "%s is declared, but no C function %s_ exists" % (u.name, u.name)); continue
        if len(s.params) != len(u.args): fv("stubargs|%s" % u.name, u, u.line, R2, "%s has %d arguments; its stub has %d" % (u.name, len(u.args), len(s.params))); continue
        for a, p in zip(u.args, s.params):
            d = u.decls.get(a); fk, ck = fkind(d) if d else "undeclared", ckind(s, p["t"])
            ob(R2, "%s(%s)" % (u.name, a))
            if not compatible(fk, ck): fv("stubkind|%s|%s" % (u.name, a), u, u.line, R2, "argument %s of %s is %s; the stub takes %s" % (a, u.name, fk, ck))
    # ---- 3
    cname = {}
    for f in prog.libfuncs:
        if not f.static: cname.setdefault(f.name.lower(), f)
    for s in stubs.values():
        want = cname.get(s.name[:-1])
        ob(R3, s.name)
        if want is None: viol("noc|%s" % s.name, s, s.line, R3, "no C function %s exists" % s.name[:-1]); continue
        for k, p in enumerate(s.params):
            if s.types[p["t"]][2] not in ("ptr", "fnptr", "carr", "vla", "arr"):
                viol("byvalue|%s|%s" % (s.name, k), s, s.line, R3, "%s takes argument %d by value; Fortran passes by reference" % (s.name, k + 1))
        F = Flow(prog, s, inline=lambda g, c, x: g.static)
        cs = F.sites(lambda c: c.get("fn") and prog.resolve(s, c["fn"]) is not None and not (c.get("m") or "").startswith("TDY_"))
        mine = [x for x in cs if prog.resolve(s, x[1]["fn"]) is want]
        if len(mine) != 1:
            viol("forward|%s" % s.name, s, s.line, R3, "%s calls %s %d times%s" % (s.name, want.name, len(mine), "" if not cs else ", and " + ", ".join(sorted({c["fn"] for n, c, a in cs if c["fn"] != want.name})) if any(c["fn"] != want.name for n, c, a in cs) else "")); continue
        n, c, a = mine[0]
        if not F.postdominates(n.id, F.entry.id): viol("forwardcond|%s" % s.name, s, n.line, R3, "%s calls %s only on some paths" % (s.name, want.name))
        for n2, c2, a2 in cs:
            if c2 is not c: viol("extra|%s" % s.name, s, n2.line, R3, "%s also calls %s" % (s.name, c2["fn"]))
        last = mk("p", len(s.params) - 1, s.params[-1]["n"]) if s.params else None
        pos = 0
        for k, t in enumerate(a):
            ck = ckind(want, want.params[k]["t"]) if k < len(want.params) else "?"
            ps = [x for x in subterms(t) if x.op == "p"]
            if not ps:
                if "MPI_Comm" in want.types[want.params[k]["t"]][0] or "ompi_communicator" in want.types[want.params[k]["t"]][1]: ob(R3, "%s: communicator" % s.name); continue
                viol("const|%s|%d" % (s.name, k), s, n.line, R3, "argument %d of %s does not come from the caller" % (k + 1, want.name)); continue
            src = mk("p", pos, s.params[pos]["n"]) if pos < len(s.params) - 1 else None
            ob(R3, "%s: argument %d" % (s.name, k + 1))
            if src is None or any(x is not src for x in ps):
                viol("order|%s|%d" % (s.name, k), s, n.line, R3, "argument %d of %s is %s, not argument %d of the stub" % (k + 1, want.name, tshow(t), pos + 1)); pos += 1; continue
            pos += 1
            deref = lambda t: t.op == "ld" and t.args[0].op in ("D", "E") and (t.args[0].args[0] is src)
            d0 = t
            while d0.op in ("cast",): d0 = d0.args[0]
            if ck.startswith("*"):
                if d0 is not src: viol("deref|%s|%d" % (s.name, k), s, n.line, R3, "argument %d of %s is %s, expected the caller's reference itself" % (k + 1, want.name, tshow(t)))
            elif not deref(d0): viol("deref|%s|%d" % (s.name, k), s, n.line, R3, "argument %d of %s is %s, expected the value it refers to" % (k + 1, want.name, tshow(t)))
        if pos != len(s.params) - 1: viol("unused|%s" % s.name, s, s.line, R3, "%s does not hand all its arguments to %s" % (s.name, want.name))
        # the status
        ok = False
        if last is not None:
            for nd, asg, loc, val, old in F.stores():
                if loc.op in ("D", "E") and loc.args[0] is last:
                    ok = val.op == "call" and any(x.op == "fn" and want.name in x.args for x in subterms(val)) or (val.op == "call" and F.value(n.id, c) is val)
        if not ok: viol("status|%s" % s.name, s, s.line, R3, "%s does not return the status of %s" % (s.name, want.name))
    # ---- 4
    def callof(expr):
        m = re.match(r"^(\w+)\s*\((.*)\)$", expr.strip(), re.S)
        return (m.group(1).lower(), [x.strip() for x in FT.split_top(m.group(2))]) if m else (None, [])
    module_procs = {u.name: u for u in units if not u.isinterface and not u.abstract}
    for u in units:
        if u.isinterface or u.bind: continue
        bound = {i.name: i for i in u.interfaces if i.bind}
        if bound:
            asg = {}
            used = False
            for no, st in u.stmts:
                m = re.match(r"^(\w+)\s*=(?!=)\s*(.*)$", st)
                if not m: continue
                lhs, rhs = m.group(1).lower(), m.group(2)
                fn, args = callof(rhs)
                if fn in bound:
                    used = True
                    b = bound[fn]
                    ob(R4, "%s -> %s" % (u.name, b.bind))
                    if b.bind.lower() not in (u.name, u.name + "f90"): fv("target|%s" % u.name, u, no, R4, "%s calls %s" % (u.name, b.bind))
                    err = next((a for a in reversed(u.args)), None)
                    if lhs != err: fv("ierr|%s" % u.name, u, no, R4, "%s stores the status of %s in %s, not in %s" % (u.name, b.bind, lhs, err))
                    if len(args) != len(b.args): fv("nargs|%s" % u.name, u, no, R4, "%s passes %d arguments to %s" % (u.name, len(args), b.bind)); continue
                    for k, (x, dummy) in enumerate(zip(args, u.args)):
                        e = asg.get(x.lower(), x).lower().replace(" ", "")
                        dd = u.decls.get(dummy)
                        ok = False
                        if dd and dd[0].startswith("tdy"): ok = re.fullmatch(r"transfer\(%s%%v,\w+\)" % dummy, e) is not None
                        elif dd and dd[0] == "procedure":
                            isint = "integer" in dd[1]
                            ok = (re.fullmatch(r"findorappend(integer)?spatialfunction\(%s\)" % dummy, e) is not None and ("integer" in e) == isint) or e == "c_funloc(%s)" % dummy
                            if not ok:
                                m2 = re.fullmatch(r"(\w+)\(%s\)" % dummy, e)
                                r = module_procs.get(m2.group(1)) if m2 else None
                                ok = bool(r and r.args and r.decls.get(r.args[0], ("", ""))[1] == dd[1])
                        else: ok = e in (dummy, "c_loc(%s)" % dummy)
                        ob(R4, "%s: argument %s" % (u.name, dummy))
                        if not ok: fv("arg|%s|%s" % (u.name, dummy), u, no, R4, "argument %d of %s is %s, which is not the caller's %s" % (k + 1, b.bind, e, dummy))
                elif lhs not in u.args: asg[lhs] = rhs
            for no, st in u.stmts:
                if re.match(r"^call\s", st, re.I):
                    fn, args = callof(re.sub(r"^call\s+", "", st, flags=re.I))
                    if fn in bound: used = True
            if not used: fv("nocall|%s" % u.name, u, u.line, R4, "%s never calls the C function it binds" % u.name)
        # named selection
        m = re.match(r"^tdyselect(\w+)$", u.name)
        if m:
            want = "tdyset" + m.group(1)
            ob(R4, "%s -> %s" % (u.name, want))
            cl = [(no,) + callof(re.sub(r"^call\s+", "", st, flags=re.I)) for no, st in u.stmts if re.match(r"^call\s", st, re.I)]
            hit = [x for x in cl if x[1] == want]
            if not hit: fv("select|%s" % u.name, u, u.line, R4, "%s calls %s instead of %s" % (u.name, ", ".join(x[1] or "?" for x in cl) or "nothing", want)); continue
            no, fn, args = hit[0]
            src = [re.sub(r"\s", "", st.split("=>", 1)[1].lower()) for n2, st in u.stmts if "=>" in st and args and len(args) > 1 and st.split("=>", 1)[0].strip().lower() == args[1].lower()]
            nm = u.args[1] if len(u.args) > 1 else ""
            if len(args) != 3 or args[0].lower() != u.args[0] or args[2].lower() != u.args[-1] or not src or not re.fullmatch(r"get\w*spatialfunction\(%s\)" % nm, src[0]):
                fv("selectargs|%s" % u.name, u, no, R4, "%s does not hand the function registered under the given name to %s" % (u.name, want))
        # an error argument must be set
        if u.args and u.args[-1] in ("ierr", "err") and not u.abstract:
            ob(R4, "%s sets %s" % (u.name, u.args[-1]))
            e = u.args[-1]
            sets = any(re.match(r"^(if\s*\(.*\)\s*)?%s\s*=" % e, st, re.I) or re.match(r"^call\b.*\b%s\s*\)$" % e, st, re.I) for no, st in u.stmts)
            if not sets: fv("noerr|%s" % u.name, u, u.line, R4, "%s never sets %s" % (u.name, e))
    # ---- 5: counters
    arrays = {n for n, d in mdecls.items() if "dimension(:)" in d[2]}
    scalars = {n for n, d in mdecls.items() if n not in arrays and d[0] in ("integer", "petscint")}
    writes = {}
    for u in units:
        if u.isinterface: continue
        idx = {a for no, st in u.stmts for a in arrays if re.search(r"\b%s\s*\(" % a, st, re.I)}
        for no, st in u.stmts:
            m = re.match(r"^(?:if\s*\(.*\)\s*)?(\w+)\s*=(?!=)", st)
            if m and m.group(1).lower() in scalars: writes.setdefault(m.group(1).lower(), {}).setdefault(u.name, (idx, no, u))
    for v, by in sorted(writes.items()):
        us = sorted(by.items())
        ob(R5, "counter %s: %s" % (v, ", ".join(n for n, _ in us)))
        for i, (n1, (a1, no1, u1)) in enumerate(us):
            for n2, (a2, no2, u2) in us[i + 1:]:
                if a1 and a2 and not (a1 & a2): fv("counter|%s|%s" % (v, n2), u2, no2, R5, "%s counts the entries of %s in %s and of %s in %s" % (v, "/".join(sorted(a1)), n1, "/".join(sorted(a2)), n2))
    # array lengths
    for u in units:
        if not u.bind or u.isinterface: continue
        shape = {}
        for no, st in u.stmts:
            m = re.match(r"^call\s+c_f_pointer\s*\((.*)\)$", st, re.I)
            if m:
                a = FT.split_top(m.group(1))
                if len(a) == 3: shape[a[0].strip().lower()] = (a[2].strip().lower().replace(" ", "").strip("[]").replace("(/", "").replace("/)", ""), no)
        for f in prog.libfuncs:
            if not any(c.get("fn") == u.bind for c in calls(f.body)): continue
            F = Flow(prog, f, inline=lambda g, c, x: g.static)
            for n, c, a in F.sites(lambda c: c.get("fn") == u.bind):
                vals = {d: a[k] for k, d in enumerate(u.args) if k < len(a)}
                for d, (e, no) in shape.items():
                    if d not in vals or d not in u.args: continue
                    got = evals(e, vals)
                    t = vals[d]
                    pts = mk("p", 1, f.params[1]["n"]) if len(f.params) > 1 else None
                    ob(R5, "%s: length of %s for %s" % (u.name, d, f.name))
                    if got is None: fv("lengthexpr|%s|%s" % (u.name, d), u, no, R5, "the length %s of %s is not one of the arguments" % (e, d)); continue
                    dim = next((x for x in subterms(got) if x.op == "ld" and x.args[0].op == "F" and x.args[0].args[1] == "dim"), None)
                    if t.op == "p" and t.args[0] == 2:
                        if dim is None or got is not mul(pts, dim): fv("length|%s|%s|%s" % (u.name, d, f.name), u, no, R5, "%s gives %s %s elements for %s, which hands it %s points" % (u.name, d, tshow(got), f.name, tshow(pts)))
                    elif t.op == "p" and t.args[0] == 3:
                        users = [g for g in prog.libfuncs if any(x["k"] == "ref" and x["dk"] == "func" and x["n"] == f.name and not is_callee(g, x) for x in walk(g.body))]
                        for g in users:
                            tensor = "Tensor" in g.name
                            ok = got is pts if not tensor else dim is not None and got is mul(mul(dim, dim), pts)
                            if not ok: fv("length|%s|%s|%s" % (u.name, d, g.name), u, no, R5, "%s gives %s %s elements when called by %s for %s" % (u.name, d, tshow(got), f.name, g.name))
                    else:
                        rg = F.ranges()
                        base = t.args[0] if t.op == "addr" else t
                        if base.op == "E" and base.args[1] is ZERO: base = base.args[0]
                        for nd, asg, loc, val, old in F.stores():
                            for x in subterms(val):
                                if x.op == "ld" and x.args[0].op == "E" and x.args[0].args[0] is base: need = x.args[0].args[1]
                                elif x.op == "out" and False: need = None
                                else: continue
                                for ph in sorted({y for y in subterms(need) if y.op == "phi"}, key=lambda y: y.id):
                                    if ph in rg: need = subst(need, lambda y, ph=ph: sub(rg[ph][1], num(1)) if y is ph else None)
                                need = add(need, num(1))
                                ob(R5, "%s: %s reads up to element %s" % (u.name, f.name, tshow(need)))
                                if not psame_(need, got): fv("length|%s|%s|%s" % (u.name, d, f.name), u, no, R5, "%s gives %s %s elements; %s uses %s of them" % (u.name, d, tshow(got), f.name, tshow(need)))
    # ---- 6
    for base in sorted(os.listdir(os.path.join(root, DIR))):
        if not base.endswith(".c"): continue
        mode = None
        for no, line in enumerate(open(os.path.join(root, DIR, base), errors="replace"), 1):
            if re.match(r"\s*#\s*(if|ifdef)\b.*PETSC_HAVE_FORTRAN_CAPS", line): mode = "caps"; seen = {"caps": set(), "lower": set()}
            elif re.match(r"\s*#\s*elif.*PETSC_HAVE_FORTRAN_UNDERSCORE", line): mode = "lower"
            elif re.match(r"\s*#\s*endif", line):
                if mode:
                    for s in stubs.values():
                        if os.path.basename(s.file) != base: continue
                        for md in ("caps", "lower"):
                            if s.name not in seen[md]: viol("mangle|%s|%s" % (s.name, md), Pos(DIR + "/" + base, s.name), no, R6, "%s is not renamed for compilers with %s names" % (s.name, "upper-case" if md == "caps" else "unadorned"))
                mode = None
            m = re.match(r"\s*#\s*define\s+(\w+)\s+(\w+)\s*$", line)
            if mode and m:
                a, b = m.groups()
                seen[mode].add(a)
                ob(R6, "%s %s" % (mode, a))
                exp = a.rstrip("_").upper() if mode == "caps" else a.rstrip("_")
                if b != exp: viol("manglename|%s|%s" % (mode, a), Pos(DIR + "/" + base, a), no, R6, "%s is renamed %s, not %s" % (a, b, exp))
    if ctx: ctx.need(R1, 20); ctx.need(R3, 60); ctx.need(R4, 25)

def evals(e, vals):
    """value of a Fortran shape expression over dummies: products and sums of names and integers"""
    tot = ZERO
    for s in re.split(r"\+", e):
        p = num(1)
        for x in s.split("*"):
            if x.isdigit(): p = mul(p, num(int(x)))
            elif x in vals: p = mul(p, vals[x])
            else: return None
        tot = add(tot, p)
    return tot

def psame_(a, b):
    return sub(a, b) is ZERO

def is_callee(g, x):
    return any(c.get("fe") is x for c in calls(g.body))
