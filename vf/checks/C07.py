"""Rules: every documented option is read; the value read is still in its own setting when the reader returns, no other option
or later statement replaces it, and the value offered as default is the value the setting has; options that act through a
call hand the value read to that call; settings that hold constants for a quantity are used for that quantity only, settings
copied to a component land in the field of the same meaning, and curve parameters are packed at the offsets at which the
curves unpack them; every setting is consulted outside the reader; defaults are installed before options are read.
Decided by value numbering over the control-flow graphs and by queries on all uses of the settings records."""
from ..core import *
from ..gvn import *
from .C08 import quantities, name_quantity

# documented option -> where its value goes: field of a record, ("call", function, argument), flag field of Get* forms
SPEC = {
 "-tdy_porosity": ("f", "porosity"), "-tdy_permeability": ("f", "permeability"), "-tdy_soil_density": ("f", "soil_density"),
 "-tdy_soil_specific_heat": ("f", "soil_specific_heat"), "-tdy_thermal_conductivity": ("f", "thermal_conductivity"),
 "-tdy_residual_saturation": ("f", "residual_saturation"), "-tdy_gardner_param_n": ("f", "gardner_n"),
 "-tdy_vangenuchten_param_m": ("f", "vangenuchten_m"), "-tdy_vangenuchten_param_alpha": ("f", "vangenuchten_alpha"),
 "-tdy_gravity": ("f", "gravity_constant"), "-tdy_water_density": ("f", "rho_type"), "-tdy_water_viscosity": ("f", "mu_type"),
 "-tdy_water_enthalpy": ("f", "enthalpy_type"), "-tdy_mode": ("call", "TDySetMode"), "-tdy_discretization": ("call", "TDySetDiscretization"),
 "-tdy_pressure_bc_func": ("call", "TDySelectBoundaryPressureFunction"), "-tdy_pressure_bc_value": ("f", "boundary_pressure"),
 "-tdy_velocity_bc_func": ("call", "TDySelectBoundaryVelocityFunction"), "-tdy_velocity_bc_value": ("f", "boundary_velocity"),
 "-tdy_temperature_bc_func": ("call", "TDySelectBoundaryTemperatureFunction"), "-tdy_temperature_bc_value": ("f", "boundary_temperature"),
 "-tdy_init_with_random_field": ("f", "init_with_random_field"), "-tdy_init_file": ("f", "init_file", "init_from_file"),
 "-tdy_read_mesh": ("f", "mesh_file", "read_mesh"), "-tdy_read_pflotran_mesh": ("f", "mesh_file", "read_pflotran_mesh"),
 "-tdy_output_mesh": ("f", "output_mesh"), "-tdy_regression_test": ("f", "regression_testing"),
 "-tdy_final_time": ("f", "final_time"), "-tdy_dt_max": ("f", "dt_max"), "-tdy_dt_init": ("f", "dt_init"),
 "-tdy_dt_growth_factor": ("f", "dt_growth_factor"), "-tdy_dt_reduction_factor": ("f", "dt_reduction_factor"),
 "-tdy_time_integration_method": ("sel", "time_integration_method"),
 "-init_permeability_file": ("f", "permeability_filename"), "-permeability_dataset": ("f", "permeability_dataset"),
 "-init_porosity_file": ("f", "porosity_filename"), "-porosity_dataset": ("f", "porosity_dataset"),
 "-ic_file": ("f", "ic_filename"), "-ic_dataset": ("f", "ic_dataset"), "-anisotropic_perm": ("f", "anisotropic_permeability"),
 "-enable_checkpoint": ("f", "enable_checkpoint"), "-checkpoint_timestep_interval": ("f", "checkpoint_timestep_interval"),
 "-output_timestep_interval": ("f", "output_timestep_interval"), "-tdy_quadrature": ("f", "qtype"),
 "-tdy_mpfao_gmatrix_method": ("f", "gmatrix_method"), "-tdy_mpfao_boundary_condition_type": ("f", "bc_type"),
 "-tdy_fvtpf_boundary_condition_type": ("f", "bc_type"), "-tdy_regression_test_filename": ("f", "filename"),
 "-tdy_regression_test_num_cells_per_process": ("f", "num_cells_per_process"), "-tdy_timers": ("guard", "TDyEnableTimers"),
}
SHARED = {"mesh_file"}
# settings copied into components: option field -> component fields of the same meaning
COPY = {"rho_type": {"density_type", "rho_type"}, "mu_type": {"viscosity_type", "mu_type"}, "enthalpy_type": {"enthalpy_type"},
        "gravity_constant": {"gravity", "gravity_constant"}, "mode": {"mode"}, "discretization": {"discretization"}}

def argpos(fn, n):
    """positions of (name, current value, destination, set flag)"""
    if fn == "PetscOptionsString_Private": return 1, 4, 5, 7
    if fn == "PetscOptionsEnum_Private": return 1, 5, 6, 7
    if re.match(r"PetscOptions(Real|Int|Bool|Scalar)_Private$", fn): return 1, 4, 5, 6
    if fn == "PetscOptionsGetString": return 2, None, 3, 5
    if re.match(r"PetscOptionsGet(Bool|Int|Real)$", fn): return 2, None, 3, 4
    return None

def expand(F, t, seen=None):
    """terms a value may be, through joins"""
    if seen is None: seen = set()
    if t in seen: return seen
    seen.add(t)
    if t.op == "phi":
        for p, _ in F.pred[t.args[0]]:
            if p in F.alive and p in F.OUT:
                e = F.OUT[p]
                v = e.get(t.args[1])
                if v is None:
                    try: v = F._initial(e, t.args[1])
                    except Exception: continue
                expand(F, v, seen)
    elif t.op == "ite":
        expand(F, t.args[1], seen); expand(F, t.args[2], seen)
    return seen

def locof(t):
    if t is None: return None
    if t.op == "addr": return t.args[0]
    return None

def reads(F):
    for n, c, args in F.sites(lambda c: (c.get("fn") or "").startswith("PetscOptions")):
        pos = argpos(c["fn"], len(args))
        if pos is None or pos[0] >= len(args): continue
        nm = args[pos[0]]
        yield n, c, args, (nm.args[0] if nm.op == "str" else None), pos

def calleename(F, n, c):
    if c.get("fn"): return c["fn"]
    t = F.callee(n, c) if c.get("fe") is not None else None
    return t.args[0] if t is not None and t.op == "fn" and isinstance(t.args[0], str) else ""

def sitesof(F, rx):
    """call sites of functions whose name matches, also when they are reached through a function pointer"""
    for n, c, a in F.sites(lambda c: True):
        if re.match(rx, calleename(F, n, c)): yield n, c, a

def helper(f): return lambda g, c, s: g.static and g.file == f.file and not (c.get("m") or "").startswith("TDY_")

def outermost(prog, fs):
    """the functions of fs, a file's own (static) helpers replaced by the functions that call them: these are analysed as
    part of their callers, where the option names and the destinations are known"""
    callers = {}
    for f in prog.libfuncs:
        for c in calls(f.body):
            g = prog.resolve(f, c["fn"]) if c.get("fn") else None
            if g is not None and g.static and g.file == f.file and g is not f: callers.setdefault(g, set()).add(f)
    out, seen, st = [], set(), list(fs)
    while st:
        f = st.pop(0)
        if f in seen: continue
        seen.add(f)
        if f in callers: st += sorted(callers[f], key=lambda g: g.line)
        else: out.append(f)
    return out

def unit(prog, f):
    """f and the static functions of its file that it calls"""
    out = []; st = [f]
    while st:
        g = st.pop()
        if g is None or g in out or g.body is None: continue
        if g is not f and not (g.static and g.file == f.file): continue
        out.append(g)
        st += [prog.resolve(g, c["fn"]) for c in calls(g.body) if c.get("fn")]
    return out

def run(ctx): analyse(ctx.p, ctx.ob, ctx.viol, ctx)

def analyse(prog, ob, viol, ctx):
    ctx.need("option is read into its setting", 40); ctx.need("default offered is the value in effect", 20)
    ctx.need("setting is consulted", 30); ctx.need("setting is used for its own quantity", 6); ctx.need("setting is copied to its own field", 15)
    ctx.need("curve parameter slot", 12)
    readers = []
    called_by = {}
    for f in prog.libfuncs:
        if any((c.get("fn") or "").startswith("PetscOptions") and argpos(c["fn"], 9) for c in calls(f.body)): readers.append(f)
    readers = outermost(prog, readers)
    found = {}
    settings = {}     # field -> set(record)
    for f in readers:
        F = Flow(prog, f, inline=helper(f))
        mine = list(reads(F))
        dest = {}
        for n, c, args, name, pos in mine:
            if name is None: ctx.note("%s:%d: option name not constant" % (f.rel, n.line)); continue
            found.setdefault(name, []).append((f, n))
            R = "option is read into its setting"
            ob(R, "%s:%d %s" % (f.rel, n.line, name))
            key = "%s|%s" % (f.name, name)
            d = args[pos[2]]
            loc = locof(d) or (d.args[0] if d.op == "ld" else None)
            if loc is not None and d.op == "ld": loc = mk("D", d)
            arr = None
            if c["fn"] in ("PetscOptionsString_Private", "PetscOptionsGetString"):
                arr = fieldname_of(c["a"][pos[2]])
            fld = arr or (loc.args[1] if loc is not None and loc.op == "F" else None)
            spec = SPEC.get(name)
            # facts under which the option is read: only other options' presence
            for a, pol in F.guard_facts(n.id):
                if any(t.op == "out" and t.args[2].op == "fn" and str(t.args[2].args[0]).startswith("PetscOptions") for t in subterms(a)): continue
                if any(t.op in ("out", "call") for t in subterms(a)) and name not in SPEC: continue
                if any(t.op == "ld" and t.args[0].op == "V" for t in subterms(a)): continue     # internals of the options macros
                if any(t.op in ("phi",) for t in subterms(a)): continue
                if any("PetscOptionsObject" in tshow(t) or "count" in tshow(t) for t in subterms(a)): continue
                if any(t.op == "F" and t.args[1] in ("regression_testing", "read_mesh") for t in subterms(a)): continue
                if any(t.op == "G" for t in subterms(a)): continue      # once-only initialisation
                if spec: viol(key + "|guard", f, n.line, R, "%s is only honoured if %s%s" % (name, "" if pol else "not ", tshow(a)))
            if spec is None:
                ctx.note("%s:%d: option %s has no entry in the table of documented options" % (f.rel, n.line, name)); 
            # value offered as default
            if pos[1] is not None and c["fn"] != "PetscOptionsString_Private" and loc is not None:
                R2 = "default offered is the value in effect"
                ob(R2, "%s:%d %s" % (f.rel, n.line, name))
                cur = F.IN[n.id].get(loc)
                if cur is None: cur = F._initial(F.IN[n.id], loc)
                dv = args[pos[1]]
                if cval(dv) is not None and cval(cur) is None:
                    inst = {const(x["r_"]) for g in prog.libfuncs for x in walk(g.body) if x["k"] == "asg" and uncast(x["l_"])["k"] == "mem" and
                            uncast(x["l_"])["f"] == fld and uncast(x["l_"]).get("r") == recof(c["a"][pos[2]])} - {None}
                    if not inst or cval(dv) in inst: continue_default = True
                    else: continue_default = False
                else: continue_default = dv is cur
                if not continue_default: viol(key + "|default", f, n.line, R2, "%s shows %s as its default but %s holds %s" % (name, tshow(args[pos[1]]), tshow(loc), tshow(cur)))
            elif c["fn"] == "PetscOptionsString_Private":
                R2 = "default offered is the value in effect"
                ob(R2, "%s:%d %s" % (f.rel, n.line, name))
                if args[pos[1]] is not d: viol(key + "|default", f, n.line, R2, "%s offers %s as its default but is stored in %s" % (name, tshow(args[pos[1]]), tshow(d)))
            # destination
            exitenv = F.OUT.get(F.exit.id) or F.IN[F.exit.id]
            isout = lambda t: t.op == "out" and t.args[0] == n.id
            if spec and spec[0] == "f":
                ok = fld == spec[1]
                if fld is None or loc is not None and loc.op == "V" and arr is None:
                    # local, then stored in the field
                    ok = False
                    for l, v in exitenv.items():
                        if l.op == "F" and l.args[1] == spec[1] and any(isout(t) for t in expand(F, v)): ok = True
                    for nd, a, l, v, old in F.stores():
                        if l.op == "F" and l.args[1] == spec[1] and any(isout(t) for t in expand(F, v)): ok = True
                    if not ok: viol(key + "|dest", f, n.line, R, "the value of %s does not reach the setting %s" % (name, spec[1]))
                elif not ok: viol(key + "|dest", f, n.line, R, "%s is stored in %s instead of %s" % (name, fld, spec[1]))
                elif loc is not None and arr is None:
                    v = exitenv.get(loc)
                    if v is None or not any(isout(t) for t in expand(F, v)):
                        viol(key + "|lost", f, n.line, R, "the value of %s is overwritten before the reader returns (%s holds %s)" % (name, fld, tshow(v) if v is not None else "?"))
                settings.setdefault(fld or spec[1], set()).add(f)
                if len(spec) > 2:
                    fl = args[pos[3]]
                    l2 = locof(fl)
                    f2 = l2.args[1] if l2 is not None and l2.op == "F" else None
                    if f2 != spec[2]: viol(key + "|flag", f, n.line, R, "presence of %s is recorded in %s instead of %s" % (name, f2, spec[2]))
                    elif not any(isout(t) for t in expand(F, exitenv.get(l2, mk("?")))): viol(key + "|flaglost", f, n.line, R, "presence of %s is overwritten before the reader returns" % name)
                    settings.setdefault(spec[2], set()).add(f)
            elif spec and spec[0] in ("call", "sel", "guard"):
                ok = False
                if spec[0] == "call":
                    for m, cc, aa in sitesof(F, re.escape(spec[1]) + "$"):
                        for a in aa:
                            l2 = locof(a)
                            if any(isout(t) for x in expand(F, a) for t in [x]) or l2 is not None and (l2 is loc or l2 is base_arr(d)) or a is d: ok = True
                elif spec[0] == "guard":
                    for m, cc, aa in sitesof(F, re.escape(spec[1]) + "$"):
                        if any(isout(t) for a, p in F.guard_facts(m.id) for x in subterms(a) for t in expand(F, x)): ok = True
                else:
                    ok = any(l.op == "F" and l.args[1] == spec[1] for nd, a, l, v, old in F.stores())
                if not ok: viol(key + "|use", f, n.line, R, "the value of %s is not handed to %s" % (name, spec[1]))
            # two options writing one location
            k = (loc, fld) if loc is not None else None
            if fld and fld not in SHARED:
                if (fld, tshow(loc) if loc is not None else "") in dest and name != dest[(fld, tshow(loc) if loc is not None else "")]:
                    viol(key + "|shared", f, n.line, R, "%s and %s are stored in the same setting %s" % (dest[(fld, tshow(loc) if loc is not None else "")], name, fld))
                dest[(fld, tshow(loc) if loc is not None else "")] = name
            # a constant given with a value option is registered
        for n, c, args, name, pos in mine:
            if name is None or not name.endswith("_bc_value"): continue
            R = "boundary value option registers its value"
            ob(R, name)
            want = SPEC.get(name, (None, None))[1]
            ok = False
            for m, cc, aa in sitesof(F, r"(ConditionsSet|TDySet)Constant"):
                if any(t.op == "out" and t.args[0] == n.id for a in aa for t in expand(F, a)):
                    ok = True
                    if want and norm(want) not in norm(calleename(F, m, cc)): viol("%s|%s|route" % (f.name, name), f, m.line, R, "%s registers %s" % (name, calleename(F, m, cc)))
                    gf = F.guard_facts(m.id)
                    if not any(p and any(t.op == "out" and t.args[0] == n.id for x in subterms(a) for t in expand(F, x)) for a, p in gf):
                        viol("%s|%s|when" % (f.name, name), f, m.line, R, "%s registers its value although the option was not given" % name)
            if not ok: viol("%s|%s|noreg" % (f.name, name), f, n.line, R, "the value of %s is not registered as a boundary condition" % name)
    for name, spec in SPEC.items():
        if name not in found and name in SPEC:
            R = "option is read into its setting"
            viol("option|%s" % name, None, 0, R, "documented option %s is never read" % name, file="src")
    # --- every setting is consulted outside its reader
    R = "setting is consulted"
    uses = {}
    for f in prog.libfuncs:
        for x in field_reads(f): uses.setdefault(x["f"], set()).add((f.name, x.get("r", "")))
    for fld, rs in sorted(settings.items()):
        for r in rs:
            ob(R, "%s (%s)" % (fld, r.name))
            recs = {x.get("r", "") for g in unit(prog, r) for x in walk(g.body) if x["k"] == "mem" and x["f"] == fld}
            us = {u for u, rec in uses.get(fld, set()) if (not recs or rec in recs)}
            if not us and fld not in DRIVER: viol("unused|%s|%s" % ("/".join(sorted(x.replace("struct ", "") for x in recs)), fld), r, r.line, R, "the setting %s read from the command line is never consulted" % fld)
    # --- quantities
    Q = quantities(prog)
    R = "setting is used for its own quantity"
    SETC = r"(ConditionsSet|MaterialPropSet|TDySet)Constant"
    users = [f for f in prog.libfuncs if any(re.match(SETC, x.get("fn") or (x.get("n", "") if x["k"] == "ref" else "")) for x in walk(f.body) if x["k"] in ("call", "ref"))]
    for f in outermost(prog, users):
        F = Flow(prog, f, inline=helper(f))
        for n, c, args in sitesof(F, SETC):
            fn = calleename(F, n, c)
            nq = name_quantity(fn, Q)
            if not nq: continue
            got = set()
            for a in args[1:]:
                for t in expand(F, a):
                    # a setting, or what reading an option made of it
                    l = t.args[0] if t.op == "ld" else t.args[0] if t.op == "addr" else None
                    if t.op == "out":
                        m = F.byid[t.args[0]]
                        for m2, c2, a2 in F.sites(lambda c: True):
                            if m2 is m:
                                l2 = locof(a2[t.args[1]]) if t.args[1] < len(a2) else None
                                if l2 is not None and l2.op == "F": l = l2
                    if l is not None and l.op == "F" and tshow(l.args[0]).endswith("options"): got.add(l.args[1])
            for u in sorted(got):
                ob(R, "%s:%d %s -> %s" % (f.rel, n.line, u, fn))
                if u != nq[0]: viol("%s|%s|quantity" % (f.name, nq[0]), f, n.line, R, "%s is used as the constant %s" % (u, nq[0]))
    # --- copies of settings
    R = "setting is copied to its own field"
    for f in prog.libfuncs:
        for x in walk(f.body):
            if x["k"] != "asg" or x["op"] != "=": continue
            l, r = uncast(x["l_"]), uncast(x["r_"])
            if l["k"] == "idx": l = uncast(l["b"])
            if r["k"] == "mem" and l["k"] == "mem" and "options" in show(r["b"]) and "options" not in show(l["b"]):
                ob(R, "%s:%d %s -> %s" % (f.rel, x["l"], r["f"], l["f"]))
                want = COPY.get(r["f"], {r["f"]})
                if l["f"] not in want: viol("%s|copy|%s" % (f.name, l["f"]), f, x["l"], R, "the setting %s is copied to %s" % (r["f"], l["f"]))
    # setters that keep a setting chosen by the program
    for fn, fld in (("TDySetWaterDensityType", "rho_type"), ("TDySetWaterViscosityType", "mu_type"), ("TDySetWaterEnthalpyType", "enthalpy_type"),
                    ("TDySetMode", "mode"), ("TDySetDiscretization", "discretization")):
        f = look(prog, fn)
        if f is None or f.body is None: continue
        F = Flow(prog, f, inline=lambda g, c, s: g.static)
        ob(R, fn)
        env = F.OUT.get(F.exit.id) or F.IN[F.exit.id]
        vs = [(l, v) for l, v in env.items() if l.op == "F" and l.args[1] == fld and l.args[0].op == "F" and l.args[0].args[1] == "options"]
        if not any(v.op == "p" and v.args[0] == 1 for l, v in vs): viol("%s|keeps" % fn, f, f.line, R, "%s does not keep its argument in %s" % (fn, fld))
    # --- defaults precede
    R = "defaults are installed before options are read"
    cg = prog.callgraph()
    def reach(n0):
        seen, st = set(), [n0]
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n)
            g = look(prog, n)
            if g is not None and g.body is not None: st += [c["fn"] for c in calls(g.body) if c.get("fn")]
        return seen
    late = set()
    for r in ("TDySetFromOptions", "TDySetup", "TDyDriverInitializeTDy", "TDyTimeIntegratorRunToTime", "TDyUpdateState"):
        if look(prog, r): late |= reach(r)
    for f in prog.libfuncs:
        for x in walk(f.body):
            if x["k"] == "asg":
                l = uncast(x["l_"])
                if l["k"] == "mem" and l.get("r", "TDyOptions") == "TDyOptions" and "options" in show(l["b"]):
                    ob(R, "%s:%d %s" % (f.rel, x["l"], l["f"]))
                    if f.name in late and const(x["r_"]) is not None: viol("%s|late|%s" % (f.name, l["f"]), f, x["l"], R, "%s is reset to a constant after options may have been read" % l["f"])
    curves(prog, ob, viol, ctx)

def look(prog, n):
    if not hasattr(prog, "_byname"):
        prog._byname = {}
        for f in prog.functions:
            if f.body is not None: prog._byname.setdefault(f.name, f)
    return prog._byname.get(n)
def norm(s): return re.sub(r"[^a-z0-9]", "", s.lower())
def base_arr(d): return d.args[0] if d.op in ("ptr", "addr") else None
def recof(a):
    u = uncast(a)
    if u["k"] == "un" and u["op"] == "&": u = uncast(u["e"])
    return u.get("r") if u["k"] == "mem" else None
def fieldname_of(a):
    u = uncast(a)
    if u["k"] == "un" and u["op"] == "&": u = uncast(u["e"])
    if u["k"] == "idx": u = uncast(u["b"])
    return u["f"] if u["k"] == "mem" else None

DRIVER = {"final_time"}     # consulted by the driver programs, which pass it to TDyTimeIntegratorRunToTime
def field_reads(f):
    """member expressions whose value is used: not store targets, not operands of an option reader, not merely compared"""
    st = [f.body]
    while st:
        x = st.pop()
        if x is None: continue
        if x["k"] == "mem": yield x
        if x["k"] == "asg":
            st.append(x["r_"])
            l = uncast(x["l_"])
            if l["k"] == "mem" and x["op"] == "=": st.append(l["b"])
            else: st.append(l)
            continue
        if x["k"] == "call" and (x.get("fn") or "").startswith("PetscOptions"): continue
        if x["k"] == "if":
            q = uncast(x["cond"])
            arms = [y for y in kids(x) if y is not x.get("cond")]
            only = {z["f"] for y in arms for z in walk(y) if z["k"] == "mem"}
            if q is not None:
                for z in walk(q):
                    if z["k"] == "mem" and z["f"] not in only or z["k"] == "mem" and not stores_only(arms, z["f"]): yield z
            st += arms; continue
        st += kids(x)
def stores_only(arms, fld):
    return any(z["k"] == "asg" and uncast(z["l_"])["k"] == "mem" and uncast(z["l_"])["f"] == fld for y in arms for z in walk(y))

CURVES = {  # evaluator -> meaning of its leading scalar parameters comes from its own parameter names
 "SAT": re.compile(r"PressureSaturation_"), "KR": re.compile(r"RelativePermeability_(Irmay|Mualem)$")}

def curves(prog, ob, viol, ctx):
    """offset -> parameter name at which curve evaluation unpacks, against offset -> setting packed by SetType callers"""
    R = "curve parameter slot"
    layout = {}
    for f in prog.libfuncs:
        if not any(re.match(r"(PressureSaturation_|RelativePermeability_(Irmay|Mualem)$)", c.get("fn") or "") for c in calls(f.body)): continue
        F = Flow(prog, f, inline=lambda g, c, s: False)
        for n, c, args in F.sites(lambda c: re.match(r"(PressureSaturation_|RelativePermeability_(Irmay|Mualem)$)", c.get("fn") or "")):
            g = look(prog, c["fn"])
            for j, a in enumerate(args):
                k = slot(a)
                if k is None: continue
                stride, off = k
                pn = g.params[j]["n"]
                ob(R, "%s:%d %s takes %s at %d of %d" % (f.rel, n.line, c["fn"], pn, off, stride))
                lay = layout.setdefault(c["fn"], {})
                if pn in lay and lay[pn][:2] != (stride, off):
                    viol("%s|%s|%s" % (f.name, c["fn"], pn), f, n.line, R, "%s takes %s from slot %d of %d here but from slot %d of %d in %s" % (c["fn"], pn, off, stride, lay[pn][1], lay[pn][0], lay[pn][2]))
                lay.setdefault(pn, (stride, off, f.name))
    enum = {"SAT_FUNC_VAN_GENUCHTEN": "PressureSaturation_VanGenuchten", "SAT_FUNC_GARDNER": "PressureSaturation_Gardner",
            "REL_PERM_FUNC_MUALEM": "RelativePermeability_Mualem", "REL_PERM_FUNC_IRMAY": "RelativePermeability_Irmay"}
    for f in prog.libfuncs:
        if not any(c.get("fn") in ("SaturationSetType", "RelativePermeabilitySetType") for c in calls(f.body)) or f.name in ("SaturationSetType", "RelativePermeabilitySetType"): continue
        F = Flow(prog, f, inline=lambda g, c, s: g.static)
        sites = F.sites(lambda c: c.get("fn") in ("SaturationSetType", "RelativePermeabilitySetType"))
        for n, c, args in sites:
            e = uncast(c["a"][1])
            ev = enum.get(e.get("n")) if e["k"] == "ref" else None
            if ev is None or ev not in layout: continue
            arr = args[4]
            base = arr.args[0] if arr.op in ("addr", "ptr") else None
            for nd, a, l, v, old in F.stores():
                if l.op != "E" or base is None or l.args[0] is not base: continue
                so = slot_index(l.args[1])
                if so is None: continue
                stride, off = so
                fld = v.args[0].args[1] if v.op == "ld" and v.args[0].op == "F" else None
                if fld is None: continue
                ob(R, "%s:%d %s packed at %d of %d for %s" % (f.rel, nd.line, fld, off, stride, ev))
                mean = re.sub(r"^(vangenuchten|mualem|gardner)_", "", fld)
                for pn, (st, o, where) in layout[ev].items():
                    if st != stride: viol("%s|%s|stride" % (f.name, ev), f, nd.line, R, "packs %d parameters per point, %s unpacks %d" % (stride, ev, st))
                    elif pn == mean and o != off: viol("%s|%s|%s" % (f.name, ev, pn), f, nd.line, R, "%s is packed at slot %d but %s takes %s from slot %d" % (fld, off, ev, pn, o))
                    elif o == off and pn != mean and pn != "poly_coeffs": viol("%s|%s|%s" % (f.name, ev, pn), f, nd.line, R, "slot %d holds %s but %s takes it as %s" % (off, fld, ev, pn))

def slot_index(t):
    """index = stride*i + offset with one symbolic counter"""
    d = poly(t)
    off = 0; stride = None
    for m, k in d.items():
        if m == (): off = int(k)
        elif len(m) == 1 and stride is None: stride = int(k)
        else: return None
    return (stride, off) if stride is not None else None
def slot(a):
    """(stride, offset) of an argument loaded from (or pointing into) a parameters array"""
    if a.op == "ld" and a.args[0].op == "E" and "parameters" in tshow(a.args[0].args[0]): return slot_index(a.args[0].args[1])
    if a.op == "ld" and a.args[0].op == "D" and "parameters" in tshow(a.args[0]): return None
    if a.op == "addr" and a.args[0].op == "E" and "parameters" in tshow(a.args[0].args[0]): return slot_index(a.args[0].args[1])
    if a.op == "ptr" and "parameters" in tshow(a.args[0]): return slot_index(a.args[1])
    return None
