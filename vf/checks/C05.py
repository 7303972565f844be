"""Rules: (1) the lifecycle automaton of a dycore, extracted by constant propagation of every lifecycle function from every
reachable value of the set-up flags, is the documented one: calls out of order are refused before anything is changed,
accepted calls reach the documented state; (2) a dycore can be destroyed from every reachable state: nothing that phase has
not yet created is dereferenced; (3) everything the library keeps in global variables is back to its initial value after
finalization or written anew by initialization."""
from ..core import *
from ..gvn import *
from .C06 import enumvals

# function: {state: next state or None (refused)}; states are the sets of flags, by name
M, D, O, S = "TDyModeSet", "TDyDiscretizationSet", "TDyOptionsSet", "TDySetupFinished"
INIT, MODE, DISC, OPT, DONE = (), (M,), (M, D), (M, D, O), (M, D, O, S)
STATES = (INIT, MODE, DISC, OPT, DONE)
only = lambda s, t=None: {x: (t or x) if x == s else None for x in STATES}
AUTOMATON = {
    "TDySetMode": {INIT: MODE, MODE: MODE, DISC: DISC, OPT: None, DONE: None},
    "TDySetDiscretization": {INIT: None, MODE: DISC, DISC: DISC, OPT: None, DONE: None},
    "TDySetDMConstructor": only(DISC),
    "TDySetFromOptions": {INIT: None, MODE: None, DISC: OPT, DONE: None},
    "TDySetup": {INIT: None, MODE: None, DISC: None, OPT: DONE},
}
AFTER = ["TDyUpdateDiagnostics", "TDyCreateDiagnosticVector", "TDyGetLiquidSaturation", "TDyGetLiquidMass", "TDyGetLiquidPressure", "TDyCreatePrognosticVector", "TDyCreateMatrix"]
for n in AFTER: AUTOMATON[n] = only(DONE)

def run(ctx):
    prog = ctx.p
    flags = enumvals(prog, D)
    for n in (M, D, O, S):
        if n not in flags: raise AnalysisBroken("flag %s is missing" % n)
    base = flags.get("TDyCreated", 0) | flags.get("TDyParametersInitialized", 0)
    bits = lambda s: base | sum(flags[n] for n in s)
    if len({flags[n] for n in (M, D, O, S)}) != 4 or any(flags[n] & (flags[n] - 1) or not flags[n] for n in (M, D, O, S)):
        f = prog.func("TDySetup"); ctx.viol("flags", f, f.line, "flags are distinct bits", "the set-up flags are not distinct bits")
    show_ = lambda s: "+".join(x[3:].replace("SetupFinished", "Setup").replace("Set", "", 1 if x != S else 0) for x in s) or "created"
    R1 = "lifecycle automaton is the documented one"
    inl = lambda f: (lambda g, c, s: g.file == f.file and not (c.get("m") or "").startswith("TDY_"))
    byname = {}
    for f in prog.libfuncs: byname.setdefault(f.name, f)
    def tdyparam(f):
        return next((i for i, p in enumerate(f.params) if f.types[p["t"]][1].replace("const ", "").startswith("struct _p_TDy *") and f.types[p["t"]][1].count("*") == 1), None)
    def at(f, s, extra=None):
        k = tdyparam(f)
        o = mk("D", mk("p", k, f.params[k]["n"]))
        def init(env, params):
            env[mk("F", o, "setup_flags")] = num(s)
            if extra: extra(env, o)
        return Flow(prog, f, inline=inl(f), init=init), mk("F", o, "setup_flags")
    for name, table in AUTOMATON.items():
        f = byname.get(name)
        if f is None: ctx.note("%s does not exist" % name); continue
        for s, want in table.items():
            F, loc = at(f, bits(s))
            ok = F.entry.id in F.alive and F.exit.id in F.alive
            ctx.ob(R1, "%s when %s: %s" % (name, show_(s), "accepted" if ok else "refused"))
            if want is None:
                # the call itself may complete what is missing (from the command line): then it has tested that on every path to success
                tested = lambda b: any(pol and x.op == "nz" and x.args[0].op == "b&" and any(cval(y) == b for y in x.args[0].args) for x, pol in F.asserted(F.exit.id))
                if ok and name == "TDySetFromOptions" and s in (INIT, MODE) and tested(flags[D]): ctx.ob(R1, "%s when %s: succeeds only after testing for the discretization" % (name, show_(s)))
                elif ok: ctx.viol("order|%s|%s" % (name, show_(s)), f, f.line, R1, "%s is accepted when the dycore is %s" % (name, show_(s)))
                # nothing may be changed before the refusal
                else:
                    for n in side_effects(prog, f, F, bits(s), tdyparam(f)):
                        ctx.viol("effect|%s|%s" % (name, show_(s)), f, n.line, R1, "%s changes the dycore before refusing the call when it is %s" % (name, show_(s)))
                        break
                continue
            if not ok:
                ctx.viol("refused|%s|%s" % (name, show_(s)), f, f.line, R1, "%s is refused when the dycore is %s" % (name, show_(s))); continue
            got = F.IN[F.exit.id].get(loc)
            vals = {cval(v) for v in values(F, got)} if got is not None else {bits(s)}
            exp = bits(want)
            if vals != {exp}:
                ctx.viol("state|%s|%s" % (name, show_(s)), f, f.line, R1, "%s leaves the flags at %s when the dycore is %s, not %s" % (name, sorted(map(str, vals)), show_(s), exp))
    # nobody else touches the flags
    for f in prog.libfuncs:
        for n in walk(f.body):
            if n["k"] == "asg":
                l = uncast(n["l_"])
                if l["k"] == "mem" and l["f"] == "setup_flags":
                    ctx.ob(R1, "flags written in %s" % f.name)
    # ---- destruction
    R2 = "destruction from every state touches only what exists"
    d = byname.get("TDyDestroy")
    if d is None: raise AnalysisBroken("TDyDestroy is missing")
    made = {INIT: {"TDyCreate"}, MODE: {"TDySetMode"}, DISC: {"TDySetDiscretization", "TDySetDMConstructor"}, OPT: {"TDySetFromOptions"}, DONE: None}
    members = {}
    for f in prog.libfuncs:
        for n in walk(f.body):
            if n["k"] == "mem" and (n.get("r") or "").replace("struct ", "") == "_p_TDy" and f.types[n["t"]][2] == "ptr": members[n["f"]] = f.types[n["t"]]
    members.pop("hdr", None)
    ops = set()
    known = set()
    for s in STATES:
        if made[s] is None: break
        for r in made[s]:
            if r in byname:
                for g in reach(prog, byname[r]): known |= set_members(g)
        null = sorted(set(members) - known)
        tdy = mk("ld", mk("D", mk("p", 0, d.params[0]["n"])), mk("v0"))
        o = mk("D", tdy)
        def init(env, params):
            for m in null: env[mk("F", o, m)] = ZERO
            env[mk("F", o, "setup_flags")] = num(bits(s))
            env[mk("D", mk("p", 0, d.params[0]["n"]))] = tdy
        F = Flow(prog, d, inline=lambda g, c, x: False, init=init, nonnull=[tdy])
        if F.exit.id not in F.alive: ctx.viol("destroy|%s" % show_(s), d, d.line, R2, "TDyDestroy always fails when the dycore is %s" % show_(s)); continue
        for n, c, a in F.sites(lambda c: not (c.get("m") or "").startswith("TDY_")):
            tg = [prog.resolve(d, c["fn"])] if c.get("fn") else [g for nm, g in byname.items() if nm.startswith("TDyDestroy_")] if uncast(c["fe"])["k"] == "mem" and uncast(c["fe"])["f"] == "destroy" and s != INIT and s != MODE else []
            if uncast(c["fe"])["k"] == "mem" if c.get("fe") else False:
                # an operation that may not be there yet
                t = F.callee(n, c)
                ctx.ob(R2, "%s: call through %s" % (show_(s), tshow(t)))
                facts = F.guard_facts(n.id) | F.asserted(n.id)
                if not any((x.op == "nz" and x.args[0] is t and pol) for x, pol in facts):
                    ctx.viol("destroyop|%s" % tshow(t), d, n.line, R2, "TDyDestroy calls %s without a test" % tshow(t))
            for g in tg:
                if g is None or g.body is None: continue
                for j, t in enumerate(a[:len(g.params)]):
                    if t.op == "c" and t.args[0] == 0 and g.types[g.params[j]["t"]][2] == "ptr":
                        ctx.ob(R2, "%s: %s with nothing" % (show_(s), g.name))
                        ln = derefs_null(prog, g, j, False)
                        if ln: ctx.viol("destroynull|%s" % g.name, d, n.line, R2, "TDyDestroy calls %s with a null %s when the dycore is %s; it is dereferenced at %s:%d" % (g.name, g.params[j]["n"], show_(s), g.file, ln))
                    elif t.op == "addr" and F.IN[n.id].get(t.args[0]) is ZERO:
                        ctx.ob(R2, "%s: %s with nothing" % (show_(s), g.name))
                        ln = derefs_null(prog, g, j, True)
                        if ln: ctx.viol("destroynull|%s" % g.name, d, n.line, R2, "TDyDestroy calls %s on %s, null when the dycore is %s; it is dereferenced at %s:%d" % (g.name, tshow(t.args[0]), show_(s), g.file, ln))
                    elif t is tdy or (t.op == "p"):
                        bad = derefs_members(prog, g, j, null)
                        for m, ln in bad:
                            ctx.ob(R2, "%s: %s uses %s" % (show_(s), g.name, m))
                            ctx.viol("destroymember|%s|%s" % (g.name, m), d, n.line, R2, "TDyDestroy calls %s, which uses %s, null when the dycore is %s" % (g.name, m, show_(s)))
    # ---- globals
    R3 = "global state is initial again after finalization"
    fin, ini = byname.get("TDyFinalize"), [byname[n] for n in ("TDyInit", "TDyInitNoArguments") if n in byname]
    if fin is None or not ini: raise AnalysisBroken("TDyInit/TDyFinalize missing")
    hooks = set()
    for f in prog.libfuncs:
        for c in calls(f.body):
            if c.get("fn") == "TDyOnFinalize" and c["a"]:
                x = uncast(c["a"][0])
                while x["k"] == "un" and x["op"] == "&": x = uncast(x["e"])
                if x["k"] == "ref" and x["dk"] == "func": hooks.add(prog.resolve(f, x["n"]))
    final = set(reach(prog, fin))
    for h in hooks:
        if h is not None: final |= set(reach(prog, h))
    G = {}
    for tu in prog.tus:
        for g in tu.globals:
            if "init" in g: G[g["name"]] = (tu, g)
    written = {}
    for f in prog.libfuncs:
        for n, v in global_writes(f): written.setdefault(n, []).append((f, v))
    initial_w = set()
    for i in ini:
        for g in reach(prog, i): initial_w |= unconditional(g)
    ctx.ob(R3, "finalization reaches %d functions, %d shutdown hooks" % (len(final), len(hooks)))
    for name, ws in sorted(written.items()):
        if name not in G: continue
        tu, g = G[name]
        iv = const(uncast(g["init"])) if isinstance(g["init"], dict) else None
        if isinstance(g["init"], dict) and isnull(uncast(g["init"])): iv = 0
        outside = [f for f, v in ws if f not in final]
        if not outside: continue
        ctx.ob(R3, name)
        if iv is None: ctx.note("%s: initial value not a constant" % name); continue
        ok = name in initial_w or any(f in final and v == iv for f, v in ws)
        if not ok:
            f = outside[0]
            ctx.viol("global|%s" % name, f, f.line, R3, "%s, written by %s, keeps its value after TDyFinalize" % (name, ", ".join(sorted({x.name for x in outside}))))
    # what finalization frees is reset where it is freed
    R4 = "freed global is reset"
    for f in sorted(final, key=lambda f: (f.file, f.line)):
        for n in walk(f.body):
            if n["k"] != "call" or not n["a"]: continue
            fn = n.get("fn") or ""
            if not (fn in ("TDyFree", "free") or fn.startswith("kh_destroy_")): continue
            a = uncast(n["a"][0])
            if a["k"] == "ref" and a["dk"] in ("global", "slocal"):
                ctx.ob(R4, "%s in %s" % (a["n"], f.name))
                if not reset_after(f, n, a["n"]):
                    ctx.viol("freed|%s" % a["n"], f, n["l"], R4, "%s is freed by %s but not reset: a later initialization finds the freed memory" % (a["n"], f.name))
    ctx.need(R1, 30); ctx.need(R3, 5); ctx.need(R2, 3)
    ctx.assume("memory of a new PETSc object is zero (PetscHeaderCreate)")

def values(F, t, memo=None):
    """constants t may be, following joins"""
    memo = set() if memo is None else memo
    if t in memo: return set()
    memo.add(t)
    if t.op == "phi":
        out = set()
        for j, _ in F.pred.get(t.args[0], []):
            if j in F.OUT:
                e = F.OUT[j]
                out |= values(F, e[t.args[1]] if t.args[1] in e else F._initial(e, t.args[1]), memo)
        return out
    return {t}

def side_effects(prog, f, F, s, k):
    """nodes that change the dycore on the way to a refusal: evaluated with errors kept"""
    from ..core import CFG
    # walk the original graph along decided conditions only
    loc = mk("F", mk("D", mk("p", k, f.params[k]["n"])), "setup_flags")
    out = []
    def test(e):
        """value of a condition over the flags, or None"""
        e = uncast(e)
        if e["k"] == "bin" and e["op"] in ("==", "!="):
            a, b = test(e["l_"]), test(e["r_"])
            return None if a is None or b is None else int((a == b) == (e["op"] == "=="))
        if e["k"] == "bin" and e["op"] == "&":
            a, b = test(e["l_"]), test(e["r_"])
            return None if a is None or b is None else a & b
        if e["k"] == "bin" and e["op"] in ("&&", "||"):
            a, b = test(e["l_"]), test(e["r_"])
            if e["op"] == "&&": return 0 if a == 0 or b == 0 else None if a is None or b is None else 1
            return 1 if a or b else None if a is None or b is None else 0
        if e["k"] == "un" and e["op"] == "!":
            a = test(e["e"]); return None if a is None else int(not a)
        if e["k"] == "mem" and e["f"] == "setup_flags": return s
        return const(e)
    g = CFG(f)
    st = [g.entry]; seen = {g.entry.id}
    while st:
        n = st.pop()
        succ = n.succ
        if n.kind == "cond":
            v = test(n.ast)
            if v is not None: succ = [(m, lab) for m, lab in n.succ if lab == bool(v)]
        elif n.ast is not None:
            for x in walk(n.ast):
                if x["k"] == "asg":
                    l = uncast(x["l_"])
                    if l["k"] == "mem" and l["f"] != "setup_flags" or l["k"] == "mem": out.append(n)
                if x["k"] == "call" and x.get("fe") and uncast(x["fe"])["k"] == "mem": out.append(n)
        for m, _ in succ:
            if m.id not in seen: seen.add(m.id); st.append(m)
    return out

def reach(prog, f, cache={}):
    if f in cache: return cache[f]
    seen = [f]; todo = [f]; cache[f] = seen
    while todo:
        g = todo.pop()
        if g.body is None: continue
        for c in calls(g.body):
            h = prog.resolve(g, c["fn"]) if c.get("fn") else None
            if h is not None and h not in seen: seen.append(h); todo.append(h)
    return seen

def set_members(f):
    """members of the dycore f assigns or hands to a creator"""
    out = set()
    if f.body is None: return out
    for n in walk(f.body):
        l = None
        if n["k"] == "asg": l = uncast(n["l_"])
        elif n["k"] == "un" and n["op"] == "&": l = uncast(n["e"])
        if l is not None and l["k"] == "mem" and (l.get("r") or "").replace("struct ", "") == "_p_TDy": out.add(l["f"])
        # tdy->x->y = .. means x is there
        while l is not None and l["k"] == "mem":
            l = uncast(l["b"])
            if l["k"] == "mem" and (l.get("r") or "").replace("struct ", "") == "_p_TDy" and n["k"] == "asg": out.add(l["f"])
    return out

def derefs_null(prog, g, j, indirect, depth=0):
    """line at which g, given a null parameter j (or the address of a null pointer), dereferences it"""
    P = mk("p", j, g.params[j]["n"])
    def init(env, params):
        if indirect: env[mk("D", P)] = ZERO
    F = Flow(prog, g, inline=lambda h, c, s: False, bind=None if indirect else {g.params[j]["n"]: ZERO}, init=init)
    if F.exit.id not in F.alive: return None
    for i in F.rpo:
        n = F.byid[i]
        if n.ast is None: continue
        for x in walk(n.ast):
            b = None
            if x["k"] == "mem" and x.get("arrow"): b = x["b"]
            elif x["k"] == "idx": b = x["b"]
            elif x["k"] == "un" and x["op"] == "*": b = x["e"]
            if b is not None and F.ev(b, dict(F.IN[i]), i) is ZERO:
                # &p->member only computes an address, reading or writing it does not
                return x["l"]
        if depth < 3:
            for c in calls(n.ast):
                h = prog.resolve(g, c["fn"]) if c.get("fn") else None
                if h is None or h.body is None or (c.get("m") or "").startswith("TDY_"): continue
                for k, a in enumerate(c["a"][:len(h.params)]):
                    if h.types[h.params[k]["t"]][2] == "ptr" and F.ev(a, dict(F.IN[i]), i) is ZERO:
                        r = derefs_null(prog, h, k, False, depth + 1)
                        if r: return r
    return None

def derefs_members(prog, g, j, null):
    """members of the dycore that g dereferences unconditionally although they are null"""
    P = mk("p", j, g.params[j]["n"])
    if not g.types[g.params[j]["t"]][1].startswith("struct _p_TDy *"): return []
    def init(env, params):
        for m in null: env[mk("F", mk("D", P), m)] = ZERO
    F = Flow(prog, g, inline=lambda h, c, s: False, init=init)
    if F.exit.id not in F.alive: return []
    out = []
    for i in F.rpo:
        n = F.byid[i]
        if n.ast is None: continue
        for x in walk(n.ast):
            if x["k"] == "mem" and x.get("arrow"):
                b = uncast(x["b"])
                if F.ev(x["b"], dict(F.IN[i]), i) is ZERO: out.append((b.get("f") or b.get("n") or "?", x["l"]))
    return out

def global_writes(f):
    for n in walk(f.body):
        if n["k"] == "asg":
            l = uncast(n["l_"])
            if l["k"] == "ref" and l["dk"] == "global": yield l["n"], value_of(n)
        elif n["k"] == "un" and n["op"] in ("++", "--"):
            l = uncast(n["e"])
            if l["k"] == "ref" and l["dk"] == "global": yield l["n"], "step"
        elif n["k"] == "un" and n["op"] == "&":
            l = uncast(n["e"])
            if l["k"] == "ref" and l["dk"] == "global": yield l["n"], "out"

def value_of(n):
    if n["op"] != "=": return "step"
    r = uncast(n["r_"])
    if r["k"] == "asg": return value_of(r)
    if isnull(r): return 0
    c = const(r)
    return c if c is not None else "?"

def unconditional(g):
    """globals g writes, without reading them first, whenever it gets past its early exits"""
    out = set()
    top = g.body.get("b", []) if g.body is not None and g.body["k"] == "comp" else []
    read = set()
    for s in top:
        if s["k"] in ("if", "for", "while", "do", "switch"):
            for n in walk(s):
                if n["k"] == "ref" and n["dk"] == "global": read.add(n["n"])
            continue
        for n in walk(s):
            l = None
            if n["k"] == "asg" and n["op"] == "=": l = uncast(n["l_"])
            elif n["k"] == "un" and n["op"] == "&": l = uncast(n["e"])
            if l is not None and l["k"] == "ref" and l["dk"] == "global" and l["n"] not in read: out.add(l["n"])
    return out

def reset_after(f, call, name):
    g = CFG(f)
    start = [n for n in g.nodes if n.ast is not None and any(x is call for x in walk(n.ast))]
    if not start: return True
    seen = set(); st = [m for n in start for m, _ in n.succ]
    while st:
        n = st.pop()
        if n.id in seen: continue
        seen.add(n.id)
        if n.kind == "ret" and is_error_return(f, n): continue
        if n.ast is not None and any(x["k"] == "asg" and x["op"] == "=" and uncast(x["l_"])["k"] == "ref" and uncast(x["l_"])["n"] == name for x in walk(n.ast)): continue
        if n is g.exit: return False
        st.extend(m for m, _ in n.succ)
    return True
