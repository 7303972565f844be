"""Rules: every name table of an enumeration lists its enumerators in value order and ends with the enumeration's name, a
prefix and NULL; every place that offers a table for parsing stores into, defaults from and indexes it with that
enumeration; a string comparison that selects an enumerator compares with that enumerator's name; every integer constant
Fortran declares under an enumerator's name has the C value and, for names, is a permitted spelling of one C enumerator.
Decided by queries over the type-checked syntax tree plus dominance facts of the control-flow graph, and a declaration scan
of the two Fortran headers."""
from ..core import *
from ..gvn import Flow, mk, subterms, tshow

def norm(s): return re.sub(r"[^a-z0-9]", "", s.lower())
def matches(enumerator, name, enum):
    a, b = norm(enumerator), norm(name)
    return a == b or enumerator.endswith("_" + name) or (enumerator.startswith("TDy") and a == "tdy" + b)

def enums_of(prog):
    out = {}
    for td in prog.tus:
        for e in td.enums:
            if e.get("name") and e["file"].startswith(REPO): out[e["name"]] = [(n, v) for n, v in e["consts"]]
    return out

def tables_of(prog):
    out = {}
    for td in prog.tus:
        for g in td.globals:
            i = g.get("init")
            if not i or i["k"] != "initl" or not g["file"].startswith(prog_root(prog)): continue
            a = i["a"]
            if len(a) >= 4 and all(x["k"] == "str" for x in a[:-1]) and a[-1]["k"] in ("nullp", "int", "cast") or \
               len(a) >= 2 and a and all(x["k"] in ("str", "nullp") for x in a) and g["name"].startswith("TDy"):
                out[g["name"]] = (td, g, [x.get("v") if x["k"] == "str" else None for x in a])
    return out

def prog_root(prog): return getattr(prog, "root", REPO)

class F_:   # pseudo function for global positions
    def __init__(self, rel, name): self.rel = rel; self.name = name

def enum_type(f, t):
    """name of the enumeration type of type index t (through typedefs), else None"""
    x = f.types[t]
    if x[2] == "enum": return re.sub(r"^(const\s+|enum\s+)+", "", x[0])
    return None

def etype_of(f, e):
    """enumeration an expression denotes: looks through casts to the innermost enum-typed or other operand"""
    seen = None
    while True:
        t = enum_type(f, e["t"]) if "t" in e else None
        if t and t != "PetscEnum": seen = t
        if e["k"] == "cast": e = e["e"]; continue
        if e["k"] == "un" and e["op"] == "&": e = e["e"]; continue
        if e["k"] == "paren": e = e["e"]; continue
        break
    t = enum_type(f, e["t"]) if "t" in e else None
    return t or seen

def analyse(prog, ob, viol, ctx=None):
    E = enums_of(prog); T = tables_of(prog)
    tab_enum = {}
    for name, (td, g, names) in sorted(T.items()):
        R = "name table lists its enumeration"
        pf = F_(os.path.relpath(g["file"], REPO), name)
        if names[-1] is not None or len(names) < 4 or None in names[:-1]:
            ob(R, name); viol(name + "|end", pf, g["l"], R, "%s does not end with name, prefix, NULL" % name); continue
        ename = names[-3]
        stem = re.sub(r"s$", "", name)
        en = stem if stem in E else ename if ename in E else None
        ob(R, "%s: %d names of %s" % (name, len(names) - 3, en))
        if en is None:
            viol(name + "|enum", pf, g["l"], R, "%s names no enumeration (its third entry from the end is %r)" % (name, ename)); continue
        if ename != en: viol(name + "|typename", pf, g["l"], R, "%s: third entry from the end is %r, expected %r" % (name, ename, en))
        tab_enum[name] = en
        consts = sorted(E[en], key=lambda c: c[1])
        if [v for n, v in consts] != list(range(len(consts))):
            viol(name + "|gap", pf, g["l"], R, "enumerators of %s are not numbered 0..n-1, so positions in %s do not select them" % (en, name)); continue
        got = names[:-3]
        for k in range(max(len(got), len(consts))):
            if k >= len(got): viol("%s|missing|%s" % (name, consts[k][0]), pf, g["l"], R, "%s has no name in %s" % (consts[k][0], name))
            elif k >= len(consts): viol("%s|extra|%s" % (name, got[k]), pf, g["l"], R, "%r in %s selects no enumerator of %s" % (got[k], name, en))
            elif not matches(consts[k][0], got[k], en): viol("%s|%d" % (name, k), pf, g["l"], R, "position %d of %s is %r but value %d of %s is %s" % (k, name, got[k], k, en, consts[k][0]))
    val = {n: (v, en) for en, cs in E.items() for n, v in cs}
    for f in prog.libfuncs:
        body = list(walk(f.body))
        # tables offered to a parser, and subscripted tables
        for x in body:
            if x["k"] == "call" and x.get("fn"):
                tabs = [(j, uncast(a)["n"]) for j, a in enumerate(x["a"]) if uncast(a)["k"] == "ref" and uncast(a)["n"] in T]
                for j, tn in tabs:
                    R = "table is used with its enumeration"
                    ob(R, "%s:%d %s" % (f.rel, x["l"], tn))
                    for k in range(j + 1, len(x["a"])):
                        a = x["a"][k]
                        if f.types[a["t"]][2] in ("ptr",) and not isnull(a) and "PetscBool" in f.types[a["t"]][0]: continue
                        if isnull(a): continue
                        et = etype_of(f, a)
                        if et in (None, "PetscEnum"):
                            u = uncast(a)
                            if u["k"] == "ref" and f.types[u["t"]][2] == "ptr" and "PetscBool" in f.types[u["t"]][0]: continue
                            continue
                        if et in ("PetscBool",): continue
                        if et != tab_enum.get(tn): viol("%s|%s|%d" % (f.name, tn, k), f, x["l"], R, "%s is parsed with %s but %s is a %s" % (show(x["a"][1]) if len(x["a"]) > 1 else tn, tn, show(uncast(a)), et))
            if x["k"] == "idx":
                b = uncast(x["b"])
                if b["k"] == "ref" and b["n"] in T:
                    R = "table is used with its enumeration"
                    ob(R, "%s:%d %s[]" % (f.rel, x["l"], b["n"]))
                    et = etype_of(f, x["i"])
                    if et and et != tab_enum.get(b["n"]): viol("%s|%s[]" % (f.name, b["n"]), f, x["l"], R, "%s is indexed with a %s" % (b["n"], et))
        # enumerators stored into a location of another enumeration, or compared with one
        for x in body:
            pairs = []
            if x["k"] == "asg" and x["op"] == "=": pairs = [(x["l_"], x["r_"])]
            elif x["k"] == "bin" and x["op"] in ("==", "!="): pairs = [(x["l_"], x["r_"]), (x["r_"], x["l_"])]
            elif x["k"] == "var" and x.get("init"): pairs = [(x, x["init"])]
            for l, r in pairs:
                u = uncast(r)
                if u["k"] != "ref" or u.get("dk") != "enum" or u["n"] not in val: continue
                et = etype_of(f, l) if l["k"] != "var" else enum_type(f, l["t"])
                R = "enumerator meets its own enumeration"
                ob(R, "%s:%d %s" % (f.rel, x["l"], u["n"]))
                if et in E and et != val[u["n"]][1]:
                    viol("%s|%s|%s" % (f.name, et, u["n"]), f, x["l"], R, "%s is a %s but is used as a %s" % (u["n"], val[u["n"]][1], et))
        for x in body:
            if x["k"] == "switch":
                et = etype_of(f, x["cond"])
                st, own = [x["body"]], []
                while st:
                    y = st.pop()
                    if y["k"] == "switch": continue
                    own.append(y); st += list(kids(y))
                for y in own:
                    if y["k"] == "case":
                        u = uncast(y["val"]) if isinstance(y.get("val"), dict) else None
                        if u is not None and u["k"] == "ref" and u["n"] in val and et in E:
                            R = "enumerator meets its own enumeration"
                            ob(R, "%s:%d case %s" % (f.rel, y["l"], u["n"]))
                            if val[u["n"]][1] != et: viol("%s|case|%s" % (f.name, u["n"]), f, y["l"], R, "case %s of a switch over %s" % (u["n"], et))
        # strings that select enumerators
        if any(x["k"] == "call" and x.get("fn") in ("strcmp", "strcasecmp", "PetscStrcmp", "PetscStrcasecmp", "strncmp") for x in body) and \
           any(x["k"] == "asg" and uncast(x["r_"])["k"] == "ref" and uncast(x["r_"]).get("dk") == "enum" for x in body):
            F = Flow(prog, f, inline=lambda *a: False)
            for n in F.byid.values():
                if n.id not in F.alive or not n.ast: continue
                for x in walk(n.ast):
                    if x["k"] != "asg" or uncast(x["r_"])["k"] != "ref" or uncast(x["r_"]).get("dk") != "enum" or uncast(x["r_"])["n"] not in val: continue
                    en = uncast(x["r_"])["n"]
                    for a, pol in F.guard_facts(n.id) | F.asserted(n.id):
                        s = eqstring(F, a, pol)
                        if s is None: continue
                        R = "string selects the enumerator it names"
                        ob(R, "%s:%d %r -> %s" % (f.rel, x["l"], s, en))
                        if not matches(en, s, val[en][1]): viol("%s|%s|%s" % (f.name, s, en), f, x["l"], R, "the name %r selects %s" % (s, en))
    return E, T

def eqstring(F, a, pol):
    """the literal a fact says some string equals"""
    for t in subterms(a):
        if t.op == "call" and t.args[0].op == "fn" and t.args[0].args[0] in ("strcmp", "strcasecmp"):
            if a.op == "nz" and a.args[0] is t and not pol or a.op == "eq" and pol:
                for u in t.args[1:]:
                    for z in (u if isinstance(u, tuple) else (u,)):
                        if hasattr(z, "op") and z.op == "str": return z.args[0]
        if t.op == "out" and t.args[2].op == "fn" and t.args[2].args[0] in ("PetscStrcmp", "PetscStrcasecmp") and pol:
            for n, c, args in F.sites(t.args[2].args[0]):
                if n.id == t.args[0] or (isinstance(t.args[0], tuple) and n.id in t.args[0]):
                    for z in args:
                        if z.op == "str": return z.args[0]
    return None

def fortran(prog, E, ob, viol):
    val = {n: (v, en) for en, cs in E.items() for n, v in cs}
    R = "Fortran constant equals the C enumerator"
    for path in ("src/f90-mod/tdycore.h", "include/finclude/tdycore.h"):
        p = os.path.join(REPO, path)
        if not os.path.exists(p): continue
        pf = F_(path, path)
        for ln, line in enumerate(open(p), 1):
            line = re.sub(r"!.*", "", line)
            ds = []
            if not line.lstrip().startswith("#"): ds = re.findall(r"\b([A-Za-z_]\w*)\s*=\s*(-?\d+)\b", line)
            m = re.match(r"\s*#define\s+([A-Za-z_]\w*)\s+(-?\d+)\s*$", line)
            if m: ds = [(m[1], m[2])]
            for n, v in ds:
                n = n.strip(); v = v.strip()
                if not re.match(r"-?\d+$", v): continue
                c = n if n in val else None
                if c is None:
                    alt = [k for k in val if norm(k) == norm(n)]
                    c = alt[0] if len(alt) == 1 else None
                ob(R, "%s:%d %s=%s" % (path, ln, n, v))
                if c is None: viol("%s|%s" % (path, n), pf, ln, R, "%s is no enumerator of the C interface" % n)
                elif int(v) != val[c][0]: viol("%s|%s" % (path, n), pf, ln, R, "%s is %s in Fortran but %d in C" % (n, v, val[c][0]))

def run(ctx):
    ctx.need("name table lists its enumeration", 7); ctx.need("table is used with its enumeration", 6)
    ctx.need("Fortran constant equals the C enumerator", 10); ctx.need("enumerator meets its own enumeration", 40)
    E, T = analyse(ctx.p, ctx.ob, ctx.viol, ctx)
    fortran(ctx.p, E, ctx.ob, ctx.viol)
