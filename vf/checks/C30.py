"""Saturation and relative-permeability curves are evaluated through two routes: on all points, and on a list of points.  Both
routes are read as maps over array elements.  Rules: at every evaluation of a curve the inputs and outputs are the elements of
one and the same point, the parameters are those of the record that belongs to that point, record and point belong to the same
curve type, and the two routes pass the same parameters to the same curve; every record of every type is visited; looked-up
records are used only when the look-up succeeded; the look-up tables hold each point under its own record and are dropped when
the assignment of points changes; assignments copy as many values as the evaluation reads; and the setup of each discretization
puts each setting in the slot that the curve reads as that parameter."""
from ..elem import *
from .C11 import decide, settle, last, last_val

CURVE = re.compile(r"^(PressureSaturation_|RelativePermeability_(?!.*(Coeffs|Unsmoothed)))")
SET = ("SaturationSetType", "RelativePermeabilitySetType")
def keep(n): return bool(CURVE.match(n)) or n.startswith("kh_")

def sitesof(S):
    return S.F.sites(lambda c: bool(CURVE.match(c.get("fn") or "")))

def typevals(S, n, used):
    """(counter over curve types whose value is used, values it may have at node n)"""
    out = None
    for t, (lo, hi, st, ok) in S.F.ranges().items():
        if S.F.dominates(t.args[0], n) and S.value(t, n) in used and cval(lo) is not None and isinstance(hi, T) and cval(hi) is not None and abs(st) == 1 and cval(hi) - cval(lo) <= 8:
            vals = []
            for v in range(int(cval(lo)), int(cval(hi))):
                ok = True
                for g, b in S.F.guard_facts(n):
                    if g.op == "sw":
                        if S.value(g.args[0], n) is S.value(t, n):
                            ok = ok and (b == ("case", v) or isinstance(b, tuple) and b[-1] == v)
                        continue
                    if t not in subterms(g): continue
                    r = decide(g, lambda x: v if x is t else None)
                    if r is not None and r != b: ok = False
                if ok: vals.append(v)
            out = (t, vals, int(cval(hi)))
    return out

def reals(f):
    """positions of the parameters of f that are arrays of reals"""
    return [j for j, q in enumerate(f.params) if re.match(r"(const )?double \*$", f.types[q["t"]][1])]

def evaluation(S, f, n, c, args):
    """one evaluation of a curve: dict, or a reason why it cannot be read"""
    xs = [S.arg(a, n.id, 0) for a in args]
    used = {k.args[2] for x in xs for k in subterms(x) if k.op == "key" and k.args[0] == "E" and last(k.args[1]) == "parameters"}
    ty = typevals(S, n.id, used)
    if ty is None: return "does not take its parameters from those of a curve type found by a loop over the types"
    t, vals, nt = ty
    tv = S.value(t, n.id)
    arrs = {f.params[j]["n"]: k for k, j in enumerate(reals(f))}
    slots = []; point = None; rec = None; stride = None
    for j, a in enumerate(args):
        x = S.arg(a, n.id, 0)
        key, idx, addr = None, None, False
        if x.op == "el": key, idx = x.args
        elif x.op == "at" and x.args[0].op == "key" and x.args[0].args[0] == "E": key, idx, addr = x.args[0].args[1], x.args[0].args[2], True
        if key is None: return "passes %s" % tshow(x)[:100]
        if key.args[0] == "p" and key.args[1] in arrs:
            if point is None: point = idx
            elif not same(point, idx): return "mixes the points %s and %s" % (tshow(point)[:80], tshow(idx)[:80])
            slots.append(("array", arrs[key.args[1]]))
        elif key.args[0] == "E" and last(key.args[1]) == "parameters":
            if key.args[2] is not tv: return "takes parameters of another curve type"
            # idx = stride * record + slot
            r = recordof(S, idx, n.id, t)
            if r is None: return "takes its parameters from %s" % tshow(idx)[:120]
            s, record, k = r
            if rec is None: rec, stride = record, s
            elif rec is not record or stride != s: return "mixes the parameters of several records"
            slots.append(("slot", k, addr))
        else: return "passes %s" % tshow(x)[:100]
    return dict(types=vals, nt=nt, fn=c["fn"], args=slots, point=point, rec=rec, stride=stride, t=t, tv=tv)

def recordof(S, idx, node, t):
    """(stride, record, slot) of an index into the parameters"""
    P = dict(poly(idx)); k = P.pop((), 0)
    if len(P) != 1: return None
    (m, s), = P.items()
    if len(m) != 1 or m[0][1] != 1 or s.denominator != 1 or k.denominator != 1: return None
    return int(s), m[0][0], int(k)

def run(ctx):
    p = ctx.p
    M = Mods.of(p)
    ev = {}
    for f in p.libfuncs:
        if f.body is None or f.name not in POINT: continue
        S = Elem(p, f, keep)
        if not S.ok: continue
        pts = POINT[f.name][0] is not None
        got = ev.setdefault("saturation" if f.name.startswith("Sat") else "relative permeability", {}).setdefault(pts, {})
        for n, c, args in sitesof(S):
            e = evaluation(S, f, n, c, args)
            why = e if isinstance(e, str) else None
            if why is None and e["rec"] is None: why = "takes no parameters"
            if why is None:
                why = (listed if pts else all_points)(S, f, n, e)
            if why is None and len(e["types"]) != 1: why = "serves several curve types"
            ctx.check("own-record", "%s:%s" % (f.name, c["fn"]), why is None, "%s|%s" % (f.name, c["fn"]), f, n.line, "evaluation of %s in %s %s" % (c["fn"], f.name, why))
            if not isinstance(e, str):
                for v in e["types"]: got[v] = (e, f, n)
        nts = {e[0]["nt"] for e in got.values()}
        for nt in nts:
            miss = [v for v in range(nt) if v not in got]
            ctx.check("every-type", f.name, not miss, "%s|types" % f.name, f, f.line, "%s evaluates no curve for type %s" % (f.name, miss))
    ctx.need("own-record", 6)
    # the two routes agree
    for what, r in sorted(ev.items()):
        if True in r and False in r:
            for v in sorted(set(r[True]) & set(r[False])):
                a, fa, na = r[True][v]; b, fb, nb = r[False][v]
                why = None
                if a["fn"] != b["fn"]: why = "evaluate different curves (%s, %s)" % (a["fn"], b["fn"])
                elif a["args"] != b["args"] or a["stride"] != b["stride"]: why = "pass different parameters or arrays to %s" % a["fn"]
                ctx.check("routes-agree", "%s:type %d" % (what, v), why is None, "%s|%d" % (what, v), fa, na.line, "%s and %s %s for the same type" % (fa.name, fb.name, why))
    ctx.need("routes-agree", 3)
    # the call order of the arrays
    for f in p.libfuncs: settype(ctx, p, f, ev)
    ctx.need("assignment", 3)
    for f in p.libfuncs:
        if f.body is not None and any(c.get("fn") in SET for c in calls(f.body)): packers(ctx, p, f, ev)
    ctx.need("setup", 6)

def all_points(S, f, n, e):
    """the point is that of the record, and all records of the type are visited"""
    x = e["point"]
    if x is None or x.op != "el" or x.args[0].op != "key" or x.args[0].args[0] != "E" or last(x.args[0].args[1]) != "points": return "does not evaluate the points assigned to the curve"
    if x.args[0].args[2] is not e["tv"]: return "evaluates the points of another curve type"
    if x.args[1] is not e["rec"]: return "combines the parameters of record %s with the point of record %s" % (tshow(e["rec"])[:60], tshow(x.args[1])[:60])
    r = S.F.ranges().get(e["rec"])
    if r is None or not r[3] or cval(r[0]) != 0 or abs(r[2]) != 1: return "does not visit every record"
    hi = S.value(r[1], n.id)
    if hi.op != "el" or last(hi.args[0]) != "num_points" or hi.args[1] is not e["tv"]: return "does not visit every record of the type"
    return None

def alternatives(S, x, n):
    """[(value, facts)] that x may have at node n, without the values the tests around n exclude"""
    out = []; seen = set()
    def rec(y, facts):
        if y in seen and y.op == "phi": return
        if y.op == "phi" and y.args[0] not in S.F.loops:
            seen.add(y)
            i, loc = y.args
            for j, lab in S.F.pred[i]:
                env = S.F.OUT[j]
                if loc not in env: out.append((mk("unknown", i), facts)); continue
                fs = [(S.value(t, j), b) for t, b in S.F.guard_facts(j)]
                if S.F.byid[j].kind == "cond" and lab in (True, False):
                    t, pol = S.F.cond_term(j); fs.append((S.value(t, j), pol if lab is True else not pol))
                rec(S.value(env[loc], j), facts + fs)
            return
        if y.op == "ite":
            rec(y.args[1], facts + [(y.args[0], True)]); rec(y.args[2], facts + [(y.args[0], False)])
        else: out.append((y, facts))
    here = [(S.value(t, n.id), b) for t, b in S.F.guard_facts(n.id) if t.op != "sw"]
    rec(x, here)
    ok = []
    for v, facts in out:
        drop = False
        for t, b in here:
            if x in subterms(t):
                r = decide(t, lambda z: cval(v) if z is x else None) if cval(v) is not None else None
                if r is not None and r != b: drop = True
        if not drop: ok.append((v, facts))
    return ok

def listed(S, f, n, e):
    """the record is the one looked up for the listed point"""
    lst = f.params[POINT[f.name][0]]["n"]; cnt = f.params[POINT[f.name][0] - 1]["n"]
    r = S.F.ranges().get(e["point"]) if e["point"] is not None else None
    if r is None or not r[3] or cval(r[0]) != 0 or abs(r[2]) != 1 or S.value(r[1], n.id) is not mk("sym", cnt): return "does not visit every listed point"
    whys = {found(S, e, x, facts, lst) for x, facts in alternatives(S, e["rec"], n)}
    return None if None in whys and len(whys) == 1 else next((w for w in whys if w), "uses no record")

def found(S, e, x, facts, lst):
    """x is the record looked up for the listed point, under a successful look-up"""
    if x.op != "el" or last(x.args[0]) != "vals": return "takes the record %s, which is not looked up" % tshow(x)[:80]
    mp = [y for y in subterms(x.args[0]) if y.op == "key" and y.args[0] == "E" and last(y.args[1]) == "point_maps"]
    if not mp or any(y.args[2] is not e["tv"] for y in mp): return "looks the record up among those of another curve type"
    g = x.args[1]
    if g.op != "fnv" or not str(g.args[0]).startswith("kh_get"): return "does not use the result of the look-up"
    if g.args[2] is not mk("el", mk("key", "p", lst), e["point"]): return "looks up the record of %s instead of the listed point" % tshow(g.args[2])[:80]
    def atoms(t, b):
        if t.op == "not": yield from atoms(t.args[0], not b)
        elif t.op == "&&" and b or t.op == "||" and not b:
            for y in t.args: yield from atoms(y, b)
        else: yield t, b
    for t0, b0 in facts:
        for v, b in atoms(t0, b0):
            if v.op == "eq" and b is False and g in v.args and any(last_val(y) == "n_buckets" for y in v.args): return None
            if v.op == "lt" and b is True and v.args[0] is g and last_val(v.args[1]) == "n_buckets": return None
    return "uses the looked-up record without testing that the look-up succeeded"

# ---------------------------------------------------------------- assignment of points to curves
def settype(ctx, p, f, ev):
    if f.body is None or not re.match(r"(Saturation|RelativePermeability)\w*$", f.name) or f.name in POINT: return
    copies = any((c.get("fn") or "") in ("memcpy", "PetscMemcpy", "__builtin___memcpy_chk", "PetscArraycpy") for c in calls(f.body))
    if copies:
        S = Elem(p, f, keep, copies=False)
        if not S.ok: return
        what = "saturation" if f.name.startswith("Sat") else "relative permeability"
        tn = next((q["n"] for q in f.params if f.types[q["t"]][2] == "enum"), None)
        for n, c, args in S.F.sites(lambda c: c.get("fn") in ("memcpy", "PetscMemcpy")):
            size = S.value(args[2], n.id); src = S.arg(args[1], n.id, 0); dst = S.arg(args[0], n.id, 0)
            for v, (e, g, m) in sorted(ev.get(what, {}).get(False, {}).items()):
                z = settle(size, lambda x: v if x is mk("sym", tn) else None)
                cnt = mk("sym", f.params[2]["n"])
                if src is mk("sym", f.params[3]["n"]): want = mul(num(4), cnt); what2 = "points"
                elif src is mk("sym", f.params[4]["n"]): want = mul(num(8 * e["stride"]), cnt); what2 = "parameters"
                else: continue
                ctx.check("assignment", "%s:%s of type %d" % (f.name, what2, v), same(z, want), "%s|%s|%d" % (f.name, what2, v), f, n.line,
                          "%s copies %s bytes of %s for curve type %d although the evaluation reads %s" % (f.name, tshow(z)[:60], what2, v, tshow(want)))
                by = [a for a in subterms(dst) if a.op == "res" and "Malloc" in a.args[0]]
                if by:
                    have = settle(by[-1].args[-1], lambda x: v if x is mk("sym", tn) else None)
                    q = cval(mul(have, inv(want)))
                    ctx.check("assignment", "%s:storage for %s of type %d" % (f.name, what2, v), q is not None and q >= 1, "%s|storage|%s|%d" % (f.name, what2, v), f, n.line,
                              "%s allocates %s bytes for %s" % (f.name, tshow(have)[:60], tshow(want)[:60]))
        k = next((k for k in S.writers if last(k) == "num_points"), None)
        ok = False
        for w, e, v in (S.final(k) if k is not None else []): ok = w is not None and e is mk("sym", tn) and v is mk("sym", f.params[2]["n"])
        ctx.check("assignment", f.name + ":count", ok, f.name + "|count", f, f.line, "%s does not record how many points the curve is given" % f.name)
        k = next((k for k in S.writers if last(k) == "point_maps"), None)
        ok = False; line = f.line
        for w, e, v in (S.final(k) if k is not None else []):
            if w is None or v is None: ok = False; break
            line = w[1][0].line
            r = S.F.ranges().get(e)
            nt = next(iter(ev.get(what, {}).get(False, {}).values()), [{"nt": 2}])[0]["nt"]
            own = mk("el", k, e)
            z = [settle(v, lambda x: b if x is own else None) for b in (0, 1)]
            ok = r is not None and r[3] and cval(r[0]) == 0 and abs(r[2]) == 1 and cval(r[1]) == nt and (z[1] is ZERO) and (z[0] is ZERO or z[0] is own)
        ctx.check("assignment", f.name + ":look-up tables", ok, f.name + "|maps", f, line, "%s leaves look-up tables of the previous assignment in use" % f.name)
    if f.static and any((c.get("fn") or "").startswith("kh_put") for c in calls(f.body)) or any((c.get("fn") or "").startswith("kh_put") for c in calls(f.body)):
        S = Elem(p, f, keep)
        if not S.ok: return
        for n, c, args in S.F.sites(lambda c: (c.get("fn") or "").startswith("kh_put")):
            x = S.arg(args[1], n.id, 0)
            why = None
            if x.op != "el" or x.args[0].args[0] != "E" or last(x.args[0].args[1]) != "points": why = "files something other than the assigned points"
            else:
                r = S.F.ranges().get(x.args[1]); t = x.args[0].args[2]; rt = S.F.ranges().get(t)
                hi = S.value(r[1], n.id) if r is not None and isinstance(r[1], T) else None
                if r is None or not r[3] or cval(r[0]) != 0 or abs(r[2]) != 1 or hi is None or hi.op != "el" or last(hi.args[0]) != "num_points" or hi.args[1] is not t: why = "does not file every point of the type"
                elif rt is None or not rt[3] or cval(rt[0]) != 0 or abs(rt[2]) != 1: why = "does not cover every curve type"
                else:
                    vals = [k for k in S.writers if last(k) == "vals"]
                    ok = False
                    for k in vals:
                        for w, e, v in S.final(k):
                            if w is None: continue
                            ok = v is x.args[1] and e.op == "fnv" and str(e.args[0]).startswith("kh_put") and x in e.args
                    if not ok: why = "does not file each point under its own record"
                    maps = [k for k in S.writers if last(k) == "point_maps"]
                    okm = False
                    for k in maps:
                        for w, e, v in S.final(k):
                            if w is not None: okm = e is t and v is not None and v.op == "fnv" and str(v.args[0]).startswith("kh_init")
                    if why is None and not okm: why = "does not keep the table under the curve type it was built for"
            ctx.check("assignment", f.name, why is None, f.name + "|table", f, n.line, "%s %s" % (f.name, why))

# ---------------------------------------------------------------- setup
def packers(ctx, p, f, ev):
    if f.body is None: return
    if f.name.startswith(("Saturation", "RelativePermeability")): return
    S = Elem(p, f, lambda x: "Coeffs" in x or x.endswith("SetType"), peel=12)
    if not S.ok: return
    for n, c, args in S.F.sites(lambda c: c.get("fn") in ("SaturationSetType", "RelativePermeabilitySetType")):
        what = "saturation" if c["fn"].startswith("Sat") else "relative permeability"
        v = cval(S.value(args[1], n.id))
        inst = "%s:%s" % (f.name if not f.static else f.rel + ":" + f.name, what)
        if v is None or int(v) not in ev.get(what, {}).get(False, {}): continue
        e = ev[what][False][int(v)][0]
        g = p.func(e["fn"])
        def at(j, stride, k):
            d = S.F.deref(args[j]); b = d.args[0] if d.op == "E" else d
            return S.read(S.key(b, n.id), add(mul(num(stride), mk("sym", "i")), num(k)), n.id, 0)
        why = None
        # points
        x = at(3, 1, 0)
        off = sub(x, mk("sym", "i"))
        if x.op == "el" and x.args[0].op == "key" and x.args[0].args[0] == "p":
            # the list comes from the caller
            for h in p.libfuncs:
                if f.static and h is not f and h.body is not None and any(p.resolve(h, c.get("fn")) is f for c in calls(h.body) if c.get("fn")): handed(ctx, p, h, f, [q["n"] for q in f.params].index(x.args[0].args[1]), inst, what)
            off = ZERO
        ctx.check("setup", inst + ":points", first(off), "%s|%s|points" % (f.rel, what), f, n.line, "%s assigns the curve's record i to point %s" % (f.name, tshow(x)[:100]))
        for j, s in enumerate(e["args"]):
            if s[0] != "slot": continue
            pn = g.params[j]["n"]
            if s[2]:
                # coefficients of the smoothing polynomial
                base = at(4, e["stride"], s[1]); ok = base.op == "res" and "Coeffs" in base.args[0]
                if ok:
                    h = p.func(base.args[0])
                    ins = [q["n"] for jj, q in enumerate(h.params) if jj != base.args[1]]
                    for nm, y in zip(ins, base.args[2:]): ok = ok and named(y, nm)
                    for k in range(1, e["stride"] - s[1]):
                        y = at(4, e["stride"], s[1] + k)
                        ok = ok and y.op == "el" and y.args[0] is mk("key", "res", base) and cval(y.args[1]) == k
                ctx.check("setup", inst + ":" + pn, ok, "%s|%s|%s" % (f.rel, what, pn), f, n.line, "%s does not store the smoothing coefficients in order where %s reads them" % (f.name, e["fn"]))
            else:
                y = at(4, e["stride"], s[1])
                ctx.check("setup", inst + ":" + pn, named(y, pn), "%s|%s|%s" % (f.rel, what, pn), f, n.line, "%s stores %s where %s reads its parameter %s" % (f.name, tshow(y)[:80], e["fn"], pn))

def handed(ctx, p, h, f, j, inst, what):
    """h hands f the list of points"""
    S = Elem(p, h, lambda x: True)
    for n, c, args in S.F.sites(lambda c: c.get("fn") == f.name):
        d = S.F.deref(args[j]); b = d.args[0] if d.op == "E" else d
        x = S.read(S.key(b, n.id), mk("sym", "i"), n.id, 0)
        ctx.check("setup", "%s:points from %s" % (inst, h.name), first(sub(x, mk("sym", "i"))), "%s|%s|points" % (f.rel, what), h, n.line, "%s assigns the curve's record i to point %s" % (h.name, tshow(x)[:100]))

def first(off): return off is ZERO or off.op == "res" and off.args[0] == "DMPlexGetHeightStratum" and off.args[1] == 2 and off.args[-1] is ZERO

def named(t, param):
    """t is the setting of that name"""
    n = t.args[0] if t.op == "sym" else last_val(t)
    return isinstance(n, str) and (n == param or n.endswith("_" + param))
