"""Rule: every function that returns a quantity X together with outputs named as its derivatives (dX_dY, d2X_dY2) assigns
every one of them (unless the caller passes NULL) and assigns exactly the derivative of the X it returns, branch by branch.
Branches are enumerated through the phi terms of the value-numbering form; derivatives are formed symbolically and compared
as power-product normal forms (symbolic exponents)."""
from ..core import *
from ..gvn import *
from ..alg import *

def triples(f):
    """[(value param, derivative param, order, wrt param, sign)]"""
    names = {p["n"].lower().replace("_", ""): k for k, p in enumerate(f.params)}
    ptr = [k for k, p in enumerate(f.params) if f.types[p["t"]][2] == "ptr" and "double" in f.types[p["t"]][1] and "const" not in f.types[p["t"]][1]]
    out = []
    for k in ptr:
        s = f.params[k]["n"].replace("_", "").lower()
        for v in ptr:
            b = f.params[v]["n"].replace("_", "").lower()
            if v == k: continue
            m = re.fullmatch(r"d%sd([a-z]\w*?)" % re.escape(b), s)
            m2 = re.fullmatch(r"d2%sd([a-z]\w*?)2" % re.escape(b), s)
            o, y = (1, m[1]) if m else (2, m2[1]) if m2 else (0, None)
            if not o: continue
            if y in names and f.types[f.params[names[y]]["t"]][2] == "flt": out.append((v, k, o, names[y], 1))
            elif y == "p" and "pc" in names and f.types[f.params[names["pc"]]["t"]][2] == "flt": out.append((v, k, o, names["pc"], -1))
    return out

def cases(F, locs, limit=400):
    """all joint values of locs at the exit, following joins back"""
    out = []; seen = set()
    def go(node, vals, inp):
        if len(out) > limit: return
        ph = [v for v in vals if v is not None and v.op == "phi" and v.args[1] in locs]
        # nearest join first: the one latest in reverse post-order
        ph = sorted({v.args[0] for v in ph}, key=lambda i: -F.rpon.get(i, 0))
        if not ph:
            if tuple(vals) not in seen: seen.add(tuple(vals)); out.append((node, vals))
            return
        i = ph[0]
        for j, _ in F.pred.get(i, []):
            if j not in F.OUT: continue
            env = F.OUT[j]
            nv = []
            for l, v in zip(locs, vals):
                if v is not None and v.op == "phi" and v.args[0] == i and v.args[1] is l: nv.append(env[l] if l in env else F._initial(env, l))
                else: nv.append(v)
            key = (j, tuple(nv))
            if key in memo: continue
            memo.add(key)
            go(j, nv, None)
    memo = set()
    env = F.IN[F.exit.id]
    go(F.exit.id, [env[l] if l in env else F._initial(env, l) for l in locs], None)
    return out

def run(ctx):
    prog = ctx.p
    R1 = "every derivative output is assigned"; R2 = "derivative output is the derivative of the value"
    for f in prog.libfuncs:
        T3 = triples(f)
        if not T3: continue
        # functions that only hand their outputs to others are judged through inlining
        F = Flow(prog, f, inline=lambda g, c, s: not (c.get("m") or "").startswith("TDY_") and g.file == f.file, nonnull=[mk("p", k, p["n"]) for k, p in enumerate(f.params) if f.types[p["t"]][2] == "ptr"])
        if F.exit.id not in F.alive: continue
        P = [mk("p", k, p["n"]) for k, p in enumerate(f.params)]
        for v, k, o, w, sg in T3:
            lv, lk = mk("D", P[v]), mk("D", P[k])
            facts0 = None
            for node, (a, b) in cases(F, [lv, lk]):
                inst = "%s: %s/%s" % (f.name, f.params[k]["n"], f.params[v]["n"])
                if b.op == "ld" and b.args[0] is lk:
                    # not written on this way: fine when the pointer is NULL there
                    fs = F.guard_facts(node) | edgefacts(F, node)
                    if nullok(F, node, P[k]): continue
                    if a.op == "ld" and a.args[0] is lv: continue
                    ctx.ob(R1, inst)
                    ctx.viol("%s|unset|%s|%s" % (f.name, f.params[k]["n"], branch(F, node)), f, F.byid[node].line or f.line, R1, "%s leaves %s unset where it sets %s" % (f.name, f.params[k]["n"], f.params[v]["n"]))
                    continue
                ctx.ob(R1, inst)
                x = P[w]
                if any(s.op in ("phi", "unk", "call", "out") for s in subterms(a) | subterms(b)):
                    ctx.note("%s: no closed form" % inst); continue
                try:
                    d = deriv(a, x)
                    if o == 2: d = deriv(d, x)
                    elif sg < 0: d = neg(d)
                except NotSmooth:
                    ctx.note("%s: not differentiable symbolically" % inst); continue
                ctx.ob(R2, inst + " where %s = %s" % (f.params[v]["n"], tshow(a)[:80]))
                if not psame(b, d):
                    ctx.viol("%s|%s|%s" % (f.name, f.params[k]["n"], branch(F, node)), f, F.byid[node].line or f.line, R2,
                             "%s is %s but the derivative of %s = %s is %s" % (f.params[k]["n"], tshow(b)[:150], f.params[v]["n"], tshow(a)[:100], tshow(d)[:150]))
    ctx.need(R2, 6)
    ctx.assume("identities are those of exact real arithmetic, inside each branch")
    ctx.assume("capillary pressure is a reference pressure minus the liquid pressure")

def edgefacts(F, i): return set()
def nullok(F, node, p):
    for a, pol in F.guard_facts(node) | F.asserted(node):
        if a.op == "nz" and a.args[0] is p and not pol: return True
        if a.op == "eq" and p in a.args and ZERO in a.args and pol: return True
    n = F.byid[node]
    if n.kind == "cond":
        a, pol = F.cond_term(node)
        if a.op == "nz" and a.args[0] is p: return True
    return False
def branch(F, node):
    return ",".join(sorted("%s%s" % ("" if pol else "!", tshow(a)[:40]) for a, pol in F.guard_facts(node) if a.op != "true"))[:80]
