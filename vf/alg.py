"""Equality of rational expressions over value-numbering terms (normal forms, no solver)."""
from .gvn import *

HALF = num(Fraction(1, 2))

def ratio(t, memo=None):
    """t = n/d with n, d polynomials free of inverses (atoms are rebuilt with normalised arguments)"""
    if memo is None: memo = {}
    if t in memo: return memo[t]
    if t.op == "c": r = (t, ONE)
    elif t.op == "poly":
        r = (ZERO, ONE)
        for m, c in t.args[0]:
            n, d = num(c), ONE
            for a, e in m:
                an, ad = ratio(a, memo)
                if e < 0: an, ad, e = ad, an, -e
                n = mul(n, ipow(an, e)); d = mul(d, ipow(ad, e))
            r = (add(mul(r[0], d), mul(n, r[1])), mul(r[1], d)) if r[1] is not d else (add(r[0], n), d)
    elif t.op == "inv":
        n, d = ratio(t.args[0], memo); r = (d, n)
    elif t.op == "abs":
        n, d = ratio(t.args[0], memo)
        r = (absolute(n), absolute(d))
    elif t.op == "pow" and t.args[1] is HALF:
        n, d = ratio(t.args[0], memo)          # sqrt(n/d) = sqrt(n*d)/d needs d > 0: keep the quotient as the argument
        r = (mk("pow", n if d is ONE else mk("quot", n, d), HALF), ONE)
    else: r = (t, ONE)
    memo[t] = r
    return r

def absolute(n):
    if n.op == "c": return num(abs(n.args[0]))
    p = poly(n)
    lead = min(p, key=lambda m: [(a.id, e) for a, e in m])
    k = abs(p[lead])
    q = frompoly({m: c / p[lead] for m, c in p.items()})
    return mul(num(k), mk("abs", q))

def reduce_roots(n):
    """replace pow(x,1/2)^2k by x^k and abs(x)^2k by x^2k"""
    for _ in range(6):
        out = ZERO; ch = False
        for m, c in poly(n).items():
            x = num(c)
            for a, e in m:
                if a.op == "pow" and a.args[1] is HALF and abs(e) >= 2:
                    k = e // 2 if e > 0 else -((-e) // 2)
                    b = a.args[0]
                    b = div(b.args[0], b.args[1]) if b.op == "quot" else b
                    x = mul(x, ipow(b, k)); e -= 2 * k; ch = True
                elif a.op == "abs" and abs(e) >= 2:
                    k = (abs(e) // 2) * 2 * (1 if e > 0 else -1)
                    x = mul(x, ipow(a.args[0], k)); e -= k; ch = True
                if e: x = mul(x, ipow(a, e))
            out = add(out, x)
        n = out
        if not ch: break
    return n

def iszero(t):
    for _ in range(4):
        n, d = ratio(t)
        n2 = reduce_roots(n)
        if n2.op == "c": return n2.args[0] == 0
        if n2 is t: return False
        t = n2
    return False

def same(a, b): return a is b or iszero(sub(a, b))

# ---------------------------------------------------------------- power products (symbolic exponents)
EXPB = mk("ebase")

def _pmerge(a, b):
    d = dict(a)
    for k, e in b:
        e2 = add(d[k], e) if k in d else e
        if iszero(e2): d.pop(k, None)
        else: d[k] = canon(e2)
    return tuple(sorted(d.items(), key=lambda x: x[0].id))

_canon = {}
def canon(e):
    """one representative term for equal exponents"""
    if e.op == "c": return e
    for x in _canon.get("l", []):
        if same(x, e): return x
    _canon.setdefault("l", []).append(e)
    return e

_pn = {}
def pnormal(t):
    """{((base, exponent term), ...): coefficient}"""
    if t in _pn: return _pn[t]
    out = {}
    def put(k, c):
        out[k] = out.get(k, 0) + c
        if not out[k]: del out[k]
    if t.op == "c":
        if t.args[0]: put((), t.args[0])
    elif t.op == "poly":
        for m, c in t.args[0]:
            acc = {(): Fraction(c)}
            for a, e in m: acc = _pmul(acc, _ppow(a, num(e)))
            for k, v in acc.items(): put(k, v)
    else:
        for k, v in _ppow(t, ONE).items(): put(k, v)
    _pn[t] = out
    return out

def _pmul(A, B):
    out = {}
    for k1, c1 in A.items():
        for k2, c2 in B.items():
            k = _pmerge(k1, k2); out[k] = out.get(k, 0) + c1 * c2
    return {k: c for k, c in out.items() if c}

def _ppow(a, e):
    """a^e as a power product (or its expansion for small integer powers of sums)"""
    if a.op == "inv": return _ppow(a.args[0], neg(e))
    if a.op == "quot": return _pmul(_ppow(a.args[0], e), _ppow(a.args[1], neg(e)))
    if a.op == "pow": return _ppow(a.args[0], mul(a.args[1], e))
    if a.op == "f_exp": return {((EXPB, canon(mul(a.args[0], e))),): Fraction(1)}
    if a.op == "c":
        if a.args[0] == 1: return {(): Fraction(1)}
        v = cval(e)
        if v is not None and v.denominator == 1: return {(): a.args[0] ** int(v)}
        return {((a, canon(e)),): Fraction(1)}
    if a.op == "poly":
        n = pnormal(a)
        if len(n) == 1:
            (k, c), = n.items()
            v = cval(e)
            r = {(): Fraction(1)}
            if c != 1: r = {(): c ** int(v)} if v is not None and v.denominator == 1 else {((num(c), canon(e)),): Fraction(1)}
            return _pmul(r, {tuple((b, canon(mul(x, e))) for b, x in k): Fraction(1)})
        v = cval(e)
        if v is not None and v.denominator == 1 and 0 < v <= 6:
            r = {(): Fraction(1)}
            for _ in range(int(v)): r = _pmul(r, n)
            return r
        # sums are bases up to a constant factor
        lead = n[min(n, key=lambda k: [(b.id, x.id) for b, x in k])]
        if lead != 1 and not (v is not None and v.denominator == 1): lead = 1
        b = canon(div(a, num(lead)))
        r = {((b, canon(e)),): Fraction(1)}
        return _pmul(r, {(): lead ** int(v)}) if lead != 1 else r
    return {((a, canon(e)),): Fraction(1)}

def pzero(t, depth=0):
    """True when t is identically zero"""
    N = t if isinstance(t, dict) else pnormal(t)
    if not N: return True
    if depth > 6: return False
    sums = {b for k in N for b, e in k if b.op == "poly"}
    for b in sorted(sums, key=lambda x: x.id):
        groups = []
        for k, c in N.items():
            e = dict(k).get(b, ZERO)
            for g in groups:
                d = ratio_const(sub(e, g[0][2]))
                if d is not None and d.denominator == 1: g.append((k, c, e, int(d))); break
            else: groups.append([(k, c, e, 0)])
        if all(len({d for *_, d in g}) == 1 for g in groups) and len(groups) > 1: continue
        if all(dict(k).get(b) is not None for k in N) and len(groups) == 1 and len({d for *_, d in groups[0]}) == 1:
            N = {tuple(x for x in k if x[0] is not b): c for k, c in N.items()}
            return pzero(N, depth + 1)
        ok = True
        for g in groups:
            lo = min(d for *_, d in g)
            M = {}
            for k, c, e, d in g:
                rest = {tuple(x for x in k if x[0] is not b): c}
                if d - lo: rest = _pmul(rest, _expand(b, d - lo))
                for kk, cc in rest.items(): M[kk] = M.get(kk, 0) + cc
            M = {k: c for k, c in M.items() if c}
            if not pzero(M, depth + 1): ok = False; break
        return ok
    return False

def _expand(b, k):
    n = pnormal(b); r = {(): Fraction(1)}
    for _ in range(k): r = _pmul(r, n)
    return r

def ratio_const(t):
    n, d = ratio(t)
    n = reduce_roots(n)
    if n.op == "c" and d.op == "c": return n.args[0] / d.args[0]
    if iszero(t): return Fraction(0)
    # n = c*d ?
    pn, pd = poly(n), poly(d)
    if set(pn) == set(pd):
        q = {pn[m] / pd[m] for m in pn}
        if len(q) == 1: return q.pop()
    return None

def psame(a, b): return a is b or pzero(sub(a, b))

class NotSmooth(Exception): pass
def deriv(t, x):
    """d t / d x for an atom x"""
    if t is x: return ONE
    if t.op in ("c", "p", "str", "fn"): return ZERO
    if t.op == "poly":
        r = ZERO
        for m, c in t.args[0]:
            for i, (a, e) in enumerate(m):
                da = deriv(a, x)
                if da is ZERO: continue
                y = mul(num(c * e), da)
                for j, (b, f) in enumerate(m):
                    g = f - 1 if j == i else f
                    if g: y = mul(y, ipow(b, g))
                r = add(r, y)
        return r
    if t.op == "inv":
        d = deriv(t.args[0], x)
        return ZERO if d is ZERO else neg(mul(d, mul(t, t)))
    if t.op == "pow":
        b, e = t.args
        db, de = deriv(b, x), deriv(e, x)
        r = ZERO
        if db is not ZERO: r = add(r, mul(mul(e, db), mul(t, inv(b))))
        if de is not ZERO: r = add(r, mul(mul(t, mk("f_log", b)), de))
        return r
    if t.op == "f_exp":
        d = deriv(t.args[0], x)
        return ZERO if d is ZERO else mul(d, t)
    if t.op == "f_log":
        d = deriv(t.args[0], x)
        return ZERO if d is ZERO else mul(d, inv(t.args[0]))
    if x in subterms(t): raise NotSmooth()
    return ZERO
