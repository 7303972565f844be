"""Assembly model of a residual or Jacobian callback: what is added to which row (and column) of the residual (matrix), as closed
conditional expressions over the state arrays, one per loop nest and row. Built on gated value numbering."""
from .core import *
from .gvn import *
from .gate import *
from .alg import *

DENY = re.compile(r"UpdateState|SetBoundary|UpdateBoundary|GlobalToLocal|GlobalToNatural|LocalToGlobal|GetDM$|GetProfiling|Profil|Timer")
STAR = mk("*")
SHOWN = 10

def want(g, c, s):
    if (c.get("m") or "").startswith("TDY_"): return False
    return not DENY.search(g.name)

def statenames(prog):
    """fields that depend on the unknowns: X with a field dX_dP or dX_dT beside it"""
    if not hasattr(prog, "_statenames"):
        out = {"pressure", "temperature"}
        for r in prog.records.values():
            fs = {f["n"] for f in r["fields"]}
            for n in fs:
                m = re.fullmatch(r"d2?(\w+)_d[PTS]2?", n)
                if m and m[1] in fs: out |= {n, m[1], m[1] + "_bnd"}
        prog._statenames = out | {"P_bnd", "T_bnd"}
    return prog._statenames

def opaque(prog, g):
    """computes scalars from other things than the unknowns, in loops: one value per set of arguments"""
    memo = prog.__dict__.setdefault("_opaque", {})
    if g.name in memo: return memo[g.name]
    memo[g.name] = False
    names = statenames(prog); loops = False; seen = set(); st = [g]; ok = True
    while st and ok:
        h = st.pop()
        if h.name in seen: continue
        seen.add(h.name)
        for x in walk(h.body):
            if x["k"] in ("for", "while", "do"): loops = True
            if x["k"] == "mem" and x["f"] in names: ok = False
            if x["k"] == "call":
                fn = x.get("fn")
                if fn is None: continue
                k = prog.resolve(h, fn)
                if k is not None: st.append(k)
                elif re.match(r"(Vec|Mat|SNES|TS|DM)[A-Z]", fn): ok = False
    for p in g.params:
        t = g.types[p["t"]]
        if t[2] == "ptr" and re.search(r"\*\s*\*", t[1]): ok = False
    memo[g.name] = ok and loops
    return memo[g.name]

PLURAL = {"vertex": "vertices"}
def counts(t):
    """differences of consecutive offsets written as the counts they are"""
    if t.op != "poly": return t
    ts = {m[0][0]: c for m, c in t.args[0] if len(m) == 1 and m[0][1] == 1}
    for a in ts:
        for b in ts:
            if ts[a] == 1 and ts[b] == -1 and a.op == b.op == "ld" and a.args[0].op == b.args[0].op == "E":
                (p, i), (q, j) = a.args[0].args, b.args[0].args
                if p is q and cval(sub(i, j)) == 1 and p.op == "D" and p.args[0].op == "ld" and p.args[0].args[0].op == "F":
                    f = p.args[0].args[0]
                    m = re.fullmatch(r"(\w+)_offset", f.args[1])
                    if m:
                        k = m[1].replace("subface", "face"); n = PLURAL.get(k, k + "s")
                        x = mk("ld", mk("E", mk("D", mk("ld", mk("F", f.args[0], "num_" + n), p.args[0].args[1])), j), a.args[1])
                        return counts(add(sub(t, sub(a, b)), x))
    return t

class System:
    def __init__(self, prog, f, roles, peel=0, ints=frozenset()):
        """roles: parameter index -> role name"""
        self.prog = prog; self.f = f; self.roles = roles
        self.F = F = Flow(prog, f, inline=lambda g, c, s: want(g, c, s) and not opaque(prog, g), peel=peel, depth=8)
        self.ok = F.exit.id in F.alive
        if not self.ok: return
        self.G = Gate(F); self.N = Names(F, ints)
        self.fill = {}
        self.alias = {}
        self._stores = [s for s in F.stores()]
        self._localarrays()
        self._g2l()
    # ---- vectors that are ghosted copies of others
    def _g2l(self):
        for n, c, args in self.F.sites(lambda c: (c.get("fn") or "") in ("TDyGlobalToLocal", "DMGlobalToLocal", "DMGlobalToLocalBegin")):
            if c["fn"] == "TDyGlobalToLocal": g, l = args[1], args[2]
            elif c["fn"] == "DMGlobalToLocal": g, l = args[1], args[3]
            else: g, l = args[1], args[3]
            self.alias[self.key(l)] = self.key(g)
    def key(self, t):
        return self.roleof(self.N.canon(self.G.term(t), {}))
    def roleof(self, t):
        def f(x):
            if x.op == "p" and x.args[0] in self.roles: return mk("sym", self.roles[x.args[0]])
            if x.op == "p": return mk("sym", "ctx")
            return None
        return subst(t, f, {})
    # ---- arrays filled in loops
    def _localarrays(self):
        for n, a, loc, val, old in self._stores:
            if loc.op == "E" and loc.args[0].op == "V":
                self.fill.setdefault(loc.args[0], []).append((n, loc))
    def _content(self, arr, idx, node):
        """value of arr[idx] when the array was filled by an earlier loop over its index"""
        F = self.F
        rg = F.ranges()
        best = None
        for n, loc in self.fill.get(arr, ()):
            e = loc.args[1]
            if e not in rg: continue
            h = e.args[0]
            if node in F.loops.get(h, ()) or not F.dominates(h, node): continue
            if best is None or F.rpon[h] > F.rpon[best[0]]: best = (h, e, loc)
        if best is None: return None
        h, e, loc = best
        v = self.latch(h, loc)
        if v is None: return None
        return subst(v, lambda x: idx if x is e else None, {})
    def latch(self, h, loc):
        """value of loc at the end of an iteration of loop h, in terms of the iteration's counter"""
        F = self.F; body = F.loops[h]; G = self.G
        seen = {}
        EXIT = mk("exit")
        def walk(n):
            if n in seen: return seen[n]
            seen[n] = None
            if n in F.loops and n != h:
                ib = F.loops[n]
                ex = [(a, j, lab) for a in ib for j, lab in F.succ[a] if j not in ib]
                if len(ex) != 1: return None
                r = edge(*ex[0]); seen[n] = r; return r
            ss = F.succ[n]
            if len(ss) == 1: r = edge(n, *ss[0])
            elif len(ss) == 2 and F.byid[n].kind == "cond":
                a, pol = F.cond_term(n)
                y = z = None
                for j, lab in ss:
                    v = edge(n, j, lab)
                    if lab is True: y = v
                    else: z = v
                if y is EXIT or z is EXIT: r = z if y is EXIT else y
                elif y is None or z is None: r = None
                else:
                    a = G.term(a)
                    if not pol: y, z = z, y
                    r = y if y is z else mk("ite", a, y, z)
            else: r = None
            seen[n] = r
            return r
        def edge(a, j, lab):
            if j == h:
                env = F.OUT[a]
                return G.term(env[loc] if loc in env else F._initial(env, loc))
            if j not in body: return EXIT
            return walk(j)
        r = walk(h)
        return None if r is EXIT else r
    def resolve(self, t, node, depth=0):
        """gate t and replace loads of local arrays by what loops put there"""
        t = self.G.term(t)
        if depth > 4: return t
        def f(x):
            if x.op == "ld" and x.args[0].op == "E" and x.args[0].args[0].op == "V":
                arr, idx = x.args[0].args
                idx2 = subst(idx, f, {})
                v = self._content(arr, idx2, node)
                if v is not None and v is not x: return self.resolve(v, node, depth + 1)
            return None
        return subst(t, f, {})
    # ---- final form
    def form(self, t, node, extra=()):
        """comparable form of t at node"""
        names = {p: mk("sym", "L%d" % d) for p, d in self.N.counters(node).items()}
        for p, s in extra: names[p] = s
        t = self.resolve(t, node)
        t = self.roleof(self.N.canon(t, names))
        return self.post(t)
    def post(self, t):
        def f(x):
            if x.op == "arrayof":
                v = self.alias.get(x.args[0])
                if v is not None: return mk("arrayof", v)
            if x.op == "D" and x.args[0].op == "arrayof":
                v = self.alias.get(x.args[0].args[0])
                if v is not None: return mk("D", mk("arrayof", v))
            return None
        return subst(t, f, {})
    def under(self, n, val):
        """form of `val if the iteration reaches node n else 0`"""
        F = self.F
        hs = F.loops_of(n.id)[::-1]
        stops = hs + [n.id]
        r = val
        for k in range(len(stops) - 1, -1, -1):
            start = stops[k - 1] if k > 0 else F.entry.id
            if k == 0 and not hs: start = F.entry.id
            w = self.reach(start, stops[k], n.id, r)
            if w is None: return None
            r = w
        return r
    def reach(self, start, goal, at, val):
        F = self.F; G = self.G
        region = F.loops.get(start)
        test = self.test(start)
        seen = {}
        inner = start != goal
        def walk(x, first=False):
            if x == goal and not first: return val
            if x in seen: return seen[x]
            seen[x] = ZERO
            if x in F.loops and x != start:
                ib = F.loops[x]
                if goal in ib: return ZERO if goal != x else val
                ex = [(a, j) for a in ib for j, lab in F.succ[a] if j not in ib]
                if len({j for _, j in ex}) != 1: seen[x] = None; return None
                seen[x] = walk(ex[0][1]); return seen[x]
            ss = F.succ[x]
            vs = []
            for j, lab in ss:
                if region is not None and j not in region: vs.append((lab, "exit" if x == test else ZERO))
                elif j == start and region is not None: vs.append((lab, ZERO))
                else: vs.append((lab, walk(j)))
            vs2 = [(l, v) for l, v in vs if v != "exit"]
            if any(v is None for _, v in vs2): seen[x] = None; return None
            if not vs2: r = ZERO
            elif len({v for _, v in vs2}) == 1: r = vs2[0][1]
            elif len(vs2) < len(vs): r = vs2[0][1] if len(vs2) == 1 else None
            elif F.byid[x].kind == "cond":
                a, pol = F.cond_term(x)
                a = self.form(a, at)
                y = next(v for l, v in vs2 if l is True); z = next(v for l, v in vs2 if l is not True)
                if not pol: y, z = z, y
                r = mk("ite", a, y, z)
            elif F.byid[x].kind == "switch":
                q = self.form(F.ev(F.byid[x].ast, dict(F.IN[x]), x), at)
                arms = sorted([(l[1], v) for l, v in vs2 if isinstance(l, tuple)], key=lambda p: -p[0])
                d = [v for l, v in vs2 if not isinstance(l, tuple)]
                r = d[0] if d else arms[-1][1]
                for c, v in arms:
                    if v is not r: r = mk("ite", mk("eq", *sorted((q, num(c)), key=lambda t: t.id)), v, r)
            else: r = None
            seen[x] = r
            return r
        return walk(start, True)
    def nest(self, n):
        """canonical loop nest of node n: tuple of ranges, outermost first"""
        F = self.F; rg = F.ranges(); out = []
        for h in F.loops_of(n.id)[::-1]:
            cs = [(t, r) for t, r in rg.items() if t.args[0] == h]
            if len(cs) != 1: out.append(None); continue
            t, (lo, hi, st, ok) = cs[0]
            out.append((counts(self.form(lo, n.id)), counts(self.form(hi, n.id)), abs(st) if abs(st) == 1 else st))
        return tuple(out)
    def test(self, h):
        """the node that decides whether loop h goes on"""
        F = self.F; x = h; seen = set()
        while x in F.loops.get(h, ()) and len(F.succ[x]) == 1 and x not in seen: seen.add(x); x = F.succ[x][0][0]
        return x
    def early(self, n):
        """[(condition node, its condition, depth)]: branches that leave a loop around n before the loop is done"""
        F = self.F; out = []
        hs = F.loops_of(n.id)[::-1]
        for d, h in enumerate(hs):
            for x in F.loops[h]:
                if x == self.test(h): continue
                for j, lab in F.succ[x]:
                    if j in F.loops[h]: continue
                    y = x
                    while F.byid[y].kind != "cond" and len(F.pred[y]) == 1: y, lab = F.pred[y][0] if isinstance(F.pred[y][0], tuple) else (F.pred[y][0], None)
                    c = None
                    if F.byid[y].kind == "cond":
                        a, pol = F.cond_term(y)
                        c = self.form(a, n.id)
                    out.append((F.byid[y], c, d))
        return out
    def additions(self, vec):
        """[(node, row, increment or 0 if not reached, nest, ...)] for stores into the array of vector role `vec`"""
        res = []
        key = mk("sym", vec)
        for n, a, loc, val, old in self._stores:
            if loc.op != "E": continue
            base = self.post(self.roleof(self.N.canon(self.G.term(loc.args[0]), {})))
            if base.op == "D" and base.args[0].op == "arrayof" and base.args[0].args[0] is key:
                res.append((n, self.form(loc.args[1], n.id), self.under(n, self.form(sub(val, old), n.id)), self.nest(n), val, old))
        return res
    def filled(self):
        """{vector: [(node, row, increment or 0 if not reached, nest, stored value)]} for every vector array stored into"""
        res = {}
        for n, a, loc, val, old in self._stores:
            if loc.op != "E": continue
            base = self.post(self.roleof(self.N.canon(self.G.term(loc.args[0]), {})))
            if base.op == "D" and base.args[0].op == "arrayof":
                d = sub(val, old) if a["k"] == "asg" and (a["op"] in ("+=", "-=") or old in subterms(val)) else val
                res.setdefault(base.args[0].args[0], []).append((n, self.form(loc.args[1], n.id), self.under(n, self.form(d, n.id)), self.nest(n), d is not val))
        for n, c, args in self.F.sites(lambda c: c.get("fn") == "VecSetValue"):
            res.setdefault(self.key(args[0]), []).append((n, self.form(args[1], n.id), self.under(n, self.form(args[2], n.id)), self.nest(n), True))
        return res
    def cell(self, p, k, node):
        """k-th scalar p points to at node"""
        F = self.F
        env = F.IN[node]
        if p.op == "addr":
            l = p.args[0]
            if l.op == "E":
                q = mk("E", l.args[0], add(l.args[1], k))
                if q in env: return env[q]
                return F._initial(env, q)
            if cval(k) == 0: return env[l] if l in env else F._initial(env, l)
            return None
        d = F.deref(p)
        if d.op == "V" or cval(k) == 0:
            return env[d] if d in env else F._initial(env, d)
        if d.op == "E": q = mk("E", d.args[0], add(d.args[1], k))
        else: q = mk("E", d, k)
        return env[q] if q in env else F._initial(env, q)
    def entries(self, mat):
        """[(node, row, col, value or 0 if not reached, nest, block row, block col)] inserted into matrix role `mat`"""
        res = []
        key = mk("sym", mat)
        for n, c, args in self.F.sites(lambda c: re.match(r"MatSetValue(s|sLocal|sBlocked|sBlockedLocal)?$", c.get("fn") or "")):
            if self.key(args[0]) is not key: continue
            ns = self.nest(n)
            def res_add(row, col, v, ns, br, bc):
                res.append((n, row, col, None if v is None else self.under(n, v), ns, br, bc))
            env = self.F.IN[n.id]
            if c["fn"] == "MatSetValue":
                res_add(self.form(args[1], n.id), self.form(args[2], n.id), self.form(args[3], n.id), ns, 0, 0); continue
            blocked = "Blocked" in c["fn"]
            m, nn = args[1], args[3]
            kr = cval(m); kc = cval(nn)
            if kr != 1: res_add(None, None, None, ns, 0, 0); continue
            row = self.cell(args[2], ZERO, n.id)
            if kc == 1:
                col = self.cell(args[4], ZERO, n.id)
                if blocked:
                    for br in range(2):
                        for bc in range(2):
                            v = self.cell(args[5], num(br + 2 * bc), n.id)       # column-oriented, see MAT_ROW_ORIENTED
                            res_add(self.form(row, n.id), self.form(col, n.id), self.form(v, n.id), ns, br, bc)
                else:
                    v = self.cell(args[5], ZERO, n.id)
                    res_add(self.form(row, n.id), self.form(col, n.id), self.form(v, n.id), ns, 0, 0)
            else:
                K = mk("sym", "K")
                col = self.elem(args[4], K, n.id); v = self.elem(args[5], K, n.id)
                res_add(self.form(row, n.id), col is not None and self.form(col, n.id) or None, v is not None and self.form(v, n.id) or None, ns + ((self.form(ZERO, n.id), self.form(nn, n.id), 1),), 0, 0)
        return res
    def elem(self, p, k, node):
        d = self.F.deref(p)
        l = d
        if p.op == "addr" and p.args[0].op == "E" and p.args[0].args[1] is ZERO: arr = p.args[0].args[0]
        elif d.op == "E": arr = d.args[0]
        else: return None
        return self._content(arr, k, node)
