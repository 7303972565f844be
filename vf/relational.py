"""A relational abstract domain: conjunctions of linear inequalities over named quantities (exact rationals, Fourier-Motzkin
elimination), and an interpreter of the syntax tree over sets of such conjunctions partitioned by a finite typestate."""
from fractions import Fraction
from math import gcd, lcm
from .core import *

class Lin:
    """c + sum k*v"""
    __slots__ = ("k", "c", "n_", "key_")
    def __init__(self, k=None, c=0):
        self.k = {v: x for v, x in k.items() if x} if k else {}
        self.c = c; self.n_ = self.key_ = None
    def __add__(self, o):
        k = dict(self.k)
        for v, x in o.k.items(): k[v] = k.get(v, 0) + x
        return Lin(k, self.c + o.c)
    def scale(self, s): return Lin({v: x * s for v, x in self.k.items()}, self.c * s)
    def __sub__(self, o): return self + o.scale(-1)
    def const(self): return Fraction(self.c) if not self.k else None
    def subst(self, v, e):
        if v not in self.k: return self
        k = dict(self.k); x = k.pop(v)
        return Lin(k, self.c) + e.scale(x)
    def norm(self):
        """scaled so that the coefficients are coprime integers (positive scaling)"""
        if self.n_ is None:
            if not self.k: r = Lin({}, (self.c > 0) - (self.c < 0))
            else:
                vals = list(self.k.values()) + [self.c]
                if any(type(x) is not int for x in vals):
                    vals = [Fraction(x) for x in vals]; m = lcm(*[x.denominator for x in vals])
                    vals = [int(x * m) for x in vals]
                g = gcd(*vals)
                if g > 1: vals = [x // g for x in vals]
                r = Lin(dict(zip(self.k, vals)), vals[-1])
            r.n_ = r; self.n_ = r
        return self.n_
    def key(self):
        if self.key_ is None: self.key_ = (tuple(sorted(self.k.items())), self.c)
        return self.key_
    def __repr__(self): return " + ".join(["%s*%s" % (x, v) for v, x in sorted(self.k.items())] + [str(self.c)])

def V(n): return Lin({n: 1})
def K(c): return Lin({}, c)

class Poly:
    """constraints (lin, strict): lin > 0 or lin >= 0"""
    def __init__(self, cs=()):
        d = {}
        for l, s in cs:
            l = l.norm(); d[(l.key(), s)] = (l, s)
        self.cs = tuple(d.values()); self.keys = set(d)
    def key(self):
        if not hasattr(self, "k_"): self.k_ = frozenset(self.keys)
        return self.k_
    def meet(self, *cs): return Poly(self.cs + tuple(cs))
    def vars(self): return {v for l, _ in self.cs for v in l.k}
    @staticmethod
    def drop(cs, v):
        # equality? (two opposite non-strict constraints)
        pos = [(l, s) for l, s in cs if l.k.get(v, 0) > 0]
        neg = [(l, s) for l, s in cs if l.k.get(v, 0) < 0]
        rest = [(l, s) for l, s in cs if v not in l.k]
        nk = {(l.norm().key()) for l, s in neg if not s}
        for l, s in pos:
            if not s and l.scale(-1).norm().key() in nk:
                x = l.k[v]           # l == 0, x > 0: m - (m_v/x) l, scaled by x
                out = [((m.scale(x) + l.scale(-m.k[v])).norm() if v in m.k else m, t) for m, t in cs]
                return [(m, t) for m, t in out if m.k or m.c < 0 or (t and m.c == 0)]
        out = list(rest); seen = {(l.norm().key(), s) for l, s in out}
        for l, s in pos:
            for m, t in neg:
                e = l.scale(-m.k[v]) + m.scale(l.k[v])
                st = s or t
                if not e.k and (e.c > 0 or (e.c == 0 and not st)): continue
                e = e.norm(); kk = (e.key(), st)
                if kk not in seen: seen.add(kk); out.append((e, st))
        return out
    _feas = {}
    def feasible(self):
        if not hasattr(self, "f"):
            k = self.key()
            if k not in Poly._feas: Poly._feas[k] = self._feasible()
            self.f = Poly._feas[k]
        return self.f
    def _feasible(self):
        cs = [(l.norm(), s) for l, s in self.cs]
        while True:
            for l, s in cs:
                if not l.k and (l.c < 0 or (s and l.c == 0)): return False
            vs = {}
            for l, s in cs:
                for v, x in l.k.items():
                    a = vs.setdefault(v, [0, 0]); a[x > 0] += 1
            if not vs: return True
            v = min(vs, key=lambda u: (vs[u][0] * vs[u][1] - vs[u][0] - vs[u][1], u))
            cs = Poly.drop(cs, v)
            if len(cs) > 4000: return True
    def entails(self, l, strict=False):
        # infeasible with the negation: -l > 0 (or >= 0 when strict)
        if not l.k: return l.c > 0 or (l.c == 0 and not strict)
        nk = l.norm().key()
        if (nk, strict) in self.keys or (nk, True) in self.keys: return True
        return not self.rel(l).meet((l.scale(-1), not strict)).feasible()
    def rel(self, l):
        """constraints connected with the variables of l"""
        vs = set(l.k); cs = list(self.cs); out = []
        while True:
            n = [c for c in cs if vs & set(c[0].k)]
            if not n: return Poly(out)
            out += n; cs = [c for c in cs if not (vs & set(c[0].k))]
            for c in n: vs |= set(c[0].k)
    def eq(self, l): return self.entails(l) and self.entails(l.scale(-1))
    def havoc(self, v):
        if not any(v in l.k for l, _ in self.cs): return self
        return Poly(Poly.drop([(l.norm(), s) for l, s in self.cs], v)).reduce()
    def assign(self, v, e):
        if v in e.k:
            t = "'" + v
            p = self.meet((V(t) - e, False), (e - V(t), False)).havoc(v)
            return Poly([(l.subst(t, V(v)), s) for l, s in p.cs])
        return self.havoc(v).meet((V(v) - e, False), (e - V(v), False))
    def reduce(self):
        if len(self.cs) < 30: return self
        cs = list(self.cs); i = 0
        while i < len(cs):
            if Poly(cs[:i] + cs[i + 1:]).entails(*cs[i]): cs.pop(i)
            else: i += 1
        return Poly(cs)
    def join(self, o, extra=()):
        return Poly([c for c in self.cs if o.entails(*c)] + [c for c in o.cs if self.entails(*c)] + [c for c in extra if self.entails(*c) and o.entails(*c)])
    def widen(self, o, extra=()): return Poly([c for c in self.cs if o.entails(*c)] + [c for c in extra if self.entails(*c) and o.entails(*c)])
    def leq(self, o): return all(self.entails(*c) for c in o.cs)
    def sign(self, v):
        l = V(v)
        if self.eq(l): return "0"
        return "+" if self.entails(l, True) else "-" if self.entails(l.scale(-1), True) else "?"

class State:
    __slots__ = ("ts", "p")
    def __init__(self, ts, p): self.ts = ts; self.p = p
    def get(self, k, d=None): return self.ts.get(k, d)
    def set(self, **kw): return State({**self.ts, **kw}, self.p)
    def withp(self, p): return State(self.ts, p)
    def key(self): return frozenset(self.ts.items())

def feas(ss, last=None): return [s for s in ss if s.p.feasible()]

class Interp:
    """subclass: tracked(f, node)-> name or None for member accesses; event(S, f, call, inst) -> list of states or None;
    wanted(g): whether to go into g"""
    CAP = 40
    def __init__(self, prog):
        self.p = prog; self.n = 0; self.visits = 0
    # ---- hooks
    def field(self, e): return None
    def event(self, s, f, c, inst): return None
    def wanted(self, g): return False
    def keyvars(self): return ()
    def templates(self): return ()
    def follow(self, s, f, c, g, inst): return self.wanted(g)
    def isbool(self, f, e): return f.types[e["t"]][2] == "bool" or f.types[e["t"]][0] in ("PetscBool", "bool", "_Bool")
    def relevant(self, f, e):
        """integers are tracked when they meet something tracked in an assignment, comparison or return"""
        if self.isbool(f, e) or f.types[e["t"]][2] == "flt": return True
        if not hasattr(self, "_rel"): self._rel = {}
        if f not in self._rel:
            R = set(); self._rel[f] = R
            prs = []
            for x in walk(f.body):
                if x["k"] == "asg" or x["k"] == "bin" and x["op"] in ("<", ">", "<=", ">=", "==", "!="): prs.append((x["l_"], x["r_"]))
                if x["k"] == "decl": prs += [({"k": "ref", "n": v["n"], "t": v["t"], "dk": "local", "d": v.get("d")}, v["init"]) for v in x["v"] if v.get("init") is not None]
                if x["k"] == "ret" and x.get("e") is not None and f.rettype != "PetscErrorCode": R |= {y["n"] for y in walk(x["e"]) if y["k"] == "ref"}
            ch = True
            def rel(y): return y["k"] == "ref" and y["n"] in R or y["k"] == "mem" and self.field(f, y) is not None
            while ch:
                ch = False
                for a, b in prs:
                    for u, v in ((a, b), (b, a)):
                        if any(rel(y) for y in walk(u)):
                            new = {y["n"] for y in walk(v) if y["k"] == "ref" and y.get("dk") in ("local", "parm") and f.types[y["t"]][2] in ("int", "enum", "bool", "flt")} - R
                            if new: R |= new; ch = True
        return e["n"] in self._rel[f]
    # ----
    def scalar(self, f, t):
        ty = f.types[t]
        if ty[0] == "PetscErrorCode": return False
        return ty[2] in ("int", "flt", "enum", "bool")
    def name(self, f, inst, e):
        e = uncast(e)
        if e["k"] == "ref" and e.get("dk") in ("local", "parm") and self.scalar(f, e["t"]) and self.relevant(f, e):
            n = "%s.%s%s" % (inst, e["n"], "" if "d" not in e else "#%s" % e["d"])
            if self.isbool(f, e): self.bools.add(n)
            return n
        if e["k"] == "mem": return self.field(f, e)
        if e["k"] == "un" and e["op"] == "*":
            a = uncast(e["e"])
            if a["k"] == "ref": return ("*", inst, a["n"])
        return None
    def lname(self, s, f, inst, e):
        n = self.name(f, inst, e)
        if isinstance(n, tuple): n = s.get("&" + n[1] + "." + n[2])
        return n
    def tail(self, s, f, inst, e):
        """field a pointer expression was read from"""
        e = uncast(e)
        if e["k"] == "mem": return e["f"]
        if e["k"] == "ref": return s.get("@%s.%s" % (inst, e["n"]))
        if e["k"] == "un" and e["op"] == "&": return self.tail(s, f, inst, e["e"])
        return None
    def fresh(self):
        self.n += 1
        return "$%d" % self.n
    def product(self, op, a, b):
        """one name for the same product within one expression (PetscMin evaluates its arguments twice)"""
        if not hasattr(self, "_prod"): self._prod = {}
        return self._prod.setdefault((op, repr(a), repr(b)), "$*%d" % len(self._prod))
    def stale(self, s):
        for t in [t for t in s.p.vars() if t.startswith("$*")]: s = s.withp(s.p.havoc(t))
        return s
    # expressions: list of (state, Lin or None)
    def ex(self, s, f, inst, e):
        e0 = e; e = strip(e)
        k = e["k"]
        if k == "cast": 
            t = f.types[e["t"]] if "t" in e else None
            r = self.ex(s, f, inst, e["e"])
            src = uncast(e["e"])
            if t and t[2] == "int" and "t" in src and f.types[src["t"]][2] == "flt": return [(x, None) for x, _ in r]
            return r
        v = const(e)
        if v is not None and isinstance(v, (int, float)): return [(s, K(Fraction(v)))]
        if k in ("int", "flt") and "v" in e:
            try: return [(s, K(Fraction(str(e["v"]))))]
            except ValueError: return [(s, None)]
        if k in ("ref", "mem") or k == "un" and e["op"] == "*":
            n = self.lname(s, f, inst, e)
            return [(s, V(n) if n else None)]
        if k == "asg":
            out = []
            n = self.lname(s, f, inst, e["l_"])
            l0 = uncast(e["l_"])
            for s1, r in self.ex(s, f, inst, e["r_"]):
                if n is None:
                    if l0["k"] == "ref" and not self.scalar(f, l0["t"]):
                        t = self.tail(s1, f, inst, e["r_"]); s1 = s1.set(**{"@%s.%s" % (inst, l0["n"]): t})
                    out.append((s1, r)); continue
                op = e["op"]
                if op == "=": out += self.put(s1, n, r)
                else: out += [y for x in self.arith(s1, op[:-1], V(n), r) for y in self.put(x[0], n, x[1])]
            return out
        if k == "un" and e["op"] in ("++", "--", "p++", "p--", "post++", "pre++", "++post", "--post"):
            n = self.lname(s, f, inst, e["e"])
            if n is None: return [(s, None)]
            return self.put(s, n, V(n) + K(1 if "+" in e["op"] else -1))
        if k == "un" and e["op"] == "-": return [(x, y.scale(-1) if y else None) for x, y in self.ex(s, f, inst, e["e"])]
        if k == "un" and e["op"] == "+": return self.ex(s, f, inst, e["e"])
        if k == "un" and e["op"] == "!" or k == "bin" and e["op"] in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
            return [(x, K(1)) for x in self.cond(s, f, inst, e, True)] + [(x, K(0)) for x in self.cond(s, f, inst, e, False)]
        if k == "cond":
            out = []
            for x in self.cond(s, f, inst, e["q"], True): out += self.ex(x, f, inst, e["y"])
            for x in self.cond(s, f, inst, e["q"], False): out += self.ex(x, f, inst, e["z"])
            return out
        if k == "bin" and e["op"] == ",": return [y for x, _ in self.ex(s, f, inst, e["l_"]) for y in self.ex(x, f, inst, e["r_"])]
        if k == "bin":
            return [z for x, a in self.ex(s, f, inst, e["l_"]) for y, b in self.ex(x, f, inst, e["r_"]) for z in self.arith(y, e["op"], a, b)]
        if k == "call": return self.call(s, f, inst, e)
        out = [s]
        for c in kids(e): out = [y for x in out for y, _ in self.ex(x, f, inst, c)]
        return [(x, None) for x in out]
    def put(self, s, n, r):
        if r is None: return [(s.withp(s.p.havoc(n)), None)]
        s = s.withp(s.p.assign(n, r))
        for t in [t for t in s.p.vars() if t.startswith("$")]: s = s.withp(s.p.havoc(t))
        return [(s, V(n))]
    def arith(self, s, op, a, b):
        if a is None or b is None: return [(s, None)]
        if op == "+": return [(s, a + b)]
        if op == "-": return [(s, a - b)]
        if op == "*":
            if b.const() is not None: return [(s, a.scale(b.const()))]
            if a.const() is not None: return [(s, b.scale(a.const()))]
            z = self.product(op, *sorted((a, b), key=repr)); p = s.p; cs = []
            for x, y in ((a, b), (b, a)):      # x scaled by y
                if p.entails(x) and p.entails(y): cs.append((V(z), p.entails(x, True) and p.entails(y, True)))
                if p.entails(x):
                    if p.entails(y - K(1)): cs.append((V(z) - x, p.entails(x, True) and p.entails(y - K(1), True)))
                    if p.entails(K(1) - y): cs.append((x - V(z), p.entails(x, True) and p.entails(K(1) - y, True)))
            return [(s.withp(p.meet(*cs)), V(z))]
        if op == "/":
            if b.const(): return [(s, a.scale(1 / b.const()))]
            z = self.product(op, a, b); p = s.p; cs = []
            if p.entails(b, True) and p.entails(a):
                cs.append((V(z), p.entails(a, True)))
                if p.entails(b - K(1)): cs.append((a - V(z), False))
            return [(s.withp(p.meet(*cs)), V(z))]
        return [(s, None)]
    def cond(self, s, f, inst, e, pol):
        e = strip(e)
        v = const(e)
        if v is not None: return [s] if bool(v) == pol else []
        if e["k"] == "cast": return self.cond(s, f, inst, e["e"], pol)
        if e["k"] == "un" and e["op"] == "!": return self.cond(s, f, inst, e["e"], not pol)
        if e["k"] == "bin" and e["op"] in ("&&", "||"):
            conj = (e["op"] == "&&") == pol
            if conj: return [y for x in self.cond(s, f, inst, e["l_"], pol) for y in self.cond(x, f, inst, e["r_"], pol)]
            return self.cond(s, f, inst, e["l_"], pol) + [y for x in self.cond(s, f, inst, e["l_"], not pol) for y in self.cond(x, f, inst, e["r_"], pol)]
        if e["k"] == "bin" and e["op"] in ("<", ">", "<=", ">=", "==", "!="):
            op = e["op"]
            if not pol: op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
            out = []
            isint = all(f.types[uncast(e[x])["t"]][2] in ("int", "enum", "bool") for x in ("l_", "r_") if "t" in uncast(e[x]))
            for x, a in self.ex(s, f, inst, e["l_"]):
                for y, b in self.ex(x, f, inst, e["r_"]):
                    if a is None or b is None: out.append(y); continue
                    out += [y.withp(q) for q in self.compare(y.p, op, a, b, isint)]
            return feas(out)
        out = []
        for x, a in self.ex(s, f, inst, e):
            if a is None: out.append(x); continue
            out += [x.withp(q) for q in self.compare(x.p, "!=" if pol else "==", a, K(0), True)]
        return feas(out)
    def compare(self, p, op, a, b, isint):
        d = a - b
        one = K(1) if isint else K(0)
        if op == ">": return [p.meet((d - one, not isint))]
        if op == "<": return [p.meet((d.scale(-1) - one, not isint))]
        if op == ">=": return [p.meet((d, False))]
        if op == "<=": return [p.meet((d.scale(-1), False))]
        if op == "==": return [p.meet((d, False), (d.scale(-1), False))]
        return [p.meet((d - one, not isint)), p.meet((d.scale(-1) - one, not isint))]
    def call(self, s, f, inst, c):
        fn = c.get("fn")
        vals = []; ss = [(s, [])]
        r = self.event(s, f, c, inst)
        if r is not None: r = [self.stale(x) for x in r]
        if r is not None: return [(x, None) for x in r]
        for a in c["a"]:
            ss = [(y, vs + [v]) for x, vs in ss for y, v in self.ex(x, f, inst, a)]
        g = self.p.resolve(f, fn) if fn else None
        if g is not None and g.body is not None and self.follow(s, f, c, g, inst) and inst.count("/") < 8:
            out = []
            for x, vs in ss: out += self.enter(x, f, inst, c, g, vs)
            return out
        out = []
        for x, vs in ss:
            for a in c["a"]:
                a = uncast(a)
                if a["k"] == "un" and a["op"] == "&":
                    n = self.lname(x, f, inst, a["e"])
                    if n: x = x.withp(x.p.havoc(n))
                elif a["k"] == "ref":
                    n = x.get("&%s.%s" % (inst, a["n"]))
                    if n: x = x.withp(x.p.havoc(n))
            if g is not None:
                for n in self.effects(g): x = self.stale(x.withp(x.p.havoc(n)))
            out.append((x, None))
        return out
    def effects(self, g): return ()
    def enter(self, s, f, inst, c, g, vals):
        sub = "%s/%s@%s" % (inst, g.name, c["l"])
        ts = dict(s.ts); p = s.p
        for j, prm in enumerate(g.params):
            if j >= len(c["a"]): break
            a = uncast(c["a"][j])
            if self.scalar(g, prm["t"]):
                n = self.pnames(g, sub)[j]
                if n and vals[j] is not None: p = p.assign(n, vals[j])
            else:
                ts["@%s.%s" % (sub, prm["n"])] = self.tail(s, f, inst, a)
                if a["k"] == "un" and a["op"] == "&":
                    n = self.lname(s, f, inst, a["e"])
                    if n: ts["&%s.%s" % (sub, prm["n"])] = n
                elif a["k"] == "ref":
                    n = s.get("&%s.%s" % (inst, a["n"]))
                    if n: ts["&%s.%s" % (sub, prm["n"])] = n
        out = []
        p = self.stale(State(ts, p)).p
        mk = (g, sub, frozenset(ts.items()), p.key())
        if not hasattr(self, "_memo"): self._memo = {}
        if mk not in self._memo: self._memo[mk] = self.run(g, sub, State(ts, p))
        for x in self._memo[mk]:
            rv = "%s.return" % sub
            ts = {k: v for k, v in x.ts.items() if not (k[1:].startswith(sub + ".") and k[0] in "@&")}
            p = x.p; val = None
            if rv in p.vars():
                val = self.fresh(); p = p.assign(val, V(rv))
            for v in [v for v in p.vars() if v.startswith(sub + ".")]: p = p.havoc(v)
            out.append((State(ts, p), V(val) if val else None))
        return out
    def pnames(self, g, inst):
        """names under which the body refers to the parameters"""
        if not hasattr(self, "_pn"): self._pn = {}
        if g not in self._pn:
            d = {}
            for x in walk(g.body):
                if x["k"] == "ref" and x.get("dk") == "parm": d.setdefault(x["n"], x)
            self._pn[g] = d
        return [self.name(g, inst, self._pn[g][q["n"]]) if q["n"] in self._pn[g] else "%s.%s" % (inst, q["n"]) for q in g.params]
    # ---- fixpoint over a function
    def run(self, g, inst, init):
        from .resource import is_error_return
        cfg = g.cfg()
        IN = {cfg.entry.id: [init]}; seen = {}
        work = [cfg.entry]; queued = {cfg.entry.id}
        order = {n.id: i for i, n in enumerate(self.rpo(cfg))}
        done = {}; preds = cfg.preds()
        def add(m, st):
            lst = IN.setdefault(m.id, [])
            k = st.key(); head = len(preds.get(m.id, ())) > 1
            if head:
                kk = (k, tuple(st.p.sign(v) for v in self.keyvars(st)))
                for i, t in enumerate(lst):
                    if (t.key(), tuple(t.p.sign(v) for v in self.keyvars(t))) == kk:
                        if st.p.leq(t.p): return False
                        c = seen[(m.id, kk)] = seen.get((m.id, kk), 0) + 1
                        lst[i] = t.withp(t.p.join(st.p, self.templates()) if c < 3 or m.id not in cfg.loops else t.p.widen(st.p, self.templates()))
                        return True
                lst.append(st); return True
            for t in lst:
                if t.key() == k and st.p.leq(t.p): return False
            lst[:] = [t for t in lst if not (t.key() == k and t.p.leq(st.p))]
            lst.append(st)
            if len(lst) > self.CAP: 
                by = {}
                for t in lst: by[t.key()] = by[t.key()].withp(by[t.key()].p.join(t.p, self.templates())) if t.key() in by else t
                lst[:] = list(by.values())
            return True
        while work:
            work.sort(key=lambda n: -order.get(n.id, 0))
            n = work.pop(); queued.discard(n.id)
            self.visits += 1
            if self.visits > 60000: raise AnalysisBroken("relational analysis did not converge in " + g.name)
            for st in list(IN[n.id]):
                dk = (n.id, st.key(), st.p.key())
                if dk in done: continue
                done[dk] = 1
                for m, x in self.step(g, inst, n, st, is_error_return):
                    if add(m, x) and m.id not in queued: queued.add(m.id); work.append(m)
        return feas(IN.get(cfg.exit.id, []))
    def rpo(self, cfg):
        seen = set(); out = []
        st = [(cfg.entry, iter(cfg.entry.succ))]; seen.add(cfg.entry.id)
        while st:
            n, it = st[-1]
            for m, _ in it:
                if m.id not in seen: seen.add(m.id); st.append((m, iter(m.succ))); break
            else: st.pop(); out.append(n)
        return out[::-1]
    def step(self, g, inst, n, s, iserr):
        s = self.stale(s)
        if n.kind == "ret":
            if iserr(g, n): return
            e = n.ast.get("e")
            rs = [s]
            if e is not None:
                r = self.ex(s, g, inst, e)
                if g.rettype != "PetscErrorCode":
                    rs = [x.withp(x.p.assign("%s.return" % inst, v)) if v is not None else x for x, v in r]
                else: rs = [x for x, _ in r]
            for x in rs:
                for m, _ in n.succ: yield m, x
            return
        if n.kind == "cond":
            for m, lab in n.succ:
                for x in self.cond(s, g, inst, n.ast, lab): yield m, x
            return
        if n.kind == "switch":
            vals = [l[1] for _, l in n.succ if isinstance(l, tuple)]
            ty = g.types[uncast(n.ast)["t"]]
            for x, v in self.ex(s, g, inst, n.ast):
                for m, lab in n.succ:
                    if v is None:
                        if not (lab == "nodefault" and self.exhaustive(g, n.ast, vals)): yield m, x
                        continue
                    if isinstance(lab, tuple): ps = self.compare(x.p, "==", v, K(lab[1]), True)
                    else:
                        if lab == "nodefault" and self.exhaustive(g, n.ast, vals): continue
                        ps = [x.p]
                        for w in vals: ps = [q for p in ps for q in self.compare(p, "!=", v, K(w), True)]
                    for y in feas([x.withp(q) for q in ps]): yield m, y
            return
        if n.kind == "var":
            v = n.ast
            ss = [s]
            nm = None
            if self.scalar(g, v["t"]):
                nm = self.name(g, inst, {"k": "ref", "dk": "local", "n": v["n"], "t": v["t"], **({"d": v["d"]} if "d" in v else {})})
                ss = [x.withp(x.p.havoc(nm)) for x in ss]
            if v.get("init") is not None:
                out = []
                for x in ss:
                    for y, r in self.ex(x, g, inst, v["init"]):
                        if nm: out += [z for z, _ in self.put(y, nm, r)]
                        else: out.append(y.set(**{"@%s.%s" % (inst, v["n"]): self.tail(y, g, inst, v["init"])}) if uncast(v["init"])["k"] in ("mem", "ref") else y)
                ss = out
            for x in ss:
                for m, _ in n.succ: yield m, x
            return
        rs = [s]
        if n.kind == "expr": rs = [x for x, _ in self.ex(s, g, inst, n.ast)]
        for x in rs:
            for m, _ in n.succ: yield m, x
    def exhaustive(self, g, e, vals):
        ty = g.types[uncast(e)["t"]]
        for tu in self.p.tus:
            for en in tu.enums:
                if en["name"] and en["name"] in (ty[0], ty[1]): return {c[1] for c in en["consts"]} <= set(vals)
        return False
