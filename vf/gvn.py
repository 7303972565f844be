"""Value numbering over an inlined, error-pruned control-flow graph.

Flow(prog, f, inline)   CFG of f with calls to selected callees replaced by their bodies, error exits removed
                        (nodes from which no normal exit is reachable), dominators, control dependence, and for
                        every node an environment mapping storage locations to hash-consed terms.
Terms: arithmetic is kept as polynomials over atoms, so a term is equal to another exactly when the two
expressions agree by ring identities; joins introduce phi atoms.  This is a dataflow analysis (value
numbering): no path is enumerated and no formula is solved.
"""
from fractions import Fraction
from .core import *
from .resource import is_error_return

class T:
    __slots__ = ("op", "args", "id", "_p")
    tab = {}
    def __repr__(self): return tshow(self)

def mk(op, *args):
    key = (op, args)
    t = T.tab.get(key)
    if t is None:
        t = T(); t.op = op; t.args = args; t.id = len(T.tab); t._p = None
        T.tab[key] = t
    return t

# ---------------------------------------------------------------- polynomials
def num(v): return mk("c", v if isinstance(v, Fraction) else Fraction(v))
ZERO = num(0); ONE = num(1)
NULLT = ZERO

def mono_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for t, e in b:
        e2 = d.get(t, 0) + e
        if e2: d[t] = e2
        else: d.pop(t, None)
    return tuple(sorted(d.items(), key=lambda x: x[0].id))

def poly(t):
    if t._p is not None: return t._p
    if t.op == "c": p = {(): t.args[0]} if t.args[0] else {}
    elif t.op == "poly": p = dict(t.args[0])
    else: p = {((t, 1),): Fraction(1)}
    t._p = p
    return p

def frompoly(p):
    p = {m: c for m, c in p.items() if c}
    if not p: return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == (): return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    return mk("poly", frozenset(p.items()))

MAXP = 4000
def add(a, b, s=1):
    p = dict(poly(a))
    for m, c in poly(b).items(): p[m] = p.get(m, 0) + s * c
    return frompoly(p)
def sub(a, b): return add(a, b, -1)
def neg(a): return frompoly({m: -c for m, c in poly(a).items()})
def mul(a, b):
    pa, pb = poly(a), poly(b)
    if len(pa) * len(pb) > MAXP: return mk("mul", a, b) if a.id <= b.id else mk("mul", b, a)
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = mono_mul(m1, m2); p[m] = p.get(m, 0) + c1 * c2
    return frompoly(p)
def inv(b):
    pb = poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        return frompoly({tuple((t, -e) for t, e in m): 1 / c})
    if not pb: return mk("undef")
    # factor the leading coefficient out so that proportional denominators agree
    m0 = min(pb, key=lambda m: [(t.id, e) for t, e in m])
    c0 = pb[m0]
    d = frompoly({m: c / c0 for m, c in pb.items()})
    return frompoly({((mk("inv", d), 1),): 1 / c0})
def div(a, b): return mul(a, inv(b))
def ipow(a, n):
    if n < 0: return inv(ipow(a, -n)) if len(poly(a)) == 1 or True else None
    r = ONE
    for _ in range(n): r = mul(r, a)
    return r
def power(a, e):
    if e.op == "c":
        v = e.args[0]
        if v.denominator == 1 and abs(v) <= 8:
            n = int(v)
            if n >= 0: return ipow(a, n)
            pa = poly(a)
            return ipow(inv(a), -n)
    return mk("pow", a, e)
def cval(t): return t.args[0] if t.op == "c" else None

def tshow(t, d=0):
    if not isinstance(t, T): return str(t)
    if d > 8: return ".."
    s = lambda x: tshow(x, d + 1)
    if t.op == "c": return str(t.args[0])
    if t.op == "poly":
        out = []
        for m, c in sorted(t.args[0], key=lambda x: [(a.id, e) for a, e in x[0]]):
            fs = [s(a) + ("" if e == 1 else "^%d" % e) for a, e in m]
            if c != 1 or not fs: fs.insert(0, str(c))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if t.op == "p": return t.args[1]
    if t.op == "ld": return s(t.args[0])
    if t.op == "V": return t.args[1]
    if t.op == "G": return t.args[0]
    if t.op == "F": 
        b = t.args[0]
        return (s(b.args[0]) + "->" if b.op == "D" else s(b) + ".") + t.args[1]
    if t.op == "D": return "*" + s(t.args[0])
    if t.op == "E": return (s(t.args[0].args[0]) if t.args[0].op == "D" else s(t.args[0])) + "[" + s(t.args[1]) + "]"
    if t.op == "addr": return "&" + s(t.args[0])
    if t.op == "phi": return "phi(%s@%s)" % (s(t.args[1]), t.args[0])
    if t.op == "fn": return t.args[0]
    if t.op == "str": return json.dumps(t.args[0])
    return t.op + "(" + ", ".join(s(x) for x in t.args) + ")"

def subterms(t, seen=None):
    """all sub-terms (terms inside polynomials included)"""
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen: continue
        seen.add(x)
        if x.op == "poly":
            for m, c in x.args[0]:
                for a, e in m: st.append(a)
        else:
            for a in x.args:
                if isinstance(a, T): st.append(a)
                elif isinstance(a, tuple): st.extend(y for y in a if isinstance(y, T))
    return seen

def subst(t, f, memo=None):
    """rebuild t, replacing every sub-term x for which f(x) is not None"""
    if memo is None: memo = {}
    if not isinstance(t, T): return t
    if t in memo: return memo[t]
    r = f(t)
    if r is None:
        if t.op == "poly":
            r = ZERO
            for m, c in t.args[0]:
                x = num(c)
                for a, e in m:
                    y = subst(a, f, memo)
                    x = mul(x, ipow(y, e) if e > 0 else ipow(inv(y), -e))
                r = add(r, x)
        elif t.op == "inv": r = inv(subst(t.args[0], f, memo))
        elif t.op == "pow": r = power(subst(t.args[0], f, memo), subst(t.args[1], f, memo))
        elif t.op in ("c", "p", "fn", "str", "G", "V"): r = t
        else:
            r = mk(t.op, *[subst(a, f, memo) if isinstance(a, T) else tuple(subst(y, f, memo) for y in a) if isinstance(a, tuple) else a for a in t.args])
    memo[t] = r
    return r

# ---------------------------------------------------------------- inlined CFG
class ICFG:
    """CFG of f with selected callees inlined. Every node gets .fn (the function its text comes from)."""
    __slots__ = ()

def type_index(tu, ty):
    if not hasattr(tu, "_tidx"): tu._tidx = {tuple(x): i for i, x in enumerate(tu.types)}
    k = tuple(ty)
    if k not in tu._tidx: tu._tidx[k] = len(tu.types); tu.types.append(ty)
    return tu._tidx[k]

class Cloner:
    def __init__(self, root, callee):
        self.root = root; self.callee = callee; self.ids = {}
        self.same = root.tu is callee.tu
    fresh = [10 ** 7]
    def vid(self, d):
        if d not in self.ids: Cloner.fresh[0] += 1; self.ids[d] = Cloner.fresh[0]
        return self.ids[d]
    def clone(self, n):
        if type(n) is dict:
            o = {}
            for k, v in n.items():
                if k == "d" and n.get("k") in ("ref", "var"):
                    o[k] = self.vid(v) if n["k"] == "var" or n.get("dk") in ("local", "parm") else v
                elif k == "t" and not self.same: o[k] = type_index(self.root.tu, self.callee.types[v])
                elif type(v) is dict or type(v) is list: o[k] = self.clone(v)
                else: o[k] = v
            if o.get("dk") == "parm": o["dk"] = "local"
            return o
        if type(n) is list: return [self.clone(x) for x in n]
        return n

def own_error_return(f, node):
    if is_error_return(f, node): return True
    return False

def inline_cfg(prog, f, want, depth=6, stack=()):
    """nodes list with .succ ; returns (entry, exit, nodes); each node has .fn"""
    cfg = CFG(f)
    nodes = []
    for n in cfg.reachable():
        nodes.append(n)
    res = []
    seen_ids = set()
    class Box: pass
    counter = [len(cfg.nodes)]
    fnof = {}
    def newnode(kind, ast, src):
        n = Node(counter[0], kind, ast); counter[0] += 1
        fnof[n.id] = src
        return n
    allnodes = list(nodes)
    for n in nodes: fnof[n.id] = f
    def expand(ns, src, depth, stack):
        """expand inlinable calls in nodes ns (text from function src)"""
        for n in ns:
            if n.ast is None or n.kind not in ("expr", "var", "cond", "ret", "switch"): continue
            if depth <= 0: continue
            tgt = []
            def find(e, parent, key, idx):
                if type(e) is not dict: return
                if e["k"] == "cond" and parent is not None:
                    find(e["q"], e, "q", None); return
                if e["k"] == "bin" and e["op"] in ("&&", "||"):
                    find(e["l_"], e, "l_", None); return
                if e["k"] == "sizeof": return
                for k, v in list(e.items()):
                    if type(v) is dict: find(v, e, k, None)
                    elif type(v) is list:
                        for i, x in enumerate(v):
                            if type(x) is dict: find(x, e, k, i)
                if e["k"] == "call" and e.get("fn") and e["fn"] not in stack:
                    g = prog.resolve(src, e["fn"])
                    if g is not None and g.body is not None and len(g.params) == len(e["a"]) and want(g, e, src):
                        tgt.append((e, parent, key, idx, g))
            holder = {"k": "holder", "x": n.ast}
            h = json.loads(json.dumps(holder)) if True else holder
            # work on a private copy so that the original tree stays intact
            find(h["x"], h, "x", None)
            if not tgt: continue
            n_succ = n.succ
            # chain: bindings ; body ; ... ; n'
            n2 = newnode(n.kind, None, src); n2.succ = n_succ; n2.macro = n.macro
            first = None; tail = []
            cur_entry = None
            prev_links = []      # function to connect previous piece to next entry
            pieces = []
            for e, parent, key, idx, g in tgt:
                cl = Cloner(f, g)
                binds = []
                for prm, a in zip(g.params, e["a"]):
                    d = cl.vid(prm["d"])
                    ast = {"k": "var", "n": prm["n"], "d": d, "t": prm["t"] if cl.same else type_index(f.tu, g.types[prm["t"]]), "init": a, "l": e.get("l", 0)}
                    binds.append(newnode("var", ast, g))
                Cloner.fresh[0] += 1
                tmpd = Cloner.fresh[0]
                gc = CFG(g)
                gn = gc.reachable()
                m = {}
                tt = g.ret if cl.same else type_index(f.tu, g.types[g.ret])
                join = newnode("join", None, g)
                for x in gn:
                    if x is gc.exit or x is gc.entry: continue
                    if x.kind == "ret":
                        if own_error_return(g, x): nn = newnode("err", None, g); m[x.id] = nn; continue
                        ee = x.ast.get("e")
                        ast = None
                        if ee is not None:
                            ce = cl.clone(ee)
                            ast = {"k": "asg", "op": "=", "l_": {"k": "ref", "n": "<ret:%s>" % g.name, "dk": "local", "d": tmpd, "t": tt, "l": x.line}, "r_": ce, "t": tt, "l": x.line}
                        nn = newnode("expr" if ast else "join", ast, g)
                        nn.line = x.line
                    else:
                        nn = newnode(x.kind, cl.clone(x.ast) if x.ast is not None and x.kind != "join" else x.ast, g)
                        nn.line = x.line; nn.macro = x.macro
                    m[x.id] = nn
                m[gc.exit.id] = join
                for x in gn:
                    if x is gc.exit or x is gc.entry: continue
                    nn = m[x.id]
                    if nn.kind == "err": nn.succ = []
                    elif x.kind == "ret": nn.succ = [(join, None)]
                    else: nn.succ = [(m[y.id], lab) for y, lab in x.succ]
                gentry = m[gc.entry.succ[0][0].id]
                for i, b in enumerate(binds): b.succ = [(binds[i + 1] if i + 1 < len(binds) else gentry, None)]
                pieces.append((binds[0] if binds else gentry, join))
                newl = binds + [m[x.id] for x in gn if x is not gc.entry and x is not gc.exit] + [join]
                allnodes.extend(newl)
                expand([y for y in newl if y.kind not in ("err", "join")], g, depth - 1, stack + (g.name,))
                repl = {"k": "ref", "n": "<ret:%s>" % g.name, "dk": "local", "d": tmpd, "t": e["t"] if "t" in e else tt, "l": e.get("l", 0), "inl": g.name}
                if idx is None: parent[key] = repl
                else: parent[key][idx] = repl
            # relink: n becomes a join to the first piece
            for i, (en, jn) in enumerate(pieces):
                jn.succ = [(pieces[i + 1][0] if i + 1 < len(pieces) else n2, None)]
            n2.ast = h["x"]; n2.line = n.line
            allnodes.append(n2)
            n.kind = "join"; n.ast = None; n.succ = [(pieces[0][0], None)]
    expand(list(nodes), f, depth, (f.name,) + tuple(stack))
    return cfg.entry, cfg.exit, allnodes, fnof

def spread_copies(f, nodes, fnof):
    """block copies and clears of arrays of numbers as the loops over elements that they abbreviate"""
    top = max(n.id for n in nodes) + 1
    for n in list(nodes):
        if n.kind != "expr" or n.ast is None: continue
        e = n.ast; asg = None
        if e["k"] == "asg" and e["op"] == "=": asg = e; e = uncast(e["r_"])
        e = uncast(e)
        if e["k"] != "call" or len(e["a"]) < 2: continue
        fn = e.get("fn")
        if fn in ("memcpy", "memmove", "PetscMemcpy", "__builtin_memcpy") and len(e["a"]) == 3: dst, src, size = e["a"]
        elif fn in ("PetscMemzero",): dst, size = e["a"]; src = None
        elif fn in ("memset", "__builtin_memset") and len(e["a"]) == 3 and const(e["a"][1]) == 0: dst, src, size = e["a"][0], None, e["a"][2]
        else: continue
        dst = uncast(dst); src = uncast(src) if src is not None else None
        def elem(x):
            t = f.types[x["t"]]
            c = t[1].replace("const ", "").strip()
            m = re.match(r"(double|int)\s*(\*|\[.*\])$", c)
            return m.group(1) if m else None
        el = elem(dst)
        if el is None or src is not None and elem(src) != el: continue
        width = 8 if el == "double" else 4
        tn = type_index(f.tu, [el, el, "flt" if el == "double" else "int"]); ti = type_index(f.tu, ["int", "int", "int"])
        ln = n.line
        Cloner.fresh[0] += 1; kd = Cloner.fresh[0]
        k = lambda: {"k": "ref", "n": "<k>", "dk": "local", "d": kd, "t": ti, "l": ln, "c": 0}
        def at(x):
            if x["k"] == "un" and x["op"] == "&":
                y = uncast(x["e"])
                if y["k"] == "idx": return {"k": "idx", "t": tn, "l": ln, "c": 0, "b": y["b"], "i": {"k": "bin", "op": "+", "t": ti, "l": ln, "c": 0, "l_": y["i"], "r_": k()}}
            return {"k": "idx", "t": tn, "l": ln, "c": 0, "b": x, "i": k()}
        def new(kind, ast):
            nonlocal top
            m = Node(top, kind, ast); top += 1; m.line = ln; m.macro = n.macro
            fnof[m.id] = fnof[n.id]; nodes.append(m); return m
        num_ = {"k": "int", "t": ti, "l": ln, "c": 0, "v": width}
        i0 = new("var", {"k": "var", "n": "<k>", "d": kd, "t": ti, "l": ln, "c": 0, "init": {"k": "int", "t": ti, "l": ln, "c": 0, "v": 0}})
        cd = new("cond", {"k": "bin", "op": "<", "t": ti, "l": ln, "c": 0, "l_": k(), "r_": {"k": "bin", "op": "/", "t": ti, "l": ln, "c": 0, "l_": size, "r_": num_}})
        rhs = at(src) if src is not None else {"k": "flt", "t": tn, "l": ln, "c": 0, "v": 0.0} if el == "double" else {"k": "int", "t": ti, "l": ln, "c": 0, "v": 0}
        st = new("expr", {"k": "asg", "op": "=", "t": tn, "l": ln, "c": 0, "l_": at(dst), "r_": rhs})
        up = new("expr", {"k": "asg", "op": "=", "t": ti, "l": ln, "c": 0, "l_": k(), "r_": {"k": "bin", "op": "+", "t": ti, "l": ln, "c": 0, "l_": k(), "r_": {"k": "int", "t": ti, "l": ln, "c": 0, "v": 1}}})
        after = n.succ
        if asg is not None:
            z = new("expr", {"k": "asg", "op": "=", "t": asg["t"], "l": ln, "c": 0, "l_": asg["l_"], "r_": {"k": "int", "t": ti, "l": ln, "c": 0, "v": 0}})
            z.succ = after; after = [(z, None)]
        if len(after) != 1: continue
        i0.succ = [(cd, None)]; cd.succ = [(st, True), (after[0][0], False)]; st.succ = [(up, None)]; up.succ = [(cd, None)]
        n.kind = "join"; n.ast = None; n.succ = [(i0, None)]

class Flow:
    def __init__(self, prog, f, inline=None, depth=6, mods=None, bind=None, peel=0, init=None, nonnull=(), copies=False):
        """bind: {parameter name: term}: specialise f, discarding branches decided by the constants (conditional
        constant propagation); peel: at most so many copies of bodies of loops whose next iteration is decided;
        init: function(env, params) adding initial contents of memory"""
        self.p = prog; self.f = f; self.mods = mods or Mods.of(prog); self.bind = bind or {}; self.decided = set(); self.initf = init; self.nonnull = set(nonnull)
        self.entry, self.exit, nodes, self.fnof = inline_cfg(prog, f, inline or (lambda g, c, s: False), depth)
        if copies: spread_copies(f, nodes, self.fnof)
        self.byid = {n.id: n for n in nodes}
        self.byid[self.entry.id] = self.entry; self.byid[self.exit.id] = self.exit
        self._prune()
        if self.exit.id not in self.alive and self.entry.id not in self.alive: return
        self._order()
        self._loops()
        self._gvn()
        for _ in range(20):
            if not (self.bind or peel or self.nonnull or self.initf) or not self._decide(): break
            self._prune()
            if self.entry.id not in self.alive or self.exit.id not in self.alive: return
            self._order(); self._loops(); self._gvn()
        left = peel
        while left > 0:
            k = self._peel(left)
            if not k: break
            left -= k
            for _ in range(20):
                self._prune()
                if self.entry.id not in self.alive or self.exit.id not in self.alive: return
                self._order(); self._loops(); self._gvn()
                if not self._decide(): break
    def _peel(self, most):
        """copy the body of loops in front of them when their first test is decided on entry; number of copies made"""
        done = set(); made = 0
        for h in self.rpo:
            if h not in self.loops or made >= most: continue
            body = self.loops[h]
            if body & done: continue
            ent = [self.OUT[j] for j, _ in self.pred[h] if j not in body and j in self.OUT]
            if not ent: continue
            env = self._join(-1 - h, ent)
            x = h; ok = False
            while True:
                n = self.byid[x]
                if n.kind == "cond":
                    ok = self.ev(n.ast, dict(env), x).op == "c" and any(m.id not in body for m, _ in n.succ); break
                if n.kind != "join" or len(n.succ) != 1: break
                x = n.succ[0][0].id
                if x == h: break
            if not ok: continue
            full = {h}; st = [h]                    # include nodes of the body that lead to error exits
            full = set(body)
            copy = {}
            nid = max(self.byid) + 1
            for i in sorted(full):
                o = self.byid[i]
                c = Node(nid, o.kind, o.ast); nid += 1
                c.line = o.line; c.macro = o.macro
                copy[i] = c; self.byid[c.id] = c; self.fnof[c.id] = self.fnof[i]
                if i in self.decided: self.decided.add(c.id)
            for i in full:
                o = self.byid[i]
                copy[i].succ = [((copy[m.id] if m.id in full and m.id != h else m), lab) for m, lab in o.succ]
            for o in list(self.byid.values()):          # every way into the loop from outside
                if o.id in body or o.id in {c.id for c in copy.values()}: continue
                if any(m.id == h for m, _ in o.succ): o.succ = [((copy[h] if m.id == h else m), lab) for m, lab in o.succ]
            self.peeled = getattr(self, "peeled", 0) + 1
            done |= body; made += 1
        return made
    def retvals(self):
        out = []
        for i in self.rpo:
            n = self.byid[i]
            if n.kind == "ret" and n.ast is not None and n.ast.get("e") is not None:
                out.append((n, self.value(i, n.ast["e"])))
        return out
    def _known(self, t):
        if t.op == "c": return t.args[0]
        if t.op == "not":
            v = self._known(t.args[0]); return None if v is None else int(not v)
        if t in self.nonnull: return 1
        if t.op == "nz": return self._known(t.args[0])
        if t.op == "eq" and ZERO in t.args and any(a in self.nonnull for a in t.args): return 0
        if t.op in ("&&", "||"):
            vs = [self._known(a) for a in t.args]
            for v in vs:
                if v is not None and bool(v) == (t.op == "||"): return int(bool(v))
            return None if None in vs else int(t.op == "&&")
        return None
    def _decide(self):
        """remove branch edges whose condition is constant"""
        ch = False
        for i in list(self.alive):
            n = self.byid[i]
            if len(n.succ) < 2 or n.kind not in ("cond", "switch"): continue
            t = self.ev(n.ast, dict(self.IN[i]), i)
            v = self._known(t)
            if v is None: continue
            if n.kind == "cond": keep = [(m, lab) for m, lab in n.succ if lab == (v != 0)]
            else:
                keep = [(m, lab) for m, lab in n.succ if isinstance(lab, tuple) and lab[1] == v]
                if not keep: keep = [(m, lab) for m, lab in n.succ if not isinstance(lab, tuple)]
            if keep and len(keep) < len(n.succ): n.succ = keep; self.decided.add(i); ch = True
        return ch
    # ---- structure
    def _prune(self):
        succ = {}
        for n in self.byid.values():
            if n.kind == "ret" and is_error_return(self.f, n): succ[n.id] = []
            else: succ[n.id] = [(m.id, lab) for m, lab in n.succ if m.id in self.byid]
        pred = {i: [] for i in self.byid}
        for i, ss in succ.items():
            for j, lab in ss: pred[j].append((i, lab))
        alive = {self.exit.id}; st = [self.exit.id]
        while st:
            i = st.pop()
            for j, _ in pred[i]:
                if j not in alive: alive.add(j); st.append(j)
        reach = {self.entry.id}; st = [self.entry.id]
        while st:
            i = st.pop()
            for j, _ in succ[i]:
                if j in alive and j not in reach: reach.add(j); st.append(j)
        self.alive = reach
        self.succ = {i: [(j, lab) for j, lab in succ[i] if j in reach] for i in reach}
        self.pred = {i: [(j, lab) for j, lab in pred[i] if j in reach and i in reach] for i in reach}
        self.returns = self.exit.id in reach
    def _order(self):
        seen = set(); post = []
        st = [(self.entry.id, iter(self.succ[self.entry.id]))]
        seen.add(self.entry.id)
        while st:
            i, it = st[-1]
            for j, _ in it:
                if j not in seen:
                    seen.add(j); st.append((j, iter(self.succ[j]))); break
            else:
                post.append(i); st.pop()
        self.rpo = post[::-1]
        self.rpon = {i: k for k, i in enumerate(self.rpo)}
        self.idom = self._dom(self.rpo, self.pred, self.entry.id)
    def _dom(self, order, pred, root):
        num_ = {i: k for k, i in enumerate(order)}
        idom = {root: root}
        ch = True
        while ch:
            ch = False
            for i in order:
                if i == root: continue
                new = None
                for j, _ in pred[i]:
                    if j not in idom: continue
                    if new is None: new = j
                    else:
                        a, b = j, new
                        while a != b:
                            while num_[a] > num_[b]: a = idom[a]
                            while num_[b] > num_[a]: b = idom[b]
                        new = a
                if new is not None and idom.get(i) != new: idom[i] = new; ch = True
        return idom
    def dominates(self, a, b):
        while True:
            if a == b: return True
            n = self.idom.get(b)
            if n is None or n == b: return False
            b = n
    def _pdom(self):
        if hasattr(self, "ipdom"): return self.ipdom
        seen = {self.exit.id}; post = []
        st = [(self.exit.id, iter(self.pred[self.exit.id]))]
        while st:
            i, it = st[-1]
            for j, _ in it:
                if j not in seen: seen.add(j); st.append((j, iter(self.pred[j]))); break
            else: post.append(i); st.pop()
        order = post[::-1]
        self.ipdom = self._dom(order, self.succ, self.exit.id)
        return self.ipdom
    def postdominates(self, a, b):
        ip = self._pdom()
        while True:
            if a == b: return True
            n = ip.get(b)
            if n is None or n == b: return False
            b = n
    def cdeps(self):
        """node id -> set of (branch node id, label) it is directly control dependent on"""
        if hasattr(self, "_cd"): return self._cd
        ip = self._pdom()
        cd = {i: set() for i in self.alive}
        for i in self.alive:
            if len(self.succ[i]) < 2: continue
            for j, lab in self.succ[i]:
                k = j
                stop = ip.get(i)
                n = 0
                while k is not None and k != stop and n < 5000:
                    cd[k].add((i, lab)); 
                    nk = ip.get(k)
                    if nk == k: break
                    k = nk; n += 1
        self._cd = cd
        return cd
    def guards(self, i):
        """transitive control dependences of node i: set of (branch node id, label)"""
        cd = self.cdeps(); out = set(); st = [i]; seen = {i}
        while st:
            x = st.pop()
            for b, lab in cd.get(x, ()):
                out.add((b, lab))
                if b not in seen: seen.add(b); st.append(b)
        return out
    def _loops(self):
        self.backedges = []
        for i in self.alive:
            for j, _ in self.succ[i]:
                if self.dominates(j, i): self.backedges.append((i, j))
        self.loops = {}
        for l, h in self.backedges:
            body = self.loops.setdefault(h, {h})
            st = [l]
            while st:
                x = st.pop()
                if x in body: continue
                body.add(x)
                st.extend(j for j, _ in self.pred[x])
    def loops_of(self, i):
        """loop heads whose body contains i, innermost first"""
        hs = [h for h, b in self.loops.items() if i in b]
        return sorted(hs, key=lambda h: len(self.loops[h]))
    # ---- values
    def _gvn(self):
        self.IN = {}; self.OUT = {}
        env = {}
        for k, prm in enumerate(self.f.params): env[mk("V", prm["d"], prm["n"])] = self.bind.get(prm["n"]) or mk("p", k, prm["n"])
        if self.initf: self.initf(env, self.f.params)
        self.init = env
        self._fix(env, None)
        touched = {}
        for i in self.OUT:
            a, b = self.IN[i], self.OUT[i]
            if a is b: continue
            touched[i] = {k for k in set(a) | set(b) if a.get(k) is not b.get(k)}
        if self.loops:
            lt = {h: set().union(*[touched.get(i, set()) for i in body]) for h, body in self.loops.items()}
            # only loops whose own modifications matter: everything else keeps its entry value
            self._fix(env, lt)
    def _fix(self, env, lt):
        self.IN = {}; self.OUT = {}; self.lt = lt
        self.IN[self.entry.id] = env
        ch = True; it = 0
        while ch:
            ch = False; it += 1
            if it > 40: break
            for i in self.rpo:
                if i == self.entry.id: new = dict(env)
                else:
                    ps = [(j, self.OUT[j]) for j, _ in self.pred[i] if j in self.OUT]
                    if not ps: continue
                    if i in self.loops:
                        body = self.loops[i]
                        ent = [o for j, o in ps if j not in body]; back = [o for j, o in ps if j in body]
                        new = self._join_head(i, ent, back)
                    else: new = self._join(i, [o for _, o in ps])
                if self.IN.get(i) != new or i not in self.OUT:
                    self.IN[i] = new
                    out = self._transfer(i, new)
                    if self.OUT.get(i) != out: self.OUT[i] = out; ch = True
    def _join_head(self, i, ent, back):
        e0 = self._join(i, ent)
        if not back: return e0
        bs = []
        for b in back:
            b2 = {}
            for k, v in b.items():
                if k.op in ("E", "D", "F") and self._ofhead(k, i):
                    c = mk("ver", self.cls(k)); b2[c] = mk("vl", i); continue
                if k in b2: continue
                b2[k] = v
            bs.append(b2)
        new = self._join(i, [e0] + bs)
        if self.lt is not None:
            lt = self.lt[i]
            for k in list(new):
                if new[k].op == "phi" and new[k].args[0] == i and k not in lt:
                    if k in e0: new[k] = e0[k]
                    else: del new[k]
        return new
    def _ofhead(self, k, i):
        r = self._ofh.get((k, i)) if hasattr(self, "_ofh") else None
        if r is None:
            if not hasattr(self, "_ofh"): self._ofh = {}
            r = any(x.op == "phi" and x.args[0] == i for x in subterms(k))
            self._ofh[(k, i)] = r
        return r
    def _join(self, i, envs):
        if len(envs) == 1: return dict(envs[0])
        keys = set()
        for e in envs: keys |= set(e)
        old = self.IN.get(i, {})
        out = {}
        for k in keys:
            ph = mk("phi", i, k)
            if old.get(k) is ph: out[k] = ph; continue
            vals = {self._initial(e, k) if k not in e else e[k] for e in envs}
            out[k] = vals.pop() if len(vals) == 1 else ph
        return out
    def _initial(self, env, loc):
        if loc.op in ("ver", "copy"): return mk("v0")
        v = self._ver(env, self.cls(loc))
        while v.op == "vs" and self._apart(loc, v.args[0]): v = v.args[1]
        return mk("ld", loc, v)
    def _ver(self, env, c):
        return env.get(mk("ver", c), mk("v0"))
    def cls(self, loc):
        """alias class: field name, or the name of the array"""
        if loc.op == "V": return mk("cl", "v", loc.args[0])
        if loc.op == "G": return mk("cl", "g", loc.args[0])
        if loc.op == "F": return mk("cl", "f", loc.args[1])
        if loc.op == "E": return mk("cl", "e", self._basename(loc.args[0]))
        if loc.op == "D": return mk("cl", "e", self._basename(loc))
        return mk("cl", "?", loc.op)
    def _basename(self, b):
        while True:
            if b.op == "D":
                p = b.args[0]
                if p.op == "ld": b = p.args[0]; continue
                if p.op == "p": return "p%d" % p.args[0]
                if p.op == "phi": b = p.args[1]; continue
                if p.op == "addr": b = p.args[0]; continue
                if p.op == "out": return "out%s.%s" % (p.args[0], p.args[1])
                if p.op == "call": return "call" + str(p.args[0])
                if p.op == "poly": return "expr"
                return p.op
            if b.op == "E": b = b.args[0]; continue
            if b.op == "F": return b.args[1]
            if b.op == "V": return "v%d" % b.args[0]
            if b.op == "G": return b.args[0]
            return b.op
    def load(self, env, loc):
        if loc in env: return env[loc]
        return self._initial(env, loc)
    def store(self, env, loc, val, node):
        if loc.op in ("E", "D"):
            c = self.cls(loc)
            for k in [k for k in env if k.op in ("E", "D") and k is not loc and self.cls(k) is c]:
                if self._apart(k, loc): continue
                del env[k]
            prev = self._ver(env, c)
            env[mk("ver", c)] = mk("vs", loc, prev, node) if self._vdepth(prev) < 150 else mk("vk", node)
        elif loc.op == "F":
            for k in [k for k in env if k.op == "F" and k is not loc and k.args[1] == loc.args[1]]:
                # same field of a possibly different object: keep only when the objects are provably distinct
                if self._distinct(k, loc): continue
                del env[k]
            env[mk("ver", self.cls(loc))] = mk("vk", node)
        env[loc] = val
    def _vdepth(self, v):
        d = 0
        while v.op == "vs": v = v.args[1]; d += 1
        return d
    def _apart(self, a, b):
        """same array, provably different element"""
        pa, pb = self._lpath(a), self._lpath(b)
        if pa[0] is not pb[0] or len(pa) != len(pb): return False
        for x, y in zip(pa[1:], pb[1:]):
            if isinstance(x, str) or isinstance(y, str):
                if x != y: return isinstance(x, str) and isinstance(y, str)
            elif cval(sub(x, y)): return True
        return False
    def _lpath(self, l):
        out = []
        while True:
            if l.op == "E":
                out.append(l.args[1])
                if l.args[0].op == "D": return [l.args[0]] + out[::-1]
                l = l.args[0]
            elif l.op == "F":
                out.append(l.args[1])
                if l.args[0].op == "D": return [l.args[0], ZERO] + out[::-1]
                l = l.args[0]
            elif l.op == "D": return [l, ZERO] + out[::-1]
            else: return [l] + out[::-1]
    def _distinct(self, a, b):
        ra, rb = a, b
        while ra.op == "F" and rb.op == "F":
            if ra.args[1] != rb.args[1]: return True
            ra, rb = ra.args[0], rb.args[0]
        return ra.op == "V" and rb.op == "V" and ra is not rb
    def clobber(self, env, test, node):
        dead = set()
        for k in list(env):
            if k.op in ("ver", "copy"): continue
            if test(k): dead.add(self.cls(k)); del env[k]
        return dead
    def _transfer(self, i, env):
        n = self.byid[i]
        env = dict(env)
        if n.ast is None or n.kind not in ("expr", "var", "cond", "ret", "switch"): return env
        self.eval_node(n, env)
        return env
    def eval_node(self, n, env):
        a = n.ast
        if n.kind == "var":
            loc = mk("V", a["d"], a["n"])
            for k in [k for k in env if k is not loc and k.op not in ("ver", "copy") and self._within(k, loc)]: del env[k]
            if a.get("init") is not None:
                init = a["init"]
                if init["k"] == "initl":
                    self._initlist(env, loc, init, n.id, a)
                    return None
                env[loc] = self.ev(init, env, n.id)
            else: env[loc] = mk("uninit", a["d"])
            return env.get(loc)
        if n.kind == "ret":
            return self.ev(a["e"], env, n.id) if a.get("e") else None
        return self.ev(a, env, n.id)
    def _initlist(self, env, loc, init, nid, a):
        env.pop(loc, None)
        for k, x in enumerate(init.get("a", [])):
            if x is None: continue
            l = mk("E", loc, num(k))
            if x["k"] == "initl":
                if self.ty(x)[2] in ("carr", "vla", "arr"): self._initlist(env, l, x, nid, a)
                else: env[l] = mk("initl", nid, k)
            else: env[l] = self.ev(x, env, nid)
    def _within(self, k, loc):
        while k.op in ("F", "E"):
            k = k.args[0]
            if k is loc: return True
        return False
    def ty(self, e): return self.f.types[e["t"]] if "t" in e else ["?", "?", "other", ""]
    def deref(self, p):
        if p.op == "addr": return p.args[0]
        if p.op == "poly":
            # pointer + offset kept by ptradd; fall through
            pass
        if p.op == "ptr": return mk("E", mk("D", p.args[0]), p.args[1])
        return mk("D", p)
    def ptradd(self, p, k):
        if cval(k) == 0: return p
        if p.op == "addr" and p.args[0].op == "E": 
            return mk("addr", self.elem(p.args[0].args[0], add(p.args[0].args[1], k)))
        if p.op == "addr": return mk("addr", self.elem(p.args[0], k))
        if p.op == "ptr": return self.ptr(p.args[0], add(p.args[1], k))
        return self.ptr(p, k)
    def ptr(self, b, k):
        return b if cval(k) == 0 else mk("ptr", b, k)
    def elem(self, base, k):
        if cval(k) == 0 and base.op == "D": return base
        return mk("E", base, k)
    def lv(self, e, env, nid):
        """location denoted by an lvalue expression"""
        k = e["k"]
        if k == "cast": return self.lv(e["e"], env, nid)
        if k == "ref":
            if e["dk"] in ("local", "parm"): return mk("V", e["d"], e["n"])
            if e["dk"] in ("global", "slocal"): return mk("G", e["n"])
            return mk("fnl", e["n"])
        if k == "mem":
            if e.get("arrow"): return mk("F", self.deref(self.ev(e["b"], env, nid)), e["f"])
            b = self.lv(e["b"], env, nid)
            return mk("F", b, e["f"])
        if k == "idx":
            p = self.ev(e["b"], env, nid)
            i = self.ev(e["i"], env, nid)
            if p.op == "addr" and p.args[0].op == "E" and self._isdecay(e["b"]):
                return mk("E", p.args[0].args[0], add(p.args[0].args[1], i))
            return self.deref(self.ptradd(p, i))
        if k == "un" and e["op"] == "*": return self.deref(self.ev(e["e"], env, nid))
        if k == "un" and e["op"] in ("++", "--"):
            self.ev(e, env, nid); return self.lv(e["e"], env, nid)
        if k == "asg": self.ev(e, env, nid); return self.lv(e["l_"], env, nid)
        if k == "bin" and e["op"] == ",": self.ev(e["l_"], env, nid); return self.lv(e["r_"], env, nid)
        t = self.ev(e, env, nid)
        return mk("tmp", t)
    def _isdecay(self, e): return True
    def isarray(self, e): return self.ty(e)[2] in ("carr", "vla", "arr")
    def ev(self, e, env, nid):
        k = e["k"]
        if k == "int": return num(e["v"])
        if k == "flt":
            try: return num(Fraction(repr(e["v"])))
            except Exception: return mk("fltc", str(e["v"]))
        if k == "nullp": return ZERO
        if k == "str": return mk("str", e["v"])
        if k == "sizeof": return num(e["v"]) if e.get("v") is not None else mk("sizeof", show(e))
        if k == "cast":
            t = self.ev(e["e"], env, nid)
            if self.ty(e)[2] == "int" and self.ty(e["e"])[2] == "flt" and t.op != "c": return mk("toint", t)
            return t
        if k == "ref":
            if e["dk"] == "enum": return num(e["v"])
            if e["dk"] == "func": return mk("fn", e["n"])
            loc = self.lv(e, env, nid)
            if e["dk"] in ("local", "parm") and self.ty(e)[2] in ("carr", "vla") or e["dk"] in ("global", "slocal") and self.isarray(e):
                return mk("addr", mk("E", loc, ZERO))
            return self.load(env, loc)
        if k in ("mem", "idx"):
            loc = self.lv(e, env, nid)
            if self.isarray(e): return mk("addr", mk("E", loc, ZERO))
            return self.load(env, loc)
        if k == "un":
            op = e["op"]
            if op == "&":
                i = uncast(e["e"])
                if i["k"] == "ref" and i.get("dk") == "func": return mk("fn", i["n"])
                loc = self.lv(e["e"], env, nid)
                if loc.op == "D": return loc.args[0]
                if loc.op == "E" and loc.args[0].op == "D": return self.ptr(loc.args[0].args[0], loc.args[1])
                return mk("addr", loc)
            if op == "*":
                t = self.ev(e["e"], env, nid)
                if t.op == "fn": return t
                if self.isarray(e): return mk("addr", mk("E", self.deref(t), ZERO))
                return self.load(env, self.deref(t))
            if op in ("++", "--"):
                loc = self.lv(e["e"], env, nid)
                old = self.load(env, loc)
                d = num(1 if op == "++" else -1)
                new = self.ptradd(old, d) if self.ty(e["e"])[2] == "ptr" else add(old, d)
                self.store(env, loc, new, nid)
                return old if e.get("post") else new
            v = self.ev(e["e"], env, nid)
            if op == "-": return neg(v)
            if op == "+": return v
            if op == "!": 
                a, pol = self.truth(v)
                return mk("not", a) if pol else a
            return mk("un" + op, v)
        if k == "bin":
            op = e["op"]
            if op == ",": self.ev(e["l_"], env, nid); return self.ev(e["r_"], env, nid)
            if op in ("&&", "||"):
                a = self.ev(e["l_"], env, nid); b = self.ev(e["r_"], env, dict(env) and nid) if False else self.ev(e["r_"], env, nid)
                for u, w in ((a, b), (b, a)):
                    if u.op == "c":
                        if op == "&&": return (w if w.op != "c" else num(int(bool(w.args[0])))) if u.args[0] else ZERO
                        return ONE if u.args[0] else (w if w.op != "c" else num(int(bool(w.args[0]))))
                x = sorted((self._tt(a), self._tt(b)), key=lambda t: t.id)
                return mk(op, *x)
            a = self.ev(e["l_"], env, nid); b = self.ev(e["r_"], env, nid)
            return self.binop(op, a, b, e)
        if k == "asg":
            if e["op"] == "=":
                v = self.ev(e["r_"], env, nid)
                loc = self.lv(e["l_"], env, nid)
            else:
                loc = self.lv(e["l_"], env, nid)
                b = self.ev(e["r_"], env, nid)
                a = self.load(env, loc)
                v = self.binop(e["op"][:-1], a, b, {"t": e.get("t", e["l_"].get("t")), "l_": e["l_"], "r_": e["r_"]})
            self.store(env, loc, v, nid)
            return v
        if k == "cond":
            q = self.ev(e["q"], env, nid)
            a, pol = self.truth(q)
            if q.op == "c": return self.ev(e["y"] if q.args[0] else e["z"], env, nid)
            e1 = dict(env); y = self.ev(e["y"], e1, nid)
            e2 = dict(env); z = self.ev(e["z"], e2, nid)
            for kk in set(e1) | set(e2):
                x1 = e1.get(kk); x2 = e2.get(kk)
                if x1 is x2: env[kk] = x1
                else: env[kk] = mk("phi", nid, kk)
            if y is z: return y
            return mk("ite", a, y, z) if pol else mk("ite", a, z, y)
        if k == "call": return self.evcall(e, env, nid)
        if k == "initl":
            return mk("initl", nid, e.get("c", 0))
        if k == "var":
            return ZERO
        # statement expressions or unknown kinds
        for x in kids(e): 
            if "k" in x: self.ev(x, env, nid)
        return mk("unk", nid, k)
    def _tt(self, t):
        a, pol = self.truth(t)
        return a if pol else mk("not", a)
    PURE1 = {"exp", "log", "sin", "cos", "tan", "fabs", "sqrt", "log10", "acos", "asin", "atan", "cosh", "sinh", "tanh", "floor", "ceil"}
    def evcall(self, e, env, nid):
        fn = e.get("fn")
        if fn == "__builtin_expect": return self.ev(e["a"][0], env, nid)
        args = [self.ev(a, env, nid) for a in e["a"]]
        if fn:
            b = fn[10:] if fn.startswith("__builtin_") else fn
            if b in ("pow", "PetscPowReal", "PetscPowScalar") and len(args) == 2: return power(args[0], args[1])
            if b == "PetscPowRealInt" and len(args) == 2 and cval(args[1]) is not None: return ipow(args[0], int(cval(args[1])))
            if b in ("sqrt", "PetscSqrtReal"): return power(args[0], num(Fraction(1, 2)))
            if b in ("fabs", "PetscAbsReal", "PetscAbsScalar", "abs"): return mk("abs", args[0])
            if b in self.PURE1: return mk("f_" + b, args[0])
            if b in ("fmax", "fmin"): return mk("f_" + b, *sorted(args, key=lambda t: t.id))
            if b == "atan2": return mk("f_atan2", *args)
            tgt = self.p.resolve(self.f, fn)
            callee = mk("fn", fn)
        else:
            callee = self.ev(e["fe"], env, nid); tgt = None
        if fn in ("memcpy", "PetscMemcpy", "memmove") and len(args) >= 3:
            self._copy(env, args[0], args[1], nid, e)
            return mk("call", mk("fn", fn), tuple(args), nid)
        self.call_effects(e, fn, tgt, args, env, nid)
        if tgt is not None and tgt.body is not None and not self.mods[tgt]: # writes nothing
            vers = ()
            return mk("call", callee, tuple(args), "pure")
        return mk("call", callee, tuple(args), nid)
    def outv(self, nid, j, fn): return mk("out", nid, j, mk("fn", fn or "?"))
    CONSTP = re.compile(r"\bconst\b[^*]*\*")
    def call_effects(self, e, fn, tgt, args, env, nid):
        if fn in ("vf_fn_begin", "vf_fn_pop", "vf_ev_begin", "vf_ev_end", "PetscError", "PetscPrintf", "printf", "fprintf"): return
        mods = self.mods[tgt] if tgt is not None and tgt.body is not None else None
        for j, (a, t) in enumerate(zip(e["a"], args)):
            if mods is not None and ("p%d" % j) not in mods and "*" not in mods: continue
            if mods is None and j in e.get("cp", ()): continue
            if t.op == "addr":
                loc = t.args[0]
                if loc.op == "E" and cval(loc.args[1]) == 0 and loc.args[0].op in ("V", "F", "G", "E"):
                    # whole array handed over
                    arr = loc.args[0]
                    for k in [k for k in env if k.op not in ("ver", "copy") and self._within(k, arr)]: del env[k]
                    env[mk("ver", self.cls(loc))] = mk("vc", nid, j)
                else:
                    for k in [k for k in env if k.op not in ("ver", "copy") and self._within(k, loc)]: del env[k]
                    if loc.op in ("E", "D"):
                        self.store(env, loc, self.outv(nid, j, fn), nid)
                    else: self.store(env, loc, self.outv(nid, j, fn), nid)
            elif t.op in ("p", "ld", "phi", "out", "call", "ptr") and self.ty(a)[2] == "ptr":
                d = self.deref(t)
                base = d.args[0] if d.op == "E" else d
                ity = self.ty(a)[1]
                if "const" in ity.split("*")[0] and ity.count("*") == 1: continue
                tk = self._opaque(ity)
                if tk: continue
                for k in [k for k in env if k.op in ("E", "D") and (k is d or k.op == "E" and k.args[0] is base)]: del env[k]
                if d.op == "D" and self._scalarptr(ity): env[d] = mk("out", nid, j, mk("fn", fn or "?"))
                env[mk("ver", self.cls(d))] = mk("vc", nid, j)
        if mods is not None and mods:
            for m in mods:
                if m[0] == ".":
                    nm = m[1:]
                    for k in [k for k in env if k.op == "F" and k.args[1] == nm]: del env[k]
                    env[mk("ver", mk("cl", "f", nm))] = mk("vk", nid)
                    for k in [k for k in env if k.op in ("E", "D") and self._basename(k) == nm]: del env[k]
                    env[mk("ver", mk("cl", "e", nm))] = mk("vk", nid)
                elif m[0] == "@":
                    nm = m[1:]
                    for k in [k for k in env if k.op == "G" and k.args[0] == nm]: del env[k]
                    env[mk("ver", mk("cl", "g", nm))] = mk("vk", nid)
    def _copy(self, env, d, s, nid, e):
        """block copy: the leading elements that are known are carried over, the rest become copies of the source"""
        dl = self.deref(d); sl = self.deref(s)
        db = dl.args[0] if dl.op == "E" else dl
        sb = sl.args[0] if sl.op == "E" else sl
        known = {}
        for k, v in env.items():
            if k.op == "E" and k.args[0] is sb and cval(k.args[1]) is not None: known[k.args[1]] = v
            elif k is sb: known[ZERO] = v
        for k in [k for k in env if k.op in ("E", "D") and (k is db or k.op == "E" and k.args[0] is db)]: del env[k]
        env[mk("ver", self.cls(dl))] = mk("vcopy", nid, sb)
        for i, v in known.items(): env[self.elem(db, i) if db.op == "D" else mk("E", db, i)] = v
        env[mk("copy", db)] = mk("from", sb, nid)
    def _opaque(self, ity):
        return bool(re.match(r"^(const )?struct _p_\w+ \*$|^(const )?struct _n_\w+ \*$|^(const )?void \*$|^struct ompi_\w+ \*$", ity))
    def _scalarptr(self, ity):
        return bool(re.match(r"^(int|long|double|unsigned int|PetscBool|float|char \*|struct _p_\w+ \*|double \*|int \*) ?\*$", ity))
    def truth(self, t):
        """(atom, polarity): t != 0 iff atom has that polarity"""
        if t.op == "not": a, p = self.truth(t.args[0]); return a, not p
        if t.op in ("lt", "eq", "&&", "||"): return t, True
        if t.op == "c": return (mk("true"), t.args[0] != 0)
        return mk("nz", t) if t.op != "nz" else t, True
    def binop(self, op, a, b, e):
        isint = self.ty(e["l_"])[2] in ("int", "enum", "bool") and self.ty(e["r_"])[2] in ("int", "enum", "bool") if "l_" in e else False
        lk = self.ty(e["l_"])[2]; rk = self.ty(e["r_"])[2]
        if op in ("+", "-") and (lk in ("ptr", "carr", "vla", "arr") or rk in ("ptr", "carr", "vla", "arr")):
            if lk in ("ptr", "carr", "vla", "arr") and rk not in ("ptr", "carr", "vla", "arr"): return self.ptradd(a, b if op == "+" else neg(b))
            if op == "+": return self.ptradd(b, a)
            return mk("ptrdiff", a, b)
        if op == "+": return add(a, b)
        if op == "-": return sub(a, b)
        if op == "*": return mul(a, b)
        if op == "/":
            if isint:
                if a.op == "c" and b.op == "c" and b.args[0]: return num(int(a.args[0] / b.args[0]))
                return mk("idiv", a, b)
            return div(a, b)
        if op == "%":
            if a.op == "c" and b.op == "c" and b.args[0]: return num(int(a.args[0]) % int(b.args[0]))
            return mk("mod", a, b)
        if op in ("<", ">", "<=", ">="):
            if op == ">": a, b = b, a; op = "<"
            if op == ">=": a, b = b, a; op = "<="      # a<=b
            if a.op == "c" and b.op == "c": return num(int(a.args[0] < b.args[0] if op == "<" else a.args[0] <= b.args[0]))
            if op == "<": return mk("lt", a, b)
            return mk("not", mk("lt", b, a))
        if op in ("==", "!="):
            if a is b: r = ONE
            elif a.op == "c" and b.op == "c": r = num(int(a.args[0] == b.args[0]))
            elif b.op == "c" and b.args[0] == 0:
                x, pol = self.truth(a); r = mk("not", x) if pol else x
            elif a.op == "c" and a.args[0] == 0:
                x, pol = self.truth(b); r = mk("not", x) if pol else x
            else: r = mk("eq", *sorted((a, b), key=lambda t: t.id))
            if op == "==": return r
            if r.op == "c": return num(int(not r.args[0]))
            return r.args[0] if r.op == "not" else mk("not", r)
        if op in ("&", "|", "^", "<<", ">>") and a.op == "c" and b.op == "c" and a.args[0].denominator == 1 and b.args[0].denominator == 1:
            x, y = int(a.args[0]), int(b.args[0])
            if op in ("&", "|", "^"): return num(x & y if op == "&" else x | y if op == "|" else x ^ y)
            if 0 <= y < 63 and x >= 0: return num(x << y if op == "<<" else x >> y)
        return mk("b" + op, a, b)
    # ---- queries
    def value(self, i, e):
        """term of expression e evaluated on entry to node i"""
        return self.ev(e, dict(self.IN[i]), i)
    def sites(self, fn=None):
        """(node, call ast, arg terms) of calls, in evaluation order within a node"""
        out = []
        for i in self.rpo:
            n = self.byid[i]
            if n.ast is None or n.kind not in ("expr", "var", "cond", "ret", "switch"): continue
            for c in calls(n.ast):
                if fn is None or c.get("fn") == fn or (callable(fn) and fn(c)):
                    env = dict(self.IN[i])
                    out.append((n, c, [self.ev(a, env, i) for a in c["a"]]))
        return out
    def callee(self, n, c):
        """term of the called function (for indirect calls)"""
        if c.get("fn"): return mk("fn", c["fn"])
        return self.ev(c["fe"], dict(self.IN[n.id]), n.id)
    def stores(self):
        """(node, asg ast, location term, value term, old value term)"""
        out = []
        for i in self.rpo:
            n = self.byid[i]
            if n.ast is None or n.kind not in ("expr", "var", "cond", "ret", "switch"): continue
            if n.kind == "var": continue
            for a in walk(n.ast):
                if a["k"] == "asg":
                    env = dict(self.IN[i])
                    loc = self.lv(a["l_"], dict(env), i)
                    old = self.load(env, loc)
                    val = self.ev(a, env, i)
                    out.append((n, a, loc, val, old))
                elif a["k"] == "un" and a["op"] in ("++", "--"):
                    env = dict(self.IN[i])
                    loc = self.lv(a["e"], dict(env), i)
                    old = self.load(env, loc)
                    out.append((n, a, loc, add(old, num(1 if a["op"] == "++" else -1)), old))
        return out
    def cond_term(self, b):
        """(atom, polarity) such that the branch is taken True iff atom has that polarity"""
        n = self.byid[b]
        return self.truth(self.ev(n.ast, dict(self.IN[b]), b))
    def guard_facts(self, i):
        out = set()
        for b, lab in self.guards(i):
            n = self.byid[b]
            if n.kind == "cond":
                a, pol = self.cond_term(b)
                out.add((a, pol if lab is True else not pol))
            elif n.kind == "switch":
                out.add((mk("sw", self.ev(n.ast, dict(self.IN[b]), b)), lab))
        return out
    def asserted(self, i):
        """facts established by dominating tests whose other outcome is an error exit"""
        out = set()
        for b in self.alive:
            n = self.byid[b]
            if n.kind == "cond" and len(self.succ[b]) == 1 and len(n.succ) == 2 and b not in self.decided and b != i and self.dominates(b, i):
                a, pol = self.cond_term(b)
                lab = self.succ[b][0][1]
                out.add((a, pol if lab is True else not pol))
        return out
    def loop_range(self, head):
        """[(phi, lo, hi_exclusive, step)] for recognised counting loops with one exit test"""
        body = self.loops[head]
        res = []
        env = self.IN[head]
        for loc, t in env.items():
            if t.op != "phi" or t.args[0] != head or loc.op != "V": continue
            inits = {self._initial(self.OUT[j], loc) if loc not in self.OUT[j] else self.OUT[j][loc] for j, _ in self.pred[head] if j not in body}
            nexts = {self._initial(self.OUT[j], loc) if loc not in self.OUT[j] else self.OUT[j][loc] for j, _ in self.pred[head] if j in body}
            if len(inits) != 1 or len(nexts) != 1: continue
            step = cval(sub(nexts.pop(), t))
            if not step: continue
            init = inits.pop()
            # exit tests
            hi = None; ok = True
            for i in body:
                outs = [(j, lab) for j, lab in self.succ[i] if j not in body]
                if not outs: continue
                n = self.byid[i]
                if n.kind != "cond": ok = False; continue
                a, pol = self.cond_term(i)
                stay = [lab for j, lab in self.succ[i] if j in body]
                if len(stay) != 1: ok = False; continue
                truth = pol if stay[0] is True else not pol      # atom value while staying
                b = self._bound(a, truth, t, step)
                if b is None: ok = False
                else: hi = b if hi is None else hi; ok = ok and hi is b
            if hi is None: continue
            lo = init
            if step < 0: lo, hi = hi, add(init, ONE)
            res.append((t, lo, hi, step, ok))
        return res
    def _bound(self, a, truth, t, step):
        """bound implied while `a is truth`, for t counting up (exclusive upper) or down (inclusive lower)"""
        if a.op == "lt":
            x, y = a.args
            if truth:   # x < y
                d = sub(x, t)
                if step > 0 and not self._mentions(d, t) and not self._mentions(y, t): return sub(y, d)
                d = sub(y, t)
                if step < 0 and not self._mentions(d, t) and not self._mentions(x, t): return add(sub(x, d), ONE)
            else:       # !(x<y): y <= x
                d = sub(y, t)
                if step > 0 and not self._mentions(d, t) and not self._mentions(x, t): return add(sub(x, d), ONE)
                d = sub(x, t)
                if step < 0 and not self._mentions(d, t) and not self._mentions(y, t): return sub(y, d)
        if a.op == "eq" and not truth:
            for x, y in (a.args, a.args[::-1]):
                d = sub(x, t)
                if not self._mentions(d, t) and not self._mentions(y, t):
                    if step == 1: return sub(y, d)
                    if step == -1: return add(sub(y, d), ONE)
        if a.op == "nz" and truth:
            d = sub(a.args[0], t)
            if not self._mentions(d, t):
                if step == -1: return add(neg(d), ONE)
                if step == 1: return neg(d)
        return None
    def _mentions(self, t, x): return x in subterms(t)
    def ranges(self):
        """phi term -> (lo, hi, step, exact)"""
        if not hasattr(self, "_rg"):
            self._rg = {}
            for h in self.loops:
                for t, lo, hi, st, ok in self.loop_range(h): self._rg[t] = (lo, hi, st, ok)
        return self._rg

# ---------------------------------------------------------------- side effects of callees
class Mods:
    """per function: '.field' names and '@global' names possibly written, 'pN' when memory reached through
    parameter N may be written (transitively)"""
    @staticmethod
    def of(prog):
        if not hasattr(prog, "_mods"): prog._mods = Mods(prog)
        return prog._mods
    def __init__(self, prog):
        self.p = prog
        self.m = {f: set() for f in prog.functions if f.body is not None}
        cg = []
        for f in self.m:
            pid = {p["d"]: j for j, p in enumerate(f.params)}
            al = {}
            for x in walk(f.body):
                if x["k"] == "var" and x.get("init") is not None or x["k"] == "asg" and x["op"] == "=":
                    src = path(x["init"] if x["k"] == "var" else x["r_"])
                    d = x["d"] if x["k"] == "var" else uncast(x["l_"]).get("d")
                    if src is not None and d is not None: al.setdefault(d, []).append(src)
            self._w(f, pid, al, cg)
        ch = True
        while ch:
            ch = False
            for f, g, binds in cg:
                new = set()
                for m in self.m.get(g, ()):
                    if m[0] == "p":
                        new |= binds.get(int(m[1:]), set())
                    else: new.add(m)
                if not new <= self.m[f]: self.m[f] |= new; ch = True
    def __getitem__(self, f): return self.m.get(f, set())
    def roots(self, p, pid, al, depth=0):
        """write to what path p denotes -> effect names"""
        out = set()
        fields = [x for x in p[1:] if x not in ("[]", "&")]
        if fields: out.add("." + fields[-1])
        if p[0][0] == "g": out.add("@" + p[0][1])
        else:
            d = p[0][1]
            if d in pid and len(p) > 1: out.add("p%d" % pid[d])
            elif d in al and depth < 4 and len(p) > 1:
                for s in al[d]:
                    out |= self.roots(s + tuple(x for x in p[1:] if x != "&"), pid, al, depth + 1)
        return out
    def _w(self, f, pid, al, cg):
        M = self.m[f]
        for x in walk(f.body):
            if x["k"] == "asg" or x["k"] == "un" and x["op"] in ("++", "--"):
                p = path(x["l_"] if x["k"] == "asg" else x["e"])
                if p is not None: M |= self.roots(p, pid, al)
            elif x["k"] == "call":
                g = self.p.resolve(f, x["fn"]) if x.get("fn") else None
                if x.get("fn") in ("vf_fn_begin", "vf_fn_pop", "vf_ev_begin", "vf_ev_end", "PetscError", "PetscPrintf", "printf", "fprintf", "__builtin_expect"): continue
                binds = {}
                for j, a in enumerate(x["a"]):
                    if f.types[a["t"]][2] not in ("ptr", "carr", "vla", "arr") if "t" in a else True: continue
                    if g is None and j in x.get("cp", ()): continue
                    p = path(a)
                    if p is None: continue
                    q = p[:-1] if p[-1] == "&" else p + ("[]",)
                    ity = f.types[a["t"]][1]
                    if "const" in ity.split("*")[0] and ity.count("*") == 1: continue
                    if g is None and re.match(r"^(struct _p_\w+ \*|struct _n_\w+ \*|struct ompi_\w+ \*)$", ity): continue
                    binds[j] = self.roots(q, pid, al)
                if g is not None and g.body is not None: cg.append((f, g, binds))
                else:
                    for s in binds.values(): M |= s
