"""Pairing typestate: what is acquired on a path is released on every success exit of that path.

State: frozenset of open resources (kind, key, site).  Error exits (return of PetscError()
or of a tested error code) are not success exits.  Helper functions are handled through
summaries of their effect on caller-visible (parameter-rooted) resources.
"""
from .core import *

def local_aliases(f):
    """locals assigned exactly once, from a plain access path, address never taken -> that path"""
    if getattr(f, "tu", None) is not None and hasattr(f.tu, "_alias") and id(f) in f.tu._alias: return f.tu._alias[id(f)]
    defs = {}; bad = set()
    for n in walk(f.body):
        if n["k"] == "var":
            if "init" in n: defs.setdefault(n["d"], []).append(n["init"])
        elif n["k"] == "asg":
            l = uncast(n["l_"])
            if l["k"] == "ref" and "d" in l:
                defs.setdefault(l["d"], []).append(n["r_"] if n["op"] == "=" else None)
        elif n["k"] == "un" and n["op"] in ("++", "--", "&"):
            l = uncast(n["e"])
            if l["k"] == "ref" and "d" in l: bad.add(l["d"])
    pids = {p["d"] for p in f.params}
    out = {}
    for d, ds in defs.items():
        if len(ds) != 1 or d in bad or ds[0] is None or d in pids: continue
        e = uncast(ds[0])
        p = path(e) if e["k"] in ("ref", "mem", "un") else None
        if p is not None and p[0] != ("v", d): out[d] = p
    # only stable sources: parameters never reassigned, or other aliases, or globals
    reass = {}
    for d, ds in defs.items(): reass[d] = len(ds)
    def stable(p, depth=0):
        if p[0][0] == "g": return True
        d = p[0][1]
        if d in pids: return reass.get(d, 0) == 0
        if d in out and depth < 5: return stable(out[d], depth + 1)
        return reass.get(d, 0) == 0 and d in bad     # e.g. Vec v; VecCreate(&v)
    res = {d: p for d, p in out.items() if stable(p)}
    if not hasattr(f.tu, "_alias"): f.tu._alias = {}
    f.tu._alias[id(f)] = res
    return res

def cpath(f, e):
    """canonical access path of e in f (aliases resolved)"""
    p = path(e)
    al = local_aliases(f)
    n = 0
    while p is not None and p[0][0] == "v" and p[0][1] in al and n < 6:
        q = al[p[0][1]]
        rest = p[1:]
        if q[-1] == "&" and rest: q = q[:-1]
        p = q + rest; n += 1
    return p

def ptr_target(f, e):
    """path of what &x points to / of pointer e"""
    p = cpath(f, e)
    if p is None: return None
    if p[-1] == "&": return p[:-1]
    return p + ("[]",) if True else p

# ------------------------------------------------------------------ success exits
def is_error_return(f, node):
    """return node yields a failure: PetscError(..), or a nonzero constant, or a variable just tested nonzero"""
    e = node.ast.get("e")
    if e is None: return False
    e = strip(e)
    if e["k"] == "call" and e.get("fn") == "PetscError": return True
    c = const(e)
    if c is not None: return c != 0 and f.rettype == "PetscErrorCode"
    return False

class Rule:
    """a family of paired calls"""
    def __init__(self, name, acquire, release):
        self.name = name; self.acquire = acquire; self.release = release

class PairAnalysis:
    """events(f, call) -> [(op, kind, keypaths)]; op in '+','-'"""
    def __init__(self, prog, events, counted=()):
        self.p = prog; self.events = events; self.summ = {}; self.busy = set()
        self.counted = set(counted); self.n_acq = 0; self.findings = []; self.an = set()
    def summary(self, f):
        """(acquired param-rooted keys at success exit, released param-rooted keys) in param-index form"""
        if f in self.summ: return self.summ[f]
        if f in self.busy or f.body is None: return ((), ())
        self.busy.add(f)
        self.summ[f] = self.analyse(f)
        self.busy.discard(f)
        return self.summ[f]
    def rooted(self, f, key):
        """key -> form relative to parameters, or None if it involves locals.  When the borrowed pointer
        itself is handed to/taken from the caller the object may be local (getter/restorer wrappers)."""
        idx = {p["d"]: i for i, p in enumerate(f.params)}
        out = []
        if len(key) == 2 and key[1] is not None and key[1][0][0] == "v" and key[1][0][1] in idx and \
           (key[0] is None or key[0][0][0] == "v" and key[0][0][1] not in idx):
            key = ((("g", "<object>"),), key[1])
        for p in key:
            if p is None: return None
            if p[0][0] == "g": out.append(p); continue
            if p[0][0] == "v" and p[0][1] in idx: out.append((("p", idx[p[0][1]]),) + p[1:])
            else: return None
        return tuple(out)
    def instantiate(self, f, key, args):
        out = []
        for p in key:
            if p[0][0] == "p":
                i = p[0][1]
                if i >= len(args): return None
                q = cpath(f, args[i])
                if q is None: return None
                rest = p[1:]
                if q[-1] == "&" and rest and rest[0] == "[]": q = q[:-1]; rest = rest[1:]
                elif q[-1] == "&" and rest: q = q[:-1]
                out.append(q + rest)
            else: out.append(p)
        return tuple(out)
    def call_events(self, f, c):
        ev = list(self.events(f, c))
        if not ev and "fn" in c:
            g = self.p.resolve(f, c["fn"])
            if g is not None and g.body is not None:
                acq, rel = self.summary(g)
                for kind, key in rel:
                    k = self.instantiate(f, key, c["a"])
                    if k: ev.append(("-", kind, k))
                for kind, key in acq:
                    k = self.instantiate(f, key, c["a"])
                    if k: ev.append(("+", kind, k))
        return ev
    def analyse(self, f):
        rel_unmatched = set()
        probs = {}
        sites = {}
        evc = {}
        def evs(n):
            if n.id not in evc:
                r = []
                if n.ast is not None and n.kind in ("expr", "var", "cond", "ret", "switch"):
                    for c in sorted(calls(n.ast), key=lambda c: 0):
                        for e in self.call_events(f, c): r.append(e + (c,))
                evc[n.id] = r
            return evc[n.id]
        def transfer(n, st):
            for op, kind, key, c in evs(n):
                if op == "+":
                    if kind in self.counted:
                        # counted resource: depth encoded by distinct levels
                        d = sum(1 for x in st if x[0] == kind and x[1] == key)
                        if d < 6: st = st | {(kind, key, d)}
                    else:
                        if any(x[0] == kind and x[1] == key for x in st) and not any(q and "[]" in q[:-1] for q in key):
                            probs[("reacquired", kind, key)] = (c["l"], c, False)
                        st = st | {(kind, key, c["l"])}
                    sites[(kind, key)] = c
                else:
                    hit = [x for x in st if x[0] == kind and x[1] == key]
                    if hit:
                        if kind in self.counted:
                            m = max(x[2] for x in hit); st = frozenset(x for x in st if not (x[0] == kind and x[1] == key and x[2] == m))
                        else: st = frozenset(x for x in st if not (x[0] == kind and x[1] == key))
                    else:
                        part = [x for x in st if x[0] == kind and (x[1][0] == key[0] or x[1][-1] == key[-1])] if len(key) > 1 else []
                        r = self.rooted(f, key)
                        if r is not None and not part: rel_unmatched.add((kind, r)); probs.setdefault(("unmatched", kind, key), (c["l"], c, True))
                        else:
                            probs[("mismatch" if part else "unmatched", kind, key)] = (c["l"], c, False)
            if n.kind == "ret" and is_error_return(f, n): return None
            return st
        def onedge(n, lab, st):
            # the failure branch of an error test is an error path
            if n.kind == "cond" and lab is True:
                e = strip(n.ast)
                if e["k"] == "ref" and f.types[e["t"]][0] == "PetscErrorCode": return None
            return st
        cfg = f.cfg()
        IN = esp(f, frozenset(), transfer, onedge)
        acq = set()
        leaks = {}
        for n in cfg.reachable():
            if n.id not in IN or not any(m is cfg.exit for m, _ in n.succ): continue
            if n.kind == "ret" and is_error_return(f, n): continue
            for prop in IN[n.id]:
                st = transfer(n, prop)
                for kind, key, s in st or (): leaks.setdefault((kind, key), n.line if n.kind == "ret" else f.endline)
        self.n_acq += len(sites)
        if sites: self.an.add(f.name)
        for (kind, key), line in leaks.items():
            r = self.rooted(f, key)
            if r is not None and key and len(key[0]) and kind not in self.counted:
                acq.add((kind, r))
                self.findings.append((f, "leak", kind, key, sites[(kind, key)], line, True))
            else:
                self.findings.append((f, "leak", kind, key, sites.get((kind, key)), line, False))
        for (what, kind, key), (line, c, deferred) in probs.items():
            self.findings.append((f, what, kind, key, c, line, deferred))
        return (tuple(acq), tuple(rel_unmatched))

_pairs = None
def petsc_pairs():
    """Get/Restore pairs declared by the PETSc headers"""
    global _pairs
    if _pairs is None:
        names = set()
        for h in glob.glob(PETSC + "/include/*.h"):
            for m in re.finditer(r"PETSC_EXTERN PetscErrorCode (\w+)\(", open(h, errors="replace").read()): names.add(m[1])
        _pairs = {}
        for n in names:
            if "Restore" in n:
                g = n.replace("Restore", "Get")
                if g in names: _pairs[g] = n
        _pairs["DMPlexGetTransitiveClosure"] = "DMPlexRestoreTransitiveClosure"
    return _pairs

def borrow_events(f, c):
    P = petsc_pairs()
    fn = c.get("fn")
    if fn is None: return
    if fn in P:
        key = keyof(f, fn, c)
        if key: yield ("+", P[fn], key)
    elif "Restore" in fn and fn in P.values():
        key = keyof(f, fn, c)
        if key: yield ("-", fn, key)

def keyof(f, fn, c):
    """object argument and the out pointer (last pointer argument)"""
    a = c["a"]
    if len(a) < 2: return None
    obj = cpath(f, a[0])
    out = cpath(f, a[-1])
    if obj is None: obj = (("g", show(a[0])),)
    return (obj, out)
