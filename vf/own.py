"""Ownership typestate for heap memory and PETSc/C handles.

Keys are canonical access paths.  'A' = owned on this path, 'F' = released but still pointing (free by value).
Interprocedural: a function's effect on parameter-rooted keys is summarised (acquires *out, releases param,
captures param) and replayed at its call sites."""
from .core import *
from .resource import cpath, is_error_return

HANDLE = re.compile(r"^(struct )?_p_|^struct _IO_FILE|^FILE")
CREATE = re.compile(r"(Create|Duplicate|Clone|Open|Copy$|Distribute$|PartitioningApply|ToNumbering|GetStratumIS|MeshToCellGraph|GaussTensorQuadrature|CreateFromFile)")
NOTCREATE = {"DMCreateDS", "DMCreateLabel", "PetscHeaderCreate_Private", "VecCopy", "MatCopy"}
# by-value arguments whose ownership passes to the callee (argument indices), with the condition on a mode argument
EXT_CAPTURE = {"PetscQuadratureSetData": ((4, None, None), (5, None, None)),
               "ISCreateGeneral": ((2, 3, 1),), "ISCreateBlock": ((3, 4, 1),),
               "MatCreateMPIAdj": ((3, None, None), (4, None, None), (5, None, None)),
               "DMShellSetGlobalVector": (), "memcpy": ()}
DEALLOC_DIM = re.compile(r"^TDyDeallocate_\w+?_(\d)D$")
ALLOC_DIM = re.compile(r"^TDyAllocate_\w+?_(\d)D$")

def addr_target(f, e):
    """path of the object e points to, for &x -> x ; p -> p[]"""
    p = cpath(f, e)
    if p is None: return None
    return p[:-1] if p[-1] == "&" else p + ("[]",)

def val(f, e):
    p = cpath(f, e)
    return None if p is None or p[-1] == "&" else p

def isnew_fn(c):
    return c.get("fn") in ("malloc", "calloc", "fopen", "strdup") or (c.get("fn") or "").startswith("kh_init_")

class Own:
    def __init__(self, prog):
        self.p = prog; self.summ = {}; self.busy = set(); self.findings = []
        self.n_acq = 0; self.n_rel = 0; self.an = set(); self.fieldacq = []; self.fieldrel = {}
        self._capt = {}
    # ---------------------------------------------------------- summaries
    def captures(self, g):
        """parameter indices whose value is stored somewhere that outlives the call"""
        if g in self._capt: return self._capt[g]
        self._capt[g] = set()
        out = set()
        idx = {p["d"]: i for i, p in enumerate(g.params)}
        if g.body is not None:
            for n in walk(g.body):
                if n["k"] == "asg" and n["op"] == "=":
                    r = val(g, n["r_"]); l = cpath(g, n["l_"])
                    if r and len(r) == 1 and r[0][0] == "v" and r[0][1] in idx and l and (len(l) > 1 or l[0][0] == "g"): out.add(idx[r[0][1]])
                elif n["k"] == "call":
                    for i in self.call_captures(g, n):
                        r = val(g, n["a"][i])
                        if r and len(r) == 1 and r[0][0] == "v" and r[0][1] in idx: out.add(idx[r[0][1]])
                elif n["k"] == "initl":
                    for x in n["a"]:
                        r = val(g, x)
                        if r and len(r) == 1 and r[0][0] == "v" and r[0][1] in idx: out.add(idx[r[0][1]])
        self._capt[g] = out
        return out
    def call_captures(self, f, c):
        fn = c.get("fn")
        if fn is None:
            s = show(c["fe"])
            if "PetscTr" in s: return []
            return range(len(c["a"]))     # unknown callee: may keep anything
        if fn in EXT_CAPTURE:
            return [i for i, m, v in EXT_CAPTURE[fn] if i < len(c["a"]) and (m is None or const(c["a"][m]) == v)]
        g = self.p.resolve(f, fn)
        if g is not None: return [i for i in self.captures(g) if i < len(c["a"])]
        return []
    def summary(self, f):
        if f in self.summ: return self.summ[f]
        if f in self.busy or f.body is None: return ((), (), ())
        self.busy.add(f)
        self.summ[f] = self.analyse(f)
        self.busy.discard(f)
        return self.summ[f]
    def rooted(self, f, key):
        idx = {p["d"]: i for i, p in enumerate(f.params)}
        if key[0][0] == "g": return key
        if key[0][0] == "v" and key[0][1] in idx: return (("p", idx[key[0][1]]),) + key[1:]
        return None
    def inst(self, f, key, args):
        if key[0][0] == "g": return key
        i = key[0][1]
        if i >= len(args): return None
        q = cpath(f, args[i])
        if q is None: return None
        rest = key[1:]
        if q[-1] == "&":
            if not rest: return None
            q = q[:-1]
            if rest[0] == "[]": rest = rest[1:]
        return q + rest
    # ---------------------------------------------------------- events
    def isptr(self, f, root):
        if root[0] != "v": return True
        if not hasattr(f.tu, "_vt"): f.tu._vt = {}
        vt = f.tu._vt.get(id(f))
        if vt is None:
            vt = f.tu._vt[id(f)] = {n["d"]: f.types[n["t"]][1] for n in walk(f.body) if n["k"] == "var"}
        return "*" in vt.get(root[1], "*")
    def events(self, f, c):
        """list of (op, key, cls); op: '+','-n' (released, pointer nulled),'-v' (released by value),'esc'"""
        fn = c.get("fn"); a = c["a"]
        if fn is None:
            s = show(c["fe"])
            if "PetscTrFree" in s:
                k = val(f, a[0]); return [("-v", k, "mem")] if k else []
            if "PetscTrRealloc" in s or "PetscTrMalloc" in s:
                k = addr_target(f, a[-1]); return [("+", k, "mem")] if k and "PetscTrMalloc" in s else [("re", k, "mem")] if k else []
            ev = []
            for x in a:                      # unknown callee may store or replace anything handed to it
                k = val(f, x)
                if k: ev.append(("esc", k, None))
                t = cpath(f, x)
                if t and t[-1] == "&": ev.append(("esc", t[:-1], None))
            return ev
        if fn.startswith("kh_"):
            if fn.startswith("kh_destroy_"):
                k = val(f, a[0]); return [("-v", k, "mem")] if k else []
            return []
        g = self.p.resolve(f, fn)
        if fn == "PetscMallocA":
            out = []
            for i in range(6, len(a), 2):
                k = addr_target(f, a[i])
                if k: out.append(("+", k, "mem"))
            return out
        if fn == "free":
            k = val(f, a[0]); return [("-v", k, "mem")] if k else []
        if fn == "fclose":
            k = val(f, a[0]); return [("-v", k, "file")] if k else []
        m = ALLOC_DIM.match(fn)
        if m and g is not None:
            for x in a:
                t = f.types[x["t"]][1]
                if t.count("*") >= 2 or uncast(x)["k"] == "un":
                    k = addr_target(f, x)
                    if k: return [("+", k, "mem%s" % m[1])]
        m = DEALLOC_DIM.match(fn)
        if m and g is not None:
            k = val(f, a[0]); return [("-v", k, "mem%s" % m[1])] if k else []
        if fn == "TDyFree" and g is not None:
            k = val(f, a[0]); return [("-v", k, "mem")] if k else []
        if g is None:
            ev = []
            if re.search(r"Destroy$", fn) and a:
                k = addr_target(f, a[0])
                if k: ev.append(("-n", k, "obj"))
            elif CREATE.search(fn) and fn not in NOTCREATE:
                for x in a:
                    x0 = uncast(x)
                    ct = f.types[x["t"]][1]
                    if (x0["k"] == "un" and x0["op"] == "&" or ct.count("*") >= 2) and re.search(r"_p_\w+ \*\*$|PetscObject", ct):
                        k = addr_target(f, x)
                        if k: ev.append(("+", k, "obj"))
            for i in self.call_captures(f, c):
                k = val(f, a[i])
                if k: ev.append(("esc", k, None))
            return ev
        ev = []
        acq, rel, _ = self.summary(g)
        for op, key, cls in rel:
            k = self.inst(f, key, a)
            if k: ev.append((op, k, cls))
        for key, cls in acq:
            k = self.inst(f, key, a)
            if k: ev.append(("+", k, cls))
        for i in self.captures(g):
            if i < len(a):
                k = val(f, a[i])
                if k: ev.append(("esc", k, None))
        return ev
    def analyse(self, f):
        rel = set(); acqs = {}; evc = {}; F = {}
        def order(e, out):
            """calls and assignments in evaluation order"""
            for x in kids(e):
                if e["k"] == "asg" and x is e["l_"] : pass
                order(x, out)
            if e["k"] == "call": out.append(("call", e))
            elif e["k"] == "asg": out.append(("asg", e))
            elif e["k"] == "var": out.append(("var", e))
        def acts(n):
            nonlocal evc
            if n.id not in evc:
                out = []
                if n.ast is not None and n.kind in ("expr", "var", "cond", "ret", "switch"): order(n.ast, out)
                r = []
                for k, e in out:
                    if k == "call":
                        evs = self.events(f, e)
                        if evs: r.append(("ev", evs, e))
                    elif k == "asg" and e["op"] == "=": r.append(("asg", cpath(f, e["l_"]), e["r_"], e))
                    elif k == "var" and "init" in e: r.append(("asg", (("v", e["d"], e["n"]),), e["init"], e))
                evc[n.id] = r
            return evc[n.id]
        def sub(k, root): return k[:len(root)] == root
        looped = set()
        for lp_ in walk(f.body):
            if lp_["k"] in ("for", "while", "do") and lp_.get("m") not in ("PetscOptionsBegin", "PetscObjectOptionsBegin"):
                for c in calls(lp_["body"]):
                    for i in self.call_captures(f, c):
                        k_ = val(f, c["a"][i])
                        if k_ and "fn" in c: looped.add(k_)
        def elem(k): return k[-1] == "[]" and "[]" in k[:-1] and False
        def transfer(n, st):
            # uses of released storage
            if n.ast is not None and n.kind in ("expr", "var", "cond", "ret"):
                fr = {x[1]: x for x in st if x[0] == "F"}
                if fr:
                    for x in walk(n.ast):
                        if x["k"] == "idx" or x["k"] == "mem" and x.get("arrow") or x["k"] == "un" and x["op"] == "*":
                            b = cpath(f, x.get("b") or x.get("e"))
                            if b in fr and "[]" not in b[1:]: F.setdefault(("use-after-release", b), (x["l"], None))
                        elif x["k"] == "call" and (x.get("fn") is None and "PetscTr" not in show(x["fe"]) or self.p.resolve(f, x.get("fn") or "") is not None and not x["fn"].startswith("kh_")):
                            rels = {k for op, k, _ in self.events(f, x) if op[0] == "-"}
                            for y in x["a"]:
                                b = val(f, y)
                                if b in fr and b not in rels and "[]" not in b[1:]: F.setdefault(("use-after-release", b), (x["l"], x))
            for act in acts(n):
                if act[0] == "ev":
                    for op, k, cls in act[1]:
                        cur = [x for x in st if x[0] == "A" and x[1] == k]
                        if op == "+":
                            if cur and "[]" not in k[1:] and self.p.resolve(f, act[2].get("fn") or "") is None: F.setdefault(("reacquired", k), (act[2]["l"], act[2]))
                            st = frozenset(x for x in st if x[1] != k) | {("A", k, cls)}
                            acqs.setdefault(k, []).append(act[2])
                        elif op == "re": pass
                        elif op in ("-n", "-v"):
                            self.n_rel += 1
                            if not cur:
                                fr = [x for x in st if x[0] == "F" and x[1] == k]
                                if fr and op == "-v" and "[]" not in k[1:]: F.setdefault(("double-release", k), (act[2]["l"], act[2]))
                                r = self.rooted(f, k)
                                if r: rel.add((op, r, cls))
                            for x in cur:
                                if x[2][:3] == "mem" and cls[:3] == "mem" and x[2][3:] not in ("", "1") and cls[3:] in ("", "1") or \
                                   x[2][:3] == "mem" and cls[:3] == "mem" and x[2][3:] in ("", "1") and cls[3:] not in ("", "1") or \
                                   x[2][3:] not in ("", "1") and x[2][:3] == "mem" and cls[3:] != x[2][3:]:
                                    F.setdefault(("shape-mismatch %s/%s" % (x[2], cls), k), (act[2]["l"], act[2]))
                            # releasing a container drops its elements; inner named resources still held are leaks
                            inner = [x for x in st if x[0] == "A" and x[1] != k and sub(x[1], k) and self.rooted(f, k) is None and "[]" not in x[1][len(k):] and cls[:3] == "mem"]
                            for x in inner: F.setdefault(("inner-leak", x[1]), (act[2]["l"], act[2]))
                            st = frozenset(x for x in st if not sub(x[1], k))
                            if op == "-v": st = st | {("F", k, cls)}
                        elif op == "esc":
                            st = frozenset(x for x in st if not (x[0] == "A" and sub(x[1], k)))
                else:
                    _, lp, rhs, e = act
                    if lp is None: continue
                    r = uncast(rhs)
                    rk = val(f, rhs) if r["k"] != "call" else None
                    isnew = r["k"] == "call" and isnew_fn(r)
                    if e["k"] == "var" and lp[0][1] in _aliases(f) and not isnew: continue
                    held = [x for x in st if x[0] == "A" and x[1] == lp]
                    if rk is not None and rk == lp: continue
                    if held and not (rk and sub(rk, lp)) and len(lp) == 1 and not isnull(rhs) and not (r["k"] == "call" and r.get("fn") == "realloc"):
                        F.setdefault(("overwritten", lp), (e["l"], e))
                    if held and isnull(rhs) and len(lp) == 1: F.setdefault(("overwritten", lp), (e["l"], e))
                    st = frozenset(x for x in st if x[1] != lp)
                    if isnew:
                        st = st | {("A", lp, "file" if r["fn"] == "fopen" else "mem")}
                        acqs.setdefault(lp, []).append(r)
                    elif rk is not None:
                        mv = [x for x in st if x[0] == "A" and sub(x[1], rk)] if self.rooted(f, rk) is None else []
                        if mv:
                            st = frozenset(x for x in st if not (x[0] == "A" and sub(x[1], rk)))
                            st = st | {("A", lp + x[1][len(rk):], x[2]) for x in mv}
                            for x in mv: acqs.setdefault(lp + x[1][len(rk):], acqs.get(x[1], []))
                    else:
                        for x in walk(rhs):
                            if x["k"] in ("ref", "mem"):
                                q = val(f, x)
                                if q and any(y[0] == "A" and y[1] == q for y in st) and x["k"] == "ref" and "*" in f.types[e["t"] if e["k"] == "var" else e["l_"]["t"]][1] and r["k"] not in ("call", "idx"):
                                    st = frozenset(y for y in st if not (y[0] == "A" and y[1] == q))
            if n.kind == "ret":
                if is_error_return(f, n): return None
                e = n.ast.get("e")
                if e is not None:
                    k = val(f, e)
                    if k: st = frozenset(x for x in st if not (x[0] == "A" and sub(x[1], k)))
            return st
        def onedge(n, lab, st):
            if n.kind != "cond": return st
            e = strip(n.ast)
            if lab is True and e["k"] == "ref" and f.types[e["t"]][0] == "PetscErrorCode": return None
            neg = False; x = e
            if e["k"] == "bin" and e["op"] in ("==", "!=") and (isnull(e["r_"]) or isnull(e["l_"])):
                x = e["l_"] if isnull(e["r_"]) else e["r_"]; neg = e["op"] == "=="
            if x["k"] in ("ref", "mem", "asg") or x is not e:
                x = uncast(x)
                k = val(f, x["l_"] if x["k"] == "asg" else x)
                if k is not None and "*" in f.types[x["t"]][1] and (lab is False) != neg:
                    st = frozenset(y for y in st if not sub(y[1], k))
            return st
        cfg = f.cfg()
        out_acq = set()
        # one simulation per group of related keys (same root and first component; moves join groups)
        gof = lambda k: k[:2] if len(k) > 1 and k[1] != "[]" and not (k[0][0] == "v" and k[0][1] in localroots) else k[:1]
        pids = {p["d"] for p in f.params}
        localroots = set()
        uf = {}
        def find(x):
            while uf.setdefault(x, x) != x: x = uf[x]
            return x
        reach = cfg.reachable()
        for n in reach:
            for act in acts(n):
                ks = []
                if act[0] == "ev": ks = [k for _, k, _ in act[1]]
                elif act[1] is not None:
                    ks = [act[1]]
                for k in ks:
                    if k[0][0] == "v" and k[0][1] not in pids: localroots.add(k[0][1])
        groups = {}
        for n in reach:
            for act in acts(n):
                if act[0] == "ev":
                    for op, k, _ in act[1]:
                        r = find(gof(k))
                        if op == "+": groups[gof(k)] = True
                        elif op == "-v": groups.setdefault(gof(k), False)
                        elif op == "-n":
                            r0 = self.rooted(f, k)
                            groups.setdefault(gof(k), False)
                elif act[1] is not None:
                    rk = val(f, act[2]) if uncast(act[2])["k"] != "call" else None
                    if uncast(act[2])["k"] == "call": 
                        if isnew_fn(uncast(act[2])): groups[gof(act[1])] = True
                    elif rk is not None and self.rooted(f, rk) is None: uf[find(gof(rk))] = find(gof(act[1]))
        classes = {}
        for g in groups: classes.setdefault(find(g), []).append(g)
        allact = evc
        for root in classes:
            def mine(k): return find(gof(k)) == root
            keep = {}
            for nid, lst in allact.items():
                r = []
                for act in lst:
                    if act[0] == "ev":
                        e2 = [x for x in act[1] if mine(x[1])]
                        if e2: r.append(("ev", e2, act[2]))
                    elif act[1] is not None and mine(act[1]): r.append(act)
                    elif act[1] is not None:
                        rk = val(f, act[2]) if uncast(act[2])["k"] != "call" else None
                        if rk is not None and mine(rk): r.append(act)
                keep[nid] = r
            evc = keep
            IN = esp(f, frozenset(), transfer, onedge)
            for n in reach:
              if n.id not in IN or not any(m is cfg.exit for m, _ in n.succ): continue
              for prop in IN[n.id]:
                st = transfer(n, prop)
                for x in st or ():
                    if x[0] != "A": continue
                    r = self.rooted(f, x[1])
                    if r is not None:
                        if len(x[1]) > 1 or x[1][0][0] == "g":
                            out_acq.add((r, x[2]))
                        else: F.setdefault(("leak", x[1]), (n.line or f.endline, None))
                    elif x[1] in looped: pass          # captured inside a loop taken at least once
                    elif "[]" in x[1][1:] or len(x[1]) > 1 and self.isptr(f, x[1][0]): pass       # parts of a local container
                    else: F.setdefault(("leak", x[1]), (n.line if n.kind == "ret" else f.endline, None))
        self.n_acq += len(acqs)
        if acqs: self.an.add(f.name)
        for k, cs in acqs.items():
            for c in cs: self.fieldacq.append((f, k, c))
        self.fieldrel[f] = rel
        for (what, k), (line, c) in F.items(): self.findings.append((f, what, k, acqs.get(k, [None])[0], line))
        return (tuple(out_acq), tuple(rel), ())

def _aliases(f):
    from .resource import local_aliases
    return local_aliases(f)
