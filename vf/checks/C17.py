"""Collective operations (MPI collectives, PETSc assembly, scatters, reductions, creation, loading, viewing, solving, and every
function of the library that contains one) must be reached by all processes in the same order.  Rank-dependence of values is
computed as an information-flow analysis over value numbers: sources are process ranks, local and owned sizes, ranges and
entries of local index sets, vectors and meshes; it is propagated through assignments, memory (by field), parameters, results
and joins controlled by rank-dependent branches; results of reductions and global queries are uniform.  For every branch on a
rank-dependent condition the sequences of collective operations along its outcomes, up to the point where they meet again, must
agree.
A reduction's buffers must hold elements of the MPI datatype passed, its root, count, datatype and operation must not differ
between processes, and the result of an exclusive scan, which MPI leaves undefined on the first process, must be initialised.
Taken as equal on all processes: command line options, the contents of khash tables, fields never written from a rank-dependent
value.  Operations on objects created for one process (CreateSeq*, COMM_SELF) are not collective."""
from ..core import *
from ..gvn import *
import re

COLL = re.compile(r"^(MPIU?_(I?)(Barrier|Bcast|Reduce|Allreduce|Scan|Exscan|Gatherv?|Allgatherv?|Scatterv?|Alltoall[vw]?|Reduce_scatter\w*|Comm_(dup|split|create|free)|File_\w+)$"
    r"|(Vec|Mat)Assembly(Begin|End)$|Vec(Norm|NormBegin|NormEnd|Dot|TDot|MDot|Max|Min|Sum|Normalize|Load|View|Scatter(Create\w*|Begin|End|View)|Create|CreateMPI|Duplicate\w*|SetSizes|SetFromOptions|SetType|SetRandom|StrideNorm|Equal|ViewFromOptions)$"
    r"|Mat(Create|CreateAIJ|CreateBAIJ|CreateMPI\w*|Duplicate|Mult\w*|SetUp|SetType|SetSizes|SetFromOptions|ZeroRows\w*|Norm|View|Load|Copy|Transpose|PtAP|MatMult|Convert|MeshToCellGraph|MeshToDual|Equal|XAIJSetPreallocation|Partitioning(Apply|Create|SetFromOptions)|CreateSubMatri\w+|GetDiagonal)$"
    r"|IS(Create(General|Block|Stride)|AllGather|Partitioning\w+|View|GetSize|Sort\w*Global|Identity)$|AO(Create\w*|ApplicationToPetsc\w*|PetscToApplication\w*|View)$"
    r"|DM(GlobalToLocal\w*|LocalToGlobal\w*|LocalToLocal\w*|CreateGlobalVector|CreateMatrix|CreateDS|Clone|Create|SetFromOptions|SetUp|Refine\w*|Coarsen\w*|View|ViewFromOptions|Load|GetCoordinatesLocal|GetGlobalSection|GetGlobalVector|ShellCreate|GetCoordinates)$"
    r"|DMPlex(Create\w*|Distribute\w*|Interpolate|NaturalToGlobal\w*|GlobalToNatural\w*|LabelComplete|MarkBoundaryFaces|ConstructGhostCells|GetGatherDM|GetRedundantDM|TopologyView|Uninterpolate)$"
    r"|(SNES|TS|KSP)(Create|Solve|SetUp|SetFromOptions|ComputeFunction|ComputeJacobian|Step)$|PCSetUp$|PCApply$"
    r"|PetscViewer\w*Open$|PetscViewer(Create|SetFromOptions|HDF5(PushGroup|WriteAttribute|ReadAttribute))$|PetscSynchronizedFlush$|PetscSF\w+$|PetscSection(GlobalCreate|CreateGlobalSection)$|PetscRandomCreate$|ISLocalToGlobalMappingView$"
    r"|PetscSplitOwnership\w*$|PetscCommBuildTwoSided\w*$|PetscGatherMessageLengths$|PetscFECreateDefault$|PetscInitialize\w*$|PetscFinalize$)")
# calls whose outputs (or results) differ between processes
RANK = re.compile(r"^(MPIX?_Comm_rank|MPIU?_(Exscan|Scan)|Vec(GetLocalSize|GetOwnershipRanges?|GetArray\w*|GetValues|GetSubVector|GetLocalVector\w*)|Mat(GetLocalSize|GetOwnershipRange\w*|GetLocalToGlobal\w*|GetRow|GetRowIJ|GetColumnIJ|GetValues\w*|DenseGetArray\w*|SeqAIJGetArray\w*)"
    r"|IS(GetIndices|GetLocalSize|GetMinMax|LocalToGlobalMapping(GetSize|GetIndices|Apply\w*))|DMPlex(GetChart|GetHeightStratum|GetDepthStratum|GetCone\w*|GetSupport\w*|GetTransitiveClosure|GetPoint\w+|GetInteriorCellStratum|GetCellType\w*|ComputeCellGeometry\w*|GetMaxSizes|GetPartner|GetSimplexOrBoxCells|GetVTKCellHeight\w*)"
    r"|DM(GetStratum\w+|GetLabelValue|LabelGet(StratumSize|StratumIS|StratumBounds|Value\w*|Bounds)|GetLocalBoundingBox|DAGet(Corners|GhostCorners))|DMLabelHas(Point|Value|Stratum)"
    r"|PetscSection(Get(Chart|Dof|Offset|FieldDof|FieldOffset|StorageSize|ConstrainedStorageSize|MaxDof)\w*)|AOApplicationToPetsc|AOPetscToApplication|ISPartitioningCount)$")
REDUCE = re.compile(r"^(MPIU?_(Allreduce|Bcast|Allgatherv?)|Vec(GetSize|Norm\w*|Dot|TDot|Max|Min|Sum|GetBlockSize)|MatGetSize|MatNorm|MPI_Comm_(size|compare)|ISGetSize|DMGetDimension)$")
NOISE = re.compile(r"^(Petsc(Error|Printf|Info|CheckPointer|MallocA|FreeA?|Memzero|LogEvent\w*|Stack\w*)|vf_\w+|TDy(Enter|Exit)ProfilingStage)")

def isself(e):
    return any(x["k"] == "ref" and x.get("n") in ("ompi_mpi_comm_self", "MPI_COMM_SELF", "PETSC_COMM_SELF") for x in walk(e)) or any(x.get("v") == 0x44000001 for x in walk(e))

class Taint:
    def __init__(self, p):
        self.p = p
        self.funcs = [f for f in p.libfuncs if f.body is not None]
        self.flow = {f: Flow(p, f) for f in self.funcs}
        self.fields = set(); self.content = set(); self.globs = set()
        self.parm = set()                     # (f, j): rank-dependent argument
        self.out = set()                      # (f, j) rank-dependent value stored through parameter j
        self.ret = set()
        self.why = {}
        self.seqobj = set()
        self.change = True
        self.addrs = {}
        for f in self.funcs: self.prepare(f)
        self.cd = {f: {} for f in self.funcs}
        self.yes = {}; self.memo = set()
        n = 0
        while self.change and n < 60:
            self.change = False; n += 1
            self.memo = set()
            for f in self.funcs: self.step(f)
        self.rounds = n
        self.memo = set()
    def prepare(self, f):
        F = self.flow[f]
        self.addrs[f] = [(n, c, args) for n, c, args in F.sites()] if F.exit.id in F.alive or F.alive else []
        for n, c, args in self.addrs[f]:
            fn = c.get("fn") or ""
            if re.search(r"CreateSeq|CreateSeqAIJ", fn) or c["a"] and re.match(r"(Vec|Mat|IS|PetscViewer)\w*(Create|Open)\w*$", fn) and isself(c["a"][0]):
                t = args[-1]
                if t.op in ("addr", "ptr"): self.seqobj.add(self.name(F.deref(t), f))
        for n, c, args in self.addrs[f]:
            if c.get("fn") in ("VecDuplicate", "MatDuplicate") and self.objname(args[0], f) in self.seqobj and args[-1].op in ("addr", "ptr"): self.seqobj.add(self.name(F.deref(args[-1]), f))
    def name(self, loc, f):
        while loc.op == "E": loc = loc.args[0]
        if loc.op == "F": return "." + loc.args[1]
        if loc.op == "V": return (f, loc.args[0])
        if loc.op == "D":
            p = loc.args[0]
            if p.op == "ld": return self.name(p.args[0], f)
            if p.op == "p": return (f, "p", p.args[0])
        return (f, loc)
    def objname(self, t, f):
        if t.op == "ld": return self.name(t.args[0], f)
        if t.op == "out":
            for n, c, args in self.addrs[f]:
                if n.id == t.args[0] and t.args[1] < len(args) and args[t.args[1]].op in ("addr", "ptr"): return self.name(self.flow[f].deref(args[t.args[1]]), f)
        return (f, t)
    # ---- rank dependence of a term
    def rd(self, f, t):
        k = (f, t)
        r = self.yes.get(k)
        if r: return r
        if k in self.memo: return None
        self.memo.add(k)
        r = self._rd(f, t)
        if r: self.yes[k] = r; self.change = True
        return r
    def _rd(self, f, t):
        F = self.flow[f]; op = t.op
        if op in ("c", "str", "fn", "v0", "vk", "uninit"): return None
        if op in ("addr", "ptr"): return None
        if op == "p": return (f, t.args[0]) in self.parm and "argument '%s'" % t.args[1] or None
        if op == "out":
            nid, k, fn = t.args
            return self.outof(f, fn.args[0], k, nid)
        if op == "ld": return self.load(f, t.args[0])
        if op == "call":
            fn = t.args[0].args[0] if t.args[0].op == "fn" else None
            g = self.p.resolve(f, fn) if fn else None
            if g is not None and g.body is not None: return g in self.ret and "result of %s" % fn or None
            if fn and RANK.match(fn): return "result of %s" % fn
            if fn and (REDUCE.match(fn) or COLL.match(fn) or re.match(r"[A-Z]", fn)): return None
            for a in t.args[1] if isinstance(t.args[1], tuple) else ():
                r = self.rd(f, a)
                if r: return r
            return None
        if op == "phi":
            i, loc = t.args
            if i < 0 or i not in F.pred: return None
            for j, _ in F.pred[i]:
                e = F.OUT.get(j, {})
                v = e[loc] if loc in e else F._initial(e, loc)
                if v is t: continue
                r = self.rd(f, v)
                if r: return r
            return self.joined(f, i)
        for a in t.args:
            for x in (a if isinstance(a, tuple) else (a,)):
                if isinstance(x, T):
                    r = self.rd(f, x)
                    if r: return r
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, T):
                                    r = self.rd(f, z)
                                    if r: return r
                        elif isinstance(y, T):
                            r = self.rd(f, y)
                            if r: return r
        return None
    def joined(self, f, i):
        """a branch on a rank-dependent condition decides which value arrives at join i"""
        F = self.flow[f]
        if i in F.loops:
            for a in F.loops[i]:
                if F.byid[a].kind == "cond" and any(j not in F.loops[i] for j, _ in F.succ[a]) and len(F.succ[a]) > 1:
                    r = self.rd(f, F.cond_term(a)[0])
                    if r: return r
            return None
        d = F.idom.get(i)
        if d is None: return None
        # branches between the dominator and the join
        seen = set(); st = [j for j, _ in F.pred[i]]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x != d: st += [j for j, _ in F.pred[x]]
        for x in seen:
            if F.byid[x].kind in ("cond", "switch") and len(F.succ[x]) > 1:
                r = self.rd(f, self.cond(f, x))
                if r: return r
        return None
    def cond(self, f, x):
        F = self.flow[f]; n = F.byid[x]
        if n.kind == "cond": return F.cond_term(x)[0]
        return F.ev(n.ast, dict(F.IN[x]), x)
    def outof(self, f, fn, k, nid):
        g = self.p.resolve(f, fn) if fn else None
        if g is not None and g.body is not None:
            if (g, k) in self.out: return "set by %s" % fn
            return None
        if fn and RANK.match(fn): return "set by %s" % fn
        if fn and re.match(r"MPIU?_(Reduce|Gatherv?|Scatterv?|I?Recv)$", fn): return "set by %s" % fn
        return None
    def load(self, f, loc):
        if loc.op == "F": return self.why.get("." + loc.args[1]) if "." + loc.args[1] in self.fields else None
        if loc.op == "G": return loc.args[0] in self.globs and "global %s" % loc.args[0] or None
        if loc.op in ("E", "D"):
            b = loc
            idx = []
            while b.op == "E": idx.append(b.args[1]); b = b.args[0]
            # constant tables
            for i in idx:
                r = self.rd(f, i)
                if r: return r
            return self.pointee(f, b)
        if loc.op == "V": return self.content_of(f, loc)
        return None
    def content_of(self, f, l):
        n = self.name(l, f)
        return self.why.get(("c", n)) if ("c", n) in self.content else None
    def pointee(self, f, b):
        """rank dependence of what is stored in the array"""
        if b.op == "V" or b.op == "F": return self.content_of(f, b)
        if b.op == "D":
            p = b.args[0]
            if p.op == "ptr": return self.pointee(f, p.args[0])
            if p.op == "out":
                r = self.outof(f, p.args[2].args[0], p.args[1], p.args[0])
                if r: return r
                return self.content_of(f, mk("D", p))
            if p.op == "ld": return self.content_of(f, p.args[0])
            if p.op == "p": return self.content_of(f, b)
            if p.op == "phi": return self.content_of(f, p.args[1])
        if b.op == "G": return b.args[0] in self.globs and "global" or None
        return None
    def put(self, s, k, why):
        if k not in s:
            s.add(k); self.change = True
            self.why.setdefault(k, why)
    def assign(self, f, loc, why):
        """a rank-dependent value is stored at loc"""
        if loc.op == "F": self.put(self.fields, "." + loc.args[1], "field %s (%s)" % (loc.args[1], why[:60]))
        elif loc.op == "G": self.put(self.globs, loc.args[0], why)
        elif loc.op in ("E", "D"):
            b = loc
            while b.op == "E": b = b.args[0]
            if b.op == "D" and b.args[0].op == "p": self.put(self.out, (f, b.args[0].args[0]), why)
            if b.op == "D" and b.args[0].op == "ptr": b = b.args[0].args[0]
            while b.op == "E": b = b.args[0]
            n = ("c", self.name(b, f))
            self.put(self.content, n, "contents of %s (%s)" % (b.args[1] if b.op == "F" else b.args[-1] if b.op == "V" else "an array", why[:60]))
            if b.op == "F": pass
    def step(self, f):
        F = self.flow[f]
        if not F.alive or f.name.startswith("kh_"): return          # hash tables: taken as equal on all processes
        for n, a, loc, val, old in F.stores():
            if loc.op == "V": 
                continue
            if self.ispointer(val): continue
            r = self.rd(f, val) or self.under(f, n.id)
            if r: self.assign(f, loc, r)
        for n, c, args in self.addrs[f]:
            fn = c.get("fn") or ""
            g = self.p.resolve(f, fn) if fn else None
            if g is not None and g.body is not None:
                for j, a in enumerate(args):
                    if j < len(g.params) and not self.ispointer(a):
                        r = self.rd(f, a)
                        if r and (g, j) not in self.parm: self.put(self.parm, (g, j), "%s:%s" % (f.name, r[:60]))
                    if (g, j) in self.out and a.op in ("addr", "ptr"): self.outarg(f, a, "set by %s" % fn)
                    if (g, j) in self.out and a.op == "p": self.put(self.out, (f, a.args[0]), "set by %s" % fn)
            elif fn and RANK.match(fn):
                for j, a in enumerate(args):
                    if j in c.get("cp", ()): continue
                    if a.op in ("addr", "ptr"): self.outarg(f, a, "set by %s" % fn)
                    elif a.op == "p" and j > 0: self.put(self.out, (f, a.args[0]), "set by %s" % fn)
            if fn == "realloc" or fn.startswith("mem"): pass
        for n in F.byid.values():
            if n.id in F.alive and n.kind == "ret" and n.ast is not None and F.f.types[0] is not None:
                pass
        if f not in self.ret:
            for v in F.retvals() or ():
                t = v[1] if isinstance(v, tuple) else v
                if isinstance(t, T) and self.rd(f, t): self.put(self.ret, f, "returned"); break
    def outarg(self, f, a, why):
        loc = self.flow[f].deref(a)
        if loc.op in ("F", "G", "E"): self.assign(f, loc, why)
        elif loc.op == "V": self.put(self.content, ("c", self.name(loc, f)), why)
        elif loc.op == "D" and loc.args[0].op == "p": self.put(self.out, (f, loc.args[0].args[0]), why)
    def ispointer(self, t):
        return t.op in ("addr", "ptr", "str", "fn")
    def under(self, f, i):
        """stored only on some processes"""
        F = self.flow[f]
        for b, lab in F.guards(i):
            if len(F.succ[b]) > 1:
                r = self.rd(f, self.cond(f, b))
                if r: return "under a condition on " + r
        return None

class Order:
    """sequences of collective operations"""
    def __init__(self, tt, ops):
        self.t = tt; self.p = tt.p; self.ops = ops
        self.coll = {}
        change = True
        self.summ = set()
        while change:
            change = False
            for f in tt.funcs:
                if f in self.summ: continue
                if any(self.isc(f, n, c, args) for n, c, args in tt.addrs[f]): self.summ.add(f); change = True
    def isc(self, f, n, c, args):
        fn = c.get("fn")
        if (c.get("m") or "").startswith("TDY_"): return None
        if fn:
            g = self.p.resolve(f, fn)
            if g is not None and g.body is not None: return fn if g in self.summ else None
            if not COLL.match(fn): return None
            if fn.startswith(("Vec", "Mat", "IS", "AO")) and c["a"] and self.t.objname(args[0], f) in self.t.seqobj: return None
            if c["a"] and isself(c["a"][0]): return None
            if re.search(r"Create|Open", fn) and args and args[-1].op in ("addr", "ptr") and self.t.name(self.t.flow[f].deref(args[-1]), f) in self.t.seqobj: return None
            return fn
        e = c.get("fe")
        if e is not None:
            m = uncast(e)
            while m["k"] == "un" and m["op"] == "*": m = uncast(m["e"])
            if m["k"] == "mem" and any(g in self.summ for g in self.ops.get(m["f"], ())): return "*" + m["f"]
        return None
    def table(self, f):
        if f not in self.coll:
            d = {}
            for n, c, args in self.t.addrs[f]:
                r = self.isc(f, n, c, args)
                if r: d.setdefault(n.id, []).append((r, n.line))
            self.coll[f] = d
        return self.coll[f]
    def paths(self, f, start, stop, cap=64):
        """set of sequences of collective operations from start until one of stop; None if too many"""
        F = self.t.flow[f]; tab = self.table(f); memo = {}; busy = set()
        def go(i):
            if i in stop: return frozenset([()])
            if i in memo: return memo[i]
            if i in busy: return frozenset()
            busy.add(i)
            out = set()
            ss = F.succ[i]
            own = tuple(x[0] for x in tab.get(i, ()))
            if i in F.loops and i not in stop:
                # a loop inside the region: its body's operations count as one unit
                body = F.loops[i]
                inner = sorted({x[0] for b in body for x in tab.get(b, ())})
                own = (("loop",) + tuple(inner),) if inner else ()
                ex = {j for a in body for j, _ in F.succ[a] if j not in body}
                for j in ex:
                    for s in go(j): out.add(own + s)
            else:
                for j, _ in ss:
                    for s in go(j): out.add(own + s)
                if not ss: out.add(own)
            busy.discard(i)
            if len(out) > cap: raise OverflowError
            memo[i] = frozenset(out)
            return memo[i]
        return go(start)

def opsof(p):
    """functions stored in function-pointer fields"""
    out = {}
    for f in p.libfuncs:
        if f.body is None: continue
        for x in walk(f.body):
            if x["k"] == "asg" and x["op"] == "=":
                l, r = uncast(x["l_"]), uncast(x["r_"])
                if r["k"] == "un" and r["op"] == "&": r = uncast(r["e"])
                if l["k"] == "mem" and r["k"] == "ref" and r.get("dk") == "func":
                    g = p.resolve(f, r["n"])
                    if g is not None: out.setdefault(l["f"], set()).add(g)
    return out

MPIOP = re.compile(r"^MPIU?_(Bcast|Reduce|Allreduce|Scan|Exscan)$")
MPIDT = re.compile(r"(?:ompi_mpi_|MPIU?_)(int|integer|double|float|long|char|int64_t|INT|DOUBLE|REAL|SCALAR)\b")
TYPES = {"int": ("int",), "integer": ("int",), "INT": ("int",), "double": ("double",), "DOUBLE": ("double",), "REAL": ("double",), "SCALAR": ("double",),
         "float": ("float",), "char": ("char",), "long": ("long",), "int64_t": ("long", "long long")}

def leafs(t):
    """t with joins taken apart"""
    if t.op == "ite":
        yield from leafs(t.args[1]); yield from leafs(t.args[2])
    else: yield t

def run(ctx):
    p = ctx.p
    tt = Taint(p)
    od = Order(tt, opsof(p))
    nb = 0
    for f in tt.funcs:
        if f not in od.summ: continue
        F = tt.flow[f]; tab = od.table(f)
        if F.exit.id not in F.alive: continue
        for i in F.rpo:
            n = F.byid[i]
            if n.kind not in ("cond", "switch") or len(F.succ[i]) < 2: continue
            nb += 1
            r = tt.rd(f, tt.cond(f, i))
            if not r:
                ctx.ob("uniform", "%s:%d" % (f.name, n.line)); continue
            F._pdom()
            j = F.ipdom.get(i)
            stop = {j, i} if j is not None else {i}
            try: sets = [od.paths(f, s, stop) for s, _ in F.succ[i]]
            except OverflowError: sets = None
            ok = sets is not None and all(s == sets[0] for s in sets)
            what = sorted({str(x) for s in sets or () for q in s for x in q})[:4]
            ctx.check("same-order", "%s:%d" % (f.name, n.line), ok, "%s|%s" % (f.name, ",".join(what)), f, n.line,
                      "whether %s calls %s depends on a value that differs between processes: %s" % (f.name, ", ".join(what), r))
    for f in tt.funcs:
        F = tt.flow[f]
        for n, c, args in F.sites():
            m = MPIOP.match(c.get("fn") or "")
            if not m: continue
            nbuf = {"Bcast": 1}.get(m.group(1), 2)
            tag = "%s:%s" % (f.name, c["l"])
            for j in range(nbuf):
                a = uncast(c["a"][j])
                dt = MPIDT.search(" ".join(x.get("n", "") for x in walk(c["a"][nbuf + 1]) if x["k"] == "ref"))
                ty = f.types[a["t"]] if "t" in a else None
                if dt is None or not ty or not ty[1].endswith("*") and "[" not in ty[1] or ty[1].startswith("void"): continue
                el = re.sub(r"[*\[\]0-9]", "", ty[1]).replace("const", "").strip()
                ctx.check("element-type", "%s arg %d" % (tag, j), el in TYPES.get(dt.group(1), (el,)), "%s|%s|%d|type" % (f.name, show(a), j), f, c["l"],
                          "%s is passed %s, whose elements are %s, with the datatype %s" % (c["fn"], show(a), el, dt.group(1)))
            for j in range(nbuf, len(args) - 1):
                r = tt.rd(f, args[j])
                ctx.check("uniform-args", "%s arg %d" % (tag, j), not r, "%s|%s|%d|uniform" % (f.name, c["fn"], j), f, c["l"], "argument %d of %s differs between processes: %s" % (j + 1, c["fn"], r))
            if m.group(1) == "Exscan":
                loc = F.deref(args[1])
                v = F.IN[n.id].get(loc) if hasattr(F.IN[n.id], "get") else None
                v = v if v is not None else F._initial(F.IN[n.id], loc)
                ctx.check("scan-result", tag, not any(x.op == "uninit" for x in leafs(v)), "%s|%s|scan" % (f.name, show(c["a"][1])), f, c["l"],
                          "the result %s of MPI_Exscan is undefined on the first process and has no initial value" % show(c["a"][1]))
    ctx.need("uniform", 100); ctx.need("same-order", 10); ctx.need("element-type", 6)
    ctx.note("%d functions perform collective operations; %d branches in them; %d rounds" % (len(od.summ), nb, tt.rounds))
