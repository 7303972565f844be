"""Rules: (1) every array, sub-object or local vector borrowed through a Get call is handed back through the matching
Restore call, on the same object and the same pointer, on every non-error path, and is not borrowed twice or restored
twice; (2) every split-phase Begin (assembly, scatter, ghost exchange, natural ordering) is completed by its End with
the same operands before the function finishes; (3) every matrix or vector that receives values through
MatSetValues*/VecSetValues* is finally assembled before the outermost library function returns. Path-sensitive pairing
typestate over the CFG, with helper functions replayed through their summaries."""
from ..core import *
from ..resource import PairAnalysis, petsc_pairs, borrow_events, cpath

_be = None
def begin_end():
    global _be
    if _be is None:
        names = set()
        for h in glob.glob(PETSC + "/include/*.h"):
            for m in re.finditer(r"PETSC_EXTERN PetscErrorCode (\w+)\(", open(h, errors="replace").read()): names.add(m[1])
        _be = {n: n[:-5] + "End" for n in names if n.endswith("Begin") and n[:-5] + "End" in names and not n.startswith("PetscLog")}
        for n in names:
            if "Begin_Private" in n: _be.pop(n, None)
        _be["PetscViewerHDF5PushGroup"] = "PetscViewerHDF5PopGroup"
    return _be

def okey(f, args):
    k = []
    for a in args:
        p = cpath(f, a)
        k.append(p if p is not None else (("g", show(a)),))
    return tuple(k)

def split_events(f, c):
    B = begin_end(); fn = c.get("fn")
    if fn is None: return
    if fn in B:
        n = 1 if "Push" in fn or "AssemblyBegin" in fn else len(c["a"])
        yield ("+", B[fn], okey(f, c["a"][:n]))
    elif fn in B.values():
        n = 1 if "Pop" in fn or "AssemblyEnd" in fn else len(c["a"])
        yield ("-", fn, okey(f, c["a"][:n]))

SETV = re.compile(r"^(Mat|Vec)(SetValue|SetValues\w*|SetValueLocal)$")
def targets(f, e):
    """the objects a (multiply assigned) local handle pointer may select"""
    p = cpath(f, e)
    if p is None or p[0][0] != "v" or p[0][1] in {q["d"] for q in f.params} or len(p) != 2 or p[1] != "[]": return None
    out = set()
    for n in walk(f.body):
        if n["k"] == "asg" and cpath(f, n["l_"]) == p[:1]:
            q = cpath(f, n["r_"])
            if q is None or q[-1] != "&": return None
            out.add(q[:-1])
    return out if len(out) > 1 else None

def dirty_events(f, c):
    fn = c.get("fn")
    if fn is None or not c["a"]: return
    if SETV.match(fn):
        if targets(f, c["a"][0]): return          # selected at run time: judged by the existential rule below
        p = cpath(f, c["a"][0])
        if p: yield ("+", "assembled " + fn[:3], (p,))
    elif fn == "VecAssemblyEnd" or fn == "MatAssemblyEnd" and const(c["a"][1]) == 0:
        p = cpath(f, c["a"][0])
        if p: yield ("-", "assembled " + fn[:3], (p,))

DEFERRED_OK = {("TDyGetBoundaryFaces", "leak"): "public getter: the caller returns the faces with TDyRestoreBoundaryFaces",
               ("TDyRestoreBoundaryFaces", "unmatched"): "public restorer of TDyGetBoundaryFaces"}

def analyse(prog, ob, viol):
    called = set()
    for f in prog.functions:
        for c in calls(f.body):
            if "fn" in c: called.add(c["fn"])
    def name(key): return ", ".join(pstr(k) for k in key)
    for fam, ev in (("borrow-returned", borrow_events), ("split-phase-completed", split_events), ("assembled-before-use", dirty_events)):
        A = PairAnalysis(prog, ev)
        for f in prog.libfuncs: A.summary(f)
        for f in prog.libfuncs:
            for c in calls(f.body):
                for op, kind, key in ev(f, c):
                    if op == "+": ob(fam, "%s:%d %s(%s)" % (f.rel, c["l"], c["fn"], name(key)))
        for f, what, kind, key, c, line, deferred in A.findings:
            if fam == "assembled-before-use":
                if what != "leak": continue
                if deferred and f.name in called: continue
            elif deferred:
                if (f.name, what) in DEFERRED_OK: continue
                if f.name in called and f.name not in ("TDyGetBoundaryFaces",): continue   # judged in the callers, through the summary
                if what == "unmatched" and fam == "borrow-returned" and f.name in called: continue
            k = "%s|%s|%s|%s" % (f.name, what, kind, name(key))
            msg = {"leak": "%s is never applied to (%s) on a path that returns normally (line %d)" % (kind, name(key), line),
                   "unmatched": "%s(%s) without the matching acquisition on the path" % (kind, name(key)),
                   "mismatch": "%s(%s) does not match what was acquired" % (kind, name(key)),
                   "reacquired": "(%s) acquired again before %s" % (name(key), kind)}[what]
            viol(k, f, c["l"] if c else line, fam, msg)

    # handles selected at run time: every candidate field is assembled by some caller of the selecting function
    cg = prog.callgraph()
    for f in prog.libfuncs:
        cand = {}
        for c in calls(f.body):
            if SETV.match(c.get("fn") or ""):
                for t in targets(f, c["a"][0]) or (): cand[t[-1]] = c
        if not cand: continue
        up = {f}; work = [f]
        while work:
            x = work.pop()
            for g in prog.libfuncs:
                if x.name in cg.get(g, ()) and g not in up: up.add(g); work.append(g)
        done = set()
        for g in up:
            for c in calls(g.body):
                if re.match(r"(Mat|Vec)AssemblyEnd$", c.get("fn") or ""):
                    p = cpath(g, c["a"][0])
                    if p: done.add(p[-1])
        for fld, c in cand.items():
            ob("assembled-before-use", "%s:%d -> %s" % (f.rel, c["l"], fld))
            if fld not in done: viol("%s|never-assembled|%s" % (f.name, fld), f, c["l"], "assembled-before-use",
                "values are set in %s but neither this function nor a caller assembles it" % fld)

def run(ctx):
    ctx.need("borrow-returned", 100); ctx.need("split-phase-completed", 25); ctx.need("assembled-before-use", 20)
    analyse(ctx.p, ctx.ob, ctx.viol)
    for k, v in DEFERRED_OK.items(): ctx.note("%s %s: %s" % (k[0], k[1], v))
    ctx.note("%d Get/Restore and %d Begin/End pairs are read from the PETSc headers" % (len(petsc_pairs()), len(begin_end())))

def selftest(ctx):
    from ..fixture import fixture, expect
    p = fixture("c02.c"); hit = set()
    analyse(p, lambda *a: None, lambda key, f, *a: hit.add(f.name))
    expect(p, hit)
