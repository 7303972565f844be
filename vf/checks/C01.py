"""Rule: every call whose result type is PetscErrorCode has that result tested, returned, stored for the
caller or passed on, on every path (forward may-dataflow of (call site, variable) pairs over the CFG; overwriting,
ignoring or leaving scope with a pending code is a loss; returning 0 on the failure branch is a swallow)."""
from ..core import *
from ..c01_errors import ErrFlow

# callees whose code the code base consistently discards; each with its reason
IGNORED = {"PetscPrintf": "diagnostic output; the code is discarded by convention throughout",
           "PetscFPrintf": "diagnostic output", "PetscMemzero": "returns nonzero only for NULL with a nonzero size",
           "PetscSynchronizedPrintf": "diagnostic output"}
IGNORED_IN_MACRO = {"TDyEnterProfilingStage", "TDyExitProfilingStage", "TDY_START_FUNCTION_TIMER", "TDY_STOP_FUNCTION_TIMER"}

def analyse(prog, funcs, ob, viol):
    for f in funcs:
        ef = ErrFlow(prog, f)
        res = ef.run()
        ncalls = [c for c in calls(f.body) if ef.is_errcall(c)]
        for c in ncalls: ob("error-code-consumed", "%s:%d %s" % (f.rel, c["l"], c.get("fn") or "(*)"))
        for kind, callee, l, line, call in res:
            if callee in IGNORED: continue
            if call.get("m") in IGNORED_IN_MACRO or callee.startswith("PetscLog") and call.get("m"): continue
            if f.rettype != "PetscErrorCode" and not returns_code(f):
                # no channel to report through: the function itself cannot propagate (void callbacks)
                if f.rettype == "void" and not any(p["n"] in ("ierr", "__ierr") for p in f.params): continue
            n = sum(1 for k2, c2, l2, _, _ in res if c2 == callee and l2 < l)
            viol("%s|%s|%s" % (f.name, callee, kind), f, l,
                 "error-code-consumed", "the error code of %s() is %s (lost at line %d)" % (callee, kind, line))

def returns_code(f):
    return f.rettype in ("PetscErrorCode",)

import re

def run(ctx):
    ctx.need("error-code-consumed", 3000)
    analyse(ctx.p, ctx.p.libfuncs if ctx.tier != "thorough" else ctx.p.libfuncs, ctx.ob, ctx.viol)
    # ending the program with a successful exit status turns the failure that led there into success
    for f in ctx.p.libfuncs:
        if f.body is None: continue
        for c in calls(f.body):
            if re.match(r"(quick_|_)?_?exit$|_Exit$|PetscEnd$", c.get("fn") or ""):
                ctx.check("terminates", "%s:%d" % (f.rel, c["l"]), bool(c["a"]) and const(c["a"][0]) not in (0, None), "exit|" + f.name, f, c["l"],
                          "%s ends the program with a successful exit status instead of reporting a failure to its caller" % f.name)
    void = sorted(f.name for f in ctx.p.libfuncs if f.rettype != "PetscErrorCode")
    ctx.note("functions with no error-code result (cannot propagate): %d" % len(void))
    for k, v in IGNORED.items(): ctx.note("ignored callee %s: %s" % (k, v))

def selftest(ctx):
    from ..fixture import fixture
    p = fixture("c01.c")
    hit = set()
    analyse(p, p.libfuncs, lambda *a: None, lambda key, f, *a: hit.add(f.name))
    want = {f.name for f in p.libfuncs if f.name.startswith("bad")}
    if hit != want: raise AnalysisBroken("fixture: flagged %s, expected %s" % (sorted(hit), sorted(want)))
