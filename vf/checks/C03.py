"""Rule: every block of memory, PETSc object or file a function acquires for itself is released, handed to the caller
or stored in a longer-lived object on every non-error path; nothing is released twice, used after release, overwritten
while still owned, or freed with the routine of a different array shape. Ownership typestate over the CFG (access-path
keys, branch-correlated path states, interprocedural acquire/release/capture summaries)."""
from ..core import *
from ..own import Own

def analyse(prog, ob, viol):
    A = Own(prog)
    for f in prog.libfuncs: A.summary(f)
    for f, k, c in A.fieldacq: ob("ownership", "%s:%d %s (%s)" % (f.rel, c["l"] if c else f.line, pstr(k), (c or {}).get("fn", "alloc")))
    for f, what, k, c, line in A.findings:
        if f.name.startswith("kh_"): continue       # vendored khash.h
        viol("%s|%s|%s" % (f.name, what, pstr(k)), f, line, "ownership",
             {"leak": "%s acquired here is not released on a path that returns normally" % pstr(k)}.get(what, "%s: %s" % (pstr(k), what)))
    return A

def run(ctx):
    ctx.need("ownership", 900)
    analyse(ctx.p, ctx.ob, ctx.viol)
    ctx.note("elements of arrays of pointers are tracked as one element; hash-table internals (khash.h) are not analysed")

def selftest(ctx):
    from ..fixture import fixture, expect
    p = fixture("c03.c"); hit = set()
    analyse(p, lambda *a: None, lambda key, f, *a: hit.add(f.name))
    expect(p, hit)
