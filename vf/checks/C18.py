"""Rule: on every normal exit of a function, each timed region it started is stopped (and was not started twice or
stopped while not running), the profiling stage it entered is left, and its call-trace entry is popped exactly when it
was pushed. Path-sensitive counting typestate over the CFG; helper functions that open or close a region on behalf of
the caller are replayed through their net effect."""
from ..core import *
from ..resource import is_error_return, cpath

STAGE = {"TDyEnterProfilingStage", "TDyExitProfilingStage"}

def timer_name(f):
    """locals holding a timer handle -> the registered name of the timer"""
    out = {}
    for n in walk(f.body):
        init = n.get("init") if n["k"] == "var" else n["r_"] if n["k"] == "asg" and n["op"] == "=" else None
        if init is None: continue
        i = uncast(init)
        if i["k"] == "call" and i.get("fn") == "TDyGetTimer":
            a = uncast(i["a"][0])
            nm = a["v"] if a["k"] == "str" else show(a)
            if nm == "__func__": nm = f.name
            d = n["d"] if n["k"] == "var" else uncast(n["l_"]).get("d")
            out[d] = nm
    return out

class Bal:
    def __init__(self, prog): self.p = prog; self.net = {}; self.busy = set(); self.findings = []; self.sites = []
    def effect(self, f):
        """net effect at normal exit: (trace delta must be 0) events opened/closed, stage delta; None when it varies"""
        if f in self.net: return self.net[f]
        if f in self.busy: return (frozenset(), 0)
        self.busy.add(f); self.net[f] = (frozenset(), 0)
        self.net[f] = self.analyse(f)
        self.busy.discard(f)
        return self.net[f]
    def analyse(self, f):
        names = timer_name(f)
        def evkey(a):
            a = uncast(a)
            if a["k"] == "ref" and a.get("d") in names: return names[a["d"]]
            if a["k"] == "call" and a.get("fn") == "TDyGetTimer":
                s = uncast(a["a"][0]); s = s["v"] if s["k"] == "str" else show(s)
                return f.name if s == "__func__" else s
            return show(a)
        F = {}
        interesting = False
        acts = {}
        for n in f.cfg().reachable():
            r = []
            if n.ast is not None and n.kind in ("expr", "var", "cond", "ret", "switch"):
                for c in calls(n.ast):
                    fn = c.get("fn")
                    if fn == "vf_fn_begin": r.append(("b", None, c)); self.sites.append((f, c["l"], "trace push"))
                    elif fn == "vf_fn_pop": r.append(("p", None, c)); self.sites.append((f, c["l"], "trace pop"))
                    elif fn == "vf_ev_begin": r.append(("e+", evkey(c["a"][0]), c)); self.sites.append((f, c["l"], "start " + evkey(c["a"][0])))
                    elif fn == "vf_ev_end": r.append(("e-", evkey(c["a"][0]), c)); self.sites.append((f, c["l"], "stop " + evkey(c["a"][0])))
                    elif fn == "PetscLogStagePush": r.append(("s+", None, c)); self.sites.append((f, c["l"], "enter stage"))
                    elif fn == "PetscLogStagePop": r.append(("s-", None, c)); self.sites.append((f, c["l"], "leave stage"))
                    elif fn and fn != f.name:
                        g = self.p.resolve(f, fn)
                        if g is not None and g.body is not None:
                            ev, st = self.effect(g)
                            if st: r.append(("s+" if st > 0 else "s-", None, c))
                            for op, k in ev: r.append((op, k, c))
            if r: acts[n.id] = r
        if not acts: return (frozenset(), 0)
        def transfer(n, st):
            b, evs, s = st
            for op, k, c in acts.get(n.id, ()):
                if op == "b":
                    if b >= 1: F.setdefault(("trace entry pushed twice", None), c["l"])
                    b = 1
                elif op == "p":
                    if b < 1: F.setdefault(("call-trace entry popped that was never pushed", None), c["l"])
                    b = max(0, b - 1)
                elif op == "e+":
                    if ("e+", k) in evs: F.setdefault(("timer '%s' started while running" % k, k), c["l"])
                    evs = evs - {("e-", k)} if ("e-", k) in evs else evs | {("e+", k)}
                elif op == "e-":
                    evs = evs - {("e+", k)} if ("e+", k) in evs else evs | {("e-", k)}
                elif op == "s+": s += 1
                elif op == "s-": s -= 1
                if abs(s) > 4: return None
            if n.kind == "ret" and is_error_return(f, n): return None
            return (b, evs, s)
        def onedge(n, lab, st):
            if n.kind == "cond":
                if lab is True and strip(n.ast)["k"] == "ref" and f.types[strip(n.ast)["t"]][0] == "PetscErrorCode": return None
                if lab is False and n.macro in STAGE: return None        # stage name not registered: both macros do nothing
            return st
        cfg = f.cfg()
        IN = esp(f, (0, frozenset(), 0), transfer, onedge)
        outs = {}
        for n in cfg.reachable():
            if n.id not in IN or not any(m is cfg.exit for m, _ in n.succ): continue
            for prop in IN[n.id]:
                o = transfer(n, prop)
                if o is not None: outs.setdefault(o, n.line if n.kind == "ret" else f.endline)
        for (b, evs, s), line in outs.items():
            if b: F.setdefault(("call-trace entry not popped on exit", None), line)
        eff = {(evs, s) for b, evs, s in outs}
        # helpers that consistently open or close on behalf of their callers
        called = self.called()
        if len(eff) == 1 and f.static and f.name in called: res = next(iter(eff))
        else:
            res = (frozenset(), 0)
            for (b, evs, s), line in outs.items():
                for op, k in evs: F.setdefault(("timer '%s' %s" % (k, "still running on exit" if op == "e+" else "stopped but not started"), k), line)
                if s: F.setdefault(("profiling stage %s" % ("not left on exit" if s > 0 else "left more often than entered"), None), line)
        for (msg, k), line in F.items(): self.findings.append((f, msg, line))
        return res
    def called(self):
        if not hasattr(self, "_c"): self._c = {fn for s in self.p.callgraph().values() for fn in s}
        return self._c

def analyse(prog, ob, viol):
    B = Bal(prog)
    for f in prog.libfuncs: B.effect(f)
    for f, l, s in B.sites: ob("balanced", "%s:%d %s" % (f.rel, l, s))
    for f, msg, line in B.findings: viol("%s|%s" % (f.name, msg), f, line, "balanced", "%s (line %d)" % (msg, line))

def run(ctx):
    ctx.need("balanced", 1000)
    analyse(ctx.p, ctx.ob, ctx.viol)

def selftest(ctx):
    from ..fixture import fixture, expect
    p = fixture("c18.c"); hit = set()
    analyse(p, lambda *a: None, lambda key, f, *a: hit.add(f.name))
    expect(p, hit)
