"""The time loop.  A relational analysis (linear inequalities between the time, the step, the saved step, the step handed to
the residual, the target time and the time the accepted solution belongs to, partitioned by a typestate of the solution
vectors) of TDyTimeIntegratorRunToTime and everything it calls that touches them.  At every nonlinear solve: the clock is the
time of the accepted solution; the step handed to the residual does not pass the target time nor the largest step; after a
failed solve the step is smaller and the solution has been put back; the storage term at the old time was computed with the same
step and solution.  A solution is accepted only after a solve that converged, once, and then the clock and the step count
advance by that step.  On return the clock is the target time and the time of the accepted solution, no step is left saved, the
step has not shrunk unless a step was cut, and with check-pointing enabled the last accepted solution has been check-pointed.
Assumed: 0 < reduction factor < 1 <= growth factor, 0 < initial step <= largest step; a target time not before the clock."""
from ..core import *
from ..relational import *
import re

TI = "_p_TDyTimeIntegrator"
NUM = {(TI, x) for x in ("time", "dt", "dt_save", "dt_init", "dt_max", "dt_growth_factor", "dt_reduction_factor", "final_time", "istep", "time_integration_method")}
EVENT = re.compile(r"^(SNESSolve|SNESGetConvergedReason|TSSolve|TSSetMaxTime|TSGetTime|TSGetSolveTime|VecCopy|TDyIOOutputCheckpoint|TDyIOWriteVec|VecGetArray\w*)$")

class Loop(Interp):
    def __init__(self, ctx, p):
        super().__init__(p); self.ctx = ctx; self.n_ev = {}; self.phase = "A"
        self.bad = {}
        self.seen = {}
        cg = {f: [g for c in calls(f.body) for g in [p.resolve(f, c["fn"]) if c.get("fn") else None] if g] for f in p.libfuncs if f.body is not None}
        own = set()
        for f in cg:
            for x in walk(f.body):
                if x["k"] == "call" and x.get("fn") and (re.match(r"SNESSolve|SNESGetConvergedReason|TSSolve|TSSetMaxTime|TSGet(Solve)?Time", x["fn"])
                        or x["fn"] == "VecCopy" or x["fn"].startswith("VecGetArray") and any(self.last(f, a) == "accumulation_prev" for a in x["a"][:1])): own.add(f)
                if x["k"] in ("asg", "un") and (x["k"] == "asg" or "+" in x["op"] or "-" in x["op"]):
                    l = uncast(x.get("l_") or x["e"])
                    if l["k"] == "mem" and self.field(f, l): own.add(f)
        # option readers set fields through pointers
        self.want = set(own); ch = True
        # functions that only store through a pointer parameter of arithmetic type are followed as well
        for f in cg:
            if any(x["k"] == "asg" and uncast(x["l_"])["k"] == "un" and uncast(x["l_"])["op"] == "*" and uncast(uncast(x["l_"])["e"])["k"] == "ref" and f.types[x["l_"]["t"]][2] in ("flt", "int", "bool", "enum") for x in walk(f.body)) and len(list(walk(f.body))) < 400: self.small = getattr(self, "small", set()) | {f}
        while ch:
            ch = False
            for f in cg:
                if f not in self.want and any(g in self.want for g in cg[f]): self.want.add(f); ch = True
        self.cg = cg
        self.bools = set()
    def last(self, f, e):
        e = uncast(e)
        return e["f"] if e["k"] == "mem" else None
    def field(self, f, e):
        if self.phase == "B": return e["f"] if e["f"] == "enable_checkpoint" else None
        if e["f"] == "enable_checkpoint": return None
        if e.get("r") == TI and (TI, e["f"]) in NUM: return e["f"]
        if e.get("r") == "_p_TDy" and e["f"] == "dtime": return "dtime"
        return None
    def wanted(self, g):
        if EVENT.match(g.name) or re.match(r"TDy(Start|Stop)Timer|TDyIO|TDyUpdateState", g.name): return False
        return g in self.want or g.rettype not in ("PetscErrorCode", "void") and len(list(walk(g.body))) < 200
    def follow(self, s, f, c, g, inst):
        if self.wanted(g): return True
        if EVENT.match(g.name) or g not in getattr(self, "small", ()): return False
        for a in c["a"]:
            a = uncast(a)
            if a["k"] == "un" and a["op"] == "&" and self.lname(s, f, inst, a["e"]) or a["k"] == "ref" and s.get("&%s.%s" % (inst, a["n"])): return True
        return False
    def effects(self, g):
        return ()
    def keyvars(self, st):
        return (["enable_checkpoint"] if self.phase == "B" else ["dt_save"]) + sorted(v for v in st.p.vars() if v in self.bools)
    def templates(self):
        if self.phase == "B": return ()
        if not hasattr(self, "_tpl"):
            out = []
            for g in (("time", "TAU", "ATAU", "sync"), ("dt", "dtime", "SIG", "APREV", "dt_max", "D0", "dt_save"), ("istep", "NSTEP")):
                for a in g:
                    for b in g:
                        if a != b: out += [(V(a) - V(b), False)] + ([(V(a) - V(b), True)] if a in ("SIG", "sync") else [])
            for a in ("time", "TAU"):
                for b in ("dt", "dtime"): d = V("sync") - V(a) - V(b); out += [(d, False), (d.scale(-1), False)]
            out += [(V(a), True) for a in ("dt", "dtime", "dt_save", "SIG")] + [(V("dt_save"), False), (V("dt_save").scale(-1), False)]
            self._tpl = out
        return self._tpl
    # ---- obligations
    def need(self, s, f, c, rule, ok, msg):
        if self.phase not in {"exit-checkpoint": "B", "exit-step": "C"}.get(rule, "AC"): return
        k = (f.name, c["l"], rule)
        self.seen[k] = self.seen.get(k, True) and ok
        if not ok: self.bad.setdefault(k, (f, c["l"], rule, msg))
    def event(self, s, f, c, inst):
        fn = c.get("fn") or ""
        if re.match(r"PetscMallocA|PetscCalloc", fn):      # zeroed storage
            x = uncast(c["a"][-1])
            if x["k"] == "ref": x = (s.get("&%s.%s" % (inst, x["n"])) and x) or x
            t = f.types[uncast(x["e"] if x["k"] == "un" and x["op"] == "&" else x)["t"]][0]
            if re.search(r"TDyTimeIntegrator", t) and (fn != "PetscMallocA" or const(c["a"][1]) == 1):
                p = s.p
                for _, n in sorted(NUM): p = p.assign(n, K(0))
                return [s.withp(p)]
        if not EVENT.match(fn): return None
        self.n_ev[fn] = self.n_ev.get(fn, 0) + 1
        p = s.p
        if fn == "SNESSolve":
            self.clock(s, f, c)
            self.need(s, f, c, "dtime-current", p.eq(V("dtime") - V("dt")), "the step handed to the residual (dtime) is not the current step dt")
            self.need(s, f, c, "no-overshoot", p.entails(V("sync") - V("TAU") - V("dtime")), "the step may pass the target time")
            self.need(s, f, c, "positive-step", p.entails(V("dtime"), True), "the step may be zero or negative")
            self.need(s, f, c, "step-limit", p.entails(V("dt_max") - V("dtime")), "the step may exceed the largest allowed step")
            self.need(s, f, c, "restart-state", s.get("SOLN") == "ACC", "the solve starts while the previous iterate is neither accepted nor put back")
            self.need(s, f, c, "old-storage", s.get("AP") == 1 and p.eq(V("APREV") - V("dtime")) and p.eq(V("ATAU") - V("TAU")), "the storage term at the old time was not computed with this step and the accepted solution")
            if s.get("FAILED"): self.need(s, f, c, "reduced", p.entails(V("SIG") - V("dtime"), True), "the step after a failed solve is not smaller than the one that failed")
            p = p.havoc("REASON")
            if self.phase == "C": p = p.meet((V("REASON"), False))
            if self.phase != "B": p = p.assign("SIG", V("dtime"))
            s = s.withp(p)
            return [s.set(SOLN="SOLVED", TS=0, tail=self.tail(s, f, inst, c["a"][2]))]
        if fn == "SNESGetConvergedReason":
            a = uncast(c["a"][1]); n = None
            if a["k"] == "un" and a["op"] == "&": n = self.lname(s, f, inst, a["e"])
            elif a["k"] == "ref": n = s.get("&%s.%s" % (inst, a["n"]))
            return [s.withp(p.assign(n, V("REASON")))] if n else [s]
        if fn == "VecCopy":
            a, b = self.tail(s, f, inst, c["a"][0]), self.tail(s, f, inst, c["a"][1])
            if (a, b) == ("soln", "soln_prev"):
                st = s.get("SOLN")
                self.need(s, f, c, "accept-solved", st == "SOLVED", "a solution is accepted twice, or without a solve")
                self.need(s, f, c, "accept-converged", p.entails(V("REASON")), "a solution is accepted although its solve may have failed")
                if s.get("TS"): p = p.assign("TAU", V("MT"))
                else: p = p.assign("TAU", V("TAU") + V("SIG")).assign("NSTEP", V("NSTEP") + K(1))
                return [State({**s.ts, "SOLN": "ACC", "FAILED": 0, "CKD": 1 if self.phase == "B" else 0, "AP": 0}, p)]
            if (a, b) == ("soln_prev", "soln"):
                self.need(s, f, c, "reject-failed", s.get("SOLN") != "SOLVED" or p.entails(V("REASON").scale(-1), True), "a converged solution is thrown away")
                failed = 1 if s.get("SOLN") == "SOLVED" else s.get("FAILED")
                return [State({**s.ts, "SOLN": "ACC", "FAILED": failed, "AP": 0}, p)]
            if "soln_prev" in (a, b) or b == "soln": self.need(s, f, c, "copy", False, "VecCopy(%s, %s) changes the accepted or the current solution" % (a, b))
            return [s]
        if fn.startswith("VecGetArray"):
            if self.tail(s, f, inst, c["a"][0]) == "accumulation_prev" and "Read" not in fn:
                return [State({**s.ts, "AP": 1}, p.assign("APREV", V("dtime")).assign("ATAU", V("TAU")))]
            return None
        if fn == "TSSetMaxTime":
            return [State({**x.ts, "MTSET": 1}, x.p.assign("MT", v) if v is not None else x.p.havoc("MT")) for x, v in self.ex(s, f, inst, c["a"][1])]
        if fn == "TSSolve":
            self.clock(s, f, c)
            self.need(s, f, c, "target", s.get("MTSET") == 1 and p.eq(V("MT") - V("sync")), "the time given to TSSetMaxTime, which is an absolute time, is not the target time")
            return [State({**s.ts, "SOLN": "SOLVED", "TS": 1}, p.havoc("REASON").meet((V("REASON"), False)))]
        if fn in ("TSGetTime", "TSGetSolveTime"):
            a = uncast(c["a"][1]); n = self.lname(s, f, inst, a["e"]) if a["k"] == "un" and a["op"] == "&" else s.get("&%s.%s" % (inst, a.get("n")))
            return [s.withp(p.assign(n, V("MT")))] if n else [s]
        if fn in ("TDyIOOutputCheckpoint", "TDyIOWriteVec"):
            self.clock(s, f, c)
            return [s.set(CKD=0)] if fn == "TDyIOOutputCheckpoint" else [s]
        return None
    def clock(self, s, f, c):
        self.need(s, f, c, "clock", s.p.eq(V("time") - V("TAU")), "the clock is not the time of the accepted solution")
        if not s.get("TSMODE"): self.need(s, f, c, "count", s.p.eq(V("istep") - V("NSTEP")), "the step count is not the number of accepted steps")

def run(ctx):
    p = ctx.p
    L = Loop(ctx, p)
    f = p.func("TDyTimeIntegratorRunToTime")
    real = [x for x in f.params if f.types[x["t"]][2] == "flt"]
    if len(real) != 1: raise AnalysisBroken("TDyTimeIntegratorRunToTime: target time parameter not found")
    pn = lambda: L.pnames(f, "RunToTime")[f.params.index(real[0])]
    end = {"l": f.line}
    notes = []
    for L.phase in "ABC":
        L._memo = {}; L._rel = {}; L._pn = {}; L.visits = 0
        P = Poly()
        if L.phase != "B":
            P = Poly([(V("dt"), True), (V("dt_max") - V("dt"), False), (V("sync") - V("time"), False), (V("dt_growth_factor") - K(1), False),
                      (V("dt_reduction_factor"), True), (K(1) - V("dt_reduction_factor"), True)])
            for a, b in (("TAU", "time"), ("istep", "NSTEP")) + ((("D0", "dt"),) if L.phase == "C" else ()): P = P.assign(a, V(b))
            P = P.assign("dt_save", K(0)).assign(pn(), V("sync"))
        else: P = P.assign("enable_checkpoint", K(1))
        outs = L.run(f, "RunToTime", State({"SOLN": "ACC", "CKD": 0, "FAILED": 0, "TS": 0, "AP": 0, "MTSET": 0}, P))
        notes.append("%s: %d states at return, %d node visits" % (L.phase, len(outs), L.visits))
        if not outs: raise AnalysisBroken("TDyTimeIntegratorRunToTime never returns normally")
        for s in outs:
            q = s.p
            if L.phase == "B":
                L.need(s, f, end, "exit-checkpoint", not s.get("CKD") or s.get("TS"), "with check-pointing enabled the last accepted solution may not have been check-pointed")
                continue
            L.need(s, f, end, "exit-reached", q.eq(V("time") - V("sync")), "on return the clock may not be the target time")
            L.need(s, f, end, "exit-clock", q.eq(V("time") - V("TAU")), "on return the clock may not be the time of the accepted solution")
            L.need(s, f, end, "exit-saved", q.eq(V("dt_save")), "on return a step may be left saved, which the next call takes for a step it clipped itself")
            L.need(s, f, end, "exit-accepted", s.get("SOLN") == "ACC", "on return the last solution is not accepted")
            if not s.get("TS"):
                L.need(s, f, end, "exit-count", q.eq(V("istep") - V("NSTEP")), "on return the step count is not the number of accepted steps")
                if L.phase == "C": L.need(s, f, end, "exit-step", q.entails(V("dt") - V("D0")), "the step has shrunk although no step was cut")
                L.need(s, f, end, "exit-limit", q.entails(V("dt_max") - V("dt")), "on return the step exceeds the largest step")
    # the state a run starts from
    L.phase = "A"
    base = {"SOLN": "ACC", "CKD": 0, "FAILED": 0, "TS": 0, "AP": 0, "MTSET": 0}
    g = p.func("TDyTimeIntegratorCreate"); e = {"l": g.line}
    for s in L.run(g, "Create", State(base, Poly())):
        L.need(s, g, e, "initial-step", s.p.eq(V("dt") - V("dt_init")), "a new integrator's step is not its initial step (after the options are read)")
        L.need(s, g, e, "initial-clock", s.p.eq(V("time")) and s.p.eq(V("istep")), "a new integrator's clock or step count does not start at zero")
        L.need(s, g, e, "initial-saved", s.p.eq(V("dt_save")), "a new integrator starts with a saved step")
    g = p.func("TDyTimeIntegratorSetTimeStep"); e = {"l": g.line}
    dts = [x for x in g.params if g.types[x["t"]][2] == "flt"]
    if len(dts) == 1:
        for s in L.run(g, "Set", State(base, Poly().assign(L.pnames(g, "Set")[g.params.index(dts[0])], V("given")).assign("dt_save", K(0)).assign("time", V("T0")).assign("istep", V("I0")))):
            L.need(s, g, e, "set-step", s.p.eq(V("dt") - V("given")) and s.p.eq(V("dt_init") - V("given")), "the step set is not the next step or not the initial step TS uses")
            L.need(s, g, e, "set-only", s.p.eq(V("dt_save")) and s.p.eq(V("time") - V("T0")) and s.p.eq(V("istep") - V("I0")), "setting the step changes the clock, the count or the saved step")
    for k, ok in sorted(L.seen.items()):
        if ok: ctx.ob(k[2], "%s:%s" % (k[0], k[1]))
    for k, (g, l, rule, msg) in sorted(L.bad.items(), key=lambda x: (x[0][0], x[0][1], x[0][2])):
        ctx.check(rule, "%s:%s" % (g.name, l), False, "%s|%s" % (g.name, rule), g, l, msg)
    ctx.note("; ".join(notes) + "; events: %s" % L.n_ev)
    for r in ("clock", "no-overshoot", "restart-state", "old-storage", "accept-converged", "exit-clock", "exit-reached", "initial-step"): ctx.need(r, 1)
