"""Driver: runs one property's analysis over /repo's current sources and writes its evidence."""
import argparse, importlib, json, os, sys, time, traceback
from .core import *

KNOWN = os.path.join(VERIF, "known-findings.txt")

def known_findings():
    """lines:  known: property=<id> key=<key> :: <what fails>     fixed: property=<id> <commit> <what failed>"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", line.strip())
            if m: out[(m[1], m[2])] = m[3]
    return out

class Ctx:
    def __init__(self, pid, tier, prog, seed):
        self.pid = pid; self.tier = tier; self.p = prog; self.seed = seed
        self.obs = {}          # rule -> list of instance strings
        self.viols = []        # dicts
        self.notes = []
        self.assumptions = []
        self.mins = {}
    def ob(self, rule, inst):
        self.obs.setdefault(rule, []).append(inst)
    def need(self, rule, n):
        """fewer than n instances of a rule means the analysis lost its subject"""
        self.mins[rule] = n
    def viol(self, key, f, line, rule, msg, file=None):
        rel = file or (f.rel if f is not None else "?")
        if any(v["key"] == key for v in self.viols): return
        self.viols.append({"key": key, "file": rel, "line": line, "function": f.name if f is not None else None,
                           "rule": rule, "message": msg})
    def assume(self, s): self.assumptions.append(s)
    def note(self, s): self.notes.append(s)
    def check(self, rule, inst, ok, key, f, line, msg, file=None):
        self.ob(rule, inst)
        if not ok: self.viol(key, f, line, rule, msg, file)

def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--show", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        mod = importlib.import_module("vf.checks." + a.pid)
        demos = (a.tier == "thorough" and getattr(mod, "DEMOS", True)) or getattr(mod, "NEED_DEMOS", False)
        prog = load(demos=demos)
        ctx = Ctx(a.pid, a.tier, prog, seed)
        mod.run(ctx)
        if hasattr(mod, "selftest"): mod.selftest(ctx)
        for rule, n in ctx.mins.items():
            have = len(ctx.obs.get(rule, []))
            if have < n: raise AnalysisBroken("rule '%s' matched %d instances, at least %d confirmed by hand" % (rule, have, n))
        if not ctx.obs: raise AnalysisBroken("no obligations")
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (a.pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % a.pid)
        return 3
    known = known_findings()
    new, old = [], []
    for v in ctx.viols:
        (old if (a.pid, v["key"]) in known else new).append(v)
    rdir = os.path.join(VERIF, "replay"); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, a.pid + ".json")
    json.dump({"property": a.pid, "violations": new, "known": old}, open(rpath, "w"), indent=1)
    nob = sum(len(v) for v in ctx.obs.values())
    expl = ("Static analysis of the C sources (clang AST with the real build flags, per-function CFG, resolved call graph); "
            "nothing is executed. " + (mod.__doc__ or "").strip().replace("\n", " "))
    cov = {"explanation": expl, "translation_units": len(prog.tus), "functions_analysed": len(prog.libfuncs),
           "obligations": nob, "violated": len(ctx.viols),
           "rules": {r: {"instances": len(v), "examples": v[:: max(1, len(v) // 8)][:10]} for r, v in ctx.obs.items()},
           "known_findings": [v["key"] for v in old], "notes": ctx.notes}
    ev = {"property": a.pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other",
          "coverage": cov, "assumptions": ctx.assumptions + ["PETSc/MPI/HDF5/ExodusII calls behave as their headers and manual pages document",
              "the installed PETSc configuration (real double scalars, 32-bit indices) selects the preprocessor branches analysed"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    edir = os.path.join(VERIF, "evidence"); os.makedirs(edir, exist_ok=True)
    json.dump(ev, open(os.path.join(edir, a.pid + ".json"), "w"), indent=1)
    for v in old:
        print("KNOWN-FINDING: property=%s %s [%s:%s %s]" % (a.pid, known[(a.pid, v["key"])], v["file"], v["line"], v["key"]))
    for v in new:
        print("%s:%s: in %s: [%s] %s {%s}" % (v["file"], v["line"], v["function"], v["rule"], v["message"], v["key"]))
    print("%s: %d obligations over %d functions, %d violations, %d known (%.1fs)" % (a.pid, nob, len(prog.libfuncs), len(new), len(old), time.time() - t0))
    if new:
        print("VIOLATION property=%s replay=%s" % (a.pid, rpath))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
