"""Error discipline: every error code produced inside the library reaches the caller.

Forward may-dataflow per function over (call site, variable holding its code).
"""
from .core import *

ERR = "PetscErrorCode"

# functions that are declared PetscErrorCode but return a count through it; callers use the value
COUNT_FUNCS = {"TDyGetNumDMFields_Richards_MPFAO", }

def is_err_type(f, t): return f.types[t][0] == ERR

class ErrFlow:
    def __init__(self, prog, f):
        self.p = prog; self.f = f
        self.sites = {}      # id -> (callee, line, how)
        self.found = {}      # (kind, site) -> line
    def site(self, call):
        k = id(call)
        if k not in self.sites:
            self.sites[k] = (call.get("fn") or show(call["fe"]), call["l"], call)
        return k
    def is_errcall(self, e):
        if e["k"] != "call": return False
        if not is_err_type(self.f, e["t"]): return False
        if e.get("fn") == "PetscError": return False
        return True
    # -- state: frozenset of (site, vid); ('H', site) marks "on the failure branch of site"
    def lose(self, st, vid, line):
        held = {s for s, v in st if v == vid}
        out = frozenset(x for x in st if x[1] != vid)
        for s in held:
            if not any(x[0] == s for x in out): self.found[("lost", s)] = line
        return out
    def assign(self, st, lhs, rhs, line):
        """lhs path, rhs expression"""
        lp = path(lhs) if lhs["k"] != "var" else (("v", lhs["d"], lhs["n"]),)
        r = uncast(rhs)
        if r["k"] == "asg" :
            st = self.ev(st, r)
            r = uncast(r["l_"])
        islocal = lp is not None and len(lp) == 1 and lp[0][0] == "v" and not (lhs["k"] == "ref" and False)
        errvar = islocal and (is_err_type(self.f, lhs["t"]))
        if self.is_errcall(r) or (r["k"] == "call" and errvar):
            for a in r["a"]: st = self.ev(st, a)
            if "fe" in r: st = self.ev(st, r["fe"])
            if islocal and errvar:
                st = self.lose(st, lp[0][1], line)
                return self.outargs(st | {(self.site(r), lp[0][1])}, r)
            return self.outargs(st, r)   # stored in memory / converted to a count: escapes to a reader
        if r["k"] == "ref" and islocal:
            src = r.get("d")
            moved = {(s, lp[0][1]) for s, v in st if v == src and s != "H"}
            if src == lp[0][1]: return st
            st = self.lose(st, lp[0][1], line) if errvar else st
            return st | moved
        st = self.ev(st, rhs)
        if islocal: st = self.lose(st, lp[0][1], line)
        else:
            for n in walk(lhs):
                pass
        return st
    def outargs(self, st, call):
        """f(..., &ierr): error code through an out parameter"""
        for a in call["a"]:
            a = uncast(a)
            if a["k"] == "un" and a["op"] == "&":
                b = uncast(a["e"])
                if b["k"] == "ref" and b["dk"] in ("local",) and is_err_type(self.f, b["t"]):
                    st = self.lose(st, b["d"], call["l"])
                    st = st | {(self.site(call), b["d"])}
        return st
    def consume_var(self, st, vid):
        held = {s for s, v in st if v == vid}
        return frozenset(x for x in st if x[0] not in held), held
    def ev(self, st, e, top=False):
        k = e["k"]
        if k == "asg" and e["op"] == "=":
            return self.assign(st, e["l_"], e["r_"], e["l"])
        if k == "var":
            if "init" in e: return self.assign(st, e, e["init"], e["l"])
            return st
        if k == "call":
            if top and self.is_errcall(e):
                self.found[("discarded", self.site(e))] = e["l"]
            if e.get("fn") == "__builtin_expect": return self.ev(st, e["a"][0])
            if "fe" in e: st = self.ev(st, e["fe"])
            for a in e["a"]: st = self.ev(st, a)
            return self.outargs(st, e)
        if k == "cast":
            return self.ev(st, e["e"], top)
        if k == "ref":
            if e.get("dk") in ("local", "parm"):
                st, _ = self.consume_var(st, e["d"])
            return st
        if k == "un" and e["op"] == "&":
            if uncast(e["e"])["k"] == "ref": return st
        for c in kids(e): st = self.ev(st, c)
        return st
    def transfer(self, n, st):
        if n.kind == "expr": return self.ev(st, n.ast, top=True)
        if n.kind == "var": return self.ev(st, n.ast)
        if n.kind == "cond":
            return st                        # consumption happens on the edges
        if n.kind == "switch": return self.ev(st, n.ast)
        if n.kind == "ret":
            e = n.ast.get("e")
            H = {v for s, v in st if s == "H"}
            if e is not None:
                st = self.ev(st, e)
                if const(e) == 0 and self.f.rettype == ERR:
                    for s in H: self.found[("swallowed", s)] = n.line
            elif H and self.f.rettype != "void": pass
            for s, v in st:
                if s != "H": self.found[("lost", s)] = n.line
            return frozenset()
        return st
    def errvars(self, e):
        """sites tested by condition e, and whether True means failure"""
        e = strip(e)
        out = []
        neg = False
        if e["k"] == "bin" and e["op"] in ("==", "!="):
            for a, b in ((e["l_"], e["r_"]), (e["r_"], e["l_"])):
                if const(b) == 0: return strip(a), e["op"] == "=="
        return e, neg
    def refine(self, n, lab, st):
        if n.kind != "cond": return st
        e, neg = self.errvars(n.ast)
        fail = (lab is True) != neg
        if e["k"] == "asg":
            st = self.ev(st, e); e = uncast(e["l_"])
        if e["k"] == "ref" and e.get("dk") in ("local", "parm"):
            st, held = self.consume_var(st, e["d"])
            if fail: st = st | {("H", s) for s in held}
            return st
        if self.is_errcall(e):
            st = self.ev(st, e)
            if fail: st = st | {("H", self.site(e))}
            return st
        return self.ev(st, n.ast)
    def run(self):
        cfg = self.f.cfg()
        IN = forward(cfg, frozenset(), self.transfer, lambda a, b: a | b, self.refine)
        for s, v in IN.get(cfg.exit.id, ()):
            if s != "H": self.found[("lost", s)] = self.f.endline
        out = []
        for (kind, s), line in sorted(self.found.items(), key=lambda x: x[1]):
            callee, l, call = self.sites[s]
            out.append((kind, callee, l, line, call))
        return out
