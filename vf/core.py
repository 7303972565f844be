"""Facts loading, program index, CFG construction and small AST helpers.

The facts come from tool/tdyfacts (a clang libTooling extractor), run over every
translation unit of the library with the real include path and -DPETSC... set by
the installed PETSc headers.  Nothing of the program is executed.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo").rstrip("/")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
PETSC = "/opt/petsc-3.17.3"

class AnalysisBroken(Exception):
    """An anchor vanished or a rule matched nothing: neither pass nor violation."""

LIB_DIRS = ["src/fv/share", "src/fv/mpfao", "src/fv/fvtpf", "src/fe", "src/materials", "src", "src/f90-mod"]

def lib_sources(repo=None):
    repo = repo or REPO
    out = []
    for d in LIB_DIRS:
        out += sorted(glob.glob(os.path.join(repo, d, "*.c")))
    return out

def demo_sources(repo=None):
    repo = repo or REPO
    return sorted(glob.glob(os.path.join(repo, "demo", "*", "*.c")))

def mpi_includes():
    try:
        s = subprocess.run(["mpicc", "--showme:compile"], capture_output=True, text=True, timeout=60).stdout
        inc = [w for w in s.split() if w.startswith("-I") or w.startswith("-D")]
        if inc:
            return inc
    except Exception:
        pass
    return ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]

def cflags(repo):
    return (["-include", os.path.join(VERIF, "tool", "pre.h"), "-I" + PETSC + "/include", "-I/usr/include/hdf5/openmpi"]
            + mpi_includes() + ["-I" + repo + "/include", "-std=gnu17", "-w",
               "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"])

def build_extractor():
    src = os.path.join(VERIF, "tool", "tdyfacts.cc")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "tdyfacts-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True)
    fl = flags.stdout.split() if flags.returncode == 0 else ["-I/usr/lib/llvm-18/include", "-std=c++17", "-fno-exceptions", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"]
    tmp = exe + ".%d" % os.getpid()
    r = subprocess.run(["clang++-18", "-O1", "-fno-rtti"] + fl + [src, "-o", tmp, "-L/usr/lib/llvm-18/lib",
                        "-l:libclang-cpp.so.18.1", "-lLLVM-18", "-Wl,-rpath,/usr/lib/llvm-18/lib"],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("building the extractor failed:\n" + r.stderr[-3000:])
    os.rename(tmp, exe)
    return exe

def _extract(args):
    exe, repo, f, out, flags = args
    r = subprocess.run([exe, repo + "/", out, f, "--"] + flags, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        return f, r.stderr[-3000:]
    return f, None

class Func:
    __slots__ = ("name", "file", "line", "endline", "static", "ret", "params", "body", "tu", "variadic", "_cfg", "macro", "types")
    def __init__(self, d, tu):
        self.name = d["name"]; self.file = d["file"]; self.line = d.get("l", 0); self.endline = d.get("el", 0)
        self.static = d.get("static", False); self.ret = d["ret"]; self.params = d["params"]
        self.body = d.get("body"); self.tu = tu; self.variadic = d.get("variadic", False); self._cfg = None
        self.macro = d.get("m"); self.types = tu.types
    def __repr__(self): return "<%s>" % self.name
    def T(self, t): return self.types[t]
    @property
    def rettype(self): return self.types[self.ret][0]
    @property
    def rel(self): return os.path.relpath(self.file, self.tu.repo)
    def cfg(self):
        if self._cfg is None: self._cfg = CFG(self)
        return self._cfg
    def pname(self, i): return self.params[i]["n"]

class TU:
    pass

class Program:
    def __init__(self, repo, files, inc=None):
        self.repo = repo
        exe = build_extractor()
        tmp = tempfile.mkdtemp(prefix="vf-facts-")
        self.tus = []
        try:
            flags = cflags(inc or repo)
            jobs = [(exe, repo, f, os.path.join(tmp, "%03d.json" % i), flags) for i, f in enumerate(files)]
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for f, err in ex.map(_extract, jobs):
                    if err: raise AnalysisBroken("cannot parse %s:\n%s" % (f, err))
            for job in jobs:
                d = json.load(open(job[3]))
                tu = TU(); tu.repo = repo; tu.file = job[2]; tu.types = d["types"]
                tu.functions = [Func(x, tu) for x in d["functions"]]
                tu.decls = [Func(x, tu) for x in d["decls"]]
                tu.globals = d["globals"]; tu.records = d["records"]; tu.enums = d["enums"]; tu.typedefs = d["typedefs"]
                self.tus.append(tu)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        self.byname = {}      # external functions
        self.static = {}      # (tu file, name)
        self.functions = []
        seen = set()
        for tu in self.tus:
            for f in tu.functions:
                if f.static:
                    self.static[(tu.file, f.name)] = f
                    if f.file != tu.file and (f.file, f.name) in seen: continue
                else:
                    self.byname.setdefault(f.name, f)
                seen.add((f.file, f.name))
                self.functions.append(f)
        self.records = {}
        self.enums = {}
        self.rectypes = {}
        for tu in self.tus:
            for r in tu.records:
                if r["name"] and r["name"] not in self.records:
                    self.records[r["name"]] = r; self.rectypes[r["name"]] = tu.types
            for e in tu.enums:
                key = e["name"] or "<anon:%s:%d>" % (e["file"], e["l"])
                self.enums.setdefault(key, e)
        self.libfuncs = [f for f in self.functions if f.body is not None and f.file.endswith(".c")]
    def resolve(self, f, name):
        """definition of function `name` as seen from function f, or None (external)"""
        g = self.static.get((f.tu.file, name))
        return g if g is not None else self.byname.get(name)
    def func(self, name):
        """definition by name; AnalysisBroken if it vanished"""
        g = self.byname.get(name)
        if g is None:
            c = [x for x in self.functions if x.name == name]
            if len(c) != 1: raise AnalysisBroken("anchor function %s: %d definitions" % (name, len(c)))
            g = c[0]
        return g
    def callgraph(self):
        if not hasattr(self, "_cg"):
            cg = {}
            for f in self.functions:
                s = set()
                for n in walk(f.body):
                    if n["k"] == "call" and "fn" in n: s.add(n["fn"])
                cg[f] = s
            self._cg = cg
        return self._cg

_prog = {}
def load(demos=False, repo=None):
    repo = repo or REPO
    key = (repo, demos)
    if key not in _prog:
        files = lib_sources(repo)
        if len(files) < 20: raise AnalysisBroken("only %d library sources found in %s" % (len(files), repo))
        if demos: files = files + demo_sources(repo)
        p = Program(repo, files)
        if len(p.libfuncs) < 300: raise AnalysisBroken("only %d functions extracted" % len(p.libfuncs))
        _prog[key] = p
    return _prog[key]

# ----------------------------------------------------------------- AST helpers
_kids = {}
def kids(n):
    for k, v in n.items():
        if type(v) is dict: yield v
        elif type(v) is list:
            for x in v:
                if type(x) is dict: yield x

def walk(n):
    """pre-order over all nodes"""
    if n is None: return
    st = [n]
    while st:
        x = st.pop()
        yield x
        st.extend(reversed(list(kids(x))))

def calls(n):
    return [x for x in walk(n) if x["k"] == "call"]

def strip(e):
    """casts, __builtin_expect, !! removed"""
    while True:
        if e["k"] == "cast": e = e["e"]
        elif e["k"] == "call" and e.get("fn") == "__builtin_expect": e = e["a"][0]
        elif e["k"] == "un" and e["op"] == "!" and e["e"]["k"] == "un" and e["e"]["op"] == "!": e = e["e"]["e"]
        else: return e

def uncast(e):
    while e["k"] == "cast": e = e["e"]
    return e

def const(e):
    e = strip(e)
    if e["k"] in ("int",): return e["v"]
    if e["k"] == "ref" and e.get("dk") == "enum": return e["v"]
    if e["k"] == "sizeof": return e.get("v")
    if e["k"] == "un" and e["op"] == "-":
        v = const(e["e"]); return None if v is None else -v
    if e["k"] == "un" and e["op"] == "!":
        v = const(e["e"]); return None if v is None else int(not v)
    if e["k"] == "un" and e["op"] == "~":
        v = const(e["e"]); return None if v is None else ~v
    if e["k"] == "bin":
        a, b = const(e["l_"]), const(e["r_"])
        if a is None or b is None: return None
        try:
            op = e["op"]
            if op == "+": return a + b
            if op == "-": return a - b
            if op == "*": return a * b
            if op == "/": return int(a / b)
            if op == "%": return a % b
            if op == "<<": return a << b
            if op == "|": return a | b
            if op == "&": return a & b
            if op == "<": return int(a < b)
            if op == ">": return int(a > b)
            if op == "==": return int(a == b)
            if op == "!=": return int(a != b)
            if op == "<=": return int(a <= b)
            if op == ">=": return int(a >= b)
        except Exception: return None
    return None

def isnull(e):
    e = uncast(e)
    return e["k"] == "nullp" or (e["k"] == "int" and e["v"] == 0)

def path(e):
    """access path of an lvalue-ish expression: tuple; None if not a path.
    ('v',id,name) | ('g',name), then field names, '*' for deref, '[]' for subscripts"""
    e = uncast(e)
    k = e["k"]
    if k == "ref":
        if e["dk"] in ("local", "parm"): return (("v", e["d"], e["n"]),)
        if e["dk"] in ("global", "slocal"): return (("g", e["n"]),)
        return None
    if k == "mem":
        p = path(e["b"])
        if p is None: return None
        return p + (e["f"],)
    if k == "idx":
        p = path(e["b"])
        return None if p is None else p + ("[]",)
    if k == "un" and e["op"] == "*":
        p = path(e["e"])
        if p is None: return None
        return p[:-1] if p[-1] == "&" else p + ("[]",)
    if k == "un" and e["op"] == "&":
        p = path(e["e"])
        return None if p is None else p + ("&",)
    if k == "un" and e["op"] in ("++", "--"): return path(e["e"])
    if k == "bin" and e["op"] in ("+", "-"):
        p = path(e["l_"])
        if p is not None: return p
    return None

def pstr(p):
    if p is None: return "?"
    s = p[0][2] if p[0][0] == "v" else p[0][1]
    for x in p[1:]:
        s = "&" + s if x == "&" else s + "[]" if x == "[]" else s + "->" + x
    return s

def show(e, depth=0):
    """short C-like rendering"""
    if e is None: return ""
    k = e["k"]
    if depth > 12: return "..."
    r = lambda x: show(x, depth + 1)
    if k == "ref": return e["n"]
    if k == "int": return str(e["v"])
    if k == "flt": return repr(e["v"])
    if k == "str": return json.dumps(e["v"])
    if k == "nullp": return "NULL"
    if k == "mem": return r(e["b"]) + ("->" if e.get("arrow") else ".") + e["f"]
    if k == "idx": return r(e["b"]) + "[" + r(e["i"]) + "]"
    if k == "call": return (e.get("fn") or r(e["fe"])) + "(" + ", ".join(r(x) for x in e["a"]) + ")"
    if k == "un": return r(e["e"]) + e["op"] if e.get("post") else e["op"] + r(e["e"])
    if k in ("bin", "asg"): return "(%s %s %s)" % (r(e["l_"]), e["op"], r(e["r_"])) if k == "bin" else "%s %s %s" % (r(e["l_"]), e["op"], r(e["r_"]))
    if k == "cond": return "(%s ? %s : %s)" % (r(e["q"]), r(e["y"]), r(e["z"]))
    if k == "cast": return r(e["e"])
    if k == "sizeof": return "sizeof"
    if k == "var": return e["n"] + (" = " + r(e["init"]) if "init" in e else "")
    if k == "initl": return "{" + ", ".join(r(x) for x in e["a"][:6]) + "}"
    return "<" + k + ">"

# ----------------------------------------------------------------- CFG
class Node:
    __slots__ = ("id", "kind", "ast", "succ", "line", "macro")
    def __init__(self, id, kind, ast=None):
        self.id = id; self.kind = kind; self.ast = ast; self.succ = []
        self.line = ast.get("l", 0) if ast else 0
        self.macro = ast.get("m") if ast else None
    def __repr__(self): return "N%d:%s@%d" % (self.id, self.kind, self.line)

NORETURN = {"exit", "abort", "_exit", "MPI_Abort", "__assert_fail"}

class CFG:
    """kinds: entry exit expr var cond ret; cond succ = [(n,True),(n,False)];
    switch conds: kind 'switch', succ labels ('case',v) / 'default'."""
    def __init__(self, f):
        self.f = f
        self.nodes = []
        self.exit = self.new("exit")
        self.loops = {}
        self.entry = self.new("entry")
        self.labels = {}
        first = self.stmt(f.body, self.exit, None, None)
        self.entry.succ = [(first, None)]
        self._preds = None
    def new(self, kind, ast=None):
        n = Node(len(self.nodes), kind, ast)
        self.nodes.append(n)
        return n
    def expr(self, e, nxt):
        n = self.new("expr", e)
        e0 = uncast(e)
        if e0["k"] == "call" and e0.get("fn") in NORETURN: n.succ = []
        elif e0["k"] == "bin" and e0["op"] == ",":
            self.nodes.pop()
            return self.expr(e0["l_"], self.expr(e0["r_"], nxt))
        elif e0["k"] == "cond":
            # c ? a : b as a statement
            return self.cond(e0["q"], self.expr(e0["y"], nxt), self.expr(e0["z"], nxt), ast=e0) if False else self._plain(n, nxt)
        else: n.succ = [(nxt, None)]
        return n
    def _plain(self, n, nxt):
        n.succ = [(nxt, None)]; return n
    def cond(self, e, t, f, ast=None):
        e0 = strip(e)
        v = const(e0)
        if v is not None: return t if v else f
        if e0["k"] == "un" and e0["op"] == "!": return self.cond(e0["e"], f, t)
        if e0["k"] == "bin" and e0["op"] == "&&": return self.cond(e0["l_"], self.cond(e0["r_"], t, f), f)
        if e0["k"] == "bin" and e0["op"] == "||": return self.cond(e0["l_"], t, self.cond(e0["r_"], t, f))
        if e0["k"] == "bin" and e0["op"] == ",": return self.expr(e0["l_"], self.cond(e0["r_"], t, f))
        n = self.new("cond", e0)
        if e.get("m") and not n.macro: n.macro = e["m"]
        n.succ = [(t, True), (f, False)]
        return n
    def stmt(self, s, nxt, brk, cnt):
        if s is None: return nxt
        k = s["k"]
        if k == "comp":
            cur = nxt
            for x in reversed(s["b"]): cur = self.stmt(x, cur, brk, cnt)
            return cur
        if k == "decl":
            cur = nxt
            for v in reversed(s["v"]):
                n = self.new("var", v); n.succ = [(cur, None)]; cur = n
            return cur
        if k == "if":
            t = self.stmt(s["then"], nxt, brk, cnt)
            f = self.stmt(s.get("else"), nxt, brk, cnt) if s.get("else") else nxt
            return self.cond(s["cond"], t, f)
        if k == "for" and s.get("m") in ("PetscOptionsBegin", "PetscObjectOptionsBegin"):
            # published-options loop: one pass unless options are published to a GUI (SAWs, not configured)
            body = self.stmt(s["body"], nxt, nxt, nxt)
            return self.stmt(s["init"], body, brk, cnt) if s.get("init") else body
        if k in ("for", "while"):
            head = self.new("join", s)
            inc = head
            if k == "for" and s.get("inc"): inc = self.expr(s["inc"], head)
            body = self.stmt(s["body"], inc, nxt, inc)
            c = s.get("cond")
            start = self.cond(c, body, nxt) if c else body
            head.succ = [(start, None)]
            self.loops[head.id] = s
            if k == "for" and s.get("init"): return self.stmt(s["init"], head, brk, cnt)
            return head
        if k == "do":
            head = self.new("join", s)
            body = None
            c = self.new("join", s)
            v = const(s["cond"])
            body = self.stmt(s["body"], c, nxt, c)
            if v == 0: c.succ = [(nxt, None)]; head.succ = [(body, None)]; return head
            t = self.cond(s["cond"], head, nxt)
            c.succ = [(t, None)]; head.succ = [(body, None)]
            self.loops[head.id] = s
            return head
        if k == "switch":
            n = self.new("switch", s["cond"])
            labels = []
            def build(lst, i, cont):
                pass
            # flatten the body; case labels map to entry nodes
            body = s["body"]["b"] if s["body"]["k"] == "comp" else [s["body"]]
            cur = nxt
            for x in reversed(body):
                chain = []
                while x is not None and x["k"] in ("case", "default"):
                    chain.append(x); x = x["sub"]
                cur = self.stmt(x, cur, nxt, cnt)
                for c in chain: labels.append((cur, ("case", c.get("v")) if c["k"] == "case" else "default"))
            labels.reverse()
            if not any(l == "default" for _, l in labels): labels.append((nxt, "nodefault"))
            n.succ = labels
            return n
        if k in ("case", "default"): return self.stmt(s["sub"], nxt, brk, cnt)
        if k == "break":
            return brk
        if k == "continue": return cnt
        if k == "ret":
            n = self.new("ret", s); n.succ = [(self.exit, None)]
            return n
        if k == "null": return nxt
        if k == "label": return self.stmt(s["sub"], nxt, brk, cnt)
        if k == "goto": raise AnalysisBroken("goto in %s: not modelled" % self.f.name)
        return self.expr(s, nxt)
    def reachable(self):
        seen = {self.entry.id}; st = [self.entry]
        order = []
        while st:
            n = st.pop(); order.append(n)
            for m, _ in n.succ:
                if m.id not in seen: seen.add(m.id); st.append(m)
        return order
    def preds(self):
        if self._preds is None:
            p = {n.id: [] for n in self.nodes}
            for n in self.reachable():
                for m, l in n.succ: p[m.id].append((n, l))
            self._preds = p
        return self._preds

def forward(cfg, init, transfer, join, refine=None, maxit=200000):
    """worklist; states must be hashable/comparable with ==. returns IN states by node id"""
    IN = {cfg.entry.id: init}
    work = [cfg.entry]
    it = 0
    while work:
        n = work.pop()
        it += 1
        if it > maxit: raise AnalysisBroken("dataflow did not converge in " + cfg.f.name)
        out = transfer(n, IN[n.id])
        if out is None: continue
        for m, lab in n.succ:
            o = refine(n, lab, out) if refine and lab is not None else out
            if o is None: continue
            if m.id not in IN: IN[m.id] = o; work.append(m)
            else:
                j = join(IN[m.id], o)
                if j != IN[m.id]: IN[m.id] = j; work.append(m)
    return IN

# ------------------------------------------------ property simulation (ESP-style)
def condkey(e):
    return show(e)

def repeated_conditions(f):
    """conditions that occur at least twice (same resolved text), not loop or error tests"""
    cfg = f.cfg()
    cnt = {}
    for n in cfg.reachable():
        if n.kind == "cond" and not calls(n.ast):
            k = condkey(n.ast)
            cnt.setdefault(k, []).append(n)
    out = {}
    for k, ns in cnt.items():
        if len(ns) < 2: continue
        if any(f.types[n.ast["t"]][0] == "PetscErrorCode" for n in ns): continue
        deps = set()
        for x in walk(ns[0].ast):
            if x["k"] == "ref" and "d" in x: deps.add(x["d"])
            if x["k"] == "mem": deps.add("." + x["f"])
        out[k] = deps
    return out

def kills(node_ast, f):
    """variables / fields written by a node"""
    s = set()
    if node_ast is None: return s
    for x in walk(node_ast):
        t = None
        if x["k"] == "asg": t = uncast(x["l_"])
        elif x["k"] == "un" and x["op"] in ("++", "--", "&"): t = uncast(x["e"])
        elif x["k"] == "var": s.add(x["d"]); continue
        if t is None: continue
        if t["k"] == "ref" and "d" in t: s.add(t["d"])
        elif t["k"] == "mem": s.add("." + t["f"])
    return s

def esp(f, init, transfer, refine=None, cap=400):
    """forward analysis with property states kept apart; each carries the branch facts common to its paths.
    transfer(node, prop) -> prop|None ; refine(node, label, prop) -> prop|None. returns {node id: {prop: facts}}"""
    cfg = f.cfg()
    rep = repeated_conditions(f)
    IN = {cfg.entry.id: {init: frozenset()}}
    work = [cfg.entry]
    inwork = {cfg.entry.id}
    killc = {}
    steps = 0
    while work:
        n = work.pop(); inwork.discard(n.id)
        steps += 1
        if steps > 300000: raise AnalysisBroken("property simulation did not converge in " + f.name)
        kl = killc.get(n.id)
        if kl is None: kl = killc[n.id] = kills(n.ast, f) if n.kind in ("expr", "var", "cond") else set()
        outs = {}
        for prop, facts in IN[n.id].items():
            o = transfer(n, prop)
            if o is None: continue
            if kl and facts: facts = frozenset((k, v) for k, v in facts if not (rep[k] & kl))
            outs[o] = outs[o] & facts if o in outs else facts
        for m, lab in n.succ:
            ck = None
            if n.kind == "cond" and lab is not None:
                ck = condkey(n.ast)
                if ck not in rep: ck = None
            tgt = IN.setdefault(m.id, {})
            ch = False
            for prop, facts in outs.items():
                if ck is not None:
                    if (ck, not lab) in facts: continue
                    facts = facts | {(ck, lab)}
                o = refine(n, lab, prop) if refine and lab is not None else prop
                if o is None: continue
                if o not in tgt:
                    if len(tgt) > cap: raise AnalysisBroken("too many property states in " + f.name)
                    tgt[o] = facts; ch = True
                else:
                    g = tgt[o] & facts
                    if g != tgt[o]: tgt[o] = g; ch = True
            if ch and m.id not in inwork: work.append(m); inwork.add(m.id)
    return IN
