"""A small reader of free-form Fortran modules: program units, their dummies, declarations and statements.  Names are lower
case (Fortran is case-insensitive); bind names keep their case."""
import re

class Unit:
    def __init__(self, kind, name, args, line, file):
        self.kind = kind; self.name = name; self.args = args; self.line = line; self.file = file
        self.bind = None; self.result = None; self.decls = {}; self.stmts = []; self.interfaces = []; self.parent = None; self.abstract = False; self.contained = []
    def __repr__(self): return "<%s %s(%s)>" % (self.kind, self.name, ", ".join(self.args))

def lines_of(path):
    """logical lines: (line number, text) without comments and preprocessor lines, continuations joined, split at ;"""
    out, buf, start = [], "", 0
    for no, raw in enumerate(open(path, errors="replace"), 1):
        if raw.lstrip().startswith("#"): continue
        s, q = "", None
        for ch in raw.rstrip("\n"):
            if q:
                s += ch
                if ch == q: q = None
                continue
            if ch in "'\"": q = ch; s += ch; continue
            if ch == "!": break
            s += ch
        s = s.strip()
        if not s: continue
        if buf:
            if s.startswith("&"): s = s[1:].lstrip()
            s = buf + " " + s
        else: start = no
        if s.endswith("&"): buf = s[:-1].rstrip(); continue
        buf = ""
        depth, cur, q = 0, "", None
        for ch in s:
            if q:
                cur += ch
                if ch == q: q = None
                continue
            if ch in "'\"": q = ch
            if ch == ";" and depth == 0:
                if cur.strip(): out.append((start, cur.strip()))
                cur = ""; continue
            depth += (ch == "(") - (ch == ")")
            cur += ch
        if cur.strip(): out.append((start, cur.strip()))
    return out

def split_top(s):
    out, cur, d, q = [], "", 0, None
    for ch in s:
        if q:
            cur += ch
            if ch == q: q = None
            continue
        if ch in "'\"": q = ch
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""; continue
        d += ch in "(["; d -= ch in ")]"
        cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

TYPES = r"(?:integer|real|double\s+precision|logical|character|complex|type|class|procedure|petsc\w+|mpi_comm|tdy\w*|vec|mat|snes|ts|dm|ksp|is)"
HEAD = re.compile(r"^(?:(?:recursive|pure|elemental)\s+)*(subroutine|function)\s+(\w+)\s*(?:\(([^)]*)\))?\s*(.*)$", re.I)
DECL = re.compile(r"^(%s)\s*(\([^()]*(?:\([^()]*\)[^()]*)*\))?\s*(.*)$" % TYPES, re.I)

def parse(path):
    top, stack, iface = [], [], []
    module_decls = {}
    for no, s in lines_of(path):
        low = s.lower()
        if re.match(r"^(abstract\s+)?interface\b", low):
            iface.append(low.startswith("abstract")); continue
        if re.match(r"^end\s*interface\b", low): iface.pop(); continue
        if re.match(r"^end\s*(subroutine|function)\b", low) or (low == "end" and stack):
            if stack: stack.pop()
            continue
        m = HEAD.match(s)
        if m and not low.startswith("end"):
            u = Unit(m.group(1).lower(), m.group(2).lower(), [a.strip().lower() for a in (m.group(3) or "").split(",") if a.strip()], no, path)
            rest = m.group(4)
            b = re.search(r"bind\s*\(\s*c\s*(?:,\s*name\s*=\s*[\"'](\w+)[\"'])?\s*\)", rest, re.I)
            if b: u.bind = b.group(1) or u.name
            r = re.search(r"result\s*\(\s*(\w+)\s*\)", rest, re.I)
            u.result = r.group(1).lower() if r else u.name if u.kind == "function" else None
            u.abstract = bool(iface and iface[-1])
            u.isinterface = bool(iface)
            u.parent = stack[-1] if stack else None
            if u.isinterface and u.parent: u.parent.interfaces.append(u)
            elif u.parent: u.parent.contained.append(u)
            else: top.append(u)
            stack.append(u)
            continue
        if re.match(r"^(module|end\s*module|contains|implicit|use|public|private|program|end\s*program)\b", low): continue
        if re.match(r"^(end\s*)?type\s+(::\s*)?\w+|^type\s*::|^end\s*type", low) and not low.startswith("type("): continue
        tgt = stack[-1].decls if stack else module_decls
        m = DECL.match(s)
        if m and not re.match(r"^\s*[=%(]", m.group(3) or "=") and "=" not in split_top(m.group(3))[0].split("::")[0]:
            typ, par, rest = m.group(1).lower(), (m.group(2) or ""), m.group(3)
            attrs, names = "", rest
            if "::" in rest: attrs, names = rest.split("::", 1)
            at = [a.strip().lower() for a in split_top(attrs) if a.strip()]
            for nm in split_top(names):
                nm2 = re.match(r"^(\w+)\s*(\(.*?\))?", nm.strip())
                if nm2: tgt[nm2.group(1).lower()] = (typ, par.lower().replace(" ", ""), at, nm2.group(2))
            continue
        if stack: stack[-1].stmts.append((no, s))
    return top, module_decls
