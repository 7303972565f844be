"""Tiny positive/negative examples that every run must classify correctly."""
from .core import *
def fixture(name):
    d = os.path.join(VERIF, "fixtures")
    p = Program.__new__(Program)
    Program.__init__(p, d, [os.path.join(d, name)], inc=REPO)
    return p
def expect(p, hit):
    want = {f.name for f in p.libfuncs if f.name.startswith("bad")}
    if hit != want: raise AnalysisBroken("fixture: flagged %s, expected %s" % (sorted(hit), sorted(want)))
