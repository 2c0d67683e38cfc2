"""Obligation bookkeeping shared by all checks."""
import os
from . import ir, engine as en, terms as tm
from .engine import Engine, St, TooComplex, loc, ext, F, I, M
from .terms import mk, num, TRUE, FALSE, NULL, VOID, T


class Ob:
    __slots__ = ("rule", "where", "ok", "detail", "path", "inst")

    def __init__(self, rule, where, ok, detail="", path=(), inst=""):
        self.rule, self.where, self.ok, self.detail, self.path, self.inst = rule, where, ok, detail, list(path), inst


class Ctx:
    """One run of one property check."""

    def __init__(self, prog, pid, tier="quick"):
        self.prog = prog
        self.pid = pid
        self.tier = tier
        self.obs = []
        self.functions = set()
        self.notes = []
        self.loops = 0
        self.paths = 0
        self.undecided = []

    def ob(self, rule, where, ok, detail="", path=(), inst=""):
        self.obs.append(Ob(rule, where, bool(ok), detail, path, inst))
        return ok

    def engine(self, prims=None, monitor=None, **kw):
        e = Engine(self.prog, prims, monitor)
        for k, v in kw.items():
            setattr(e, k, v)
        return e

    def run(self, eng, f, **kw):
        self.functions.add(f.fid)
        out = eng.run(f, **kw)
        self.functions |= eng.inlined
        self.loops += eng.loops
        self.paths += len(out)
        return out

    def absorb(self, other):
        self.obs += other.obs
        self.functions |= other.functions
        self.loops += other.loops
        self.paths += other.paths

    def fail_limit(self, f, ex):
        """the abstract domain could not follow the code: undecided, never a verdict"""
        self.undecided.append("%s: %s" % (f.fid if f is not None else "?", ex))

    def need(self, n, what, rule=None):
        """minimum number of rule instances: a rule that matches nothing is broken"""
        c = len([o for o in self.obs if rule is None or o.rule == rule])
        if c < n and not self.undecided and all(o.ok for o in self.obs):
            raise ir.AnalysisBroken("%s: %s matched %d instance(s), expected at least %d" % (self.pid, what, c, n))


def vkind(e):
    return e.get("m") or e.get("op") or e.get("fn")


def engaged(eng, st, v):
    """is this optional value engaged? True/False/None"""
    if v.op == "some":
        return True
    if v.op == "none":
        return False
    return eng.simp(st, mk("engaged", v, ty="bool"))


def inv_timed_word(st, w):
    """class invariant of timed words: one more delay than actions"""
    a = mk("size", tm.getf(w, "word"), ty="nat")
    d = mk("size", tm.getf(w, "durations"), ty="nat")
    st.dbm = st.dbm.add(a, d, -1, False).add(d, a, 1, False)
