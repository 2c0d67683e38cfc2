"""Timed conditions: bounds on the sums of consecutive delays, kept in a difference-bound matrix."""
from .zones import *
from .nest import *
from .automata import appended

T = "learnta::TimedCondition"


def zval(c):
    return fld(fld(c, "zone"), "value")


def this_z(eng, s, f):
    return zval(eng.read(s, this_loc(f)))


def count(m):
    return tm.sub(rows(m), num(1))


def col_of(m, j):
    """[(condition, index of the column of the sum ending at j)]"""
    return [(tm.numeq(tm.add(j, num(1)), count(m)), num(0)), (tm.lt(tm.add(j, num(1)), count(m)), tm.add(j, num(2)))]


def at_least(m, n=2):
    """a timed condition has at least one variable"""
    return tm.le(num(n), rows(m))


def inside(eng, sts, m, *xs):
    for x in xs:
        sts = [z for s in sts for z in eng.assume(s, tm.lt(x, count(m)))]
    return sts


def cut(eng, sts, *facts):
    for x in facts:
        sts = [z for s in sts for z in eng.assume(s, x)]
    return sts


def matches(cx, rule, f, eng, s, got, want, what, only=None, closed=False):
    """the matrix is the specified one: want is (matrix, closed?)"""
    if got.op == "mclose" and got.a[1] != "all" or (got.op == "mclose") != closed:
        if not closed and got.op == "mclose" or closed:
            return cx.ob(rule, f.where(), False, "%s: the matrix is %s" % (what, "closed" if not closed else "not closed" if got.op != "mclose" else "closed through some clocks only"), s.trace())
    return mat(cx, rule, f, eng, s, got.a[0] if closed else got, want, what, only=only)


def check_bounds(cx):
    for (nm, at) in (("getLowerBound", lambda i, c: (c, i)), ("getUpperBound", lambda i, c: (i, c))):
        f = cx.prog.find(T + "::" + nm)
        eng = cx.engine(prims(), Mon())
        m = zval(this_init(f))
        i, j = argv(f, 0), argv(f, 1)
        for s0 in inside(eng, [St()], m, i, j):
            for (s1, k, v) in cx.run(eng, f, st=s0):
                for (c, x) in col_of(m, j):
                    for s in eng.assume(s1, c):
                        w = cell(m, *at(tm.add(i, num(1)), x))
                        cx.ob("bound", f.where(), k == "r" and eng.same(s, v, w), "%s reads %s" % (nm, tm.show(v)), s.trace())
    cx.need(4, "bounds of a timed condition", "bound")
    for (nm, at) in (("restrictLowerBound", lambda i, c: (c, i)), ("restrictUpperBound", lambda i, c: (i, c))):
        f = cx.prog.find(T + "::" + nm)
        eng = cx.engine(prims(), Mon())
        m = zval(this_init(f))
        i, j, b, force = (argv(f, n) for n in range(4))
        b = arg(f, 2)
        for s0 in inside(eng, [St()], m, i, j):
            for (s1, k, v) in cx.run(eng, f, st=s0):
                for (c, x) in col_of(m, j):
                    for s in eng.assume(s1, c):
                        r, q = at(tm.add(i, num(1)), x)
                        for (s2, fo) in eng.branch(s, eng.truth(force)):
                            want = setcell(m, r, q, b if fo else pmin(b, cell(m, r, q)))
                            matches(cx, "restrict", f, eng, s2, this_z(eng, s2, f), want, nm, closed=True)
    cx.need(8, "restrictions of a timed condition", "restrict")


def check_hull(cx):
    for nm in ("convexHullAssign", "convexHull"):
        f = cx.prog.find(T + "::" + nm)
        eng = cx.engine(prims(), Mon())
        m, w = zval(this_init(f)), zval(arg(f, 0))
        want = square(m, lambda i, j: pmax(cell(m, i, j), cell(w, i, j)))
        for s0 in square_inv(eng, cut(eng, [St()], at_least(m))[0], m, w):
            for (s, k, v) in cx.run(eng, f, st=s0):
                got = this_z(eng, s, f) if nm == "convexHullAssign" else zval(deref(eng, s, v))
                matches(cx, "hull", f, eng, s, got, want, nm)
    cx.need(2, "convex hulls", "hull")


def bnd(c, e):
    return tm.rec("pair", {"first": c, "second": tm.b(e) if isinstance(e, bool) else e})


def shift(b, d, eq):
    return bnd(tm.add(tm.getf(b, "first"), num(d)), eq)


def point(u, l):
    return tm.band(tm.numeq(tm.neg(tm.getf(l, "first")), tm.getf(u, "first")), eig_truth(u), eig_truth(l))


def unit(u, l):
    return tm.band(tm.numeq(tm.add(tm.neg(tm.getf(l, "first")), num(1)), tm.getf(u, "first")), tm.bnot(eig_truth(u)), tm.bnot(eig_truth(l)))


def eig_truth(b):
    return tm.getf(b, "second", "bool")


STEPS = {
    # name: (cells of the upper and the lower bound, point -> (upper, lower), unit interval -> (upper, lower))
    "successor": ("right", lambda u, l: (shift(u, 1, False), shift(l, 0, False)), lambda u, l: (shift(u, 0, True), shift(l, -1, True))),
    "successorAssign": ("right", lambda u, l: (shift(u, 1, False), shift(l, 0, False)), lambda u, l: (shift(u, 0, True), shift(l, -1, True))),
    "predecessor": ("left", lambda u, l: (shift(u, 1, False), shift(l, 0, False)), lambda u, l: (shift(u, 0, True), shift(l, -1, True))),
    "prefix": ("right", lambda u, l: (shift(u, 0, False), shift(l, 1, False)), lambda u, l: (shift(u, -1, True), shift(l, 0, True))),
    "suffix": ("left", lambda u, l: (shift(u, 0, False), shift(l, 1, False)), lambda u, l: (shift(u, -1, True), shift(l, 0, True))),
}


class LocalZone(Fold):
    """the value followed is that of the local zone or timed condition"""

    def __init__(self, f, *phases, compare=None):
        Fold.__init__(self, self.matrix, *phases, compare=compare)
        self.f, self.roots = f, {}

    def on_decl(self, eng, st, v, root, fr):
        t = (v.get("t") or "").replace("const ", "").replace("class ", "").replace("struct ", "").strip()
        if t.endswith("Zone"):
            self.roots[root] = ("value",)
        elif t.endswith("TimedCondition"):
            self.roots[root] = ("zone", "value")

    def matrix(self, eng, st):
        r = [x for x in self.roots if st.mem.get(x) is not None and st.mem[x].op != "alias"]
        if len(r) != 1:
            return None if not r else self.odd()
        return fld(st.mem[r[0]] if len(self.roots[r[0]]) == 1 else fld(st.mem[r[0]], "zone"), "value")

    def odd(self):
        raise TooComplex("several local zones")


def remainders(eng, s):
    """remainders of numbers known to be below twice the divisor are known"""
    out = [s]
    for x in {x for t in s.facts for x in tm.subterms(t) if x.op == "bin" and x.a[0] == "%"}:
        a, b = x.a[1], x.a[2]
        v = a if implied(eng, s, tm.lt(a, b)) else num(0) if implied(eng, s, tm.numeq(a, b)) else tm.sub(a, b) if implied(eng, s, tm.band(tm.le(b, a), tm.lt(a, tm.add(b, b)))) else None
        if v is not None:
            out = [z for q in out for z in eng.assume(q, tm.numeq(x, v))]
    return out


def check_steps(cx):
    for nm, (side, atpoint, atunit) in STEPS.items():
        f = cx.prog.find(T + "::" + nm)
        m0 = zval(this_init(f))
        V = arg(f, 0)

        def step(eng, st, h, p):
            out = []
            x = eng.elem(st, V, p, "nat")
            for s in inside(eng, [st], m0, x):
                if side == "right":
                    ups = [(s, tm.add(x, num(1)), num(0))]
                else:
                    ups = [(z, num(1), c) for (d, c) in col_of(m0, x) for y in eng.assume(s, d) for z in remainders(eng, y)]
                for (s1, i, j) in ups:
                    u, l = cell(h, i, j), cell(h, j, i)
                    # elementary conditions only: a point or an open interval of length one
                    for s2 in eng.assume(s1, point(u, l)):
                        nu, nl = atpoint(u, l)
                        out.append((s2, setcell(setcell(h, i, j, nu), j, i, nl)))
                    for s2 in eng.assume(s1, unit(u, l)):
                        nu, nl = atunit(u, l)
                        out.append((s2, setcell(setcell(h, i, j, nu), j, i, nl)))
            return out
        mon = Fold(lambda eng, st: this_z(eng, st, f), (en.size(V), step)) if nm == "successorAssign" else LocalZone(f, (en.size(V), step))
        eng = cx.engine(prims(), mon, unroll=0)
        for s0 in cut(eng, [St()], at_least(m0)):
            for (s, k, v) in cx.run(eng, f, st=s0):
                mon.report(cx, "step", f, s, nm)
                if nm != "successorAssign":
                    got = zval(deref(eng, s, v))
                    h = s.ghost.get("G")
                    cx.ob("step-result", f.where(), h is not None and (got is h or difference(eng, s, got, h) is None), "%s returns another zone" % nm, s.trace())
    cx.need(5, "steps between elementary conditions", "step")


def check_upper(cx):
    for nm in ("removeUpperBoundAssign", "removeEqualityUpperBoundAssign"):
        f = cx.prog.find(T + "::" + nm)
        eng = cx.engine(prims(), Mon())
        m = zval(this_init(f))
        for s0 in cut(eng, [St()], at_least(m)):
            for (s, k, v) in cx.run(eng, f, st=s0):
                c = lambda i, j: tm.band(tm.numeq(j, num(0)), tm.le(num(1), i), TRUE if nm == "removeUpperBoundAssign" else tm.getf(cell(m, i, j), "second", "bool"))
                matches(cx, "upper-bounds", f, eng, s, this_z(eng, s, f), square(m, lambda i, j: tm.ite(c(i, j), NOB, cell(m, i, j))), nm)
    cx.need(2, "removing upper bounds", "upper-bounds")


offdiag = lambda i, j: tm.bnot(tm.numeq(i, j))


def check_extend(cx):
    def spec(nm, m):
        n = rows(m)
        if nm == "extendN":       # a last variable that is zero
            old = lambda i: tm.ite(tm.numeq(i, n), num(0), i)
            return tm.add(n, num(1)), lambda i, j: tm.ite(tm.bor(tm.band(tm.numeq(i, n), tm.numeq(j, num(0))), tm.band(tm.numeq(j, n), tm.numeq(i, num(0)))), LE0, cellat(m, i, j, old))
        if nm == "removeN":
            return tm.sub(n, num(1)), lambda i, j: cell(m, i, j)
        old = lambda i: tm.ite(tm.numeq(i, num(0)), num(0), tm.ite(tm.numeq(i, num(1)), num(1), tm.sub(i, num(1))))
        is_ = lambda i, j, a, b: tm.band(tm.numeq(i, num(a)), tm.numeq(j, num(b)))
        return tm.add(n, num(1)), lambda i, j: tm.ite(tm.bor(is_(i, j, 1, 2), is_(i, j, 2, 1)), LE0, cellat(m, i, j, old))

    def cellat(m, i, j, old):
        # where the old index depends on a case: choose the entry, not the index
        def go(x, k):
            return tm.ite(x.a[0], go(x.a[1], k), go(x.a[2], k)) if x.op == "ite" else k(x)
        return go(old(i), lambda a: go(old(j), lambda b: cell(m, a, b)))
    for nm in ("extendN", "removeN", "extendZero"):
        f = cx.prog.find(T + "::" + nm)
        eng = cx.engine(prims(), Mon())
        m = zval(this_init(f))
        for s0 in cut(eng, [St()], at_least(m)):
            for (s, k, v) in cx.run(eng, f, st=s0):
                n, g = spec(nm, m)
                matches(cx, "variables", f, eng, s, zval(deref(eng, s, v)), tm.lam(n, n, g), nm, only=offdiag)
    cx.need(3, "adding and removing variables", "variables")


def check_concat(cx):
    f = cx.prog.find(T + "::operator+")
    eng = cx.engine(prims(), Mon())
    A, B = zval(this_init(f)), zval(arg(f, 0))
    N, M = count(A), count(B)

    def want(i, j):
        zi, zj = tm.numeq(i, num(0)), tm.numeq(j, num(0))
        ai, aj = tm.le(i, N), tm.le(j, N)
        bi, bj = tm.add(tm.sub(i, N), num(1)), tm.add(tm.sub(j, N), num(1))
        row0 = tm.ite(aj, padd(cell(A, num(0), j), cell(B, num(0), num(1))), cell(B, num(0), bj))
        rowa = tm.ite(zj, padd(cell(A, i, num(0)), cell(B, num(1), num(0))), tm.ite(aj, cell(A, i, j), padd(cell(A, i, num(0)), cell(B, num(1), bj))))
        rowb = tm.ite(zj, cell(B, bi, num(0)), tm.ite(aj, padd(cell(A, num(0), j), cell(B, bi, num(1))), cell(B, bi, bj)))
        return tm.ite(zi, row0, tm.ite(ai, rowa, rowb))
    n = tm.sub(tm.add(rows(A), rows(B)), num(2))
    for s0 in cut(eng, [St()], at_least(A), at_least(B)):
        for (s, k, v) in cx.run(eng, f, st=s0):
            matches(cx, "concatenation", f, eng, s, zval(deref(eng, s, v)), tm.lam(n, n, want), "the concatenation", only=offdiag, closed=True)
    cx.need(1, "concatenation", "concatenation")


def check_compare(cx):
    differ = lambda m, w: tm.ex(tm.lam(rows(m), rows(m), lambda i, j: tm.band(offdiag(i, j), tm.bnot(eig.celleq(cell(m, i, j), cell(w, i, j))))))
    for nm in ("operator==", "operator!="):
        f = cx.prog.find(T + "::" + nm)
        eng = cx.engine(prims(), Mon())
        m, w = zval(this_init(f)), zval(arg(f, 0))
        for s0 in cut(eng, [St()], at_least(m), at_least(w)):
            for (s1, k, v) in cx.run(eng, f, st=s0):
                for s in cases(eng, s1, tm.numeq(rows(m), rows(w))):
                    e = tm.bnot(differ(m, w)) if implied(eng, s, tm.numeq(rows(m), rows(w))) else FALSE
                    if nm == "operator!=":
                        e = tm.bnot(e)
                    cx.ob("equality", f.where(), k == "r" and exeqv(eng, s, eng.truth(v), e), "%s is %s" % (nm, tm.show(v)), s.trace())
    cx.need(4, "equality of timed conditions", "equality")
    f = cx.prog.find(T + "::includes")
    eng = cx.engine(prims(), Mon())
    m, w = zval(this_init(f)), zval(arg(f, 0))
    for s0 in square_inv(eng, cut(eng, [St()], at_least(m))[0], m, w):
        for (s, k, v) in cx.run(eng, f, st=s0):
            e = tm.bnot(tm.ex(tm.lam(rows(m), rows(m), lambda i, j: lexless(cell(m, i, j), cell(w, i, j)))))
            cx.ob("inclusion", f.where(), k == "r" and exeqv(eng, s, eng.truth(v), e), "inclusion is %s" % tm.show(v), s.trace())
    cx.need(1, "inclusion", "inclusion")
    f = cx.prog.find(T + "::operator&&")
    eng = cx.engine(prims(), Mon())
    m, w = zval(this_init(f)), zval(arg(f, 0))
    for s0 in square_inv(eng, cut(eng, [St()], at_least(m))[0], m, w):
        for (s, k, v) in cx.run(eng, f, st=s0):
            matches(cx, "conjunction", f, eng, s, zval(deref(eng, s, v)), square(m, lambda i, j: pmin(cell(m, i, j), cell(w, i, j))), "the conjunction", closed=True)
    cx.need(1, "conjunction", "conjunction")
    neg = lambda m: tm.ex(square(m, lambda i, j: lexless(padd(cell(m, i, j), cell(m, j, i)), LE0)))
    for nm in ("isSatisfiableNoCanonize", "<conv>bool"):
        f = cx.prog.find(T + "::" + nm)
        eng = cx.engine(prims(), Mon())
        m = zval(this_init(f))
        if nm == "<conv>bool":
            m = close(m, "all")
        for s0 in cut(eng, [St()], at_least(m)):
            for (s, k, v) in cx.run(eng, f, st=s0):
                cx.ob("satisfiability", f.where(), k == "r" and exeqv(eng, s, eng.truth(v), tm.bnot(neg(m))), "satisfiability is %s" % tm.show(v), s.trace())
    cx.need(2, "satisfiability", "satisfiability")


def check_predicates(cx):
    for nm in ("hasPrefix", "hasSuffix"):
        f = cx.prog.find(T + "::" + nm)
        eng = cx.engine(prims(), Mon())
        m = zval(this_init(f))
        for s0 in cut(eng, [St()], at_least(m)):
            for (s1, k, v) in cx.run(eng, f, st=s0):
                at = [(s1, count(m), num(0))] if nm == "hasPrefix" else [(s, num(1), c) for (d, c) in col_of(m, num(0)) for s in eng.assume(s1, d)]
                for (s, i, j) in at:
                    w = tm.bnot(tm.band(eig.celleq(cell(m, i, j), LE0), eig.celleq(cell(m, j, i), LE0)))
                    cx.ob("positive", f.where(), k == "r" and eqv(eng, s, eng.truth(v), w), "%s is %s" % (nm, tm.show(v, 6)), s.trace())
    cx.need(2, "delays that may be positive", "positive")
    f = cx.prog.find(T + "::hasEqualityN")
    eng = cx.engine(prims(), Mon())
    m = zval(this_init(f))
    for s0 in cut(eng, [St()], at_least(m)):
        for (s, k, v) in cx.run(eng, f, st=s0):
            w = tm.ex(tm.lam(count(m), num(1), lambda i, j: eig_truth(cell(m, tm.add(i, num(1)), num(0)))))
            cx.ob("has-point", f.where(), k == "r" and exeqv(eng, s, eng.truth(v), w), "hasEqualityN is %s" % tm.show(v, 6), s.trace())
    cx.need(1, "hasEqualityN", "has-point")
    f = cx.prog.find(T + "::isPoint")
    eng = cx.engine(prims(), Mon())
    m = zval(this_init(f))
    i = argv(f, 0)
    for s0 in inside(eng, [St()], m, i):
        for (s, k, v) in cx.run(eng, f, st=s0):
            x = tm.add(i, num(1))
            cx.ob("is-point", f.where(), k == "r" and eqv(eng, s, eng.truth(v), point(cell(m, x, num(0)), cell(m, num(0), x))), "isPoint is %s" % tm.show(v, 6), s.trace())
    cx.need(1, "isPoint", "is-point")


class Pairs(Mon):
    """two nested loops that look at every pair of clocks: every finished iteration knows that the pair is fine"""
    MAPS = [("i<j, from i+1", lambda p, q: (p, tm.add(tm.add(p, q), num(1)))), ("from 0", lambda p, q: (p, q)), ("from i", lambda p, q: (p, tm.add(p, q))),
            ("j<i", lambda p, q: (tm.add(p, num(1)), q))]

    def __init__(self, n, fine):
        self.n, self.fine = n, fine
        self.bad = {k: None for (k, g) in self.MAPS}
        self.inner = 0

    def pkey(self, s):
        return (s.ghost.get("stk"), s.ghost.get("inner"))

    def on_enter(self, eng, st, key):
        st = st.copy()
        stk = (st.ghost.get("stk") or ()) + (str(key),)
        st.ghost["stk"] = stk
        st.ghost["p:%d" % (len(stk) - 1)] = num(0)
        st.ghost["inner"] = None
        return st

    def on_back(self, eng, st, key, head):
        st = st.copy()
        g = st.ghost
        d = g["stk"].index(str(key))
        if len(g["stk"]) == 2 and d == 1:
            self.inner += 1
            for (k, m) in self.MAPS:
                i, j = m(g["p:0"], g["p:1"])
                if self.bad[k] is None and not implied(eng, st, self.fine(i, j)):
                    for z in eng.assume(st, offdiag(i, j)):
                        if not implied(eng, z, self.fine(i, j)):
                            self.bad[k] = "the pair (%s, %s) is passed over" % (tm.show(i), tm.show(j))
        if d == 0 and g.get("inner") is None:
            # no inner loop ran to its end: only if there is no pair for this clock
            for k in self.bad:
                self.bad[k] = self.bad[k] or "a clock is passed over"
        g["inner"] = None
        g["p:%d" % d] = tm.add(g["p:%d" % d], num(1))
        return st

    def on_exit(self, eng, st, key, kind):
        g0 = st.ghost
        if str(key) not in (g0.get("stk") or ()):
            return st
        st = st.copy()
        g = st.ghost
        d = g["stk"].index(str(key))
        if kind == "n":
            for (k, m) in self.MAPS:
                p = g["p:0"]
                i, j = m(p, g["p:1"] if d == 1 else num(0))
                last = {"i<j, from i+1": (tm.add(p, num(1)), j), "from 0": (p, j), "from i": (p, j), "j<i": (i, j)}[k]
                ok = implied(eng, st, tm.le(self.n, last[0])) if d == 0 else implied(eng, st, tm.le(self.n if k != "j<i" else i, last[1]))
                if not ok:
                    self.bad[k] = self.bad[k] or "the loop ends early"
            g["inner"] = "done" if d == 1 else None
        g["stk"] = g["stk"][:d]
        return st


def check_simple(cx):
    f = cx.prog.find(T + "::isSimple")
    m = zval(this_init(f))
    fine = lambda i, j: tm.bor(point(cell(m, i, j), cell(m, j, i)), unit(cell(m, i, j), cell(m, j, i)))
    mon = Pairs(rows(m), fine)
    eng = cx.engine(prims(), mon, unroll=0)
    some = tm.ex(square(m, lambda i, j: tm.band(tm.lt(i, j), tm.bnot(fine(i, j)))))
    rs = []
    for s0 in cut(eng, [St()], at_least(m)):
        rs += [(s0, r) for r in cx.run(eng, f, st=s0)]
    for (s0, (s, k, v)) in rs:
        t = eng.simp(s, eng.truth(v)) if k == "r" else None
        if k != "r":
            cx.ob("simple", f.where(), False, "isSimple throws", s.trace())
        elif t is True and mon.inner:
            msgs = list(mon.bad.values())
            cx.ob("simple", f.where(), any(x is None for x in msgs), "isSimple: %s" % msgs[0], s.trace())
        elif t is False and mon.inner:
            at = [(c.a[1], c.a[2]) for t in s.facts for c in tm.subterms(t) if c.op == "cell"]
            cx.ob("simple", f.where(), any(implied(eng, s, tm.bnot(fine(i, j))) and implied(eng, s, offdiag(i, j)) for (i, j) in at), "isSimple: a condition whose pairs are all fine is not simple", s.trace())
        else:
            cx.ob("simple", f.where(), exeqv(eng, s, eng.truth(v), tm.bnot(some)), "isSimple is %s" % tm.show(v, 6), s.trace())
    cx.need(2, "simplicity", "simple")


def grows(eng, st, l, v):
    """an element is added at the end of a sequence"""
    if not (v.op == "seq" or v.op in ("field", "init")):
        return None
    x = appended(eng, st, l, v)
    return None if x is RESET else x


def whole(t):
    """bounds are whole numbers"""
    return tm.subst(t, {x: x.a[0] for x in tm.subterms_open(t) if x.op in ("trunc", "floor", "ceil")})


def known(eng, s, t):
    """t over the questions about all entries that the state has answers to"""
    return eig.exmap(eng, s, t, eig.exatoms(*s.facts))


def check_lists(cx):
    f = cx.prog.find(T + "::getStrictlyConstrainedVariables")
    m, w, n = zval(this_init(f)), zval(arg(f, 0)), argv(f, 1)
    cnt = lambda n: (lambda eng, st, ix: [(st, n)])

    def ev(eng, st, l, v):
        return grows(eng, st, l, v) if l.a[0].op == "var" and not l.a[1] else None

    def strict(i):
        x = tm.add(i, num(1))
        return tm.bor(tm.ex(tm.lam(rows(m), num(1), lambda r, c: tm.bnot(eig.celleq(cell(m, r, x), cell(w, r, x))))),
                      tm.ex(tm.lam(num(1), rows(m), lambda r, c: tm.bnot(eig.celleq(cell(m, x, c), cell(w, x, c))))))

    def want(eng, s, ix, pay):
        if not implied(eng, s, tm.numeq(pay, ix[0])):
            return "variable %s is listed" % tm.show(pay)
        return None if implied(eng, s, known(eng, s, strict(ix[0]))) else "a variable with the same bounds is listed"
    rules = [Rule("listed", [cnt(n)], ev, want, lambda eng, s, ix: known(eng, s, strict(ix[0])), "a strictly constrained variable")]
    eng0 = cx.engine(prims(), Mon())
    for s0 in square_inv(eng0, cut(eng0, [St()], at_least(m), tm.lt(n, rows(m)))[0], m, w):
        check_nest(cx, f, rules, lambda mon: cx.engine(prims(), mon, unroll=0), st=s0, rule="strictly-constrained")
    cx.need(2, "strictly constrained variables", "strictly-constrained")

    f = cx.prog.find(T + "::toGuard")
    m = zval(this_init(f))
    N = count(m)
    up = lambda i: cell(m, tm.add(i, num(1)), num(0))
    lo = lambda i: cell(m, num(0), tm.add(i, num(1)))

    ORD = ["learnta::Constraint::Order::" + q for q in ("lt", "le", "ge", "gt")]

    def ev_of(names):
        def ev(eng, st, l, v):
            x = grows(eng, st, l, v) if l.a[0].op == "var" and not l.a[1] else None
            if x is None:
                return None
            return (x, names) if [o for (o, s) in split_enum(eng, st, fld(x, "odr"), ORD) if o in names] else None
        return ev

    def want_g(b, neg):
        def want(eng, s, ix, pay):
            x, names = pay
            i = ix[0]
            for (o, z) in split_enum(eng, s, fld(x, "odr"), ORD):
                if o not in names:
                    return "the constraint may be %s" % o
                if not implied(eng, z, tm.numeq(fld(x, "x", ty="nat"), i)):
                    return "the constraint is on variable %s" % tm.show(fld(x, "x"))
                if not implied(eng, z, tm.numeq(whole(fld(x, "c", ty="int")), wh(b(i), neg))):
                    return "the constant is %s" % tm.show(fld(x, "c"), 6)
                if not eqv(eng, z, eig_truth(b(i)), tm.b(o in ("le", "ge"))):
                    return "the comparison is %s" % o
            return None
        return want

    def wh(b, neg):
        c = tm.getf(b, "first")
        return tm.neg(c) if neg else c
    there = lambda b, neg: (lambda eng, s, ix: tm.bnot(tm.numeq(tm.getf(b(ix[0]), "first"), DMAX)) if not neg else
                            tm.band(tm.bnot(tm.numeq(tm.getf(b(ix[0]), "first"), DMAX)), tm.bnot(eig.celleq(b(ix[0]), LE0))))
    rules = [Rule("upper", [cnt(N)], ev_of(("lt", "le")), want_g(up, False), there(up, False), "an upper bound"),
             Rule("lower", [cnt(N)], ev_of(("gt", "ge")), want_g(lo, True), there(lo, True), "a lower bound")]
    for s0 in cut(eng0, [St()], at_least(m)):
        check_nest(cx, f, rules, lambda mon: cx.engine(prims(), mon, unroll=0), st=s0, rule="guard-of-condition")
    cx.need(4, "guard of a timed condition", "guard-of-condition")


def p_restrict(which):
    def p(eng, st, ol, args, e, fr):
        s = st.copy()
        l = mk("loc", ol.a[0], ol.a[1] + (F("zone"), F("value")))
        i, j = eng.argval(s, args[0]), eng.argval(s, args[1])
        b = eng.argval(s, args[2])
        eng.write(s, l, mk("rst", eng.read(s, l), which, i, j, b))
        return [(s, VOID)]
    return p


RESTRICT = {T + "::restrictLowerBound": p_restrict("lo"), T + "::restrictUpperBound": p_restrict("up")}


class Start(Nest):
    """also keeps the state in which the first loop is entered"""

    def on_enter(self, eng, st, key):
        if not self.stack(st):
            self.first = getattr(self, "first", []) + [(eng, st)]
        return Nest.on_enter(self, eng, st, key)


def check_concrete(cx):
    """timed conditions around one valuation"""
    for (nm, exact) in (("<ctor>", False), ("makeExact", True)):
        f = cx.prog.find(T + "::" + nm, 1, lambda g: "vector" in g.params[0]["t"])
        V = arg(f, 0)
        n = en.size(V)
        at = []

        def ev_of(which):
            def ev(eng, st, l, v):
                if v.op == "rst" and v.a[1] == which:
                    at.append((eng, l))
                    if v.a[0] is not eng.read(st, l):
                        return RESET
                    return v
                if v.op == "rst" and v.a[1] in ("up", "lo"):
                    return None
                if l.a[1] and l.a[1][-1] == F("value") and v.op != "rst" and eng.read(st, l).op in ("rst", "phi"):
                    return RESET
            return ev

        def want_of(which):
            def want(eng, s, ix, pay):
                i = ix[0]
                j = tm.add(i, ix[1])
                if not implied(eng, s, tm.numeq(pay.a[2], i)) or not implied(eng, s, tm.numeq(pay.a[3], j)):
                    return "the bound is that of T_{%s,%s}" % (tm.show(pay.a[2]), tm.show(pay.a[3]))
                b = pay.a[4]
                for s1 in cases(eng, s, tm.lt(tm.add(j, num(1)), n)):
                    v = eng.elem(s1, V, i, "real")
                    if implied(eng, s1, tm.lt(tm.add(j, num(1)), n)):
                        v = tm.sub(v, eng.elem(s1, V, tm.add(j, num(1)), "real"))
                    fl = eng.stl.floor(v)
                    for (s2, integer) in [(s1, True)] if exact else eng.branch(s1, tm.numeq(fl, v)):
                        if which == "up":
                            w = bnd(v, True) if integer else bnd(tm.add(fl, num(1)), False)
                        else:
                            w = bnd(tm.neg(v), True) if integer else bnd(tm.neg(fl), False)
                        for z in ceilings(eng, s2, b):
                            if not sameval(eng, z, b, w):
                                return "the %s bound is %s instead of %s" % ({"up": "upper", "lo": "lower"}[which], tm.show(b, 6), tm.show(w, 6))
                return None
            return want
        rules = [Rule("upper", [lambda eng, st, ix: [(st, n)], lambda eng, st, ix: [(st, tm.sub(n, ix[0]))]], ev_of("up"), want_of("up"), None, "the upper bound of a sum of delays"),
                 Rule("lower", [lambda eng, st, ix: [(st, n)], lambda eng, st, ix: [(st, tm.sub(n, ix[0]))]], ev_of("lo"), want_of("lo"), None, "the lower bound of a sum of delays")]
        firsts = []

        def mkeng(mon):
            oe = mon.on_enter

            def on_enter(eng, st, key):
                if not mon.stack(st):
                    firsts.append((eng, st))
                return oe(eng, st, key)
            mon.on_enter = on_enter
            return cx.engine(prims(**RESTRICT), mon, unroll=0)
        check_nest(cx, f, rules, mkeng, rule="around-valuation")
        top = tm.lam(tm.add(n, num(1)), tm.add(n, num(1)), lambda i, j: NOB)
        for (eng, s) in firsts[:1]:
            l = at[0][1] if at else None
            if l is None:
                raise TooComplex("%s does not restrict bounds" % nm)
            mat(cx, "valuation-top", f, eng, s, eng.read(s, l), top, "before the first bound the condition")
    cx.need(6, "conditions around a valuation")


def ceilings(eng, s, t):
    """the ceiling of a number that is not whole is one more than the floor"""
    out = [s]
    for x in {x for x in tm.subterms_open(t) if x.op == "ceil"}:
        fl = eng.stl.floor(x.a[0])
        out = [z for q in out for (q2, w) in eng.branch(q, tm.numeq(fl, x.a[0])) for z in eng.assume(q2, tm.numeq(x, fl if w else tm.add(fl, num(1))))]
    return out


def check_resets(cx):
    f = cx.prog.find(T + "::applyResets", 1)
    m0 = zval(this_init(f))
    R = arg(f, 0)

    def p_unc(eng, st, ol, args, e, fr):
        s = st.copy()
        l = mk("loc", ol.a[0], ol.a[1] + (F("value"),))
        eng.write(s, l, mk("rst", eng.read(s, l), "free", eng.argval(s, args[0]), num(0), num(0)))
        return [(s, VOID)]

    def p_size(eng, st, ol, args, e, fr):
        return [(st, count(m0))]

    def compare(eng, s, m, h):
        p = s.ghost["pos"]
        ops = []
        while m.op == "rst":
            ops.append(m)
            m = m.a[0]
        if m is not h:
            raise TooComplex("resets are not applied by restricting bounds")
        ops.reverse()
        r = eng.elem(s, R, p)
        x = tm.getf(r, "first", "nat")
        v = mk("vget", num(0), fld(r, "second"), ty="real")
        fl = eng.stl.floor(v)
        if [o.a[1] for o in ops] not in (["free", "lo", "up"], ["free", "up", "lo"]):
            return "the updates are %s" % ", ".join({"free": "unconstraining", "lo": "a lower bound", "up": "an upper bound"}[o.a[1]] for o in ops)
        for (s1, integer) in eng.branch(s, tm.numeq(fl, v)):
            for o in ops:
                if not implied(eng, s1, tm.numeq(o.a[2], x)):
                    return "variable %s is updated" % tm.show(o.a[2])
                if o.a[1] == "free":
                    continue
                if not implied(eng, s1, tm.numeq(o.a[3], tm.sub(count(m0), num(1)))):
                    return "the bound is that of T_{%s,%s}" % (tm.show(o.a[2]), tm.show(o.a[3]))
                if o.a[1] == "up":
                    w = bnd(v, True) if integer else bnd(tm.add(fl, num(1)), False)
                else:
                    w = bnd(tm.neg(v), True) if integer else bnd(tm.neg(fl), False)
                for z in ceilings(eng, s1, o.a[4]):
                    if not sameval(eng, z, o.a[4], w):
                        return "the %s bound is %s instead of %s" % ({"up": "upper", "lo": "lower"}[o.a[1]], tm.show(o.a[4], 6), tm.show(w, 6))
        return None
    mon = LocalZone(f, (en.size(R), lambda eng, st, h, p: [(st, h)]), compare=compare)
    eng = cx.engine(prims(**RESTRICT, **{Z + "::unconstrain": p_unc, T + "::size": p_size}), mon, unroll=0, trust_asserts=True)
    for s0 in cut(eng, [St()], at_least(m0)):
        for (s, k, v) in cx.run(eng, f, st=s0):
            mon.report(cx, "resets", f, s, "applying resets")
            got = zval(deref(eng, s, v))
            h = s.ghost.get("G")
            cx.ob("resets-result", f.where(), h is not None and got is h, "applyResets returns another condition", s.trace())
    cx.need(2, "resets of a timed condition")


def check_empty(cx):
    zero = tm.lam(num(2), num(2), lambda i, j: LE0)
    f = cx.prog.find(T + "::empty")
    eng = cx.engine(prims(), Mon())
    for (s, k, v) in cx.run(eng, f):
        matches(cx, "empty", f, eng, s, zval(deref(eng, s, v)), zero, "the empty timed condition")
    f = cx.prog.find(T + "::<ctor>", 0)
    eng = cx.engine(prims(), Mon())
    for (s, k, v) in cx.run(eng, f):
        matches(cx, "empty", f, eng, s, this_z(eng, s, f), zero, "a new timed condition")
    f = cx.prog.find(T + "::size")
    eng = cx.engine(prims(), Mon())
    m = zval(this_init(f))
    for s0 in cut(eng, [St()], at_least(m)):
        for (s, k, v) in cx.run(eng, f, st=s0):
            cx.ob("size", f.where(), implied(eng, s, tm.numeq(v, count(m))), "the size is %s" % tm.show(v), s.trace())
    cx.need(3, "the empty condition")
