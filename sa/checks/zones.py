"""Operations on zones (difference-bound matrices)."""
from .util import *
from .. import eig
from ..eig import padd, pmin, pmax, lexless, rows, cols, cell, close, difference
from ..stl import INF

Z = "learnta::Zone"
DMAX = mk("sym", "DBL_max", ty="real")


def bound(c, eq):
    return tm.rec("pair", {"first": c, "second": tm.b(eq) if isinstance(eq, bool) else eq})


NOB = bound(DMAX, False)
LE0 = bound(num(0), True)


def square(m, f):
    return tm.lam(rows(m), rows(m), f)


def setcell(m, i, j, v):
    return eig.upd(m, mk("C", i, j), v)


def mat(cx, rule, f, eng, s, got, want, what, only=None):
    """the matrix equals the specified one in every entry"""
    d = difference(eng, s, got, want, only=only)
    if d is not None and unfollowed(got):
        raise TooComplex("%s: the matrix is %s" % (what, tm.show(got, 4)))
    cx.ob(rule, f.where(), d is None, "%s: %s" % (what, d), s.trace())
    return d is None


def unfollowed(got):
    return any(x.op == "phi" and x.ty is None for x in tm.subterms(got) if x.op == "phi")


def this_mat(eng, s, f):
    return fld(eng.read(s, this_loc(f)), "value")


# ------------------------------------------------------------------ close1 and canonize as operations of their own
def p_close1(eng, st, ol, args, e, fr):
    s = st.copy()
    l = mk("loc", ol.a[0], ol.a[1] + (F("value"),))
    eng.write(s, l, close(eng.read(s, l), eng.argval(s, args[0])))
    return [(s, VOID)]


def p_canonize(eng, st, ol, args, e, fr):
    s = st.copy()
    l = mk("loc", ol.a[0], ol.a[1] + (F("value"),))
    eng.write(s, l, close(eng.read(s, l), "all"))
    return [(s, VOID)]


def const_zone(n, v):
    return tm.setf(mk("dflt", Z), "value", tm.lam(n, n, lambda i, j: v))


def p_top(eng, st, ol, args, e, fr):
    return [(st, const_zone(eng.argval(st, args[0]), NOB))]


def p_zero(eng, st, ol, args, e, fr):
    return [(st, const_zone(eng.argval(st, args[0]), LE0))]


PRIMS = {Z + "::close1": p_close1, Z + "::canonize": p_canonize, Z + "::top": p_top, Z + "::zero": p_zero}


def prims(*without, **extra):
    d = {k: v for k, v in PRIMS.items() if k.split("::")[-1] not in without}
    d.update(extra)
    return d


class Pivots(Mon):
    """canonize: the pivots form an interval that grows by one at either end"""

    def __init__(self):
        self.calls = 0

    def prim(self, eng, st, ol, args, e, fr):
        self.calls += 1
        x = eng.argval(st, args[0])
        s = st.copy()
        l = mk("loc", ol.a[0], ol.a[1] + (F("value"),))
        m = eng.read(s, l)
        base = m.a[0] if m.op == "mclose" else m
        eng.write(s, l, mk("mclose", base, ("part",)))
        g = s.ghost
        if g.get("on") is None:
            g["on"] = "yes"
            g["lo"], g["hi"] = x, tm.add(x, num(1))
        elif implied(eng, s, tm.numeq(x, g["hi"])):
            g["hi"] = tm.add(x, num(1))
        elif implied(eng, s, tm.numeq(tm.add(x, num(1)), g["lo"])):
            g["lo"] = x
        elif not (implied(eng, s, tm.le(g["lo"], x)) and implied(eng, s, tm.lt(x, g["hi"]))):
            g["on"] = "gap"
        return [(s, VOID)]

    def pkey(self, s):
        return s.ghost.get("on")


def check_close(cx):
    f = cx.prog.find(Z + "::close1")
    eng = cx.engine({}, Mon())
    m = fld(this_init(f), "value")
    x = argv(f, 0)
    n = rows(m)
    st = St()
    for s0 in [b for a in eng.assume(st, tm.lt(x, n)) for b in eng.assume(a, tm.bnot(lexless(cell(m, x, x), LE0)))]:
        for (s, k, v) in cx.run(eng, f, st=s0):
            mat(cx, "close-one", f, eng, s, this_mat(eng, s, f), square(m, lambda i, j: pmin(cell(m, i, j), padd(cell(m, i, x), cell(m, x, j)))),
                "closing through one clock")
    cx.need(1, "closing through one clock", "close-one")
    f = cx.prog.find(Z + "::canonize")
    mon = Pivots()
    eng = cx.engine({Z + "::close1": mon.prim}, mon, unroll=0)
    m = fld(this_init(f), "value")
    # a zone has at least the row and column of the constant zero
    for s0 in eng.assume(St(), tm.le(num(1), rows(m))):
        for (s, k, v) in cx.run(eng, f, st=s0):
            if not mon.calls:
                raise TooComplex("canonize does not close clock by clock")
            g = s.ghost
            ok = g.get("on") == "yes" and implied(eng, s, tm.le(g["lo"], num(0))) and implied(eng, s, tm.le(rows(m), g["hi"]))
            got = this_mat(eng, s, f)
            cx.ob("close-all", f.where(), ok and got.op == "mclose" and got.a[0] is m,
                  "canonize closes through %s" % ("no clock" if g.get("on") is None else "the clocks from %s to %s only" % (tm.show(g["lo"]), tm.show(tm.sub(g["hi"], num(1))))), s.trace())
    cx.need(1, "canonize", "close-all")


def check_const(cx):
    for (nm, v) in (("top", NOB), ("zero", LE0)):
        f = cx.prog.find(Z + "::" + nm)
        eng = cx.engine({}, Mon())
        n = argv(f, 0)
        ids = []

        class Seen(Mon):
            def on_decl(self, eng, st, *a):
                pass
        # any cached zone is one this function has left behind: constant entries (or none yet)
        st0 = St()
        runs = cx.run(eng, f, st=st0)
        roots = {r for (s, k, w) in runs for t in list(s.mem) + list(s.mem.values()) + list(s.facts) + [w] if t is not None for r in tm.subterms(t) if r.op == "static"}
        st = St()
        for r in roots:
            old = mk("dflt", Z)
            old = tm.setf(old, "value", tm.lam(mk("sym", "oldn", ty="nat"), mk("sym", "oldn", ty="nat"), lambda i, j: v))
            st.mem[r] = old
        for (s, k, w) in (cx.run(eng, f, st=st) if roots else runs):
            if k != "r":
                cx.ob("constant-zone", f.where(), False, "%s throws" % nm, s.trace())
                continue
            z = deref(eng, s, w)
            mat(cx, "constant-zone", f, eng, s, fld(z, "value"), tm.lam(n, n, lambda i, j: v), "the zone %s" % nm)
            for r in roots:
                c = fld(s.mem.get(r), "value") if s.mem.get(r) is not None else None
                if c is not None:
                    mat(cx, "constant-zone", f, eng, s, c, tm.lam(rows(c), rows(c), lambda i, j: v), "the kept zone %s" % nm)
    cx.need(2, "constant zones", "constant-zone")


def tighten_spec(m, i, j, c):
    """m with entry (i, j) lowered to c and closed through both"""
    return close(close(setcell(m, i, j, pmin(c, cell(m, i, j))), i), j)


def check_tighten(cx):
    f = cx.prog.find(Z + "::tighten", 3)
    eng = cx.engine(prims(), Mon())
    m = fld(this_init(f), "value")
    x, y, c = (argv(f, n) for n in range(3))
    i, j = tm.add(x, num(1)), tm.add(y, num(1))
    for s0 in [b for a in eng.assume(St(), tm.lt(i, rows(m))) for b in eng.assume(a, tm.lt(j, rows(m)))]:
        for (s, k, v) in cx.run(eng, f, st=s0):
            got = this_mat(eng, s, f)
            want = setcell(m, i, j, pmin(cell(m, i, j), c))
            p = got.a[1] if got.op == "mclose" else ()
            ok = p == "all" or {i, j} <= set(p)
            cx.ob("tighten-closed", f.where(), ok, "the tightened matrix is closed through %s only" % (", ".join(tm.show(q) for q in p) or "nothing"), s.trace())
            mat(cx, "tighten", f, eng, s, got.a[0] if got.op == "mclose" else got, want, "tightening")
    cx.need(1, "tightening", "tighten")


def nxt(x):
    """position of a clock (the constant zero is clock -1, whatever the width of the type)"""
    if tm.is_num(x):
        return num((int(x.a[0]) + 1) % 256)
    return tm.add(x, num(1))


def p_tighten3(eng, st, ol, args, e, fr):
    s = st.copy()
    l = mk("loc", ol.a[0], ol.a[1] + (F("value"),))
    x, y, c = (eng.argval(s, a) for a in args)
    eng.write(s, l, tighten_spec(eng.read(s, l), nxt(x), nxt(y), c))
    return [(s, VOID)]


def is_constraint_param(f):
    return "Constraint" in f.params[0]["t"] and "vector" not in f.params[0]["t"]


def guard_bound(eng, s, g, o):
    """(row, column, entry) of the difference bound that a constraint says"""
    c, x = fld(g, "c", ty="int"), tm.add(fld(g, "x", ty="nat"), num(1))
    return (x, num(0), bound(c, o == "le")) if o in ("lt", "le") else (num(0), x, bound(tm.neg(c), o == "ge"))


def check_guard(cx):
    f3 = cx.prog.find(Z + "::tighten", 3)
    f = cx.prog.find(Z + "::tighten", 1, is_constraint_param)
    eng = cx.engine(prims(**{f3.fid: p_tighten3}), Mon())
    m = fld(this_init(f), "value")
    G = arg(f, 0)
    for (s0, k, v) in cx.run(eng, f):
        for (o, s) in split_enum(eng, s0, fld(G, "odr"), ["learnta::Constraint::Order::" + q for q in ("lt", "le", "ge", "gt")]):
            i, j, b = guard_bound(eng, s, G, o)
            got = this_mat(eng, s, f)
            want = tighten_spec(m, i, j, b)
            p = got.a[1] if got.op == "mclose" else ()
            cx.ob("guard-closed", f.where(), p == "all" or all(any(eng.same(s, a, q) for q in p) for a in (i, j)), "not closed after %s" % o, s.trace())
            mat(cx, "guard", f, eng, s, got.a[0] if got.op == "mclose" else got, want.a[0], "a zone tightened by x %s c" % o)
    cx.need(4, "comparisons of a guard", "guard")


class Fold(Mon):
    """Loops over the elements of containers that do one step per element.

    phases is a list of (number of elements, step): step(eng, state, matrix, n) gives the
    matrix after the n-th element.  The ghost keeps the position reached and the value at
    the head; where the loop comes back the value must be the step of the next element
    applied to what it was at the head.  Loops that leave the value alone are passed over."""

    def __init__(self, get, *phases, compare=None):
        self.get, self.phases = get, phases
        self.compare = compare or difference_closed
        self.changed = set()
        self.notes = []

    def fail(self, g, text):
        self.notes.append(text[:400])
        g["bad"] = TRUE

    def no_acc(self, eng, st, key):
        return st.ghost.get("act") == str(key)

    def on_enter(self, eng, st, key):
        m = self.get(eng, st)
        if m is None or st.ghost.get("act"):
            return st
        st = st.copy()
        g = st.ghost
        g["act"] = str(key)
        g["G"] = m
        g["pos"] = num(0)
        g.setdefault("ph", 0)
        return st

    def on_back(self, eng, st, key, head):
        g = st.ghost
        if g.get("act") != str(key):
            return st
        m = self.get(eng, st)
        h = g["G"]
        if m is not h:
            self.changed.add(str(key))
        st = st.copy()
        g = st.ghost
        pos = g["pos"]
        bad = None
        if g.get("bad") is not None:
            pass
        elif g["ph"] < len(self.phases):
            for (s, want) in self.phases[g["ph"]][1](eng, st, h, pos):
                d = self.compare(eng, s, m, want)
                if d is not None:
                    bad = d
                    break
            if bad is None and not eng.assume(st, tm.lt(pos, self.phases[g["ph"]][0])):
                bad = None
        elif m is not h:
            bad = "an update after all elements were handled"
        if bad:
            self.fail(g, bad)
            if unfollowed_loop(m, key):
                g["unf"] = TRUE
        g["pos"] = tm.add(pos, num(1))
        g["G"] = m
        return st

    def on_exit(self, eng, st, key, kind):
        g = st.ghost
        if g.get("act") != str(key):
            return st
        st = st.copy()
        g = st.ghost
        g["act"] = None
        if str(key) not in self.changed:
            g.pop("bad", None)
            return st
        if g["ph"] < len(self.phases) and "bad" not in g and not implied(eng, st, tm.numeq(g["pos"], self.phases[g["ph"]][0])):
            self.fail(g, "%s of %s elements are handled" % (tm.show(g["pos"]), tm.show(self.phases[g["ph"]][0])))
        g["ph"] += 1
        return st

    def pkey(self, s):
        return (s.ghost.get("bad"), s.ghost.get("unf"), s.ghost.get("act"), s.ghost.get("ph"))

    def report(self, cx, rule, f, s, what):
        bad = s.ghost.get("bad")
        n = s.ghost.get("ph", 0)
        if not self.changed:
            return cx.ob(rule, f.where(), False, "%s: no loop handles the elements" % what, s.trace())
        if len(self.changed) != len(self.phases):
            raise TooComplex("%s: %d loops instead of %d handle the elements" % (what, len(self.changed), len(self.phases)))
        if bad is None and n != len(self.phases):
            raise TooComplex("%s: %d of %d loops over the elements were recognised" % (what, n, len(self.phases)))
        if bad is not None and s.ghost.get("unf"):
            raise TooComplex("%s: %s" % (what, self.notes[-1]))
        return cx.ob(rule, f.where(), bad is None, "%s: %s" % (what, self.notes[-1] if bad is not None else ""), s.trace())


def unfollowed_loop(m, key):
    """the value comes from an inner loop the analysis could not follow"""
    return any(x.op == "phi" and x.a[0][:len(key)] != key and x.a[0][0] != "old" for x in tm.subterms(m) if x.op == "phi" and x.ty is None)


def difference_closed(eng, s, m, want):
    """difference of two matrices that may be closures"""
    if m.op == "mclose" and want.op == "mclose":
        if not eng.same(s, m, want):
            d = difference(eng, s, m.a[0], want.a[0])
            return d or "closed through %s instead of %s" % tuple("all clocks" if z.a[1] == "all" else ", ".join(tm.show(q) for q in z.a[1]) for z in (m, want))
        return None
    if m.op == "mclose" or want.op == "mclose":
        return "%s" % ("not closed" if want.op == "mclose" else "closed")
    return difference(eng, s, m, want)


def check_guards(cx):
    f1 = cx.prog.find(Z + "::tighten", 1, is_constraint_param)
    f = cx.prog.find(Z + "::tighten", 1, lambda g: "vector" in g.params[0]["t"])
    G = arg(f, 0)
    pos0 = []

    def p1(eng, st, ol, args, e, fr):
        s = st.copy()
        l = mk("loc", ol.a[0], ol.a[1] + (F("value"),))
        m = eng.read(s, l)
        eng.write(s, l, mk("tight", m, eng.argval(s, args[0])))
        return [(s, VOID)]

    mon = Fold(lambda eng, st: this_mat(eng, st, f), (en.size(G), lambda eng, st, h, p: [(st, mk("tight", h, eng.elem(st, G, p)))]),
               compare=lambda eng, s, m, want: None if eng.same(s, m, want) else "after %s the zone is %s" % (tm.show(want), tm.show(m)))
    eng = cx.engine({f1.fid: p1}, mon, unroll=0)
    for (s, k, v) in cx.run(eng, f):
        mon.report(cx, "guards", f, s, "tightening by all constraints of a guard")
    cx.need(1, "guards of a zone", "guards")


def check_simple_ops(cx):
    inside = lambda x, m: (lambda eng: [s for s in eng.assume(St(), tm.lt(x, rows(m)))])
    # unconstrain
    f = cx.prog.find(Z + "::unconstrain")
    eng = cx.engine(prims(), Mon())
    m = fld(this_init(f), "value")
    x = tm.add(argv(f, 0), num(1))
    for s0 in inside(x, m)(eng):
        for (s, k, v) in cx.run(eng, f, st=s0):
            mat(cx, "unconstrain", f, eng, s, this_mat(eng, s, f), square(m, lambda i, j: tm.ite(tm.bor(tm.numeq(i, x), tm.numeq(j, x)), NOB, cell(m, i, j))), "unconstraining a clock")
    # reset
    f = cx.prog.find(Z + "::reset")
    eng = cx.engine(prims(), Mon())
    m = fld(this_init(f), "value")
    x = tm.add(argv(f, 0), num(1))
    for s0 in inside(x, m)(eng):
        for (s, k, v) in cx.run(eng, f, st=s0):
            # the clock has the bounds of the constant zero; entries on the diagonal at the constant and at the clock are left open
            want = square(m, lambda i, j: tm.ite(tm.band(tm.numeq(i, x), tm.numeq(j, num(0))), LE0,
                          tm.ite(tm.band(tm.numeq(i, num(0)), tm.numeq(j, x)), LE0,
                          tm.ite(tm.numeq(j, x), cell(m, i, num(0)), tm.ite(tm.numeq(i, x), cell(m, num(0), j), cell(m, i, j))))))
            mat(cx, "reset", f, eng, s, this_mat(eng, s, f), want, "resetting a clock", only=lambda i, j: tm.bnot(tm.band(tm.numeq(i, j), tm.numeq(i, x))))
    # elapse
    for (nm, sel, v0) in (("elapse", lambda i, j: j, NOB), ("reverseElapse", lambda i, j: i, LE0)):
        f = cx.prog.find(Z + "::" + nm)
        eng = cx.engine(prims(), Mon())
        m = fld(this_init(f), "value")
        for (s, k, v) in cx.run(eng, f):
            want = square(m, lambda i, j: tm.ite(tm.numeq(sel(i, j), num(0)), v0, cell(m, i, j)))
            mat(cx, nm, f, eng, s, this_mat(eng, s, f), want, nm, only=lambda i, j: tm.bnot(tm.band(tm.numeq(i, num(0)), tm.numeq(j, num(0)))))
    cx.need(4, "matrix updates")


def square_inv(eng, st, *ms):
    """zones are compared for the same clocks"""
    sts = [st]
    for m in ms[1:]:
        sts = [z for s in sts for z in eng.assume(s, tm.numeq(rows(ms[0]), rows(m)))]
    return sts


def check_binary(cx):
    for nm in ("operator&&", "operator&="):
        f = cx.prog.find(Z + "::" + nm)
        eng = cx.engine(prims(), Mon())
        m, w = fld(this_init(f), "value"), fld(arg(f, 0), "value")
        want = close(square(m, lambda i, j: pmin(cell(m, i, j), cell(w, i, j))), "all")
        for s0 in square_inv(eng, St(), m, w):
            for (s, k, v) in cx.run(eng, f, st=s0):
                got = fld(deref(eng, s, v), "value") if nm == "operator&&" else this_mat(eng, s, f)
                d = difference_closed(eng, s, got, want)
                if d and unfollowed(got):
                    raise TooComplex(nm)
                cx.ob("intersection", f.where(), d is None, "the intersection: %s" % d, s.trace())
    cx.need(2, "intersections", "intersection")
    differ = lambda m, w, n: tm.ex(tm.lam(n, n, lambda i, j: tm.bnot(eig.celleq(cell(m, i, j), cell(w, i, j)))))
    for nm in ("includes", "operator==", "equalIgnoreZero", "strictEqual"):
        f = cx.prog.find(Z + "::" + nm)
        eng = cx.engine(prims(), Mon())
        m, w = fld(this_init(f), "value"), fld(arg(f, 0), "value")
        n = rows(m)
        st = [St()] if nm == "operator==" else square_inv(eng, St(), m, w)
        for s0 in st:
            for (s1, k, v) in cx.run(eng, f, st=s0):
                if nm == "operator==":
                    ss = cases(eng, s1, tm.numeq(rows(m), rows(w)))
                else:
                    ss = [s1]
                for s in ss:
                    if nm == "includes":
                        e = tm.bnot(tm.ex(tm.lam(n, n, lambda i, j: lexless(cell(m, i, j), cell(w, i, j)))))
                    elif nm == "operator==":
                        e = tm.bnot(differ(m, w, n)) if implied(eng, s, tm.numeq(rows(m), rows(w))) else FALSE
                    elif nm == "equalIgnoreZero":
                        e = tm.bnot(tm.ex(tm.lam(n, n, lambda i, j: tm.band(tm.bnot(tm.band(tm.numeq(i, num(0)), tm.numeq(j, num(0)))), tm.bnot(eig.celleq(cell(m, i, j), cell(w, i, j)))))))
                    else:
                        e = tm.bnot(tm.ex(tm.lam(n, n, lambda i, j: tm.band(tm.bnot(tm.numeq(i, j)), tm.bnot(eig.celleq(cell(m, i, j), cell(w, i, j)))))))
                    cx.ob(nm, f.where(), k == "r" and exeqv(eng, s, eng.truth(v), e), "%s is %s" % (nm, tm.show(v)), s.trace())
    cx.need(6, "comparisons of zones")


def exeqv(eng, s, x, y):
    """two truth values agree, the questions about all entries included"""
    if x is TRUE or x is FALSE:
        # an answer found by looking at the entries one by one
        at = [(c.a[1], c.a[2]) for t in s.facts for c in tm.subterms(t) if c.op == "cell"]
        if x is FALSE and y.op == "not" and y.a[0].op == "ex":
            l = y.a[0].a[0]
            at = list(dict.fromkeys(at + [(j, i) for (i, j) in at]))
            if l.op == "mlam" and any(implied(eng, s, tm.cellof(l, i, j)) for (i, j) in at):
                return True
        if any(q.op == "phi" for t in s.facts for q in tm.subterms(t)):
            raise TooComplex("the entries are looked at one by one")
    pool = eig.exatoms(x)
    y2 = eig.exmap(eng, s, y, pool)
    return eqv(eng, s, x, y2)


def check_sat(cx):
    f = cx.prog.find(Z + "::isSatisfiableNoCanonize")
    neg = lambda m: tm.ex(square(m, lambda i, j: lexless(padd(cell(m, i, j), cell(m, j, i)), LE0)))
    eng = cx.engine(prims(), Mon())
    m = fld(this_init(f), "value")
    for (s, k, v) in cx.run(eng, f):
        cx.ob("satisfiable", f.where(), k == "r" and exeqv(eng, s, eng.truth(v), tm.bnot(neg(m))), "satisfiability is %s" % tm.show(v), s.trace())

    def p_sat(eng, st, ol, args, e, fr):
        return [(st, mk("sat", eng.read(st, mk("loc", ol.a[0], ol.a[1] + (F("value"),))), ty="bool"))]
    for nm in ("isSatisfiable", "<conv>bool"):
        for g in cx.prog.find_all(Z + "::" + nm):
            eng = cx.engine(prims(**{f.fid: p_sat}), Mon())
            m = fld(this_init(g), "value")
            for (s, k, v) in cx.run(eng, g):
                cx.ob("satisfiable", g.where(), k == "r" and eng.truth(v) is mk("sat", close(m, "all"), ty="bool"), "satisfiability is %s" % tm.show(v), s.trace())
    cx.need(3, "satisfiability", "satisfiable")


def check_ctor(cx):
    f = cx.prog.find(Z + "::<ctor>", 2, lambda g: "vector" in g.fid)
    f3 = cx.prog.find(Z + "::tighten", 3)
    V, M0 = arg(f, 0), arg(f, 1)
    this = mk("this", f.cls)

    def t3(eng, st, ol, args, e, fr):
        s = st.copy()
        l = mk("loc", ol.a[0], ol.a[1] + (F("value"),))
        x, y, c = (eng.argval(s, a) for a in args)
        eng.write(s, l, mk("t3", eng.read(s, l), nxt(x), nxt(y), c))
        return [(s, VOID)]

    def step(eng, st, h, p):
        return [(st, h)]

    def compare(eng, s, m, h):
        """two tightenings, in either order"""
        p = tm.sub(s.ghost["pos"], num(0))
        v = eng.elem(s, V, p, "real")
        x = tm.add(p, num(1))
        ups = [(x, num(0), bound(v, True)), (num(0), x, bound(tm.neg(v), True))]
        got = []
        while m.op == "t3":
            got.append(m)
            m = m.a[0]
        if m is not h:
            raise TooComplex("the zone of a valuation is not built by tightening")
        for (i, j, b) in ups:
            if not any(eng.same(s, g.a[1], i) and eng.same(s, g.a[2], j) and eng.same(s, g.a[3], b) for g in got):
                return "clock %s is not tightened by %s" % (tm.show(p), tm.show(b))
        if len(got) != 2:
            return "%d bounds are set per clock" % len(got)
        return None
    n1 = tm.add(en.size(V), num(1))
    first = []

    class M1(Fold):
        def on_enter(self, eng, st, key):
            was = st.ghost.get("act")
            r = Fold.on_enter(self, eng, st, key)
            if not was and r.ghost.get("act") and r.ghost.get("ph") == 0:
                first.append((eng, r, r.ghost["G"]))
            return r
    mon = M1(lambda eng, st: fld(st.mem[this], "value") if this in st.mem else None, (en.size(V), step), compare=compare)
    eng = cx.engine(prims(**{f3.fid: t3}), mon, unroll=0)
    for (s, k, v) in cx.run(eng, f):
        mon.report(cx, "valuation-zone", f, s, "the zone of one valuation")
        z = eng.read(s, this_loc(f))
        cx.ob("valuation-max", f.where(), implied(eng, s, tm.numeq(en.size(fld(z, "maxConstraints")), en.size(V))) , "the zone has %s maximum constants" % tm.show(en.size(fld(z, "maxConstraints"))), s.trace())
    for (eng, s, m) in first[:1]:
        mat(cx, "valuation-top", f, eng, s, m, tm.lam(n1, n1, lambda i, j: NOB), "before the first clock the zone")
    cx.need(3, "zone of a valuation")


def check_extrapolate(cx):
    f = cx.prog.find(Z + "::extrapolate")
    m = fld(this_init(f), "value")
    mx = fld(this_init(f), "maxConstraints")

    def step(eng, st, h, p):
        i = tm.add(p, num(1))
        M = lambda k: eng.elem(st, mx, tm.sub(k, num(1)), "real")
        up = cell(h, i, num(0))
        h1 = setcell(h, i, num(0), tm.ite(tm.lt(M(i), tm.getf(up, "first")), NOB, up))
        lo = cell(h, num(0), i)
        h2 = setcell(h1, num(0), i, tm.ite(tm.lt(M(i), tm.neg(tm.getf(lo, "first"))), bound(tm.neg(M(i)), False), lo))
        n = en.size(mx)

        def row(r, c):
            old = cell(h2, r, c)
            far = tm.bor(tm.lt(M(i), tm.getf(old, "first")), tm.lt(M(i), tm.neg(tm.getf(cell(h2, num(0), i), "first"))),
                         tm.lt(M(c), tm.neg(tm.getf(cell(h2, num(0), c), "first"))))
            return tm.ite(tm.band(tm.numeq(r, i), tm.le(num(1), c), tm.le(c, n), far), NOB, old)
        return [(st, square(h, row))]
    mon = Fold(lambda eng, st: this_mat(eng, st, f), (en.size(mx), step))
    eng = cx.engine(prims(), mon, unroll=0)
    for s0 in eng.assume(St(), tm.numeq(rows(m), tm.add(en.size(mx), num(1)))):
        for (s, k, v) in cx.run(eng, f, st=s0):
            mon.report(cx, "extrapolate", f, s, "extrapolation")
    cx.need(1, "extrapolation", "extrapolate")
