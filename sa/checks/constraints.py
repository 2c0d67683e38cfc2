"""Single constraints and simple operations on guards."""
from .util import *
from ..stl import INF

C = "learnta::Constraint"
ORD = [C + "::Order::" + o for o in ("lt", "le", "ge", "gt")]
REL = {"lt": tm.lt, "le": tm.le, "ge": lambda x, y: tm.le(y, x), "gt": lambda x, y: tm.lt(y, x)}
NEG = {"lt": "ge", "le": "gt", "ge": "lt", "gt": "le"}
BP = "std::pair<double, bool>"


def inv_order(eng, st, g):
    """the comparison of a constraint is one of the four enumerators"""
    return [s for n in ORD for s in eng.assume(st, tm.eq(fld(g, "odr"), mk("enum", n)))]


def per_order(eng, s, g):
    return split_enum(eng, s, fld(g, "odr"), ORD)


def ctor_of(eng, s, r, x, odr, c):
    """r is the constraint (x odr c)"""
    return eng.same(s, fld(r, "x", ty="nat"), x) and eng.simp(s, tm.eq(fld(r, "odr"), mk("enum", C + "::Order::" + odr))) is True and \
        implied(eng, s, tm.numeq(fld(r, "c", ty="int"), c))


def runs(cx, eng, f):
    for (s, k, v) in cx.run(eng, f):
        yield s, k, v


def check_single(cx):
    eng = cx.engine({}, Mon())
    # satisfy(double)
    for f in cx.prog.find_all(C + "::satisfy"):
        T0 = this_init(f)
        vec = "vector" in f.fid
        d = eng.elem(St(), arg(f, 0), fld(T0, "x", ty="nat"), "real") if vec else argv(f, 0)
        for (s0, k, v) in runs(cx, eng, f):
            for (o, s) in per_order(eng, s0, T0):
                if k != "r":
                    cx.ob("satisfy", f.where(), vec, "testing a value throws", s.trace())
                    continue
                cx.ob("satisfy", f.where(), eqv(eng, s, eng.truth(v), REL[o](d, fld(T0, "c", ty="int"))), "x %s c gives %s" % (o, tm.show(v)), s.trace())
    cx.need(8, "cases of constraint satisfaction", "satisfy")
    f = cx.prog.find(C + "::operator()")
    T0 = this_init(f)
    d = eng.elem(St(), arg(f, 0), fld(T0, "x", ty="nat"), "real")
    for (s0, k, v) in runs(cx, eng, f):
        for (o, s1) in per_order(eng, s0, T0):
            if k != "r":
                continue
            for s in cases(eng, s1, REL[o](d, fld(T0, "c", ty="int"))):
                want = "EQ" if eng.simp(s, REL[o](d, fld(T0, "c", ty="int"))) is True else "GT" if o in ("lt", "le") else "LT"
                cx.ob("compare", f.where(), eng.simp(s, tm.eq(v, mk("enum", "learnta::Order::" + want))) is True, "for %s the answer is %s instead of %s" % (o, tm.show(v), want), s.trace())
    cx.need(4, "cases of the three-way comparison", "compare")
    f = cx.prog.find(C + "::isUpperBound")
    T0 = this_init(f)
    for (s0, k, v) in runs(cx, eng, f):
        for (o, s) in per_order(eng, s0, T0):
            cx.ob("direction", f.where(), implied(eng, s, eng.truth(v) if o in ("lt", "le") else tm.bnot(eng.truth(v))), "%s is%s an upper bound" % (o, tm.show(v)), s.trace())
    cx.need(4, "cases of the direction", "direction")
    f = cx.prog.find(C + "::negate", 0)
    T0 = this_init(f)
    for (s0, k, v) in runs(cx, eng, f):
        for (o, s) in per_order(eng, s0, T0):
            cx.ob("negate", f.where(), k == "r" and ctor_of(eng, s, v, fld(T0, "x", ty="nat"), NEG[o], fld(T0, "c", ty="int")), "the negation of %s is %s" % (o, tm.show(v)), s.trace())
    cx.need(4, "cases of negation", "negate")
    for (nm, sgn) in (("toBound", False), ("toDBMBound", True)):
        f = cx.prog.find(C + "::" + nm)
        T0 = this_init(f)
        for (s0, k, v) in runs(cx, eng, f):
            for (o, s) in per_order(eng, s0, T0):
                if k != "r":
                    cx.ob("bound", f.where(), False, "the bound of %s throws" % o, s.trace())
                    continue
                c = fld(T0, "c", ty="int")
                c = tm.neg(c) if sgn and o in ("ge", "gt") else c
                b = eng.truth(fld(v, "second", ty="bool"))
                ok = implied(eng, s, tm.numeq(fld(v, "first", ty="int"), c)) and implied(eng, s, b if o in ("le", "ge") else tm.bnot(b))
                cx.ob("bound", f.where(), ok, "the bound of %s is %s" % (o, tm.show(v)), s.trace())
    cx.need(8, "cases of bounds", "bound")
    for f in cx.prog.find_all(C + "::operator=="):
        T0, A = this_init(f), arg(f, 0)
        want = tm.band(tm.eq(fld(T0, "odr"), fld(A, "odr")), tm.numeq(fld(T0, "c", ty="int"), fld(A, "c", ty="int")),
                       tm.numeq(fld(T0, "x", ty="nat"), fld(A, "x", ty="nat")))
        for (s, k, v) in runs(cx, eng, f):
            cx.ob("equality", f.where(), eqv(eng, s, eng.truth(v), want), "equality is %s" % tm.show(v), s.trace())
    cx.need(1, "constraint equality", "equality")


def check_weaker(cx):
    eng = cx.engine({}, Mon())
    f = cx.prog.find(C + "::isWeaker")
    T0, A = this_init(f), arg(f, 0)
    c, d = fld(T0, "c", ty="int"), fld(A, "c", ty="int")
    samex = tm.numeq(fld(T0, "x", ty="nat"), fld(A, "x", ty="nat"))
    for (s0, k, v) in runs(cx, eng, f):
        for (o, s1) in per_order(eng, s0, T0):
            for (p, s) in per_order(eng, s1, A):
                up, up2 = o in ("lt", "le"), p in ("lt", "le")
                if up != up2:
                    want = FALSE
                else:
                    # the other's solutions are solutions of this one: a smaller constant, or the same and not less strict
                    lt = tm.lt(d, c) if up else tm.lt(c, d)
                    eq = tm.band(tm.numeq(c, d), tm.b(o in ("le", "ge") or p in ("lt", "gt")))
                    want = tm.band(samex, tm.bor(lt, eq))
                cx.ob("weaker", f.where(), k == "r" and eqv(eng, s, eng.truth(v), want), "%s weaker than %s: %s" % (o, p, tm.show(v)), s.trace())
    cx.need(16, "pairs of constraints", "weaker")


def check_maker(cx):
    eng = cx.engine({}, Mon())
    M = "learnta::ConstraintMaker"
    for (op, o) in (("<", "lt"), ("<=", "le"), (">", "gt"), (">=", "ge")):
        f = cx.prog.find(M + "::operator" + op)
        for (s, k, v) in runs(cx, eng, f):
            cx.ob("maker", f.where(), k == "r" and ctor_of(eng, s, v, fld(this_init(f), "x", ty="nat"), o, argv(f, 0)), "x %s c makes %s" % (op, tm.show(v)), s.trace())
    cx.need(4, "constraint makers", "maker")


def check_guard_ops(cx):
    """negateAll, conjunction, widen, comparison of guards"""
    eng = cx.engine({C + "::negate": p_neg}, Mon(), unroll=0)
    f = cx.prog.find("learnta::negateAll", 1)
    G = arg(f, 0)
    for (s, k, v) in runs(cx, eng, f):
        want = en.tabulate(lambda i: mk("negc", eng.elem(s, G, i)), num(0), en.size(G))
        cx.ob("negate-all", f.where(), k == "r" and eng.same(s, v, want), "the negations are %s" % tm.show(v), s.trace())
    cx.need(1, "element-wise negation", "negate-all")
    f = cx.prog.find("learnta::conjunction", 2)
    eng = cx.engine({}, Mon(), unroll=0)
    for (s, k, v) in runs(cx, eng, f):
        cx.ob("conjunction", f.where(), k == "r" and eng.same(s, v, en.concat(arg(f, 0), arg(f, 1))), "the conjunction is %s" % tm.show(v), s.trace())
    cx.need(1, "conjunction", "conjunction")
    f = cx.prog.find("learnta::isWeaker", 2)
    L, Rr = arg(f, 0), arg(f, 1)
    eng = cx.engine({C + "::isWeaker": p_weak}, Mon(), unroll=0)
    K, J = mk("sym", "K", ty="nat"), mk("sym", "J", ty="nat")
    w = lambda i, j, s: mk("weakc", eng.elem(s, L, i), eng.elem(s, Rr, j), ty="bool")
    for (s, k, v) in runs(cx, eng, f):
        t = eng.truth(v)
        for (z, b) in eng.branch(s, t):
            idx = sorted({x for q in z.facts for x in tm.subterms(q) if x.op in ("phi", "at") and x.ty} | {num(0)}, key=lambda q: q.h)
            if b:
                # every left constraint has a right one it is weaker than
                for z1 in eng.assume(z, tm.lt(K, en.size(L))):
                    for z2 in eng.inst(z1, K):
                        cx.ob("guard-weaker", f.where(), any(u.op == "weakc" and eng.same(z2, u.a[0], eng.elem(z2, L, K)) and elem_of(eng, z2, u.a[1], Rr) for u in z2.facts),
                              "accepts although a constraint is not weaker than any of the other guard", z2.trace())
            else:
                # some left constraint is not weaker than any right one
                ok = False
                for i in idx:
                    if not implied(eng, z, tm.lt(i, en.size(L))):
                        continue
                    zs = [z2 for z1 in eng.assume(z, tm.lt(J, en.size(Rr))) for z2 in eng.inst(z1, J)]
                    if all(eng.simp(z2, w(i, J, z2)) is False for z2 in zs):
                        ok = True
                cx.ob("guard-stronger", f.where(), ok, "rejects although every constraint may be weaker than one of the other guard", z.trace())
    cx.need(1, "weaker guards", "guard-weaker")
    cx.need(1, "guards that are not weaker", "guard-stronger")


def elem_of(eng, s, x, c):
    return x.op == "elem" and x.a[0] is c and implied(eng, s, tm.lt(x.a[1], en.size(c)))


def p_neg(eng, st, ol, args, e, fr):
    return [(st, mk("negc", eng.read(st, ol)))]


def p_weak(eng, st, ol, args, e, fr):
    return [(st, mk("weakc", eng.read(st, ol), eng.argval(st, args[0]), ty="bool"))]


def check_widen(cx):
    """widen keeps exactly the upper bounds, in order"""
    f = cx.prog.find("learnta::widen", 1)
    eng = cx.engine({}, Mon(), unroll=0)
    G = arg(f, 0)
    ev = mk("elemvar")
    up = tm.bor(*[tm.eq(fld(ev, "odr"), mk("enum", C + "::Order::" + o)) for o in ("lt", "le")])
    lo = tm.bor(*[tm.eq(fld(ev, "odr"), mk("enum", C + "::Order::" + o)) for o in ("gt", "ge")])
    for (s, k, v) in runs(cx, eng, f):
        g1 = eng.read(s, loc(mk("argobj", 0, f.params[0]["n"])))
        ps = en.parts(g1)
        ok = len(ps) == 1 and ps[0].op == "filter" and eng.same(s, ps[0].a[0], G)
        if ok:
            p = ps[0].a[1]
            for n in ORD:
                for z in eng.assume(s, tm.eq(fld(ev, "odr"), mk("enum", n))):
                    keep = n.split("::")[-1] in ("lt", "le")
                    ok = ok and implied(eng, z, p if keep else tm.bnot(p))
        elif any(x.op in ("phi", "at") for x in tm.subterms(g1)):
            raise TooComplex("widened guard is %s" % tm.show(g1))
        cx.ob("widen", f.where(), ok, "the widened guard is %s" % tm.show(g1), s.trace())
    cx.need(1, "widening", "widen")


def check_bounds(cx):
    """arithmetic on bounds (difference-bound entries)"""
    eng = cx.engine({}, Mon())
    for (nm, n) in (("isPoint", 2), ("isUnitOpen", 2), ("isSimple", 2)):
        f = cx.prog.find("learnta::" + nm, n)
        U, L = arg(f, 0), arg(f, 1)
        u, l = fld(U, "first", ty="real"), fld(L, "first", ty="real")
        us, ls = fld(U, "second", ty="bool"), fld(L, "second", ty="bool")
        s_ = tm.add(u, l)
        pt = tm.band(tm.eq0(s_), us, ls)
        op = tm.band(tm.numeq(s_, num(1)), tm.bnot(us), tm.bnot(ls))
        want = {"isPoint": pt, "isUnitOpen": op, "isSimple": tm.bor(pt, op)}[nm]
        for (s, k, v) in runs(cx, eng, f):
            cx.ob("simple-bounds", f.where(), eqv(eng, s, eng.truth(v), want), "%s is %s" % (nm, tm.show(v)), s.trace())
    for (nm, n, sg) in (("operator+", 2, 1), ("operator-", 2, -1)):
        f = cx.prog.find(nm, n, lambda x: "pair" in x.fid or "Bounds" in x.fid)
        A, B = arg(f, 0), arg(f, 1)
        a, b = fld(A, "first", ty="real"), fld(B, "first", ty="real")
        for (s, k, v) in runs(cx, eng, f):
            ok = implied(eng, s, tm.numeq(fld(v, "first", ty="real"), tm.add(a, b) if sg > 0 else tm.sub(a, b))) and \
                eqv(eng, s, eng.truth(fld(v, "second", ty="bool")), tm.band(fld(A, "second", ty="bool"), fld(B, "second", ty="bool")))
            cx.ob("bounds-arith", f.where(), ok, "%s gives %s" % (nm, tm.show(v)), s.trace())
    f = cx.prog.find("operator-", 1)
    A = arg(f, 0)
    for (s, k, v) in runs(cx, eng, f):
        ok = implied(eng, s, tm.numeq(fld(v, "first", ty="real"), tm.neg(fld(A, "first", ty="real")))) and eqv(eng, s, eng.truth(fld(v, "second", ty="bool")), fld(A, "second", ty="bool"))
        cx.ob("bounds-arith", f.where(), ok, "negation gives %s" % tm.show(v), s.trace())
    f = cx.prog.find("operator+=", 2)
    A, B = arg(f, 0), arg(f, 1)
    for (s, k, v) in runs(cx, eng, f):
        a1 = eng.read(s, loc(mk("argobj", 0, f.params[0]["n"])))
        ok = implied(eng, s, tm.numeq(fld(a1, "first", ty="real"), tm.add(fld(A, "first", ty="real"), fld(B, "first", ty="real")))) and \
            eqv(eng, s, eng.truth(fld(a1, "second", ty="bool")), tm.band(fld(A, "second", ty="bool"), fld(B, "second", ty="bool")))
        cx.ob("bounds-arith", f.where(), ok, "+= gives %s" % tm.show(a1), s.trace())
    cx.need(4, "arithmetic on bounds", "bounds-arith")
