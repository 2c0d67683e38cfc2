"""Execution of a timed automaton: discrete steps, delays, resets."""
from .util import *

R = "learnta::TimedAutomatonRunner"
STATE = ("state", "clockValuation", "numQueries", "automaton", "isEmpty")


def p_sat(eng, st, ol, args, e, fr):
    if "vector" in e["fid"]:
        return None
    return [(st, mk("sat", eng.read(st, ol), eng.argval(st, args[0]), ty="bool"))]


def p_reset(eng, st, ol, args, e, fr):
    """applyReset is verified on its own"""
    if ol is not None and len(args) == 1:
        st = st.copy()
        l = ext(ol, F("clockValuation"))
        eng.write(st, l, mk("reset", eng.read(st, l), eng.argval(st, args[0])))
        return [(st, VOID)]
    vs = [eng.argval(st, a) for a in args[-2:]]
    return [(st, mk("reset", *vs))]


def changed(eng, s, f, names):
    T0 = this_init(f)
    return [n for n in names if not eng.same(s, eng.read(s, this_loc(f, n)), fld(T0, n))]


def check_discrete(cx):
    f = cx.prog.find(R + "::step", 1, lambda x: "(char)" in x.fid)
    T0 = this_init(f)
    empty = fld(T0, "isEmpty", ty="bool")
    q0, v0 = fld(T0, "state"), fld(T0, "clockValuation")
    act = argv(f, 0)
    N0 = fld(mk("init", mk("obj", q0)), "next")

    def L(eng, s):
        return mk("mget", N0, act)

    class Mn(Mon):
        def on_fact(self, eng, st, t):
            i, j = st.ghost["i"], st.ghost["j"]
            tr = eng.elem(st, L(eng, st), i)
            g = eng.elem(st, fld(tr, "guard"), j)
            x = fld(g, "x", ty="nat")
            a = mk("sat", g, eng.elem(st, v0, x, "real"), ty="bool")
            r = None
            u = t.a[0] if t.op == "not" else t
            if u.op != "sat":
                return
            if u is a or eng.same(st, u, a):
                r = t.op != "not"
            if r is None:
                st.ghost["odd"] = True
                return
            if r:
                st.ghost["j"] = tm.add(j, num(1))
            else:
                st.ghost["i"], st.ghost["j"] = tm.add(i, num(1)), num(0)

        def pkey(self, s):
            return s.ghost["odd"]
    eng = cx.engine({"learnta::Constraint::satisfy": p_sat, R + "::applyReset": p_reset}, Mn())
    kinds = set()
    st = St(ghost={"i": num(0), "j": num(0), "odd": False})
    for (s0, k, v) in cx.run(eng, f, st=st):
        for s in cases(eng, s0, empty):
            w = f.where()
            if k == "t":
                cx.ob("no-abort", w, False, "the step throws", s.trace())
                continue
            if eng.simp(s, empty) is True:
                cx.ob("empty-automaton", w, eqv(eng, s, v, FALSE) and not changed(eng, s, f, STATE), "an automaton without states yields %s" % tm.show(v), s.trace())
                kinds.add("empty")
                continue
            sink = eng.simp(s, tm.eq(q0, NULL))
            if sink is True:
                cx.ob("sink", w, eqv(eng, s, v, FALSE) and not changed(eng, s, f, STATE), "leaves the sink: output %s, changed %s" %
                      (tm.show(v), changed(eng, s, f, STATE)), s.trace())
                kinds.add("sink")
                continue
            if sink is None:
                cx.ob("sink-test", w, False, "the sink state is not recognised", s.trace())
                continue
            q1, v1 = eng.read(s, this_loc(f, "state")), eng.read(s, this_loc(f, "clockValuation"))
            i, j = s.ghost["i"], s.ghost["j"]
            l = L(eng, s)
            has = eng.simp(s, mk("has", N0, act))
            none = has is False or implied(eng, s, tm.le(en.size(l), i)) and eng.same(s, j, num(0))
            oth = changed(eng, s, f, ("numQueries", "automaton", "isEmpty"))
            cx.ob("frame", w, not oth, "the step changes %s" % oth, s.trace())
            if q1 is NULL or eng.simp(s, tm.eq(q1, NULL)) is True:
                cx.ob("no-move", w, none and not s.ghost["odd"] and eqv(eng, s, v, FALSE),
                      "goes to the sink after examining %s transitions (output %s)" % (tm.show(i), tm.show(v)), s.trace())
                kinds.add("stuck")
                continue
            tr = eng.elem(s, l, i)
            tgt = fld(tr, "target")
            ok = has is True and implied(eng, s, tm.lt(i, en.size(l))) and implied(eng, s, tm.numeq(j, en.size(fld(tr, "guard"))))
            cx.ob("enabled", w, ok and not s.ghost["odd"], "moves although only %s of the guards of transition %s are known to hold%s" %
                  (tm.show(j), tm.show(i), " (a guard was evaluated out of turn)" if s.ghost["odd"] else ""), s.trace())
            cx.ob("target", w, eng.same(s, q1, tgt), "moves to %s, expected %s" % (tm.show(q1), tm.show(tgt)), s.trace())
            cx.ob("resets", w, eng.same(s, v1, mk("reset", v0, fld(tr, "resetVars"))), "clocks become %s" % tm.show(v1), s.trace())
            acc = fld(eng.read(s, loc(mk("obj", tgt))), "isMatch", ty="bool")
            cx.ob("output", w, eqv(eng, s, v, acc), "outputs %s instead of the acceptance of the target" % tm.show(v), s.trace())
            kinds.add("move")
    cx.need(1, "transition firing", "enabled")
    cx.need(1, "missing transition", "no-move")
    cx.need(1, "sink state", "sink")
    cx.need(1, "empty automaton", "empty-automaton")


def check_reset(cx):
    """simultaneous assignment: write n goes to the n-th reset variable and reads the old valuation"""
    f = cx.prog.find(R + "::applyReset", 2)
    V, RS = arg(f, 0), arg(f, 1)

    class Mn(Mon):
        def on_write(self, eng, st, l, val):
            if not l.a[1] or l.a[1][-1].op != "I" or l.a[0].op not in ("var",):
                return
            n = st.ghost["n"]
            p = eng.elem(st, RS, n)
            i = l.a[1][-1].a[0]
            x, t = fld(p, "first", ty="nat"), fld(p, "second")
            w = f.where()
            cx.ob("reset-clock", w, eng.same(st, i, x), "reset %s assigns clock %s, expected %s" % (tm.show(n), tm.show(i), tm.show(x)), st.trace())
            ok = False
            ix = mk("vindex", t, ty="nat")
            reads = [y for y in tm.subterms(val) if y.op == "vget"]
            if val.op == "elem":
                src = val.a[1]
                ok = eng.same(st, val.a[0], V) and src.op == "vget" and src.a[1] is t and kind_of(eng, st, t, src) is True
            elif val.op == "vget":
                ok = val.a[1] is t and kind_of(eng, st, t, val) is True
            cx.ob("reset-value", w, ok, "clock %s gets %s" % (tm.show(i), tm.show(val)), st.trace())
            st.ghost["n"] = tm.add(n, num(1))
    eng = cx.engine({}, Mn(), unroll=0)
    for (s, k, v) in cx.run(eng, f, st=St(ghost={"n": num(0)})):
        if k == "t":
            cx.ob("all-resets", f.where(), False, "a reset throws", s.trace())
            continue
        cx.ob("all-resets", f.where(), implied(eng, s, tm.numeq(s.ghost["n"], en.size(RS))), "applies %s of %s resets" % (tm.show(s.ghost["n"]), tm.show(en.size(RS))), s.trace())
        cx.ob("valuation-kept", f.where(), any(x is V for x in tm.subterms(v)) or v.op == "phi", "result is %s" % tm.show(v), s.trace())
    cx.need(2, "reset assignments", "reset-value")
    g = cx.prog.find(R + "::applyReset", 1)
    eng = cx.engine({R + "::applyReset": p_reset}, Mon())
    for (s, k, v) in cx.run(eng, g):
        v1 = eng.read(s, this_loc(g, "clockValuation"))
        cx.ob("reset-own", g.where(), eng.same(s, v1, mk("reset", fld(this_init(g), "clockValuation"), arg(g, 0))), "clocks become %s" % tm.show(v1), s.trace())


def kind_of(eng, st, t, got):
    """the alternative read is the one known to be active"""
    return implied(eng, st, tm.veq(mk("vidx", t, ty="nat"), got.a[0]))


def check_runner_life(cx):
    f = cx.prog.find(R + "::pre")
    T0 = this_init(f)
    empty = fld(T0, "isEmpty", ty="bool")
    eng = cx.engine({}, Mon())
    for (s0, k, v) in cx.run(eng, f):
        for s in cases(eng, s0, empty):
            w = f.where()
            cx.ob("count", w, implied(eng, s, tm.numeq(eng.read(s, this_loc(f, "numQueries"), "nat"), tm.add(fld(T0, "numQueries", ty="nat"), num(1)))),
                  "the query counter becomes %s" % tm.show(eng.read(s, this_loc(f, "numQueries"), "nat")), s.trace())
            if eng.simp(s, empty) is True:
                continue
            q1, v1 = eng.read(s, this_loc(f, "state")), eng.read(s, this_loc(f, "clockValuation"))
            cx.ob("initial-state", w, eng.same(s, q1, eng.elem(s, fld(T0, "automaton", "initialStates"), num(0))), "starts in %s" % tm.show(q1), s.trace())
            n = en.size(fld(T0, "clockValuation"))
            ps = pieces0(eng, s, v1)
            ok = all(p.op == "fill" and p.a[0] is num(0) or p.op == "one" and p.a[0] is num(0) for p in ps)
            cx.ob("clocks-zero", w, ok and (implied(eng, s, tm.numeq(en.size(v1), n)) or
                                            implied(eng, s, tm.numeq(en.size(v1), en.size(fld(T0, "automaton", "maxConstraints"))))),
                  "clocks start as %s" % tm.show(v1), s.trace())
    cx.need(1, "start of a run", "initial-state")
    g = cx.prog.find(R + "::<ctor>", 1, lambda x: "TimedAutomatonRunner" not in x.params[0]["t"])
    eng = cx.engine({}, Mon())
    A = arg(g, 0)
    for (s, k, v) in cx.run(eng, g):
        w = g.where()
        e1 = eng.read(s, this_loc(g, "isEmpty"), "bool")
        sz = en.size(fld(A, "states"))
        cx.ob("automaton-kept", w, eng.same(s, fld(eng.read(s, this_loc(g)), "automaton"), A), "runs %s" % tm.show(fld(eng.read(s, this_loc(g)), "automaton")), s.trace())
        cx.ob("empty-test", w, eqv(eng, s, eng.truth(e1), tm.eq0(sz)), "emptiness is %s" % tm.show(e1), s.trace())
        cx.ob("count", w, eng.same(s, eng.read(s, this_loc(g, "numQueries"), "nat"), num(0)), "the counter starts at %s" % tm.show(eng.read(s, this_loc(g, "numQueries"), "nat")), s.trace())
        if eng.simp(s, tm.eq0(sz)) is True:
            continue
        v1 = eng.read(s, this_loc(g, "clockValuation"))
        cx.ob("clock-number", w, implied(eng, s, tm.numeq(en.size(v1), en.size(fld(A, "maxConstraints")))), "%s clocks" % tm.show(en.size(v1)), s.trace())
    h = cx.prog.find(R + "::count")
    for (s, k, v) in cx.run(eng, h):
        cx.ob("count", h.where(), eng.same(s, v, fld(this_init(h), "numQueries", ty="nat")), "count returns %s" % tm.show(v), s.trace())
    h = cx.prog.find(R + "::post")
    for (s, k, v) in cx.run(eng, h):
        cx.ob("frame", h.where(), not changed(eng, s, h, ("state", "clockValuation", "numQueries")), "the end of a run changes it", s.trace())


def pieces0(eng, s, v):
    return en.parts(eng.norm(s, v))


# ------------------------------------------------------------ waiting
L0 = "learnta::lowerBoundDurationToSatisfy"
LE, LT, GE, GT = ["learnta::Constraint::Order::" + o for o in ("le", "lt", "ge", "gt")]


def isinf(v):
    return v is tm.neg(en.INF) if hasattr(en, "INF") else False


def check_wait_of_constraint(cx):
    """the wait one constraint needs, as a negated duration"""
    f = cx.prog.find("learnta::Constraint::lowerBoundDurationToSatisfy")
    T0 = this_init(f)
    eng = cx.engine({}, Mon())
    v = eng.elem(st0(), arg(f, 0), fld(T0, "x", ty="nat"), "real")
    c = fld(T0, "c", ty="int")
    d = tm.sub(v, c)
    n = 0
    for (s0, k, r) in cx.run(eng, f):
        if k != "r":
            continue
        for (o, s1) in split_enum(eng, s0, fld(T0, "odr"), (LE, LT, GE, GT)):
            for (sg, rel) in ((tm.lt(d, num(0)), "below"), (tm.eq0(d), "at"), (tm.gt(d, num(0)) if hasattr(tm, "gt") else tm.lt(num(0), d), "above")):
                for s in eng.assume(s1, sg):
                    n += 1
                    a, b = fld(r, "first", ty="real"), eng.truth(fld(r, "second", ty="bool"))
                    what = "wait for %s at a value %s the constant is (%s, %s)" % (o, rel, tm.show(a), tm.show(b))
                    if o in ("le", "lt"):
                        good = rel == "below" or (o == "le" and rel == "at")
                        ok = (zero(eng, s, a) and implied(eng, s, b)) if good else (neginf(a) and implied(eng, s, tm.bnot(b)))
                    elif rel == "above" or (rel == "at" and o == "ge"):
                        ok = zero(eng, s, a) and implied(eng, s, b)
                    else:
                        ok = implied(eng, s, tm.numeq(a, d)) and implied(eng, s, b if o == "ge" else tm.bnot(b))
                    cx.ob("wait-of-constraint", f.where(), ok, what, s.trace())
    cx.need(12, "cases of a single constraint", "wait-of-constraint")


def st0():
    return St()


def zero(eng, s, a):
    return implied(eng, s, tm.eq0(a))


def neginf(a):
    return a is tm.neg(en_inf())


def en_inf():
    from ..stl import INF
    return INF


def p_lbd1(eng, st, ol, args, e, fr):
    r = mk("lbd1", eng.read(st, ol), eng.argval(st, args[0]))
    return [(s, r) for s in eng.assume(st, tm.le(fld(r, "first", ty="real"), num(0)))]


def p_lbd(eng, st, ol, args, e, fr):
    r = mk("lbd", eng.argval(st, args[0]), eng.argval(st, args[1]))
    return [(s, r) for s in eng.assume(st, tm.le(fld(r, "first", ty="real"), num(0)))]


def check_wait_of_guard(cx):
    f = cx.prog.find(L0, 2)
    G, V = arg(f, 0), arg(f, 1)
    eng = cx.engine({"learnta::Constraint::lowerBoundDurationToSatisfy": p_lbd1}, Mon(), unroll=0)
    K = mk("sym", "K", ty="nat")

    def reach(i, r, s):
        g = eng.elem(s, G, i)
        odr = fld(g, "odr")
        first, second = fld(r, "first", ty="real"), eng.truth(fld(r, "second", ty="bool"))
        slack = tm.sub(fld(g, "c", ty="int"), eng.elem(s, V, fld(g, "x", ty="nat"), "real"))
        w = tm.neg(first)
        le = tm.eq(odr, mk("enum", LE))
        up = tm.bor(le, tm.eq(odr, mk("enum", LT)))
        return tm.bor(tm.bnot(up), tm.lt(w, slack), tm.band(tm.numeq(w, slack), second, le))
    n = 0
    for (s, k, r) in cx.run(eng, f):
        w = f.where()
        if k != "r":
            cx.ob("wait-of-guard", w, False, "computing the wait throws", s.trace())
            continue
        if r.op == "rec" and neginf(dict(r.a[1]).get("first", num(0))):
            best = [x for f2 in s.facts for x in tm.subterms(f2) if x.op == "elem" and x.a[1].op == "argx"]
            if not best and any(x.op == "phi" and not x.ty for f2 in s.facts for x in tm.subterms(f2)):
                raise TooComplex("the wait is folded by a loop")
            cand = {x for f2 in s.facts for x in tm.subterms(f2) if x.ty in ("nat", "int") and x.op == "phi"} | {num(0)}
            ok = any(implied(eng, s, tm.bnot(reach(i, b, s))) for b in best for i in cand
                     if implied(eng, s, tm.lt(i, en.size(G))))
            cx.ob("unreachable-guard", w, ok, "the wait is infinite although no upper bound is exceeded", s.trace())
            continue
        ok = r.op == "elem" and r.a[1].op == "argx"
        if not ok and any(x.op == "phi" for x in tm.subterms(r)):
            raise TooComplex("the wait is folded by a loop: %s" % tm.show(r))
        if not ok:
            cx.ob("wait-of-guard", w, False, "the wait is %s" % tm.show(r), s.trace())
            continue
        n += 1
        kind, c, cmp = r.a[1].a
        lessab = eng.stl.less(s, mk("elemvar", "a"), mk("elemvar", "b"), "std::pair<double, bool>")
        lessba = eng.stl.less(s, mk("elemvar", "b"), mk("elemvar", "a"), "std::pair<double, bool>")
        okc = eqv(eng, s, cmp, lessab if kind == "min" else lessba)
        cx.ob("longest-wait", w, okc and eng.same(s, r.a[0], c), "the wait is the %simum under %s" % (kind, tm.show(cmp)), s.trace())
        ps = en.parts(eng.norm(s, c))
        zs = [p for p in ps if p.op == "one"]
        tb = [p for p in ps if p.op == "tab"]
        okz = len(zs) == 1 and zero(eng, s, fld(zs[0].a[0], "first", ty="real")) and implied(eng, s, eng.truth(fld(zs[0].a[0], "second", ty="bool")))
        okt = len(tb) == 1 and len(ps) == len(zs) + 1 and implied(eng, s, tm.eq0(tb[0].a[2])) and implied(eng, s, tm.numeq(tb[0].a[3], en.size(G))) and \
            tb[0].a[1] is mk("lbd1", eng.elem(s, G, tb[0].a[0]), V)
        if not tb and implied(eng, s, tm.eq0(en.size(G))):
            okt = len(ps) == len(zs)
        cx.ob("every-constraint", w, okz and okt, "the waits compared are %s" % tm.show(c), s.trace())
        for s1 in eng.assume(s, tm.lt(K, en.size(G))):
            for s2 in eng.inst(s1, K):
                cx.ob("upper-bounds-hold", w, implied(eng, s2, reach(K, r, s2)), "the upper bounds are not checked at the end of the wait", s2.trace())
    cx.need(1, "computed waits", "longest-wait")


def check_wait(cx):
    check_wait_of_constraint(cx)
    check_wait_of_guard(cx)
    check_delay(cx)


def check_delay(cx):
    f = cx.prog.find(R + "::step", 1, lambda x: "(double)" in x.fid)
    T0 = this_init(f)
    empty = fld(T0, "isEmpty", ty="bool")
    q0, v0 = fld(T0, "state"), fld(T0, "clockValuation")
    d = argv(f, 0)
    S0 = mk("init", mk("obj", q0))
    N0 = fld(S0, "next")

    def p_step(eng, st, ol, args, e, fr):
        if "(double)" not in e["fid"]:
            return None
        st = st.copy()
        q1, v1 = eng.read(st, ext(ol, F("state"))), eng.read(st, ext(ol, F("clockValuation")))
        r = mk("rest", q1, v1, eng.argval(st, args[0]), ty="bool")
        st.ghost["rest"] = (st.ghost.get("rest") or ()) + (r,)
        return [(st, r)]
    eng = cx.engine({L0: p_lbd, R + "::applyReset": p_reset, R + "::step": p_step}, Mon(), unroll=0)
    cands = [g for g in cx.prog.find_all(L0)]
    fired = plain = 0
    for (s0, k, r) in cx.run(eng, f, st=St(ghost={"rest": ()})):
        w = f.where()
        if k != "r":
            cx.ob("no-throw", w, False, "waiting throws", s0.trace())
            continue
        for s in cases(eng, s0, empty, tm.eq(q0, tm.NULL), tm.numeq(d, num(0))):
            q1, v1 = eng.read(s, this_loc(f, "state")), eng.read(s, this_loc(f, "clockValuation"))
            rests = s.ghost["rest"]
            stay = eng.same(s, q1, q0) and eng.same(s, v1, v0) and not rests
            if eng.simp(s, empty) is True or eng.simp(s, tm.eq(q0, tm.NULL)) is True:
                cx.ob("sink", w, stay and implied(eng, s, tm.bnot(eng.truth(r))), "in the sink a wait gives %s" % tm.show(r), s.trace())
                continue
            match = fld(S0, "isMatch", ty="bool")
            if eng.simp(s, tm.numeq(d, num(0))) is True:
                cx.ob("zero-wait", w, stay and eqv(eng, s, eng.truth(r), match), "a zero wait gives %s" % tm.show(r), s.trace())
                continue
            has = eng.has(s, N0, num(ord("\0")) if False else unobs(eng))
            for s in cases(eng, s, has):
                U = mk("mget", N0, unobs(eng))
                for s in cases(eng, s, tm.eq0(en.size(U)), tm.numeq(en.size(U), num(1))):
                    none = eng.simp(s, has) is False or implied(eng, s, tm.eq0(en.size(U)))
                    if none:
                        plain += 1
                        cx.ob("advance", w, not rests and advanced(eng, s, v1, v0, d) and eng.same(s, q1, q0) and eqv(eng, s, eng.truth(r), match),
                              "without unobservable transitions the clocks become %s, the state %s, the answer %s" % (tm.show(v1), tm.show(q1), tm.show(r)), s.trace())
                        continue
                    one = implied(eng, s, tm.numeq(en.size(U), num(1)))
                    i = num(0) if one and not argxs(s) else extreme(cx, eng, s, U, v0, w)
                    if i is None:
                        continue
                    tr = eng.elem(s, U, i)
                    b = mk("lbd", fld(tr, "guard"), v0)
                    first, second = fld(b, "first", ty="real"), fld(b, "second", ty="bool")
                    fire = tm.bor(tm.lt(tm.neg(d), first), tm.band(tm.numeq(tm.neg(d), first), second))
                    for s in [z for y in eng.assume(s, tm.le(first, num(0))) for z in cases(eng, y, fire, tm.band(tm.eq0(first), tm.bnot(second)))]:
                        if implied(eng, s, fire):
                            if any(x.op == "not" and x.a[0].op == "finite" for x in s.facts):
                                continue
                            fired += 1
                            eps = implied(eng, s, tm.band(tm.eq0(first), tm.bnot(second)))
                            ok = len(rests) == 1
                            rq, rv, rd = rests[0].a if ok else (None, None, None)
                            cx.ob("fires", w, ok, "an unobservable transition enabled within the wait is not taken", s.trace())
                            if not ok:
                                continue
                            okv = rv.op == "reset" and advanced(eng, s, rv.a[0], v0, tm.neg(first)) and eng.same(s, rv.a[1], fld(tr, "resetVars"))
                            cx.ob("fire-reset", w, okv, "taking it, the clocks become %s" % tm.show(rv), s.trace())
                            cx.ob("fire-target", w, eng.same(s, rq, fld(tr, "target")), "taking it leads to %s" % tm.show(rq), s.trace())
                            used = tm.sub(d, rd)
                            # a strict lower bound met at once is passed by an infinitesimal step
                            cx.ob("fire-rest", w, implied(eng, s, tm.band(tm.lt(num(0), used), tm.le(tm.mul(used, num(10 ** 6)), num(1)))) if eps
                                  else implied(eng, s, tm.numeq(used, tm.neg(first))), "the rest of the wait is %s" % tm.show(rd), s.trace())
                            cx.ob("fire-output", w, eqv(eng, s, eng.truth(r), rests[0]), "the answer is %s" % tm.show(r), s.trace())
                        elif implied(eng, s, tm.bnot(fire)):
                            plain += 1
                            cx.ob("advance", w, not rests and advanced(eng, s, v1, v0, d) and eng.same(s, q1, q0) and eqv(eng, s, eng.truth(r), match),
                                  "with no unobservable transition enabled within the wait the clocks become %s, the state %s, the answer %s" % (tm.show(v1), tm.show(q1), tm.show(r)), s.trace())
                        else:
                            cx.ob("fires", w, False, "it does not depend on the wait whether an unobservable transition is taken", s.trace())
    cx.need(1, "unobservable transitions taken", "fire-target")
    cx.need(1, "waits without transition", "advance")


def unobs(eng):
    return num(0)


def argxs(s):
    return sorted({x for f in s.facts for x in tm.subterms(f) if x.op == "argx"}, key=lambda t: t.h)


def extreme(cx, eng, s, U, v0, w):
    ks = argxs(s)
    lbd = lambda n: mk("lbd", fld(mk("elemvar", n), "guard"), v0)
    P = "std::pair<double, bool>"
    good = []
    for k in ks:
        kind, c, cmp = k.a
        want = eng.stl.less(s, lbd("a"), lbd("b"), P) if kind == "max" else eng.stl.less(s, lbd("b"), lbd("a"), P)
        ok = eng.same(s, c, U) and all(eqv(eng, y, cmp, want) for x in eng.assume(s, tm.le(fld(lbd("a"), "first", ty="real"), num(0)))
                                       for y in eng.assume(x, tm.le(fld(lbd("b"), "first", ty="real"), num(0))))
        cx.ob("earliest", w, ok, "the candidate is the %simum under %s" % (kind, tm.show(cmp)), s.trace())
        if ok:
            good.append(k)
    if not ks:
        cx.ob("earliest", w, False, "no choice among the unobservable transitions", s.trace())
    return good[0] if good else None


def advanced(eng, s, v1, v0, d):
    """v1 is v0 with d added to every clock"""
    want = en.tabulate(lambda i: tm.add(eng.elem(s, v0, i, "real"), d), num(0), en.size(v0))
    return eng.same(s, v1, want)
