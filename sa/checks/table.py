"""The observation table: cells, membership of rows in P, row equivalence and its memo, refinement."""
from .regional import *
from .automata import appended, pair
from .nest import *
from ..terms import add, sub

OT = "learnta::ObservationTable"
FIND = "learnta::findDeterministicEquivalentRenaming"
MEMO = ("closedRelation", "distinguishedPrefix")
PASS, TESTED = mk("passed"), mk("tested")
NORM = mk("vnone")


# ------------------------------------------------------------------ what the table does with its parts
def outside():
    """languages, membership and comparison of rows as such are decided elsewhere"""
    return {"learnta::equivalence": p_app("equivalence", "bool"), FIND: p_app("find"),
            "learnta::SymbolicMembershipOracle::query": p_query, EL + "::operator+": p_app("cat"), EL + "::getTimedCondition": p_app("cond"),
            "learnta::TimedCondition::hasEqualityN": p_equality,
            FW + "::successor": p_app("succ"), BW + "::predecessor": p_app("pred"), BW + "::wordSize": p_app("wordSize", "nat"),
            "learnta::TimedConditionSet::empty": p_app("bottom", "bool")}


def p_equality(eng, st, ol, args, e, fr):
    v = eng.read(st, ol)
    if is_app(v, "cond", 1):
        v = v.a[1]
    elif v.op == "field" and v.a[1] == "timedCondition":
        v = v.a[0]
    return [(st, mk("app", "hasEqualityN", v, ty="bool"))]


def p_query(eng, st, ol, args, e, fr):
    return [(st, app("mem", objptr(ol), eng.argval(st, args[0])))]


def member(ol, *fs):
    return loc(ol.a[0], *(list(ol.a[1]) + [F(x) for x in fs]))


def asked(eng, st, what, *vals):
    """something the rules look at happens: the test of a pair of rows, a refinement"""
    eng.write(st, loc(mk(what)), app(what, *vals))


def rows_of(i, j):
    """the outcome of the test of rows i and j: a renaming, if they are equivalent"""
    return mk("app", "rows", i, j, ty="opt")


def p_memo(eng, st, ol, args, e, fr):
    """the test of two rows by their numbers: what it remembers is decided separately"""
    s = st.copy()
    v = [eng.argval(s, a) for a in args]
    for x in MEMO:
        eng.write(s, member(ol, x), app("memoed", eng.read(s, member(ol, x)), *v))
    r = rows_of(*v)
    asked(eng, s, "test", *v)
    out = []
    for (z, b) in eng.branch(s, mk("engaged", r, ty="bool")):
        if b:
            # the renaming found is the one remembered
            z = z.copy()
            asked(eng, z, "pass", *v)
            c = eng.read(z, member(ol, "closedRelation"))
            m = app("memoed", eng.mget(z, c, v[0]) if eng.simp(z, eng.has(z, c, v[0])) is True else en.EMPTY, *v)
            eng.write(z, member(ol, "closedRelation"), eng.mput(z, c, v[0], eng.mput(z, m, v[1], mk("optval", r))))
        out.append((z, r))
    return out


def p_change(name, *flds):
    """a refinement step: the fields it may change afterwards hold something else"""
    def p(eng, st, ol, args, e, fr):
        s = st.copy()
        v = [eng.argval(s, a) for a in args]
        asked(eng, s, name, *v)
        for x in flds:
            eng.write(s, member(ol, x), app(name, eng.read(s, member(ol, x)), *v))
        return [(s, VOID)]
    return p


def p_resolve(eng, st, ol, args, e, fr):
    """the attempt to tell two rows apart: adds a suffix and answers true, or changes nothing and answers false"""
    v = [eng.argval(st, a) for a in args]
    s = st.copy()
    asked(eng, s, "resolveContinuous", *v)
    for x in ("suffixes", "equivalentWithColumnCache") + CELLS + MEMO:
        eng.write(s, member(ol, x), app("resolved", eng.read(s, member(ol, x)), *v))
    z = st.copy()
    asked(eng, z, "unresolved", *v)
    c = member(ol, "equivalentWithColumnCache")
    eng.write(z, c, app("looked", eng.read(z, c), *v))
    return [(s, TRUE), (z, FALSE)]


CELLS = ("table", "concatenations")
ROWS = ("prefixes", "pIndices", "continuousSuccessors", "discreteSuccessors")


def inside(*skip):
    P = outside()
    P[OT + "::equivalentWithMemo"] = p_memo
    P[OT + "::refreshTable"] = p_change("refresh", *CELLS)
    P[OT + "::moveToP"] = p_change("moveToP", *(ROWS + CELLS + MEMO))
    P[OT + "::resolveDiscreteInconsistency"] = p_change("resolveDiscrete", *(("suffixes", "equivalentWithColumnCache") + CELLS + MEMO))
    P[OT + "::resolveContinuousInconsistency"] = p_resolve
    for k in skip:
        P.pop(OT + "::" + k, None)
    return P


def engine(cx, P, mon, **kw):
    """as in a build without assertions"""
    return cx.engine(P, mon, trust_asserts=None, **kw)


def is_app(v, name, n=None):
    return v.op == "app" and v.a[0] == name and (n is None or len(v.a) == n + 1)


# ------------------------------------------------------------------ rows compared
class Rows:
    """the rows as the function finds them"""

    def __init__(self, eng, f):
        self.eng, self.me = eng, this_init(f)

    def row(self, s, i, newsuf=None):
        me, eng = self.me, self.eng
        p = eng.elem(s, fld(me, "prefixes"), i)
        t, c = eng.elem(s, fld(me, "table"), i), eng.elem(s, fld(me, "concatenations"), i)
        if newsuf is not None:
            w = app("cat", p, newsuf)
            t = en.append(t, app("mem", fld(me, "memOracle"), w))
            c = en.append(c, app("cond", w))
        return [p, t, c]

    def cols(self, newsuf=None):
        S = fld(self.me, "suffixes")
        return S if newsuf is None else en.append(S, newsuf)

    def find(self, s, i, j, newsuf=None):
        return app("find", *(self.row(s, i, newsuf) + self.row(s, j, newsuf) + [self.cols(newsuf)]))

    def test(self, s, i, j, ren, newsuf=None):
        return app("equivalence", *(self.row(s, i, newsuf) + self.row(s, j, newsuf) + [self.cols(newsuf), ren]), ty="bool")


def same_app(eng, s, x, y):
    return x is y or x.op == "app" and y.op == "app" and len(x.a) == len(y.a) and x.a[0] == y.a[0] and all(
        eng.same(s, a, b) or seqsame(eng, s, a, b) for (a, b) in zip(x.a[1:], y.a[1:]))


def known(eng, s, want, val=True):
    """the state knows the truth value of an opaque test (arguments equal as values)"""
    if eng.simp(s, want) is val:
        return True
    for f in s.facts:
        g, b = (f.a[0], False) if f.op == "not" else (f, True)
        if b is val and g.op == want.op:
            if g.op == "engaged" and same_app(eng, s, g.a[0], want.a[0]) or g.op == "app" and same_app(eng, s, g, want):
                return True
    return False


def witnessed(eng, s, R, i, j, v, newsuf=None):
    """v is a renaming under which rows i and j are known to agree"""
    r = R.find(s, i, j, newsuf)
    if v.op == "optval" and same_app(eng, s, v.a[0], r) and known(eng, s, mk("engaged", v.a[0], ty="bool")):
        return True
    return any(g.op == "app" and g.a[0] == "equivalence" and same_app(eng, s, g, R.test(s, i, j, v, newsuf)) for g in s.facts)


def distinct(eng, s, R, i, j, newsuf=None):
    """no renaming was found for rows i and j"""
    return known(eng, s, mk("engaged", R.find(s, i, j, newsuf), ty="bool"), False)


def remembered(cx, f, eng, s):
    """what is remembered about pairs of rows at the end: renamings that witness their equivalence now, pairs found distinct"""
    R = Rows(eng, f)
    me = this_init(f)

    def bad(m, what):
        cx.ob("remembered", f.where(), False, m, s.trace(), what)

    def entries(v, old):
        while v is not old and v is not en.EMPTY and v.op != "mempty":
            if v.op == "merase":
                v = v.a[0]
                continue
            if v.op != "mput" and v.op != "mdef":
                raise TooComplex("the memo becomes %s" % tm.show(v, 4))
            yield v.a[1], v.a[2] if v.op == "mput" else en.EMPTY
            v = v.a[0]

    C0 = fld(me, "closedRelation")
    c = eng.read(s, this_loc(f, "closedRelation"))
    done = set()
    for (i, m) in entries(c, C0):
        if i in done:
            continue
        done.add(i)
        inner = set()
        for (j, v) in entries(m, mk("mget", C0, i)):
            if j in inner:
                continue
            inner.add(j)
            ok = witnessed(eng, s, R, i, j, v)
            cx.ob("remembered", f.where(), ok, "the renaming remembered for rows %s and %s is %s" % (tm.show(i), tm.show(j), tm.show(v, 5)), s.trace(), "closedRelation")
    for (k, v) in entries(eng.read(s, this_loc(f, "distinguishedPrefix")), fld(me, "distinguishedPrefix")):
        ok = distinct(eng, s, R, fld(k, "first"), fld(k, "second")) or distinct(eng, s, R, fld(k, "second"), fld(k, "first"))
        cx.ob("remembered", f.where(), ok, "rows %s are remembered as distinct" % tm.show(k, 5), s.trace(), "distinguishedPrefix")


def check_equivalent(cx):
    f = cx.prog.find(OT + "::equivalent", 2)
    i, j = argv(f, 0), argv(f, 1)
    eng = engine(cx, outside(), None)
    R = Rows(eng, f)
    for (s, k, v) in cx.run(eng, f):
        remembered(cx, f, eng, s)
        answer(cx, "row-test", f, eng, s, R, i, j, v, None)
        cx.ob("row-test-recorded", f.where(), recorded(eng, s, f, R, i, j), "the result for the two rows is not remembered", s.trace())
    cx.need(2, "test of two rows", "row-test")
    cx.need(2, "what is remembered", "remembered")


def recorded(eng, s, f, R, i, j):
    """the outcome of the test is in the memo"""
    if distinct(eng, s, R, i, j):
        return eng.simp(s, eng.has(s, eng.read(s, this_loc(f, "distinguishedPrefix")), pair(i, j))) is True
    c = eng.read(s, this_loc(f, "closedRelation"))
    m = eng.mget(s, c, i)
    return eng.simp(s, eng.has(s, c, i)) is True and eng.simp(s, eng.has(s, m, j)) is True and witnessed(eng, s, R, i, j, eng.mget(s, m, j))


def answer(cx, rule, f, eng, s, R, i, j, v, allowed):
    """the result of a test of two rows is the renaming found, or none; allowed: further reasons for none"""
    v = deref(eng, s, v)
    r = R.find(s, i, j)
    if same_app(eng, s, v, r):
        ok, m = True, ""
    elif v.op == "some":
        ok, m = witnessed(eng, s, R, i, j, v.a[0]), "answers with the renaming %s" % tm.show(v.a[0], 5)
    elif v.op == "none":
        ok = distinct(eng, s, R, i, j) or allowed is not None and allowed(s)
        m = "answers that the rows differ without a reason"
    else:
        ok, m = False, "answers %s" % tm.show(v, 4)
    cx.ob(rule, f.where(), ok, m, s.trace())


def check_equivalent_memo(cx):
    f = cx.prog.find(OT + "::equivalentWithMemo", 2)
    i, j = argv(f, 0), argv(f, 1)
    eng = engine(cx, outside(), None)
    R = Rows(eng, f)
    D = fld(this_init(f), "distinguishedPrefix")

    def before(s):
        return any(eng.simp(s, mk("has", D, k)) is True for k in (pair(i, j), pair(j, i)))
    for (s, k, v) in cx.run(eng, f):
        remembered(cx, f, eng, s)
        answer(cx, "row-test", f, eng, s, R, i, j, v, before)
        v = deref(eng, s, v)
        for z in eng.assume(s, mk("engaged", v, ty="bool")) if v.op not in ("none",) else []:
            c = eng.read(z, this_loc(f, "closedRelation"))
            m = eng.mget(z, c, i)
            ok = eng.simp(z, eng.has(z, c, i)) is True and eng.simp(z, eng.has(z, m, j)) is True and eng.same(z, eng.mget(z, m, j), v.a[0] if v.op == "some" else mk("optval", v))
            cx.ob("row-test-recorded", f.where(), ok, "the renaming found is not the one remembered", z.trace())
    cx.need(3, "test of two rows with the memo", "row-test")


def check_equivalent_column(cx):
    f = cx.prog.find(OT + "::equivalent", 3)
    i, j, w = argv(f, 0), argv(f, 1), arg(f, 2)
    eng = engine(cx, outside(), None)
    R = Rows(eng, f)
    me = this_init(f)
    C0 = fld(me, "equivalentWithColumnCache")
    n = en.size(fld(me, "suffixes"))

    def right(s, b):
        """why b is the answer for the rows with the new column; None if it need not be"""
        e = mk("engaged", R.find(s, i, j, w), ty="bool")
        b = eng.truth(b)
        if b.op == "engaged" and same_app(eng, s, b.a[0], e.a[0]):
            return True
        x = eng.simp(s, b)
        if x is True:
            return known(eng, s, e) or any(g.op == "app" and g.a[0] == "equivalence" and same_app(eng, s, g, R.test(s, i, j, g.a[-1], w)) for g in s.facts)
        if x is False:
            return known(eng, s, e, False)
        return False

    for (s, k, v) in cx.run(eng, f):
        remembered(cx, f, eng, s)
        v = deref(eng, s, v)
        c = eng.read(s, this_loc(f, "equivalentWithColumnCache"))
        hit = v.op == "field" and v.a[1] == "second" and v.a[0].op == "mget" and v.a[0].a[0] is C0
        if hit or any(x.op == "mget" and x.a[0] is C0 for x in tm.subterms(v)):
            e = v.a[0] if hit else None
            ok = hit and determined_by(e.a[1], (i, j, w)) and implied(eng, s, tm.numeq(fld(e, "first", ty="nat"), n)) and eng.simp(s, mk("has", C0, e.a[1])) is True
            cx.ob("column-test", f.where(), ok, "answers with what was remembered under %s" % (tm.show(e.a[1], 5) if hit else "?"), s.trace())
        else:
            cx.ob("column-test", f.where(), right(s, v), "answers %s for the rows with the new suffix" % tm.show(v, 5), s.trace())
        while c is not C0:
            if c.op not in ("mput", "mdef"):
                raise TooComplex("the cache becomes %s" % tm.show(c, 4))
            key, val = c.a[1], c.a[2]
            if not (c.op == "mdef"):
                ok = determined_by(key, (i, j, w)) and val.op == "rec" and implied(eng, s, tm.numeq(fld(val, "first", ty="nat"), n)) and right(s, fld(val, "second"))
                cx.ob("column-remembered", f.where(), ok, "%s is remembered under %s" % (tm.show(val, 4), tm.show(key, 5)), s.trace())
            c = c.a[0]
    cx.need(3, "test of two rows with a new column", "column-test")
    f = cx.prog.find(OT + "::equivalent", 4)
    i, j, w, ren = argv(f, 0), argv(f, 1), arg(f, 2), arg(f, 3)
    eng = engine(cx, outside(), None)
    R = Rows(eng, f)
    for (s, k, v) in cx.run(eng, f):
        remembered(cx, f, eng, s)
        v = deref(eng, s, v)
        ok = same_app(eng, s, v, R.test(s, i, j, ren, w))
        if not ok:
            ok = any(eng.simp(s, v) is b and known(eng, s, R.test(s, i, j, ren, w), b) for b in (True, False))
        cx.ob("column-test", f.where(), ok, "answers %s for the rows with the new suffix under the renaming" % tm.show(v, 4), s.trace())
    cx.need(4, "test of two rows with a new column", "column-test")


def determined_by(key, args):
    from .juxtapose import determined
    return determined(key, args)


# ------------------------------------------------------------------ cells
def check_refresh(cx):
    either(cx, [lambda c, i=i, p=p: refresh(c, i, p) for i in (True, False) for p in (False, True)])
    cx.need(4, "cells of the table", "cells")


def refresh(cx, incremental, grow):
    """incremental: only the missing cells are filled; grow: cells are appended one by one"""
    f = cx.prog.find(OT + "::refreshTable")
    me = this_init(f)
    Pf, S, T0, C0 = (fld(me, x) for x in ("prefixes", "suffixes", "table", "concatenations"))
    nS = en.size(S)

    def old(eng, s, i, *terms):
        """[(state, number of cells the row has)]"""
        out = []
        for (z, b) in eng.branch(s, tm.lt(i, en.size(T0))):
            o = en.size(eng.elem(z, T0, i)) if b else num(0)
            if b:
                # answers and conditions are kept side by side
                zs = [y for x in eng.assume(z, tm.numeq(en.size(C0), en.size(T0))) for y in eng.assume(x, tm.numeq(en.size(eng.elem(x, C0, i)), o))]
            else:
                zs = eng.assume(z, tm.numeq(en.size(C0), en.size(T0)))
            ts = [i] + list(terms) + list(z.facts) + [x for x in z.ghost.values() if isinstance(x, T)]
            for z2 in [w for y in zs for w in again(eng, y, ts)]:
                # named as the program names it
                out.append((z2, next((x for x in read_before(ts) if implied(eng, z2, tm.numeq(x, o))), o)))
        return out

    def columns(eng, st, ix):
        out = []
        for (z, o) in old(eng, st, ix[0]):
            if not incremental:
                out.append((z, nS))
                continue
            for (z2, b) in eng.branch(z, tm.le(o, nS)):
                out.append((z2, sub(nS, o) if b else num(0)))
        return out

    class Filling(Nest):
        """the row of an iteration is, as long as the rules hold, as it was before the loop"""

        def on_enter(self, eng, st, key):
            st = Nest.on_enter(self, eng, st, key)
            if len(self.stack(st)) == 1:
                for x in CELLS:
                    st.ghost["before:" + x] = eng.read(st, this_loc(f, x))
            if len(self.stack(st)) == 2:
                for x in CELLS:
                    st.ghost["row:" + x] = en.size(eng.elem(st, eng.read(st, this_loc(f, x)), st.ghost["p:0"]))
            return st

        def invariant(self, eng, st):
            if len(self.stack(st)) != 2:
                return []
            p, q = st.ghost["p:0"], st.ghost["p:1"]
            return [tm.numeq(en.size(eng.elem(st, eng.read(st, this_loc(f, x)), p)), add(st.ghost["row:" + x], q) if grow else st.ghost["row:" + x]) for x in CELLS]

        def on_head(self, eng, st, key):
            sts = Nest.on_head(self, eng, st, key)
            if len(self.stack(st)) == 1:
                # rows other than that of the iteration are never changed (anything else is reported)
                for x in CELLS:
                    p, b = st.ghost["p:0"], st.ghost["before:" + x]
                    sts = [z for s in sts for z in eng.assume(s, tm.numeq(en.size(eng.read(s, this_loc(f, x))), en.size(b)))]
                    sts = [w for s in sts for z in eng.assume(s, tm.lt(p, en.size(b))) for w in eng.assume(
                        z, tm.numeq(en.size(eng.elem(z, eng.read(z, this_loc(f, x)), p)), en.size(eng.elem(z, b, p))))] + [
                        z for s in sts for z in eng.assume(s, tm.le(en.size(b), p))]
            return sts

    def ev(what):
        def event(eng, st, l, v):
            p = l.a[1]
            if l.a[0].op != "this" or not p or p[0].a[0] != what:
                return None
            if len(p) > 1 and p[1].op == "I" and "p:0" in st.ghost and not implied(eng, st, tm.numeq(p[1].a[0], st.ghost["p:0"])):
                return RESET
            if len(p) == 3 and p[1].op == p[2].op == "I":
                return (p[1].a[0], p[2].a[0], v)
            if len(p) == 2 and p[1].op == "I":
                x = appended(eng, st, l, v)
                if x is None:
                    return None
                if x is not RESET:
                    return (p[1].a[0], en.size(eng.read(st, l)), x)
                return None if resized(eng, st, eng.read(st, l), v, nS) else RESET
            if len(p) == 1:
                return None if resized(eng, st, eng.read(st, l), v, en.size(Pf)) else RESET
            return RESET
        return event

    def want(val):
        def w(eng, s, ix, pay):
            for (z, o) in (old(eng, s, ix[0], ix[1], pay[1]) if incremental else [(s, num(0))]):
                if not implied(eng, z, tm.numeq(pay[0], ix[0])):
                    return "the cell is in row %s" % tm.show(pay[0])
                if not implied(eng, z, tm.numeq(pay[1], add(o, ix[1]))):
                    return "the cell is in column %s" % tm.show(pay[1])
                x = val(app("cat", eng.elem(z, Pf, ix[0]), eng.elem(z, S, pay[1])))
                if not eng.same(z, pay[2], x):
                    return "the cell gets %s" % tm.show(pay[2], 5)
            return None
        return w
    lv = [lambda eng, st, ix: [(st, en.size(Pf))], columns]
    rules = [Rule("answers", lv, ev("table"), want(lambda w: app("mem", fld(me, "memOracle"), w)), what="the answers of the new cells"),
             Rule("conditions", lv, ev("concatenations"), want(lambda w: app("cond", w)), what="the conditions of the new cells")]

    def at_end(eng, s, k, v):
        for x in CELLS:
            m = fld(eng.read(s, this_loc(f)), x)
            cx.ob("cells", f.where(), k == "r" and implied(eng, s, tm.numeq(en.size(m), en.size(Pf))), "%s has %s rows" % (x, tm.show(en.size(m))), s.trace())
        same_but(cx, f, eng, s, CELLS)
    check_nest(cx, f, rules, lambda mon: engine(cx, outside(), mon, unroll=0), at_end=at_end, rule="cells", nest=Filling)


def read_before(ts):
    return sorted({x for t in ts for x in tm.subterms(t) if x.op == "size" and x.a[0].op == "elem"}, key=lambda x: x.h)


def again(eng, s, ts):
    """sizes of elements that could not be told apart when they were read"""
    sts = [s]
    for x in read_before(ts):
        nx = []
        for z in sts:
            r = eng.elem(z, *x.a[0].a[:2])
            nx += [z] if r is x.a[0] else eng.assume(z, tm.numeq(x, en.size(r)))
        sts = nx
    return sts


def resized(eng, s, old, v, n):
    """v has n elements and keeps those of old"""
    if not implied(eng, s, tm.numeq(en.size(v), n)):
        return False
    K = mk("sym", "%K", ty="nat")
    for z in cut(eng, [s], tm.lt(K, n), tm.lt(K, en.size(old))):
        if not eng.same(z, eng.elem(z, v, K), eng.elem(z, old, K)):
            return False
    return True


def same_but(cx, f, eng, s, flds, rule="rest"):
    """no field but these is changed"""
    v = eng.read(s, this_loc(f))
    me = this_init(f)
    while v is not me and v.op == "updf":
        if v.a[1] not in flds and not eng.same(s, v.a[2], fld(me, v.a[1])):
            cx.ob(rule, f.where(), False, "%s is changed" % v.a[1], s.trace())
        v = v.a[0]
    cx.ob(rule, f.where(), v is me, "the table becomes %s" % tm.show(v, 3), s.trace())


# ------------------------------------------------------------------ rows moved to P
class Grow(Nest):
    """lists that get one more element in every iteration of a loop of depth one, as long as the rules hold"""
    lists = ()

    def on_enter(self, eng, st, key):
        st = Nest.on_enter(self, eng, st, key)
        if len(self.stack(st)) == 1:
            for (x, l) in self.lists:
                st.ghost["before:" + x] = eng.read(st, l)
        return st

    def invariant(self, eng, st):
        if len(self.stack(st)) != 1:
            return []
        p = st.ghost["p:0"]
        return [tm.le(p, self.limit)] + [tm.numeq(en.size(eng.read(st, l)), add(en.size(st.ghost["before:" + x]), p)) for (x, l) in self.lists]

    def on_head(self, eng, st, key):
        sts = Nest.on_head(self, eng, st, key)
        if len(self.stack(st)) == 1:
            for (x, l) in self.lists:
                sts = [self.head_fact(eng, s, eng.read(s, l), st.ghost["before:" + x]) for s in sts]
        return sts

    def head_fact(self, eng, s, v, b):
        return s


def check_move(cx):
    either(cx, [lambda c: move(c, 0), lambda c: move(c, 1)])
    cx.need(8, "row moved to P", "moved")


def move(cx, first):
    """first: 1 if the continuous successor is added before the discrete ones"""
    f = cx.prog.find(OT + "::moveToP")
    me, idx = this_init(f), argv(f, 0)
    P0, A = fld(me, "prefixes"), fld(me, "alphabet")
    n0 = en.size(P0)
    row = mk("elem", P0, idx)

    class M(Grow):
        lists = (("prefixes", this_loc(f, "prefixes")),)
        limit = en.size(A)

        def head_fact(self, eng, s, v, b):
            s = s.copy()
            s.facts = s.facts | {tm.eq(mk("elem", v, idx), row)}
            return s

        def pkey(self, s):
            return (Nest.pkey(self, s), s.ghost.get("dirty"), s.ghost.get("rec"))

        def on_write(self, eng, st, l, v):
            r = l.a[0]
            if r.op == "refresh":
                st.ghost["dirty"] = False
            elif r.op == "test":
                cx.ob("moved", f.where(), not st.ghost.get("dirty"), "rows are compared before their cells are filled", st.trace(), "filled")
            elif r.op == "moveToP":
                final(eng, st, v.a[1])
                st.ghost["rec"] = True
            elif r.op == "this" and l.a[1] and l.a[1][0].a[0] == "prefixes" and not st.ghost.get("rec"):
                st.ghost["dirty"] = True
            if not st.ghost.get("rec"):
                Nest.on_write(self, eng, st, l, v)

    def cont(s=None):
        return add(n0, num(0) if first else en.size(A))

    def pushed(eng, st, l, v):
        if l.a[0].op != "this" or not l.a[1] or l.a[1][0].a[0] != "prefixes":
            return None
        old = eng.read(st, loc(l.a[0], l.a[1][0]))
        x = appended(eng, st, l, v) if len(l.a[1]) == 1 else RESET
        return x if x is None or x is RESET else (en.size(old), x)

    def discrete(eng, st, l, v):
        x = pushed(eng, st, l, v)
        if x is None or x is RESET:
            return x
        return x if x[1].op == "app" and len(x[1].a) == 3 else None

    def continuous(eng, st, l, v):
        x = pushed(eng, st, l, v)
        if x is None or x is RESET:
            return None
        return None if x[1].op == "app" and len(x[1].a) == 3 else x

    def mapped(what):
        def ev(eng, st, l, v):
            if l.a[0].op != "this" or not l.a[1] or l.a[1][0].a[0] != what:
                return None
            p = l.a[1]
            if len(p) == 2 and p[1].op == "M":
                return None if tm.is_num(v) and v.a[0] == 0 else (p[1].a[0], v)         # a new entry holds 0
            old = eng.read(st, l)
            if v is old or v.op == "mdef" and v.a[0] is old:
                return None
            if v.op == "mput" and v.a[0] is old:
                return None if tm.is_num(v.a[2]) and v.a[2].a[0] == 0 else (v.a[1], v.a[2])
            return RESET
        return ev

    def at(pos):
        return lambda eng, s, ix, pay: None if implied(eng, s, tm.numeq(pay[0], pos(ix))) and eng.same(s, pay[1], want(eng, s, ix)) else \
            "prefix %s gets %s" % (tm.show(pay[0]), tm.show(pay[1], 5))

    def want(eng, s, ix):
        r = eng.elem(s, P0, idx)
        return app("succ", r, eng.elem(s, A, ix[0])) if ix else app("succ", r)

    def dpos(ix):
        return add(add(n0, num(first)), ix[0])

    def dmap(eng, s, ix, pay):
        ok = eng.same(s, pay[0], pair(idx, eng.elem(s, A, ix[0]))) and implied(eng, s, tm.numeq(pay[1], dpos(ix)))
        return None if ok else "prefix %s is recorded under %s" % (tm.show(pay[1]), tm.show(pay[0], 5))

    def cmap(eng, s, ix, pay):
        ok = implied(eng, s, tm.numeq(pay[0], idx)) and implied(eng, s, tm.numeq(pay[1], cont()))
        return None if ok else "prefix %s is recorded for row %s" % (tm.show(pay[1]), tm.show(pay[0]))
    lv = [lambda eng, st, ix: [(st, en.size(A))]]
    rules = [Rule("letters", lv, discrete, at(dpos), what="the successor by a letter"),
             Rule("letter-index", lv, mapped("discreteSuccessors"), dmap, what="where the successor by a letter is"),
             Rule("time", [], continuous, at(lambda ix: cont()), what="the successor by time"),
             Rule("time-index", [], mapped("continuousSuccessors"), cmap, what="where the successor by time is")]

    def final(eng, s, rec):
        t = eng.read(s, this_loc(f))
        P = fld(t, "pIndices")
        cx.ob("moved", f.where(), eng.simp(s, eng.has(s, P, idx)) is True, "the row is not in P", s.trace(), "P")
        while P.op == "mput":
            if not eng.same(s, P.a[1], idx):
                break
            P = P.a[0]
        cx.ob("moved", f.where(), P is fld(me, "pIndices"), "P becomes %s" % tm.show(fld(t, "pIndices"), 5), s.trace(), "P")
        cx.ob("moved", f.where(), not s.ghost.get("dirty"), "the table is not filled", s.trace(), "filled")
        cx.ob("moved", f.where(), implied(eng, s, tm.numeq(en.size(fld(t, "prefixes")), add(add(n0, en.size(A)), num(1)))),
              "there are %s prefixes afterwards" % tm.show(en.size(fld(t, "prefixes"))), s.trace(), "prefixes")
        hit = [g for g in s.facts for (h, b) in [(g.a[0], False) if g.op == "not" else (g, True)]
               if h.op == "engaged" and h.a[0].op == "app" and h.a[0].a[0] == "rows" and b is (rec is None) and
               implied(eng, s, tm.numeq(h.a[0].a[1], cont())) and implied(eng, s, tm.numeq(h.a[0].a[2], idx))]
        if rec is None:
            cx.ob("moved", f.where(), bool(hit), "the continuous successor is left outside P though it is not known to be equivalent", s.trace(), "successor")
        else:
            cx.ob("moved", f.where(), bool(hit) and implied(eng, s, tm.numeq(rec, cont())), "row %s is moved to P as well" % tm.show(rec), s.trace(), "successor")

    def at_end(eng, s, k, v):
        if not s.ghost.get("rec"):
            final(eng, s, None)
            same_but(cx, f, eng, s, CELLS + ROWS + MEMO, rule="moved")

    st = St(ghost={"dirty": False, "rec": False})

    def mkeng(mon):
        return engine(cx, inside(), mon, unroll=0)
    check_nest(cx, f, rules, mkeng, st=st, at_end=at_end, rule="moved", nest=M)


# ------------------------------------------------------------------ refinement of the table
def p_equivalent(eng, st, ol, args, e, fr):
    """2: test of two rows; 3: test with one more column; 4: the same for a given renaming"""
    if len(args) == 2:
        return p_memo(eng, st, ol, args, e, fr)
    s = st.copy()
    v = [eng.argval(s, a) for a in args]
    asked(eng, s, "test", *v[:2])
    c = member(ol, "equivalentWithColumnCache")
    eng.write(s, c, app("looked", eng.read(s, c), *v))
    t = mk("app", "column" if len(args) == 3 else "column-under", *v, ty="bool")
    return [(z, TRUE if b else FALSE) for (z, b) in eng.branch(s, t)]


def table_prims(*skip):
    P = inside(*skip)
    P[OT + "::equivalent"] = p_equivalent
    return P


class Fresh(Mon):
    """rows are compared, moved and left behind only with all cells filled; prefixes and suffixes are only added"""

    def __init__(self, cx, f):
        self.cx, self.f = cx, f
        self.refresh = 0

    def pkey(self, s):
        return (s.ghost.get("dirty"), s.ghost.get("did"))

    def on_write(self, eng, st, l, v):
        r = l.a[0]
        if r.op == "refresh":
            st.ghost["dirty"] = False
        elif r.op in ("test", "moveToP", "resolveDiscrete", "resolveContinuous"):
            self.cx.ob("filled", self.f.where(), not st.ghost.get("dirty"), "rows are used before their cells are filled", st.trace())
            if r.op != "test":
                self.step(eng, st, r.op, v)
        elif r.op == "this" and l.a[1] and l.a[1][0].a[0] in ("prefixes", "suffixes"):
            old = eng.read(st, loc(r, l.a[1][0]))
            x = appended(eng, st, l, v) if len(l.a[1]) == 1 else RESET
            if v.op == "app":
                return
            if x is None:
                if v is not old and not resized(eng, st, old, v, en.size(old)):
                    raise TooComplex("%s become %s" % (l.a[1][0].a[0], tm.show(v, 4)))
                return
            self.cx.ob("filled", self.f.where(), x is not RESET, "%s are changed" % l.a[1][0].a[0], st.trace())
            st.ghost["dirty"] = True
            self.added(eng, st, l.a[1][0].a[0], x)
        elif r.op == "this" and l.a[1] and l.a[1][0].a[0] in CELLS and v.op != "app":
            self.cx.ob("filled", self.f.where(), False, "the cells are changed", st.trace())

    def step(self, eng, st, what, v):
        pass

    def added(self, eng, st, what, x):
        pass

    def end(self, eng, ends):
        for (s, k, v) in ends:
            if k != "t":
                self.cx.ob("filled", self.f.where(), not s.ghost.get("dirty"), "the table is left with cells not filled", s.trace())


def check_resolve(cx):
    for (name, n) in (("resolveDiscreteInconsistency", 3), ("resolveContinuousInconsistency", 2)):
        f = cx.prog.find(OT + "::" + name)
        i, j = argv(f, 0), argv(f, 1)
        S = fld(this_init(f), "suffixes")

        class M(Fresh):
            def added(self, eng, st, what, x):
                ok = what == "suffixes" and x.op == "app" and x.a[0] == "pred" and len(x.a) == n and (n == 2 or eng.same(st, x.a[2], argv(f, 2)))
                K = ok and x.a[1].op == "elem" and x.a[1].a[0] is S and implied(eng, st, tm.lt(x.a[1].a[1], en.size(S)))
                cx.ob("resolved", f.where(), bool(K), "%s get %s" % (what, tm.show(x, 5)), st.trace(), "suffix")
                cx.ob("resolved", f.where(), known(eng, st, mk("app", "column", i, j, x, ty="bool"), False), "the rows are not known to differ with the new suffix", st.trace(), "suffix")
                st.ghost["did"] = min(2, st.ghost["did"] + 1)
        mon = M(cx, f)
        eng = engine(cx, table_prims(name), mon)
        ends = cx.run(eng, f, st=St(ghost={"did": 0, "dirty": False}))
        mon.end(eng, ends)
        for (s, k, v) in ends:
            if k == "t":
                continue
            same_but(cx, f, eng, s, CELLS + MEMO + ("suffixes", "equivalentWithColumnCache"), rule="resolved")
            did = s.ghost.get("did")
            if n == 3:
                cx.ob("resolved", f.where(), did == 1, "%d suffixes are added" % did, s.trace(), "once")
                continue
            r = eng.simp(s, v)
            cx.ob("resolved", f.where(), (r is True and did == 1) or (r is False and did == 0), "answers %s after adding %d suffixes" % (tm.show(v), did), s.trace(), "answer")
            if did == 0:
                K = mk("sym", "%K", ty="nat")
                for z in eng.assume(s, tm.lt(K, en.size(S))):
                    for z2 in inst(eng, z, K):
                        cx.ob("resolved", f.where(), known(eng, z2, mk("app", "column", i, j, app("pred", eng.elem(z2, S, K)), ty="bool")),
                              "gives up though some suffix may tell the rows apart", s.trace(), "none")
    cx.need(6, "suffixes added", "resolved")


def inst(eng, s, K):
    r = eng.inst(s, K)
    return r if isinstance(r, list) else [r]


def succ_of(eng, s, f, i, a=None):
    """where the successor of row i is recorded"""
    me = this_init(f)
    return eng.mget(s, fld(me, "continuousSuccessors"), i, "nat") if a is None else eng.mget(s, fld(me, "discreteSuccessors"), pair(i, a), "nat")


def engaged(i, j):
    return mk("engaged", rows_of(i, j), ty="bool")


def rows_known(eng, s, i, j, val=True):
    """rows i and j are known (not) to be equivalent"""
    return known(eng, s, engaged(i, j), val)


class Search(Nest):
    """Nest and Fresh at once"""
    fresh = None

    def pkey(self, s):
        return (Nest.pkey(self, s), self.fresh.pkey(s))

    def on_write(self, eng, st, l, v):
        self.fresh.on_write(eng, st, l, v)
        Nest.on_write(self, eng, st, l, v)


def searching(fr):
    class S(Search):
        fresh = fr
    return S


def in_P(eng, s, f, i):
    return eng.simp(s, eng.has(s, fld(this_init(f), "pIndices"), i)) is True


def check_consistent(cx):
    either(cx, [lambda c, o=o: consistent(c, o) for o in (tm.lt, lambda x, y: tm.lt(y, x), lambda x, y: tm.bnot(tm.numeq(x, y)), lambda x, y: TRUE)])
    cx.need(4, "consistency of rows", "consistent")


def consistent(cx, before):
    """before: which of two rows comes second in the comparison"""
    f = cx.prog.find(OT + "::consistent")
    me = this_init(f)
    P, A = fld(me, "pIndices"), fld(me, "alphabet")

    def at(eng, s, ix):
        return mk("key", P, ix)

    def event(n):
        def ev(eng, st, l, v):
            if l.a[0].op not in ("pass", "unresolved") or n == 3 and l.a[0].op != "pass":
                return None
            x, y = v.a[1], v.a[2]
            if not x.op == y.op == "mget":
                return (n, x, y) if l.a[0].op == "unresolved" else None
            is_d = x.a[0] is fld(me, "discreteSuccessors")
            return (n, x, y) if is_d == (n == 3) else None
        return ev

    def want(eng, s, ix, pay):
        i, j = at(eng, s, ix[0]), at(eng, s, ix[1])
        n, x, y = pay
        a = [eng.elem(s, A, ix[2])] if n == 3 else []
        ok = eng.same(s, x, succ_of(eng, s, f, i, *a)) and eng.same(s, y, succ_of(eng, s, f, j, *a)) or n == 2 and eng.same(s, x, i) and eng.same(s, y, j)
        return None if ok else "rows %s and %s are compared" % (tm.show(x, 5), tm.show(y, 5))

    def cond(eng, s, ix):
        i, j = at(eng, s, ix[0]), at(eng, s, ix[1])
        return tm.band(before(j, i), engaged(i, j))
    nP = lambda eng, st, ix: [(st, en.size(P))]
    rules = [Rule("letters", [nP, nP, lambda eng, st, ix: [(st, en.size(A))]], event(3), want, cond, "rows equivalent after a letter", fixed=True),
             Rule("time", [nP, nP], event(2), want, cond, "rows equivalent after time", fixed=True)]

    class M(Fresh):
        def step(self, eng, st, what, v):
            i, j = v.a[1], v.a[2]
            ok = what != "moveToP" and in_P(eng, st, f, i) and in_P(eng, st, f, j) and rows_known(eng, st, i, j)
            a = [v.a[3]] if what == "resolveDiscrete" else []
            ok = ok and rows_known(eng, st, succ_of(eng, st, f, i, *a), succ_of(eng, st, f, j, *a), False)
            cx.ob("refined", f.where(), ok, "%s without rows %s and %s of P being equivalent with successors that are not" % (what, tm.show(i), tm.show(j)), st.trace())
            st.ghost["did"] = min(2, st.ghost["did"] + (1 if what != "moveToP" else 0))
    fr = M(cx, f)

    def at_end(eng, s, k, v):
        r = eng.simp(s, v)
        did = s.ghost.get("did")
        cx.ob("consistent", f.where(), r is (did == 0), "answers %s after %d refinements" % (tm.show(v), did), s.trace(), "answer")
        fr.end(eng, [(s, k, v)])

    def run(mon):
        return engine(cx, table_prims(), mon, unroll=0)
    st = St(ghost={"did": 0, "dirty": False})
    check_nest(cx, f, rules, run, st=st, at_end=at_end, rule="consistent", nest=searching(fr), due=lambda eng, s, v: eng.simp(s, v) is not False)


def witness(eng, s, f, R, i):
    """row i is in P, or known to be equivalent with a row of P"""
    if in_P(eng, s, f, i):
        return True
    for g in s.facts:
        if g.op == "engaged" and is_app(g.a[0], "rows", 2):
            j = g.a[0].a[2]
            if implied(eng, s, tm.numeq(g.a[0].a[1], i)) and in_P(eng, s, f, j):
                return True
        if is_app(g, "equivalence", 8):
            for j in candidates(s, f):
                if in_P(eng, s, f, j) and same_app(eng, s, g, R.test(s, i, j, g.a[8])):
                    return True
    return False


def candidates(s, f):
    """rows the state knows to be in P"""
    P = fld(this_init(f), "pIndices")
    return [g.a[1] for g in s.facts if g.op == "has" and g.a[0] is P] + [g.a[1] for g in list(s.facts) if g.op == "key" and g.a[0] is P]


def check_close(cx):
    f = cx.prog.find(OT + "::close")
    me = this_init(f)
    P, Pf = fld(me, "pIndices"), fld(me, "prefixes")

    class M(Fresh):
        depth = 0

        def pkey(self, s):
            return (Fresh.pkey(self, s), s.ghost.get("dep"), s.ghost.get("closed"), s.ghost.get("skipped"))

        def on_enter(self, eng, st, key):
            st = st.copy()
            d = st.ghost["dep"]
            st.ghost["dep"] = d + (lkey(key),)
            if not d:
                st.ghost["p"] = num(0)
                st.ghost["skipped"] = False
            return st

        def on_back(self, eng, st, key, head):
            st = st.copy()
            d = st.ghost["dep"]
            k = d.index(lkey(key))
            st.ghost["dep"] = d[:k + 1]
            if k == 0:
                st.ghost["skipped"] = st.ghost["skipped"] or not witness(eng, st, f, self.R, st.ghost["p"])
                st.ghost["p"] = add(st.ghost["p"], num(1))
            return st

        def on_exit(self, eng, st, key, kind):
            d = st.ghost["dep"]
            if lkey(key) not in d:
                return st
            st = st.copy()
            k = d.index(lkey(key))
            if k == 0:
                st.ghost["closed"] = st.ghost["closed"] or not st.ghost["skipped"] and implied(eng, st, tm.le(en.size(Pf), st.ghost["p"]))
                st.ghost.pop("p", None)
                st.ghost.pop("skipped", None)
            st.ghost["dep"] = d[:k]
            return st

        def step(self, eng, st, what, v):
            i = v.a[1]
            ok = what == "moveToP" and eng.simp(st, eng.has(st, P, i)) is False
            cx.ob("closed", f.where(), ok, "%s of row %s" % (what, tm.show(i)), st.trace(), "moved")
            K = mk("sym", "%K", ty="nat")
            for z in eng.assume(st, tm.lt(K, en.size(P))):
                for z2 in inst(eng, z, K):
                    cx.ob("closed", f.where(), rows_known(eng, z2, i, mk("key", P, K), False),
                          "row %s is moved to P though it may be equivalent with a row of P" % tm.show(i), st.trace(), "needed")
            st.ghost["did"] = min(2, st.ghost["did"] + 1)
    mon = M(cx, f)
    eng = engine(cx, table_prims(), mon, unroll=0)
    mon.R = Rows(eng, f)
    ends = cx.run(eng, f, st=St(ghost={"did": 0, "dirty": False, "dep": (), "closed": False}))
    mon.end(eng, ends)
    for (s, k, v) in ends:
        if k == "t":
            continue
        r = eng.simp(s, v)
        did = s.ghost.get("did")
        cx.ob("closed", f.where(), r is (did == 0), "answers %s after moving %d rows" % (tm.show(v), did), s.trace(), "answer")
        if did == 0:
            cx.ob("closed", f.where(), s.ghost.get("closed") is True, "answers that the table is closed without a row of P for every row", s.trace(), "all")
    cx.need(3, "closedness", "closed")


class Moves(Fresh):
    def __init__(self, cx, f):
        Fresh.__init__(self, cx, f)
        self.locs = set()

    def pkey(self, s):
        return (Fresh.pkey(self, s), s.ghost.get("mark"))

    def step(self, eng, st, what, v):
        st.ghost["did"] = True
        if what != "moveToP":
            self.cx.ob("moves", self.f.where(), False, "%s is used" % what, st.trace())


def check_exterior(cx):
    collecting(cx, "exteriorConsistent", lambda eng, s, f, i, c: tm.bnot(mk("app", "hasEqualityN", eng.elem(s, fld(this_init(f), "prefixes"), i), ty="bool")),
               lambda eng, s, f, i, c: True)
    cx.need(6, "rows moved to P", "moves")


def collecting(cx, name, due, fine):
    """collects the continuous successors of rows of P that are not in P and for which `due` holds, and moves each of them to P"""
    f = cx.prog.find(OT + "::" + name)
    me = this_init(f)
    P = fld(me, "pIndices")
    fr = Moves(cx, f)

    def push(eng, st, l, v):
        if l.a[0].op != "var" or l.a[1]:
            return None
        x = appended(eng, st, l, v)
        if x is None or x is RESET:
            return RESET if l in fr.locs and eng.read(st, l) is not v else None
        if x.op != "mget" or x.a[0] is not fld(me, "continuousSuccessors"):
            return None
        fr.locs.add(l)
        return x

    def want(eng, s, ix, x):
        i = mk("key", P, ix[0])
        if not eng.same(s, x, succ_of(eng, s, f, i)):
            return "row %s is collected" % tm.show(x, 5)
        for z in eng.assume(s, tm.bor(eng.has(s, P, x), tm.bnot(due(eng, s, f, i, x)))):
            return "the successor of %s is collected though it need not be moved" % tm.show(i)
        return None

    def cond(eng, s, ix):
        i = mk("key", P, ix[0])
        c = succ_of(eng, s, f, i)
        return tm.band(tm.bnot(eng.has(s, P, c)), due(eng, s, f, i, c))

    def moved(eng, st, l, v):
        return v.a[1] if l.a[0].op == "moveToP" else None

    def todo(eng, st):
        if len(fr.locs) != 1:
            raise TooComplex("rows are collected in %d places" % len(fr.locs))
        return eng.read(st, next(iter(fr.locs)))
    rules = [Rule("collect", [lambda eng, st, ix: [(st, en.size(P))]], push, want, cond, "rows to be moved"),
             Rule("move", [lambda eng, st, ix: [(st, en.size(todo(eng, st)))]], moved,
                  lambda eng, s, ix, x: None if eng.same(s, x, eng.elem(s, todo(eng, s), ix[0], "nat")) else "row %s is moved" % tm.show(x, 5), what="rows moved to P")]

    def at_end(eng, s, k, v):
        if k == "t":
            return
        did = s.ghost.get("did")
        n = en.size(todo(eng, s))
        r = eng.simp(s, v)
        ok = r is True and implied(eng, s, tm.numeq(n, num(0))) and not did or r is False and implied(eng, s, tm.lt(num(0), n))
        cx.ob("moves", f.where(), ok, "answers %s with %s rows to be moved" % (tm.show(v), tm.show(n)), s.trace(), "answer")
        fr.end(eng, [(s, k, v)])

    class C(searching(fr)):
        def on_back(self, eng, st, key, head):
            if self.serve and self.serve["collect"][0] == self.stack(st)[:1] == (lkey(key),):
                i = mk("key", P, st.ghost["p:0"])
                c = succ_of(eng, st, f, i)
                for z in eng.assume(st, tm.band(tm.bnot(eng.has(st, P, c)), tm.bnot(due(eng, st, f, i, c)))):
                    if not fine(eng, z, f, i, c):
                        cx.ob("moves", f.where(), False, "the successor of %s need not be moved, but is not remembered that way" % tm.show(i), z.trace(), "kept")
            return Nest.on_back(self, eng, st, key, head)
    st = St(ghost={"did": False, "dirty": False})
    check_nest(cx, f, rules, lambda mon: engine(cx, table_prims(), mon, unroll=0), st=st, at_end=at_end, rule="moves", nest=C)


def check_saturate(cx):
    NONE_RENAMED = en.EMPTY

    def top(eng, s, f, i, c):
        """the rows agree without any equality between their clocks"""
        r = rows_of(c, i)
        return tm.band(mk("engaged", r, ty="bool"), tm.bor(tm.numeq(en.size(mk("optval", r)), num(0)), Rows(eng, f).test(s, c, i, NONE_RENAMED)))

    def alone(eng, s, f, i, c):
        m = eng.mget(s, eng.read(s, this_loc(f, "closedRelation")), c)
        while m.op == "mput" and m.a[0].op == "mput" and m.a[0].a[1] is m.a[1]:
            m = mk("mput", m.a[0].a[0], m.a[1], m.a[2])
        return m.op == "mput" and m.a[0].op in ("mempty",) and eng.same(s, m.a[1], i) and implied(eng, s, tm.numeq(en.size(m.a[2]), num(0)))
    collecting(cx, "timeSaturate", lambda eng, s, f, i, c: tm.bnot(top(eng, s, f, i, c)), alone)
    cx.need(6, "rows moved to P", "moves")
