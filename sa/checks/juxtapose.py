"""Juxtaposed zones: two conditions side by side, possibly sharing variables, and equalities between their variables."""
from .conditions import *
from .constraints import elem_of
from .regional import either, app, p_app, p_assign

JZ = "learnta::JuxtaposedZone"
JS = "learnta::JuxtaposedZoneSet"


def block(i, lo, hi):
    return tm.band(tm.le(lo, i), tm.lt(i, hi))


def plain_want(a, b):
    """the matrix of two conditions without common variables before closing"""
    N = rows(a)
    n = tm.sub(tm.add(rows(a), rows(b)), num(1))
    bi = lambda i: tm.ite(tm.numeq(i, num(0)), num(0), tm.add(tm.sub(i, N), num(1)))

    def want(i, j):
        inb = lambda x: tm.bor(tm.numeq(x, num(0)), tm.le(N, x))
        return tm.ite(tm.band(tm.lt(i, N), tm.lt(j, N)), cell(a, i, j), tm.ite(tm.band(inb(i), inb(j)), cell(b, bi(i), bi(j)), NOB))
    return tm.lam(n, n, want)


def stored(eng, s):
    """[(key, value)] of what the function leaves in its tables; key None if that is not followed"""
    out = []
    for (r, v) in s.mem.items():
        if r.op == "static":
            while v.op in ("mput", "mdef"):
                out.append((v.a[1], v.a[2]))
                v = v.a[0]
            if v.op != "init":
                out.append((None, v))
    return out


def leaves(t):
    """what a key built of pairs and tuples consists of"""
    if t.op == "rec":
        return [y for (_, x) in t.a[1] for y in leaves(x)]
    return [t]


def determined(key, args):
    """the key tells all arguments apart"""
    ls = leaves(key)
    return all(any(x is a for x in ls) for a in args)


def remembered(eng, s, got):
    """the entry of a table the matrix is, unchanged"""
    for x in tm.subterms(got):
        if x.op == "mget" and x.a[0].op == "init" and x.a[0].a[0].op == "static":
            return x if got is x or not got.op == "mclose" and difference(eng, s, got, x) is None else None
    return None


def through_memo(cx, rule, f, run, args, compare, what):
    """every result is either the value computed or what the table holds for these arguments, and the table only ever
    gets values computed for the arguments it is keyed with"""
    for (eng, s, got) in run:
        hit = remembered(eng, s, got)
        if hit is not None:
            cx.ob(rule, f.where(), determined(hit.a[1], args), "%s: remembered values are looked up under %s" % (what, tm.show(hit.a[1], 5)), s.trace())
        else:
            compare(eng, s, got, what)
    for (eng, s, key, v) in [(e, s, k, v) for (e, s, got) in run for (k, v) in stored(e, s)]:
        ok = key is not None and determined(key, args)
        cx.ob(rule, f.where(), ok, "%s: remembered under %s" % (what, tm.show(key, 5) if key is not None else "an unknown key"), s.trace())
        if ok:
            compare(eng, s, v, what + " remembered")


def check_ctor_plain(cx):
    f = cx.prog.find(JZ + "::<ctor>", 2)
    eng = cx.engine(prims(), Mon())
    a, b = fld(arg(f, 0), "value"), fld(arg(f, 1), "value")
    want = plain_want(a, b)

    def compare(eng, s, got, what):
        matches(cx, "juxtapose", f, eng, s, got, want, what, only=offdiag, closed=True)
    runs = []
    for s0 in cut(eng, [St()], at_least(a), at_least(b)):
        for (s, k, v) in cx.run(eng, f, st=s0):
            runs.append((eng, s, this_mat(eng, s, f)))
            for (nm, m) in (("leftSize", a), ("rightSize", b)):
                x = fld(eng.read(s, this_loc(f)), nm, ty="int")
                cx.ob("sizes", f.where(), implied(eng, s, tm.numeq(x, count(m))), "%s is %s" % (nm, tm.show(x, 5)), s.trace())
    through_memo(cx, "juxtapose", f, runs, (arg(f, 0), arg(f, 1)), compare, "the juxtaposition")
    cx.need(2, "juxtaposition", "juxtapose")
    cx.need(2, "sizes of a juxtaposition", "sizes")


def check_ctor_common(cx):
    either(cx, [lambda c: ctor_common(c, True), lambda c: ctor_common(c, False)])


def ctor_common(cx, capped):
    f = cx.prog.find(JZ + "::<ctor>", 3)
    eng = cx.engine(prims(), Mon())
    a, b = fld(arg(f, 0), "value"), fld(arg(f, 1), "value")
    L = argv(f, 2)
    M, N = count(a), count(b)

    def want(i, j):
        z = lambda x: tm.numeq(x, num(0))
        ina = lambda x: tm.le(x, M)
        own = lambda x: tm.lt(M, x)
        com = lambda x: tm.lt(tm.sub(M, L), x)                  # common or of the right part only
        bi = lambda x: tm.ite(com(x), tm.ite(own(x), tm.sub(x, M), tm.add(tm.sub(x, M), N)), num(0))
        inb = lambda x: tm.bor(z(x), com(x))
        A, B = cell(a, i, j), cell(b, bi(i), bi(j))
        la, lb = tm.band(ina(i), ina(j)), tm.band(inb(i), inb(j))
        cross = lambda x, y: tm.band(own(x), com(y), ina(y))
        # no bound is above the one that means unbounded: both forms say the same
        B1 = tm.ite(tm.bor(cross(i, j), cross(j, i)), pmin(NOB, B), B) if capped else B
        return tm.ite(la, tm.ite(lb, tm.ite(tm.band(z(i), z(j)), A, pmin(A, B)), A), tm.ite(lb, B1, NOB))
    n = tm.sub(tm.add(rows(a), rows(b)), tm.add(L, num(1)))
    w = tm.lam(n, n, want)

    def compare(eng, s, got, what):
        matches(cx, "juxtapose-common", f, eng, s, got, w, what, only=offdiag, closed=True)
    runs = []
    for s0 in cut(eng, [St()], at_least(a), at_least(b), tm.le(num(0), L), tm.le(L, count(a)), tm.le(L, count(b))):
        # closing on the way adds nothing: constraints are only added afterwards, and closed at the end
        tm.THROUGH_CLOSURE[0] = True
        try:
            ends = cx.run(eng, f, st=s0)
        finally:
            tm.THROUGH_CLOSURE[0] = False
        for (s, k, v) in ends:
            runs.append((eng, s, this_mat(eng, s, f)))
            for (nm, m) in (("leftSize", a), ("rightSize", b)):
                x = fld(eng.read(s, this_loc(f)), nm, ty="int")
                cx.ob("sizes", f.where(), implied(eng, s, tm.numeq(x, count(m))), "%s is %s" % (nm, tm.show(x, 5)), s.trace())
    through_memo(cx, "juxtapose-common", f, runs, (arg(f, 0), arg(f, 1), L), compare, "the juxtaposition with common variables")
    cx.need(2, "juxtaposition with common variables", "juxtapose-common")


CLOSING = mk("closing")


def p_closing(eng, st, ol, args, e, fr):
    s = st.copy()
    eng.write(s, loc(CLOSING), eng.argval(st, args[0]))
    return [(s, VOID)]


def p_closing_all(eng, st, ol, args, e, fr):
    s = st.copy()
    eng.write(s, loc(CLOSING), mk("all"))
    return [(s, VOID)]


class Equalities(Nest):
    """early: closing through some clocks may come before further constraints"""
    early = False

    def no_acc(self, eng, st, key):
        return True

    def pkey(self, s):
        return Nest.pkey(self, s) + (s.ghost.get("cl"),)

    def on_write(self, eng, st, l, v):
        if l.a[0] is CLOSING:
            st.ghost["cl"] = "all" if v.op == "all" else "some"
        elif l.a[0].op == "this":
            if st.ghost.get("cl") is not None and not self.early:
                self.bad.append(("lr", "a constraint is added after closing", st))
            st.ghost["cl"] = None
        elif l.a[0].op == "var" and v.op == "seq":
            self.lists.add(l.a[0])
        Nest.on_write(self, eng, st, l, v)


def add_renaming(cx, how):
    f = cx.prog.find(JZ + "::addRenaming")
    me = this_init(f)
    R = arg(f, 0)
    LS = fld(me, "leftSize", ty="int")
    lists = set()
    cnt = lambda c: (lambda eng, st, ix: [(st, en.size(c))])

    def at(eng, s, k):
        r = eng.elem(s, R, k)
        return tm.add(tm.getf(r, "first", "nat"), num(1)), tm.add(tm.add(tm.getf(r, "second", "nat"), LS), num(1))

    def ev_cell(eng, st, l, v):
        if l.a[0].op != "this" or l.a[1][:1] != (F("value"),):
            return None
        if len(l.a[1]) < 2 or l.a[1][1].op != "C":
            return RESET
        return (l, v) if len(l.a[1]) == 2 else RESET

    def want_cell(swap):
        def want(eng, s, ix, pay):
            l, v = pay
            i, j = at(eng, s, ix[0])[::-1 if swap else 1]
            c = l.a[1][1]
            if not (implied(eng, s, tm.numeq(c.a[0], i)) and implied(eng, s, tm.numeq(c.a[1], j))):
                return "the entry changed is (%s, %s)" % (tm.show(c.a[0], 5), tm.show(c.a[1], 5))
            old = eng.read(s, l)
            for (z, (x, y)) in eng.splits(s, (v, pmin(old, LE0))):
                if not eig.equal_value(eng, z, x, y):
                    return "the bound becomes %s" % tm.show(v, 6)
            return None
        return want

    def ev_push(eng, st, l, v):
        if l.a[0].op == "var" and l.a[0] in lists and not l.a[1]:
            return appended(eng, st, l, v)

    def want_index(n):
        def want(eng, s, ix, pay):
            return None if implied(eng, s, tm.numeq(pay, at(eng, s, ix[0])[n])) else "the clock is %s" % tm.show(pay, 6)
        return want

    def ev_close(eng, st, l, v):
        return v if l.a[0] is CLOSING and v.op != "all" else None

    def lv_list(eng, st, ix):
        vs = [st.mem[r] for r in lists if r in st.mem]
        if len(vs) != 1:
            raise TooComplex("%d lists of clocks to close through" % len(vs))
        return [(st, en.size(vs[0]))]

    def want_close(eng, s, ix, pay):
        v = [s.mem[r] for r in lists if r in s.mem][0]
        return None if implied(eng, s, tm.numeq(pay, eng.elem(s, v, ix[0]))) else "closed through %s" % tm.show(pay, 6)
    rules = [Rule("lr", [cnt(R)], ev_cell, want_cell(False), what="the equalities (first bound)"),
             Rule("rl", [cnt(R)], ev_cell, want_cell(True), what="the equalities (second bound)")]
    if how == "list":
        rules += [Rule("left", [cnt(R)], ev_push, want_index(0), what="the left clocks to close through"),
                  Rule("right", [cnt(R)], ev_push, want_index(1), what="the right clocks to close through"),
                  Rule("close", [lv_list], ev_close, want_close, what="closing")]
    elif how == "each":
        rules += [Rule("left", [cnt(R)], ev_close, want_index(0), what="closing through the left clocks"),
                  Rule("right", [cnt(R)], ev_close, want_index(1), what="closing through the right clocks")]

    def mkeng(mon):
        # the same bookkeeping on a monitor of the nest kind
        mon.__class__ = Equalities
        mon.lists, mon.early = lists, how == "each"
        return cx.engine({Z + "::close1": p_closing, Z + "::canonize": p_closing_all}, mon, unroll=0)

    def at_end(eng, s, k, v):
        g = s.ghost.get("cl")
        ok = g == "all" or how != "all" and g == "some" or all(implied(eng, s, tm.numeq(en.size(R), num(0))) for _ in (0,))
        cx.ob("equalities", f.where(), ok, "the zone is not closed after adding equalities", s.trace())
    check_nest(cx, f, rules, mkeng, at_end=at_end, rule="equalities")


def check_add_renaming(cx):
    either(cx, [lambda c: add_renaming(c, "list"), lambda c: add_renaming(c, "all"), lambda c: add_renaming(c, "each")])
    cx.need(3, "equalities between juxtaposed variables", "equalities")


def check_make_renaming(cx):
    f = cx.prog.find(JZ + "::makeRenaming")
    me = this_init(f)
    m = fld(me, "value")
    LS, RS = fld(me, "leftSize", ty="int"), fld(me, "rightSize", ty="int")

    def ev(eng, st, l, v):
        if l.a[0].op == "var" and not l.a[1] and v.op == "seq":
            return appended(eng, st, l, v)

    def want(eng, s, ix, pay):
        for (n, w) in (("first", ix[0]), ("second", ix[1])):
            x = tm.getf(pay, n, "nat")
            if not implied(eng, s, tm.numeq(x, w)):
                return "the %s variable is %s" % (n, tm.show(x, 6))
        z, _ = equal_here(eng, s, ix)
        return None if z else "the variables need not be equal"

    def cond(eng, s, ix):
        i, j = tm.add(ix[0], num(1)), tm.add(tm.add(ix[1], LS), num(1))
        return tm.band(eig.celleq(cell(m, i, j), LE0), eig.celleq(cell(m, j, i), LE0))

    def equal_here(eng, s, ix):
        return implied(eng, s, cond(eng, s, ix)), None
    rules = [Rule("pair", [lambda e, s, ix: [(s, LS)], lambda e, s, ix: [(s, RS)]], ev, want, cond, "the pairs of equal variables")]
    for s0 in cut(cx.engine(prims(), Mon()), [St()], tm.le(num(0), LS), tm.le(num(0), RS)):
        check_nest(cx, f, rules, lambda mon: cx.engine(prims(), mon, unroll=0), st=s0, rule="pairs")
    cx.need(2, "pairs of equal variables", "pairs")


def check_get_right(cx):
    f = cx.prog.find(JZ + "::getRight")
    me = this_init(f)
    m = fld(me, "value")
    LS, RS = fld(me, "leftSize", ty="int"), fld(me, "rightSize", ty="int")
    eng = cx.engine(prims(), Mon())
    n = tm.add(RS, num(1))
    ri = lambda i: tm.ite(tm.numeq(i, num(0)), num(0), tm.add(i, LS))
    for s0 in cut(eng, [St()], tm.le(num(0), LS), tm.le(num(0), RS), tm.numeq(rows(m), tm.add(tm.add(LS, RS), num(1)))):
        for (s, k, v) in cx.run(eng, f, st=s0):
            matches(cx, "right-part", f, eng, s, fld(deref(eng, s, v), "value"), tm.lam(n, n, lambda i, j: cell(m, ri(i), ri(j))), "the right part", only=offdiag, closed=True)
    cx.need(1, "right part", "right-part")


# ---------------------------------------------------------------- sets
def p_juxt(eng, st, ol, args, e, fr):
    if len(args) not in (2, 3):
        return None
    return [(st, app("jz%d" % len(args), *[eng.argval(st, a) for a in args]))]


def set_prims():
    P = {JZ + "::<ctor>": p_juxt, JZ + "::addRenaming": p_assign("jz.addRenaming")}
    P[Z + "::isSatisfiableNoCanonize"] = p_app("jz.satisfiable", "bool")
    P[Z + "::strictEqual"] = p_app("jz.strictEqual", "bool")
    return P


def check_set_ctor(cx):
    zone = lambda c: fld(c, "zone")
    for f in cx.prog.find_all(JS + "::<ctor>"):
        if len(f.params) < 2:
            continue
        set_first = "Set" in f.params[0]["t"]
        S = fld(arg(f, 0 if set_first else 1), "conditions")
        c = arg(f, 1 if set_first else 0)

        def at(eng, s, K):
            x, y = (eng.elem(s, S, K), c) if set_first else (c, eng.elem(s, S, K))
            return app("jz%d" % len(f.params), zone(x), zone(y), *([argv(f, 2)] if len(f.params) == 3 else []))
        eng = cx.engine(set_prims(), Mon())
        for (s, k, v) in cx.run(eng, f):
            got = fld(eng.read(s, this_loc(f)), "zones")
            m = each_is(eng, s, got, en.size(S), at)
            cx.ob("set-juxtapose", f.where(), k == "r" and m is None, m or "", s.trace())
    cx.need(3, "juxtapositions with sets", "set-juxtapose")


def each_is(eng, s, got, n, at, *marks):
    if not implied(eng, s, tm.numeq(en.size(got), n)):
        return "%s zones instead of %s" % (tm.show(en.size(got)), tm.show(n))
    K = mk("sym", "%K", ty="nat")
    for z in eng.assume(s, tm.lt(K, n)):
        for z1 in cases(eng, z, *[c for p in marks for c in (tm.lt(K, p), tm.lt(p, K))]):
            for (z2, (x, y)) in eng.splits(z1, (eng.elem(z1, got, K), at(eng, z1, K))):
                if not eng.same(z2, x, y):
                    return "zone %s is %s instead of %s" % (tm.show(K), tm.show(x, 5), tm.show(y, 5))
    return None


class Filter(Mon):
    """elements are updated one after the other and kept exactly when the condition holds of them"""

    def __init__(self, get, update, keep):
        self.get, self.update, self.keep = get, update, keep
        self.bad = []
        self.loops = set()

    def no_acc(self, eng, st, key):
        return True

    def pkey(self, s):
        return (s.ghost.get("act"), s.ghost.get("did"))

    def on_enter(self, eng, st, key):
        if st.ghost.get("act"):
            return st
        st = st.copy()
        st.ghost["act"] = str(key)
        st.ghost["V"] = self.get(eng, st)
        st.ghost["p"] = num(0)
        return st

    def on_back(self, eng, st, key, head):
        g = st.ghost
        if g.get("act") != str(key):
            return st
        V, p = g["V"], g["p"]
        W = self.get(eng, st)
        st = st.copy()
        if W is V:
            g = st.ghost
            return st
        self.loops.add(str(key))
        x = self.update(eng, st, eng.elem(st, V, p))
        kp = eng.simp(st, self.keep(x))
        if kp is None:
            self.bad.append(("an element is handled before its condition is known", st))
        elif kp:
            m = each_is(eng, st, W, en.size(V), lambda e, s, K: x if implied(e, s, tm.numeq(K, p)) else e.elem(s, V, K), p)
            if m:
                self.bad.append(("when an element is kept: " + m, st))
            st.ghost["p"] = tm.add(p, num(1))
        else:
            m = each_is(eng, st, W, tm.sub(en.size(V), num(1)), lambda e, s, K: e.elem(s, V, K) if implied(e, s, tm.lt(K, p)) else e.elem(s, V, tm.add(K, num(1))), p)
            if m:
                self.bad.append(("when an element is dropped: " + m, st))
        st.ghost["V"] = W
        return st

    def on_exit(self, eng, st, key, kind):
        g = st.ghost
        if g.get("act") != str(key):
            return st
        st = st.copy()
        if str(key) in self.loops:
            st.ghost["did"] = TRUE
            if kind == "n" and not implied(eng, st, tm.le(en.size(self.get(eng, st)), g["p"])):
                self.bad.append(("elements after %s are left as they are" % tm.show(g["p"]), st))
        for n in ("act", "V", "p"):
            st.ghost.pop(n, None)
        return st


def set_renaming_one_by_one(cx):
    f = cx.prog.find(JS + "::addRenaming")
    R = arg(f, 0)
    mon = Filter(lambda eng, st: eng.read(st, this_loc(f, "zones")), lambda eng, st, x: app("jz.addRenaming", x, R),
                 lambda x: app("jz.satisfiable", x, ty="bool"))
    eng = cx.engine(set_prims(), mon, unroll=0)
    ends = cx.run(eng, f)
    if not mon.loops and not mon.bad:
        raise TooComplex("no loop over the zones")
    cx.ob("set-renaming", f.where(), not mon.bad, mon.bad[0][0] if mon.bad else "", mon.bad[0][1].trace() if mon.bad else ())


def set_renaming_at_once(cx):
    """all zones are updated, then those that do not satisfy the condition are removed"""
    f = cx.prog.find(JS + "::addRenaming")
    R = arg(f, 0)
    eng = cx.engine(set_prims(), Mon(), unroll=0)
    V = fld(this_init(f), "zones")
    ev = mk("elemvar")
    for (s, k, v) in cx.run(eng, f):
        ps = en.parts(fld(eng.read(s, this_loc(f)), "zones"))
        if len(ps) != 1 or ps[0].op != "filter":
            raise TooComplex("the zones are %s" % tm.show(fld(eng.read(s, this_loc(f)), "zones"), 4))
        m = each_is(eng, s, ps[0].a[0], en.size(V), lambda e, z, K: app("jz.addRenaming", e.elem(z, V, K), R))
        cx.ob("set-renaming", f.where(), m is None, m or "", s.trace())
        cx.ob("set-renaming", f.where(), eqv(eng, s, ps[0].a[1], app("jz.satisfiable", ev, ty="bool")), "kept are those with %s" % tm.show(ps[0].a[1], 5), s.trace())


def check_set_renaming(cx):
    either(cx, [set_renaming_one_by_one, set_renaming_at_once])
    cx.need(1, "equalities added to a set", "set-renaming")


def every_some(eng, z, b, L, R, rel):
    """b: every element of L is related to one of R; message or None"""
    K, J = mk("sym", "K", ty="nat"), mk("sym", "J", ty="nat")
    isrel = lambda z2, u, x: u.op == "app" and eng.same(z2, rel(u.a[1], u.a[2]), u) and eng.same(z2, u.a[1], x) and elem_of(eng, z2, u.a[2], R)
    if b:
        for z1 in eng.assume(z, tm.lt(K, en.size(L))):
            for z2 in eng.inst(z1, K):
                if not any(isrel(z2, u, eng.elem(z2, L, K)) for u in z2.facts if u.op == "app"):
                    return "accepts although an element may be related to none"
        return None
    idx = sorted({x for q in z.facts for x in tm.subterms(q) if x.op in ("phi", "at") and x.ty} | {num(0)}, key=lambda q: q.h)
    for i in idx:
        if not implied(eng, z, tm.lt(i, en.size(L))):
            continue
        zs = [z2 for z1 in eng.assume(z, tm.lt(J, en.size(R))) for z2 in eng.inst(z1, J)]
        if all(eng.simp(z2, rel(eng.elem(z2, L, i), eng.elem(z2, R, J))) is False for z2 in zs):
            return None
    return "rejects although every element may be related to one"


def check_set_equal(cx):
    rel = lambda x, y: app("jz.strictEqual", x, y, ty="bool")
    for nm in ("operator==", "operator!="):
        f = cx.prog.find(JS + "::" + nm)
        eng = cx.engine(set_prims(), Mon(), unroll=0)
        A, B = fld(this_init(f), "zones"), fld(arg(f, 0), "zones")
        n = tm.numeq(en.size(A), en.size(B))
        for (s0, k, v) in cx.run(eng, f):
            for (s1, e) in eng.branch(s0, n):
                for (s, b) in eng.branch(s1, eng.truth(v)):
                    if nm == "operator!=":
                        b = not b
                    if not e:
                        cx.ob("set-equal", f.where(), not b, "sets of different size are equal", s.trace())
                        continue
                    ms = [every_some(eng, s, b, x, y, r) for (x, y) in ((A, B), (B, A)) for r in (rel,)]
                    m = None if None in ms else ms[0]
                    cx.ob("set-equal", f.where(), m is None, m or "", s.trace())
    cx.need(6, "equality of sets of zones", "set-equal")
