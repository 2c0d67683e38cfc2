"""Constructions on timed automata."""
from .util import *
from .nest import *
from ..terms import T as Term

UNOBS = num(0)


def pair(a, b):
    return tm.rec("pair", {"first": a, "second": b})


def obj(p, *fs):
    return loc(mk("obj", p), *[F(x) for x in fs])


def rd(eng, st, p, *fs, ty=None):
    return eng.read(st, obj(p, *fs), ty)


def transitions(eng, st, state, c):
    """[(st, transitions of a state for an action)] (none if the action is not there)"""
    m = rd(eng, st, state, "next")
    return [(z, eng.mget(z, m, c) if b else en.EMPTY) for (z, b) in eng.branch(st, eng.has(st, m, c))]


def shifted_guard(n):
    return lambda g: tm.setf(g, "x", tm.add(tm.getf(g, "x", "nat"), n))


def shifted_reset(n):
    def f(r):
        r1 = tm.setf(r, "first", tm.add(tm.getf(r, "first", "nat"), n))
        v = tm.getf(r, "second")
        ren = mk("vrec", num(1), tm.add(mk("vget", num(1), v, ty="nat"), n))
        return tm.ite(tm.numeq(mk("vidx", v, ty="nat"), num(1)), tm.setf(r1, "second", ren), r1)
    return f


def same_(f):
    return lambda x: x


def appended(eng, st, l, v):
    """the element this write adds at the end of the sequence at l; RESET if it does anything else to the sequence"""
    old = eng.read(st, l)
    if v is old or eng.same(st, v, old):
        return None
    if implied(eng, st, tm.numeq(en.size(v), tm.add(en.size(old), num(1)))):
        x = v.a[-1].a[0] if v.op == "seq" and v.a and v.a[-1].op == "one" else eng.elem(st, v, en.size(old))
        if eng.same(st, v, en.append(old, x)):
            return x
    return RESET


def check_intersection(cx):
    f = cx.prog.find("learnta::intersectionTA")
    A, B, OUT, MAP = (mk("argobj", n, f.params[n]["n"]) for n in range(4))
    a, b = mk("init", A), mk("init", B)
    SA, SB = fld(a, "states"), fld(b, "states")
    n1 = en.size(fld(a, "maxConstraints"))
    cnt = lambda c: (lambda eng, st, ix: [(st, en.size(c))])
    st_of = lambda eng, s, ix: (eng.elem(s, SA, ix[0]), eng.elem(s, SB, ix[1]))
    prod = lambda eng, s, p, q: eng.mget(s, eng.read(s, loc(MAP)), pair(p, q))

    # -- states
    def ev_state(eng, st, l, v):
        if l.a[0] is MAP and len(l.a[1]) == 1 and l.a[1][0].op == "M":
            if st.ghost.get("pend") is v:
                st.ghost.pop("pend")
            return (l.a[1][0].a[0], v)

    def want_state(eng, s, ix, pay):
        p, q = st_of(eng, s, ix)
        if not eng.same(s, pay[0], pair(p, q)):
            return "the product state is registered for %s" % tm.show(pay[0], 4)
        if pay[1].op != "ref":
            return "the registered state is %s" % tm.show(pay[1], 4)
        m = fld(eng.read(s, pay[1].a[0]), "isMatch", ty="bool")
        w = tm.band(eng.truth(rd(eng, s, p, "isMatch", ty="bool")), eng.truth(rd(eng, s, q, "isMatch", ty="bool")))
        return None if eqv(eng, s, eng.truth(m), w) else "acceptance is %s" % tm.show(m, 5)

    def ev_list(fl):
        def ev(eng, st, l, v):
            if l.a[0] is OUT and l.a[1] == (F(fl),):
                return appended(eng, st, l, v)
        return ev

    listed_ = ev_list("states")

    def ev_listed(eng, st, l, v):
        x = listed_(eng, st, l, v)
        if isinstance(x, Term) and fresh(x) and "pend" not in st.ghost:
            st.ghost["pend"] = x     # it has to be registered before the iteration ends
            if any(x is y for y in registered(eng, st)):
                st.ghost.pop("pend")
        return x

    def fresh(x):
        return x.op == "ref" and x.a[0].a[0].op in ("obj", "heap")

    def registered(eng, st):
        m = eng.read(st, loc(MAP))
        while m.op in ("mput", "mdef"):
            yield m.a[2]
            m = m.a[0]

    class Prod(Nest):
        def pkey(self, s):
            return Nest.pkey(self, s) + (s.ghost.get("pend"),)

        def on_back(self, eng, st, key, head):
            if "pend" in st.ghost:
                self.bad.append(("listed", "%s: the state listed is not the one registered for the pair" % "the list of product states", st))
                st = st.copy()
                st.ghost.pop("pend")
            return Nest.on_back(self, eng, st, key, head)

    def want_listed(eng, s, ix, pay):
        p, q = st_of(eng, s, ix)
        if s.ghost.get("pend") is pay:
            return None
        return None if eng.same(s, pay, prod(eng, s, p, q)) else "the state listed is %s" % tm.show(pay, 5)

    IA, IB = fld(a, "initialStates"), fld(b, "initialStates")

    def want_init(eng, s, ix, pay):
        return None if eng.same(s, pay, prod(eng, s, eng.elem(s, IA, ix[0]), eng.elem(s, IB, ix[1]))) else "the initial state listed is %s" % tm.show(pay, 5)

    # -- transitions
    def ev_next(eng, st, l, v):
        p = l.a[1]
        if l.a[0].op == "obj" and p == (F("next"),):
            old = eng.read(st, l)
            return None if v is old or v.op in ("mdef", "mput") and v.a[0] is old and v.a[2] is en.EMPTY else RESET
        if l.a[0].op == "obj" and len(p) >= 2 and p[0] == F("next") and p[1].op == "M":
            x = appended(eng, st, l, v)
            return (l.a[0].a[0], p[1].a[0], x) if x is not None and x is not RESET else x

    def cmp_tr(eng, s, pay, src, c, e1, e2, tgt):
        if not eng.same(s, pay[0], prod(eng, s, *src)):
            return "the transition starts in %s" % tm.show(pay[0], 5)
        if not implied(eng, s, tm.numeq(pay[1], c)) and not eng.same(s, pay[1], c):
            return "the transition is labelled %s" % tm.show(pay[1], 5)
        t = pay[2]
        if not eng.same(s, fld(t, "target"), prod(eng, s, *tgt)):
            return "the target is %s" % tm.show(fld(t, "target"), 6)
        g = [(fld(e1, "guard"), same_(0))] if e1 is not None else []
        r = [(fld(e1, "resetVars"), same_(0))] if e1 is not None else []
        if e2 is not None:
            g.append((fld(e2, "guard"), shifted_guard(n1)))
            r.append((fld(e2, "resetVars"), shifted_reset(n1)))
        for (w, v, parts) in (("guard", fld(t, "guard"), g), ("resets", fld(t, "resetVars"), r)):
            if v.op == "phi":
                raise TooComplex("the %s of a product transition are not followed" % w)
            m = seq_is(eng, s, v, parts)
            if m:
                return "%s: %s" % (w, m)
        return None

    def lv_tr(side, c):
        def f(eng, st, ix):
            return [(z, en.size(t)) for (z, t) in transitions(eng, st, st_of(eng, st, ix)[side], c)]
        return f

    def tr(eng, s, p, c, k):
        return eng.elem(s, eng.mget(s, rd(eng, s, p, "next"), c), k)

    nonnull = lambda e: tm.bnot(tm.veq(fld(e, "target"), NULL))

    def want_eps(side):
        def f(eng, s, ix, pay):
            p, q = st_of(eng, s, ix)
            e = tr(eng, s, (p, q)[side], UNOBS, ix[2])
            t = fld(e, "target")
            return cmp_tr(eng, s, pay, (p, q), UNOBS, e if side == 0 else None, e if side == 1 else None, (t, q) if side == 0 else (p, t))
        return f

    def cond_eps(side):
        return lambda eng, s, ix: nonnull(tr(eng, s, st_of(eng, s, ix)[side], UNOBS, ix[2]))

    def sync(eng, s, ix):
        p, q = st_of(eng, s, ix)
        c = mk("key", rd(eng, s, p, "next"), ix[2])
        return p, q, c

    def lv_keys(eng, st, ix):
        return [(st, en.size(rd(eng, st, st_of(eng, st, ix)[0], "next")))]

    def lv_sync(side):
        def f(eng, st, ix):
            p, q, c = sync(eng, st, ix)
            return [(z, en.size(t)) for (z, t) in transitions(eng, st, (p, q)[side], c)]
        return f

    def want_sync(eng, s, ix, pay):
        p, q, c = sync(eng, s, ix)
        e1, e2 = tr(eng, s, p, c, ix[3]), tr(eng, s, q, c, ix[4])
        return cmp_tr(eng, s, pay, (p, q), c, e1, e2, (fld(e1, "target"), fld(e2, "target")))

    def cond_sync(eng, s, ix):
        p, q, c = sync(eng, s, ix)
        return tm.band(nonnull(tr(eng, s, p, c, ix[3])), nonnull(tr(eng, s, q, c, ix[4])))

    ss = [cnt(SA), cnt(SB)]
    rules = [
        Rule("state", ss, ev_state, want_state, what="the states of the product"),
        Rule("listed", ss, ev_listed, want_listed, what="the list of product states"),
        Rule("initial", [cnt(IA), cnt(IB)], ev_list("initialStates"), want_init, what="the initial states of the product"),
        Rule("first", ss + [lv_tr(0, UNOBS)], ev_next, want_eps(0), cond_eps(0), "unobservable transitions of the first automaton"),
        Rule("second", ss + [lv_tr(1, UNOBS)], ev_next, want_eps(1), cond_eps(1), "unobservable transitions of the second automaton"),
        Rule("both", ss + [lv_keys, lv_sync(0), lv_sync(1)], ev_next, want_sync, cond_sync, "synchronised transitions"),
    ]

    def mkeng(mon):
        return cx.engine({}, mon, unroll=0, warm=True, lazymap=True, total=(MAP,))

    def at_end(eng, s, k, v):
        m = fld(eng.read(s, loc(OUT)), "maxConstraints")
        i0 = fld(mk("init", OUT), "maxConstraints")
        cx.ob("max-constants", f.where(), eng.same(s, m, en.concat(en.concat(i0, fld(a, "maxConstraints")), fld(b, "maxConstraints"))), "the maximum constants are %s" % tm.show(m, 5), s.trace())
    check_nest(cx, f, rules, mkeng, at_end=at_end, rule="product", strict=False, nest=Prod)


# ------------------------------------------------------------------ copies and complements
def check_copy(cx):
    f = cx.prog.find("learnta::TimedAutomaton::deepCopy")
    me = this_init(f)
    OUT, MAP = (mk("argobj", n, f.params[n]["n"]) for n in range(2))
    S, I = fld(me, "states"), fld(me, "initialStates")
    out = lambda eng, s, x: fld(eng.read(s, loc(OUT)), x)
    new = lambda eng, s, p: eng.mget(s, eng.read(s, loc(MAP)), p)

    def is_copy(eng, s, x, ix):
        p = eng.elem(s, S, ix[0])
        if x.op != "ref":
            return "the new state is %s" % tm.show(x, 5)
        o = eng.read(s, x.a[0])
        for (n, ty) in (("isMatch", "bool"), ("next", None)):
            a, b = fld(o, n, ty=ty), rd(eng, s, p, n, ty=ty)
            if not (eqv(eng, s, eng.truth(a), eng.truth(b)) if ty else eng.same(s, a, b)):
                return "%s of the new state is %s" % (n, tm.show(a, 5))

    def ev_copied(eng, st, l, v):
        if l.a[0] is OUT and l.a[1] == (F("states"),):
            return appended(eng, st, l, v)

    def want_copied(eng, s, ix, x):
        m = is_copy(eng, s, x, ix)
        if not m and s.ghost.get("mw") is not None and eng.same(s, s.ghost["mw"], ix[0]) and not eng.same(s, x, new(eng, s, eng.elem(s, S, ix[0]))):
            m = "the copy listed is not the copy remembered for the state"
        return m

    def ev_mapped(eng, st, l, v):
        if l.a[0] is MAP and len(l.a[1]) == 1 and l.a[1][0].op == "M":
            if v is eng.read(st, l):
                return None
            pos = st.ghost.get("p:0")
            if pos is not None:
                st.ghost["mw"] = pos
            return (l.a[1][0].a[0], v)

    def want_mapped(eng, s, ix, pay):
        if not eng.same(s, pay[0], eng.elem(s, S, ix[0])):
            return "the copy is remembered for %s" % tm.show(pay[0], 5)
        l = out(eng, s, "states")
        if implied(eng, s, tm.numeq(en.size(l), tm.add(ix[0], num(1)))):
            return None if eng.same(s, pay[1], eng.elem(s, l, ix[0])) else "the state remembered is %s" % tm.show(pay[1], 5)
        return is_copy(eng, s, pay[1], ix)

    def ev_initial(eng, st, l, v):
        if l.a[0] is OUT and l.a[1] == (F("initialStates"),):
            return appended(eng, st, l, v)

    def want_initial(eng, s, ix, x):
        return None if eng.same(s, x, new(eng, s, eng.elem(s, I, ix[0]))) else "the initial state listed is %s" % tm.show(x, 6)

    def ev_target(eng, st, l, v):
        if l.a[0].op == "obj" and len(l.a[1]):
            return (l, v, eng.read(st, l))

    def nextof(eng, st, ix):
        return rd(eng, st, eng.elem(st, out(eng, st, "states"), ix[0]), "next")

    def want_target(eng, s, ix, pay):
        (l, v, old) = pay
        p = l.a[1]
        if not eng.same(s, l.a[0].a[0], eng.elem(s, out(eng, s, "states"), ix[0])):
            return "a state changes that is no copy: %s" % tm.show(l, 6)
        if len(p) == 5 and p[1].op == "P" and p[2] == F("second"):
            at = implied(eng, s, tm.numeq(p[1].a[0], ix[1]))
            p = (p[0], p[1]) + p[3:]
        else:
            at = len(p) == 4 and p[1].op == "M" and eng.same(s, p[1].a[0], mk("key", nextof(eng, s, ix), ix[1]))
        if not (len(p) == 4 and p[0] == F("next") and p[3] == F("target")):
            return "a copy changes elsewhere: %s" % tm.show(l, 6)
        if not at or not implied(eng, s, tm.numeq(p[2].a[0], ix[2])):
            return "the target of %s changes" % tm.show(l, 6)
        w = new(eng, s, old)
        return None if eng.same(s, v, w) or eng.same(s, v, objptr(w)) else "the target is %s" % tm.show(v, 6)

    def lv_edges(eng, st, ix):
        n = nextof(eng, st, ix)
        return [(st, en.size(eng.mget(st, n, mk("key", n, ix[1]))))]
    n = lambda c: (lambda eng, st, ix: [(st, en.size(c))])
    rules = [Rule("copied", [n(S)], ev_copied, want_copied, what="copies of states"),
             Rule("mapped", [n(S)], ev_mapped, want_mapped, what="the copy of a state"),
             Rule("initial", [n(I)], ev_initial, want_initial, what="initial states of the copy"),
             Rule("targets", [lambda eng, st, ix: [(st, en.size(out(eng, st, "states")))], lambda eng, st, ix: [(st, en.size(nextof(eng, st, ix)))], lv_edges],
                  ev_target, want_target, what="targets of the copied transitions")]

    def at_end(eng, s, k, v):
        m = out(eng, s, "maxConstraints")
        cx.ob("max-constants", f.where(), eng.same(s, m, fld(me, "maxConstraints")), "the maximum constants of the copy are %s" % tm.show(m, 5), s.trace())
    i0 = mk("init", OUT)
    e0 = cx.engine({}, Mon())
    st = St()
    for n0 in ("states", "initialStates"):
        st = e0.assume(st, tm.numeq(en.size(fld(i0, n0)), num(0)))[0]
    check_nest(cx, f, rules, lambda mon: cx.engine({}, mon, unroll=0, warm=True, lazymap=True, total=(MAP,)), st=st, at_end=at_end, rule="copy", strict=False)
    cx.need(5, "copies of automata")


class Complete(Nest):
    """the letters of a state: what is missing when an iteration over a letter starts, what was asked when it ends"""
    letters = None

    def pkey(self, s):
        return Nest.pkey(self, s) + (s.ghost.get("half"), s.ghost.get("neg") is not None, s.ghost.get("plain"), s.ghost.get("brk"))

    def on_head(self, eng, st, key):
        n = len(self.stack(st))
        if n in (1, 2):
            st = st.copy()
            st.ghost["nx%d" % n] = rd(eng, st, self.state(eng, st), "next")
            for g in ("neg", "plain", "half") + (("brk",) if n == 1 else ()):
                st.ghost[g] = None
        return Nest.on_head(self, eng, st, key)

    def state(self, eng, st):
        return eng.elem(st, fld(eng.read(st, self.me), "states"), st.ghost["p:0"])

    def on_exit(self, eng, st, key, kind):
        n = len(self.stack(st))
        st = Nest.on_exit(self, eng, st, key, kind)
        if n == 2:
            st.ghost["brk"] = kind
        return st

    def on_back(self, eng, st, key, head):
        if self.serve is not None and len(self.stack(st)) == 2 and lkey(key) == self.serve["letters"][0][1]:
            m = self.finish(eng, st)
            if m:
                self.bad.append(("letters", m, st))
        return Nest.on_back(self, eng, st, key, head)


def renamed(eng, s, x, y):
    """the state with a value written in another way"""
    sub = lambda t: tm.subst(t, {x: y}) if isinstance(t, Term) else t
    out = []
    for z in eng.assume(s, tm.numeq(mk("size", x, ty="nat"), en.size(y))):
        z = z.copy()
        z.facts = frozenset(sub(t) for t in z.facts)
        z.ghost = {k: sub(v) for k, v in z.ghost.items()}
        out.append(z)
    return out


def unguarded(eng, s, X):
    """is there an unguarded transition among these? True, False or None (unknown)"""
    if implied(eng, s, tm.numeq(en.size(X), num(0))):
        return False
    g0 = lambda e: tm.numeq(en.size(fld(e, "guard")), num(0))
    for t in list(s.facts) + [u for k in s.dbm.m for u in k if u is not None]:
        for x in tm.subterms(t):
            if x.op == "elem" and x.a[0] is X and implied(eng, s, g0(x)) and implied(eng, s, tm.lt(x.a[1], en.size(X))):
                return True
    K = mk("sym", "%G", ty="nat")
    for z in eng.assume(s, tm.lt(K, en.size(X))):
        for z2 in eng.inst(z, K):
            if eng.assume(z2, g0(eng.elem(z2, X, K))):
                return None
    return False


def check_complete(cx):
    f = cx.prog.find("learnta::TimedAutomaton::makeComplete")
    me = this_loc(f)
    i0 = this_init(f)
    ABC = arg(f, 0)
    now = lambda eng, s, x: fld(eng.read(s, me), x)
    n0 = en.size(fld(i0, "states"))
    guard = lambda e: fld(e, "guard")

    def sink(eng, s):
        return eng.elem(s, now(eng, s, "states"), n0)

    def p_neg(eng, st, ol, args, e, fr):
        s = st.copy()
        r = mk("app", "negate", eng.argval(st, args[0]))
        s.ghost["neg"] = r
        return [(s, r)]

    def ev_sink(eng, st, l, v):
        if l.a[0] is me.a[0] and l.a[1] == (F("states"),):
            return appended(eng, st, l, v)

    def want_sink(eng, s, ix, x):
        if x.op != "ref":
            return "the state added is %s" % tm.show(x, 5)
        o = eng.read(s, x.a[0])
        if not implied(eng, s, tm.bnot(eng.truth(fld(o, "isMatch", ty="bool")))):
            return "the sink accepts"
        return None if implied(eng, s, tm.numeq(en.size(fld(o, "next")), num(0))) else "the sink has transitions"

    def ev_add(eng, st, l, v):
        p = l.a[1]
        if l.a[0].op != "obj" or not p:
            return None
        if p == (F("next"),):
            old = eng.read(st, l)
            return None if v is old or v.op in ("mdef", "mput") and v.a[0] is old and v.a[2] is en.EMPTY else RESET
        ptr = l.a[0].a[0]
        if p[0] == F("next") and len(p) == 2 and p[1].op == "M":
            x = appended(eng, st, l, v)
            if x is None or x is RESET:
                return x
            if eng.same(st, fld(x, "target"), NULL) or x.op == "dflt":
                st.ghost["half"] = "half"
                return None
            return (ptr, p[1].a[0], x)
        if p[0] == F("next") and len(p) == 4 and p[1].op == "M" and p[3].op == "F":
            if not st.ghost.get("half"):
                return (ptr, None, v)
            if p[3] != F("target"):
                raise TooComplex("a new transition is filled step by step")
            t = eng.read(st, mk("loc", l.a[0], p[:2]))
            if not implied(eng, st, tm.numeq(tm.add(p[2].a[0], num(1)), en.size(t))):
                return (ptr, None, v)
            st.ghost["half"] = None
            x = eng.elem(st, t, p[2].a[0])
            if x.op == "dflt":
                x = tm.setf(tm.setf(x, "guard", en.EMPTY), "resetVars", en.EMPTY)
            return (ptr, p[1].a[0], tm.setf(x, "target", v))
        return (ptr, None, v)

    def want_add(eng, s, ix, pay, k=None):
        ptr, c, x = pay
        if c is None:
            return "an existing transition or state changes"
        if not eng.same(s, ptr, eng.elem(s, now(eng, s, "states"), ix[0])):
            return "a transition is added to %s" % tm.show(ptr, 5)
        if not eng.same(s, c, eng.elem(s, ABC, ix[1], "int")) and not implied(eng, s, tm.numeq(c, eng.elem(s, ABC, ix[1], "int"))):
            return "a transition is added for %s" % tm.show(c, 5)
        t = fld(x, "target")
        w = sink(eng, s)
        if not eng.same(s, t, w) and not eng.same(s, t, objptr(w)):
            return "the target is %s" % tm.show(t, 6)
        if not implied(eng, s, tm.numeq(en.size(fld(x, "resetVars")), num(0))):
            return "the resets are %s" % tm.show(fld(x, "resetVars"), 5)
        if k is None:
            if s.ghost.get("neg") is not None or not implied(eng, s, tm.numeq(en.size(guard(x)), num(0))):
                return "the guard is %s" % tm.show(guard(x), 5)
            return None
        return None if eng.same(s, guard(x), eng.elem(s, s.ghost["neg"], k)) else "the guard is %s" % tm.show(guard(x), 5)

    def ev_plain(eng, st, l, v):
        r = ev_add(eng, st, l, v)
        if isinstance(r, tuple) and len(mon_stack(st)) == 2:
            st.ghost["plain"] = "yes"
        return r
    mon_stack = lambda st: st.ghost.get("stk") or ()

    def want_neg(eng, s, ix, pay):
        return want_add(eng, s, ix, pay, ix[2]) if s.ghost.get("neg") is not None else "a guard that is no part of a negation"

    def lists(eng, st):
        c = eng.elem(st, ABC, st.ghost["p:1"], "int")
        out = []
        for z in eng.assume(st, tm.bnot(tm.numeq(c, UNOBS))):
            nx, n1 = st.ghost["nx2"], st.ghost["nx1"]
            for (z1, b) in eng.branch(z, eng.has(z, nx, c)):
                t = eng.mget(z1, nx, c) if b else en.EMPTY
                x = mk("mget", mk("mdef", nx, c, en.EMPTY), c)
                for (z2, b2) in [w for r in renamed(eng, z1, x, t) for w in eng.branch(r, eng.has(r, n1, UNOBS))]:
                    out.append((z2, t, eng.mget(z2, n1, UNOBS) if b2 else en.EMPTY))
        return out

    def is_list(eng, s, D, parts):
        m = None
        for o in ([parts] if len(parts) < 2 else [parts, parts[::-1]]):
            m = seq_is(eng, s, D, [(c, guard) for c in o])
            if m is None:
                return None
        return m

    def finish(eng, st):
        if st.ghost.get("half"):
            return "a transition without target is added"
        for (z0, t, u) in lists(eng, st):
            for (z1, b) in eng.branch(z0, tm.numeq(en.size(t), num(0))):
                for (z, b2) in eng.branch(z1, tm.numeq(en.size(u), num(0))):
                    neg, plain = z.ghost.get("neg"), z.ghost.get("plain")
                    ot, ou = unguarded(eng, z, t), unguarded(eng, z, u)
                    if ot:
                        if neg is not None or plain:
                            return "a letter with an unguarded transition gets transitions to the sink"
                        continue
                    if ot is None or ou is None:
                        return "the unguarded transitions are not told from the others"
                    parts = ([] if ou or b2 else [u]) + ([] if b else [t])
                    if not parts:
                        if not plain or neg is not None:
                            return "a letter that never leaves a state gets no unguarded transition to the sink"
                    elif plain or neg is None:
                        return "the transitions to the sink are not the negation of the guards"
                    else:
                        m = is_list(eng, z, neg.a[1], parts)
                        if m:
                            return "the guards negated are not those of the letter's and the unobservable transitions: %s" % m
        return None

    class C(Complete):
        pass
    C.me = me
    C.finish = lambda self, eng, st: finish(eng, st)
    n = lambda c: (lambda eng, st, ix: [(st, en.size(c))])
    all_ = lambda eng, st, ix: [(st, tm.add(n0, num(1)))]
    skolem = lambda eng, s, ix: TRUE if any(i.op == "sym" and str(i.a[0]).startswith("%N") for i in ix) else FALSE
    lv3 = lambda eng, st, ix: [(st, en.size(st.ghost["neg"]) if st.ghost.get("neg") is not None else num(0))]
    rules = [Rule("sink", [], ev_sink, want_sink, what="the sink state"),
             Rule("letters", [all_, n(ABC)], ev_plain, want_add, skolem, what="letters without transitions", fixed=True),
             Rule("negated", [all_, n(ABC), lv3], ev_add, want_neg, what="transitions to the sink", fixed=True)]

    def at_end(eng, s, k, v):
        st = now(eng, s, "states")
        cx.ob("states", f.where(), eng.same(s, st, en.append(fld(i0, "states"), sink(eng, s))), "the states are %s" % tm.show(st, 5), s.trace())
        cx.ob("max-constants", f.where(), eng.same(s, now(eng, s, "maxConstraints"), fld(i0, "maxConstraints")), "the maximum constants change", s.trace())
        i1 = fld(i0, "initialStates")
        for (z, b) in eng.branch(s, tm.numeq(en.size(i1), num(0))):
            got = now(eng, z, "initialStates")
            cx.ob("initial", f.where(), eng.same(z, got, en.append(en.EMPTY, sink(eng, z)) if b else i1), "the initial states are %s" % tm.show(got, 5), z.trace())
    check_nest(cx, f, rules, lambda mon: cx.engine({"learnta::negate": p_neg}, mon, unroll=0, lazymap=True, trust_asserts=None),
               at_end=at_end, rule="complete", strict=False, nest=C)
    cx.need(6, "completing automata")


def check_complement(cx):
    f = cx.prog.find("learnta::TimedAutomaton::complement")
    copy = cx.prog.find("learnta::TimedAutomaton::deepCopy")
    comp = cx.prog.find("learnta::TimedAutomaton::makeComplete")
    me = this_init(f)
    want = mk("app", "complete", mk("app", "copy", me), arg(f, 0))

    def p_copy(eng, st, ol, args, e, fr):
        s = st.copy()
        l = args[0].a[0]
        eng.write(s, l, mk("app", "copy", eng.read(s, ol)))
        return [(s, VOID)]

    def p_comp(eng, st, ol, args, e, fr):
        s = st.copy()
        eng.write(s, ol, mk("app", "complete", eng.read(s, ol), eng.argval(s, args[0])))
        return [(s, VOID)]

    def ev(eng, st, l, v):
        if l.a[0].op == "obj":
            return (l, v, eng.read(st, l, "bool"))

    def want_toggle(eng, s, ix, pay):
        l, v, old = pay
        if l.a[1] != (F("isMatch"),):
            return "%s changes" % tm.show(l, 5)
        if not eng.same(s, l.a[0].a[0], eng.elem(s, fld(want, "states"), ix[0])):
            return "the acceptance of %s changes" % tm.show(l.a[0], 6)
        return None if eqv(eng, s, eng.truth(v), tm.bnot(eng.truth(old))) else "acceptance becomes %s" % tm.show(v, 5)
    rules = [Rule("inverted", [lambda eng, st, ix: [(st, en.size(fld(want, "states")))]], ev, want_toggle, what="the acceptance of states")]

    def at_end(eng, s, k, v):
        got = deref(eng, s, v)
        cx.ob("result", f.where(), eng.same(s, got, want), "the result is %s" % tm.show(got, 6), s.trace())
    check_nest(cx, f, rules, lambda mon: cx.engine({copy.fid: p_copy, comp.fid: p_comp}, mon, unroll=0, trust_asserts=None), at_end=at_end, rule="complement", strict=False)
    cx.need(2, "complements")
