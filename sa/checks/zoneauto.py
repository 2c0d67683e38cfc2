"""The zone automaton and its runs."""
from .automata import *
from .zones import Z, LE0, NOB, bound, square
from .. import eig
from ..eig import cell

ZA = "learnta::ZoneAutomaton"
SR = "learnta::SymbolicRun"


def zloc(ol):
    return mk("loc", ol.a[0], ol.a[1] + (F("value"),))


def p_zone(name):
    """an operation of zones that changes the zone"""
    def f(eng, st, ol, args, e, fr):
        s = st.copy()
        l = zloc(ol)
        eng.write(s, l, mk("z", name, eng.read(s, l), *[eng.argval(s, a) for a in args]))
        return [(s, VOID)]
    return f


def core(eng, s, v):
    """the zone without the steps that keep its set of valuations (making it canonical, filling the diagonal with zero)"""
    while v.op == "z" and (v.a[0] == "canonize" or v.a[0] == "diagonal" and v.a[2] is LE0):
        v = v.a[1]
    if v.op == "z" and v.a[0] not in ("top", "zero", "point"):
        return mk("z", v.a[0], core(eng, s, v.a[1]), *v.a[2:])
    return v


def widened(v):
    """(number of extrapolations applied last, zone before them)"""
    n = 0
    while v.op == "z" and v.a[0] == "extrapolate":
        n += 1
        v = v.a[1]
    return n, v


def p_sat(keep):
    def f(eng, st, ol, args, e, fr):
        s = st
        v = eng.read(s, zloc(ol))
        if not keep:
            s = st.copy()
            eng.write(s, zloc(ol), mk("z", "canonize", v))
        return [(z, TRUE if b else FALSE) for (z, b) in eng.branch(s, mk("sat", core(eng, s, v), ty="bool"))]
    return f


def zval(eng, st, a):
    return fld(deref(eng, st, eng.argval(st, a)), "value")


def p_includes(eng, st, ol, args, e, fr):
    t = mk("incl", eng.read(st, zloc(ol)), zval(eng, st, args[0]), ty="bool")
    return [(z, TRUE if b else FALSE) for (z, b) in eng.branch(st, t)]


def p_const(name):
    def f(eng, st, ol, args, e, fr):
        return [(st, tm.setf(mk("dflt", Z), "value", mk("z", name, eng.argval(st, args[0]))))]
    return f


def zone_prims(cx, *without, **extra):
    d = {}
    for n in ("tighten", "applyResets", "revertResets", "canonize", "elapse", "reverseElapse", "extrapolate"):
        for f in cx.prog.find_all(Z + "::" + n):
            d[f.fid] = p_zone(n)
    for n in ("isSatisfiable", "<conv>bool"):
        for f in cx.prog.find_all(Z + "::" + n):
            d[f.fid] = p_sat(False)
    d[Z + "::isSatisfiableNoCanonize"] = p_sat(True)
    d[Z + "::includes"] = p_includes
    d[Z + "::top"] = p_const("top")
    d[Z + "::zero"] = p_const("zero")
    for k in without:
        d.pop(k)
    d.update(extra)
    return d


def p_sample(eng, st, ol, args, e, fr):
    return [(st, mk("witness", eng.read(st, ol), ty="opt"))]


class Explore(Nest):
    """the states of the zone automaton: what is taken from the list of states to visit, and where new ones are entered"""
    odd_queue = None

    def pkey(self, s):
        g = s.ghost
        return Nest.pkey(self, s) + (g.get("took"), g.get("cut"), g.get("tgt") is not None, g.get("tgt") is not None and fresh(g["tgt"])) + tuple(g.get(x) is not None for x in ("ns", "nq", "nm"))

    def on_head(self, eng, st, key):
        n = len(self.stack(st))
        if n in (1, 3):
            st = st.copy()
            for g in ("tgt", "ns", "nq", "nm") + (("took", "proc", "cut") if n == 1 else ()):
                st.ghost[g] = None
        return Nest.on_head(self, eng, st, key)

    def on_exit(self, eng, st, key, kind):
        self.leaving = len(self.stack(st)) == 1
        r = Nest.on_exit(self, eng, st, key, kind)
        self.leaving = False
        return r

    leaving = False
    main = None

    def rounds(self, eng, st, ix):
        """rounds of the outer loop: as long as there are states to visit"""
        p = st.ghost.get("p:0", num(0))
        if not self.leaving:
            return [(st, tm.add(p, num(1)))]
        return [(z, p if b else tm.add(p, num(1))) for (z, b) in eng.branch(st, tm.numeq(en.size(eng.read(st, self.queue)), num(0)))]

    def on_back(self, eng, st, key, head):
        n = len(self.stack(st))
        m = None
        if n == 3:
            m = self.entered(eng, st)
        elif n == 1 and self.stack(st)[0] == self.main and st.ghost.get("took") != "yes":
            m = "a round takes no state from those to visit"
        if m:
            self.bad.append((None, m, st))
        return Nest.on_back(self, eng, st, key, head)

    def present(self, eng, st, t):
        """the map has an entry for the location and the (wider) zone of the new state already"""
        o = eng.read(st, t.a[0])
        at, z = fld(o, "taState"), fld(fld(o, "zone"), "value")
        return any(x.op == "has" and x.a[1].op != "key" and eng.same(st, fld(x.a[1], "first"), at) and eng.same(st, fld(fld(x.a[1], "second"), "value"), z) for x in st.facts)

    def entered(self, eng, st):
        g = st.ghost
        t = g.get("tgt")
        if t is None or not fresh(t):
            return "a state is entered that no transition leads to" if any(g.get(x) is not None for x in ("ns", "nq", "nm")) else None
        for (x, w) in (("ns", "the states of the zone automaton"), ("nq", "the states to visit")):
            if g.get(x) is not t:
                return "a new state does not get into %s" % w
        if self.map is not None and g.get("nm") is not t and not self.present(eng, st, t):
            return "a new state is not registered for its location and zone"
        return None

    def on_write(self, eng, st, l, v):
        n = len(self.stack(st))
        g = st.ghost
        if n >= 1:
            if l is self.queue:
                self.on_queue(eng, st, v, n)
            elif l is self.listed and self.started(st):
                x = appended(eng, st, l, v)
                self.enter(st, "ns", x, n, "the states of the zone automaton")
            elif self.map is not None and self.started(st) and l.a[0] is self.map:
                if len(l.a[1]) == 1 and l.a[1][0].op == "M":
                    k = l.a[1][0].a[0]
                elif not l.a[1] and v.op == "mput" and v.a[0] is eng.read(st, l):
                    k, v = v.a[1:3]
                else:
                    k = None
                    self.bad.append((None, "the registered states are changed otherwise", st))
                if k is not None and v is not NULL:
                    m = self.entry(eng, st, k, v)
                    if m:
                        self.bad.append((None, m, st))
                    self.enter(st, "nm", v, n, "the registered states")
        Nest.on_write(self, eng, st, l, v)

    def started(self, st):
        return st.ghost.get("took") is not None

    def enter(self, st, x, v, n, what):
        if v is None:
            return
        if v is RESET or n != 3 or st.ghost.get(x) is not None:
            self.bad.append((None, "%s change otherwise" % what, st))
        else:
            st.ghost[x] = v

    def entry(self, eng, st, k, v):
        o = deref(eng, st, mk("ref", mk("loc", v.a[0].a[0], v.a[0].a[1]))) if v.op == "ref" else None
        if o is None:
            return "%s is registered" % tm.show(v, 4)
        if not eng.same(st, fld(k, "first"), fld(o, "taState")) or not same_zone(eng, st, fld(k, "second"), fld(o, "zone")):
            return "the new state is registered for %s" % tm.show(k, 5)
        return None

    def on_queue(self, eng, st, v, n):
        old = eng.read(st, self.queue)
        if v is old:
            return
        g = st.ghost
        x = appended(eng, st, self.queue, v)
        if x is not RESET and not self.started(st):
            return
        if x is not RESET:
            self.enter(st, "nq", x, n, "the states to visit")
            return
        if n == 1 and g.get("took") is None:
            z = en.size(old)
            for (p, rest) in ((num(0), eng.stl.slice(st, old, num(1), z)), (tm.sub(z, num(1)), eng.stl.slice(st, old, num(0), tm.sub(z, num(1))))):
                if eng.same(st, v, rest):
                    g["took"] = "yes"
                    g["proc"] = eng.elem(st, old, p)
                    M = type(self)
                    if M.main not in (None, self.stack(st)[0]):
                        raise TooComplex("states to visit are taken in different loops")
                    M.main = self.stack(st)[0]
                    return
        self.bad.append((None, "a state to visit is lost", st))


def fresh(t):
    return t.op == "ref" and t.a[0].a[0].op == "heap"


def same_zone(eng, s, x, y):
    if x is y or eng.same(s, x, y):
        return True
    return core(eng, s, fld(x, "value")) is core(eng, s, fld(y, "value")) and eng.same(s, fld(x, "maxConstraints"), fld(y, "maxConstraints"))


def check_ta2za(cx):
    f = cx.prog.find("learnta::ta2za")
    TA, OUT = (mk("argobj", n, f.params[n]["n"]) for n in range(2))
    ta, za = mk("init", TA), mk("init", OUT)
    I = fld(ta, "initialStates")
    MX = fld(ta, "maxConstraints")

    def is_state(eng, s, x, ta_state):
        if not fresh(x):
            return None, "the new state is %s" % tm.show(x, 5)
        o = eng.read(s, x.a[0])
        if not eng.same(s, objptr_of(fld(o, "taState")), objptr_of(ta_state)):
            return None, "the location of the new state is %s" % tm.show(fld(o, "taState"), 6)
        b = fld(o, "isMatch", ty="bool")
        if not eqv(eng, s, eng.truth(b), eng.truth(rd(eng, s, ta_state, "isMatch", ty="bool"))):
            return None, "acceptance of the new state is %s" % tm.show(b, 6)
        return fld(o, "zone"), None

    # -- the initial states
    def ev_initial(eng, st, l, v):
        if l.a[0] is not OUT or not l.a[1] or l.a[1][0] != F("initialStates"):
            return None
        if len(l.a[1]) == 2 and l.a[1][1].op in ("I", "P"):
            return (l.a[1][1].a[0], v)
        x = appended(eng, st, l, v)
        if x is RESET and not st.ghost.get("stk"):
            return None
        return x if x is None or x is RESET else (en.size(eng.read(st, l)), x)

    def want_initial(eng, s, ix, pay):
        if not implied(eng, s, tm.numeq(pay[0], ix[0])):
            return "initial state %s is written" % tm.show(pay[0])
        z, m = is_state(eng, s, pay[1], eng.elem(s, I, ix[0]))
        if m:
            return m
        zero = core(eng, s, fld(z, "value"))
        if zero.op != "z" or zero.a[0] != "zero" or not implied(eng, s, tm.numeq(zero.a[1], tm.add(en.size(MX), num(1)))):
            return "the initial zone is %s" % tm.show(zero, 5)
        mc = fld(z, "maxConstraints")
        if not eng.same(s, mc, MX) and not implied(eng, s, tm.numeq(en.size(MX), num(0))):
            uses.add("each")
            if "max" not in uses:
                return "the maximum constants are %s" % tm.show(mc, 5)
            if not implied(eng, s, tm.numeq(en.size(mc), en.size(MX))):
                return "there are %s maximum constants" % tm.show(en.size(mc), 5)
        return None

    def ev_max(eng, st, l, v):
        p = l.a[1]
        if len(p) >= 2 and p[-2] == F("maxConstraints") and p[-1].op in ("I", "P") and (not p[:-2] or p[0] == F("zone")):
            return (p[-1].a[0], v)

    def want_max(eng, s, ix, pay):
        if not implied(eng, s, tm.numeq(pay[0], ix[0])) or not eng.same(s, pay[1], eng.elem(s, MX, ix[0], "real")):
            return "constant %s is %s" % (tm.show(pay[0]), tm.show(pay[1], 5))

    def ev_registered(eng, st, l, v):
        if mon[0].map is not None and l.a[0] is mon[0].map and len(l.a[1]) == 1 and l.a[1][0].op == "M" and not mon[0].started(st):
            return (l.a[1][0].a[0], v) if v is not NULL else None

    def want_registered(eng, s, ix, pay):
        x = eng.elem(s, fld(eng.read(s, loc(OUT)), "initialStates"), ix[0])
        if not eng.same(s, pay[1], x):
            return "the state registered is %s" % tm.show(pay[1], 5)
        o = x
        if not eng.same(s, fld(pay[0], "first"), rd(eng, s, o, "taState")) or not eng.same(s, fld(pay[0], "second"), rd(eng, s, o, "zone")):
            return "an initial state is registered for %s" % tm.show(pay[0], 6)

    # -- the transitions
    def now(eng, st):
        p = st.ghost.get("proc")
        if p is None:
            raise TooComplex("transitions are entered before a state is taken")
        t = rd(eng, st, p, "taState")
        return p, t, rd(eng, st, t, "next")

    def lv_keys(eng, st, ix):
        if st.ghost.get("proc") is None:
            return [(st, num(0))]
        return [(st, en.size(now(eng, st)[2]))]

    def lv_edges(eng, st, ix):
        if st.ghost.get("proc") is None:
            return [(st, num(0))]
        n = now(eng, st)[2]
        return [(st, en.size(eng.mget(st, n, mk("key", n, ix[1]))))]

    def edge(eng, s, ix):
        n = now(eng, s)[2]
        c = mk("key", n, ix[1])
        return c, eng.elem(s, eng.mget(s, n, c), ix[2])

    def zones_of(eng, s, ix):
        p, t, n = now(eng, s)
        e = edge(eng, s, ix)[1]
        z = core(eng, s, rd(eng, s, p, "zone", "value"))
        z1 = mk("z", "tighten", mk("z", "elapse", z), fld(e, "guard"))
        return z1, mk("z", "applyResets", z1, fld(e, "resetVars"))

    def cond(eng, s, ix):
        e = edge(eng, s, ix)[1]
        z1, z2 = zones_of(eng, s, ix)
        return tm.band(tm.bnot(tm.veq(fld(e, "target"), NULL)), mk("sat", z1, ty="bool"), mk("sat", z2, ty="bool"))

    def ev_edge(eng, st, l, v):
        if l.a[0].op == "obj" and len(l.a[1]) == 2 and l.a[1][0] == F("next") and l.a[1][1].op in ("I", "P", "M"):
            x = appended(eng, st, l, v)
            return (l.a[0].a[0], l.a[1][1].a[0], x, st) if x is not None and x is not RESET else x

    def want_edge(eng, s, ix, pay):
        (src, c0, x, st) = pay
        p, t, n = now(eng, s)
        c, e = edge(eng, s, ix)
        if not eng.same(s, objptr_of(src), objptr_of(p)):
            return "the transition starts in %s" % tm.show(src, 5)
        if c0 is not c and not eng.same(s, c0, c):
            return "the transition is labelled %s" % tm.show(c0, 5)
        if not eng.same(s, fld(x, "first"), e):
            return "the transition is %s" % tm.show(fld(x, "first"), 6)
        z1, z2 = zones_of(eng, s, ix)
        if not implied(eng, s, mk("sat", z1, ty="bool")) and not implied(eng, s, mk("sat", z2, ty="bool")):
            return "the transition is entered without asking whether it can be taken"
        d = fld(x, "second")
        tgt = fld(e, "target")
        if fresh(d):
            z, m = is_state(eng, s, d, tgt)
            if m:
                return m
            k, b = widened(core(eng, s, fld(z, "value")))
            if b is not z2:
                if any(q.op == "phi" for q in tm.subterms(b)) and not any(q.op == "phi" for q in tm.subterms(z2)):
                    raise TooComplex("the zone of a new state is %s" % tm.show(b, 6))
                return "the zone of the new state is %s" % tm.show(b, 9)
            if not k:
                return "the zone of the new state is not extrapolated"
            if not eng.same(s, fld(z, "maxConstraints"), rd(eng, s, p, "zone", "maxConstraints")):
                return "the maximum constants of the new state's zone are %s" % tm.show(fld(z, "maxConstraints"), 5)
        else:
            m = found(eng, s, d, tgt, z2)
            if m:
                return m
        st.ghost["tgt"] = d
        return None

    def found(eng, s, d, tgt, z2):
        """d is a state entered before, for the same location and a zone that includes z2"""
        M = eng.read(s, loc(mon[0].map)) if mon[0].map is not None else None
        if M is not None and d.op == "mget" and d.a[0] is M:
            k = d.a[1]
            at, zn = fld(k, "first"), fld(k, "second")
        else:
            L = eng.read(s, mon[0].listed)
            if d.op != "elem" or d.a[0] is not L:
                if d.op == "phi":
                    raise TooComplex("a transition leads to %s" % tm.show(d, 5))
                return "a transition leads to %s, which was not looked up for its location and zone" % tm.show(d, 5)
            at, zn = rd(eng, s, d, "taState"), rd(eng, s, d, "zone")
        if not eng.same(s, at, tgt) and not implied(eng, s, tm.veq(at, tgt)):
            return "a transition leads to a state of another location"
        zv = fld(zn, "value")
        for t in s.facts:
            if t.op == "incl" and t.a[0] is zv and widened(core(eng, s, t.a[1]))[1] is z2:
                return None
        return "a transition leads to a state whose zone is not known to include the one reached"

    mon = [None]
    uses = set()

    class M(Explore):
        map = queue = None
        listed = loc(OUT, F("states"))

        def __init__(self, *a, **k):
            Explore.__init__(self, *a, **k)
            mon[0] = self

        def on_decl(self, eng, st, v, root, fr):
            t = v.get("t", "")
            if "&" in t or "ZAState" not in t or self.stack(st):
                return
            if "map<" in t:
                M.map = self.map or root
            elif any(x in t for x in ("deque<", "queue<", "list<", "vector<", "stack<")) and "shared_ptr" in t:
                M.queue = self.queue or loc(root)

        def on_enter(self, eng, st, key):
            if not self.stack(st) and lkey(key) == self.main:
                if self.queue is None:
                    raise TooComplex("the list of states to visit is not found")
                ini = fld(eng.read(st, loc(OUT)), "initialStates")
                for (l, w) in ((self.queue, "the states to visit"), (self.listed, "the states of the zone automaton")):
                    q = eng.read(st, l)
                    if not eng.same(st, q, ini):
                        if q.op == "phi":
                            raise TooComplex("%s are not followed" % w)
                        self.bad.append((None, "%s are %s at first" % (w, tm.show(q, 5)), st))
            return Explore.on_enter(self, eng, st, key)

    n = lambda c: (lambda eng, st, ix: [(st, en.size(c))])
    P = zone_prims(cx, **{ZA + "::sampleWithMemo": p_sample, ZA + "::sample": p_sample})
    e0 = cx.engine({}, Mon())
    for (quick, clocks) in ((True, True), (False, True), (True, False), (False, False)):
        sts = [St()]
        for c in (tm.numeq(en.size(fld(za, "states")), num(0)), tm.numeq(en.size(fld(za, "initialStates")), num(0)),
                  tm.le(num(1), en.size(MX)) if clocks else tm.numeq(en.size(MX), num(0))):
            sts = [z for s in sts for z in e0.assume(s, c)]
        uses.clear()
        rs = [Rule("initial", [n(I)], ev_initial, want_initial, what="the initial states"),
              Rule("registered", [lambda eng, st, ix: [(st, en.size(fld(eng.read(st, loc(OUT)), "initialStates")))]], ev_registered, want_registered, what="the initial states registered"),
              Rule("edges", [lambda eng, st, ix: mon[0].rounds(eng, st, ix), lv_keys, lv_edges], ev_edge, want_edge, cond, "the transitions of the zone automaton", fixed=True)]
        if clocks:
            uses.add("max")
            rs.append(Rule("max", [n(MX)], ev_max, want_max, what="the maximum constants"))

        def due(eng, s, v):
            """the construction may end early when the caller asked for it and a word has been found"""
            return not (quick and any(t.op == "engaged" and t.a[0].op == "witness" for t in s.facts))
        M.map = M.queue = M.main = None
        for st in sts:
            rs[-1].optional = lambda: clocks and "each" not in uses
            check_nest(cx, f, rs, lambda m: cx.engine(P, m, unroll=0, warm=True, lazymap=True), st=st, rule="zone-graph", strict=False, nest=M, due=due, args=[None, None, tm.b(quick)])
    cx.need(4, "the zone automaton", "zone-graph")


def objptr_of(p):
    return p


# ------------------------------------------------------------------ looking for an accepting run
ACTIONS = num(127)


def p_start(eng, st, ol, args, e, fr):
    return [(st, mk("run", eng.argval(st, args[0])))]


def p_longer(eng, st, ol, args, e, fr):
    s = st.copy()
    eng.write(s, ol, mk("run", *([eng.read(s, ol)] + [eng.argval(s, a) for a in args])))
    return [(s, VOID)]


def last(r):
    return r.a[-1] if r.op == "run" else mk("lastof", r)


def p_last(eng, st, ol, args, e, fr):
    return [(st, last(eng.read(st, ol)))]


TRIED = loc(mk("tried"))


def p_reconstruct(eng, st, ol, args, e, fr):
    s = st.copy()
    r = eng.read(s, ol)
    eng.write(s, TRIED, r)
    return [(s, mk("word", r, ty="opt"))]


def check_sample(cx):
    f = cx.prog.find(ZA + "::sample")
    me = this_init(f)
    I = fld(me, "initialStates")
    mon = [None]

    class Walk(Explore):
        odd_queue = None
        runs = []
        visited = None

        def pkey(self, s):
            return Nest.pkey(self, s) + (s.ghost.get("seen") is not None,)

        def on_decl(self, eng, st, v, root, fr):
            t = v.get("t", "")
            if "&" in t:
                return
            if "SymbolicRun" in t and ("vector" in t or "list" in t or "deque" in t) and loc(root) not in Walk.runs:
                Walk.runs.append(loc(root))
                if Walk.queue is None and not self.stack(st):
                    Walk.queue = loc(root)
            elif "ZAState" in t and "set<" in t:
                Walk.visited = loc(root)

        def on_head(self, eng, st, key):
            if len(self.stack(st)) == 4:
                st = st.copy()
                st.ghost["vis"] = eng.read(st, Walk.visited)
                st.ghost["seen"] = None
            return Nest.on_head(self, eng, st, key)

        def on_back(self, eng, st, key, head):
            m = None
            n = len(self.stack(st))
            if n == 1 and lkey(key) == Walk.main:
                if st.ghost.get("moved") is None:
                    m = "the runs of a round are not those found in the round before"
            if n == 2 and any(t.op == "engaged" and t.a[0].op == "word" for t in st.facts):
                m = "a word that was found is not returned"
            if n == 4 and st.ghost.get("raw") is not None:
                m = "a run is added that is not one edge longer: %s" % tm.show(st.ghost["raw"], 5)
            elif n == 4 and st.ghost.get("seen") is not None and not implied(eng, st, eng.has(st, eng.read(st, Walk.visited), st.ghost["seen"])):
                m = "a state a run leads to does not count as visited"
            elif n == 4 and st.ghost.get("seen") is None and not eng.same(st, eng.read(st, Walk.visited), st.ghost["vis"]):
                m = "a state counts as visited without a run to it"
            if m:
                self.bad.append((None, m, st))
            st = st.copy()
            if n == 1:
                st.ghost.pop("moved", None)
                st.ghost.pop("looped", None)
                st.ghost.pop("swapped", None)
            return Nest.on_back(self, eng, st, key, head)

        def on_enter(self, eng, st, key):
            st = Explore.on_enter(self, eng, st, key) or st
            if len(self.stack(st)) == 2:
                st.ghost["looped"] = num(1)
            return st

        def on_write(self, eng, st, l, v):
            if l is Walk.next and len(self.stack(st)) == 1 and st.ghost.get("looped") is not None and st.ghost.get("moved") is None:
                if Walk.queue is not None and eng.same(st, v, eng.read(st, Walk.queue)):
                    st.ghost["swapped"] = eng.read(st, l)
                else:
                    self.bad.append((None, "runs found in a round are changed after it", st))
            if l in Walk.runs and len(self.stack(st)) == 1 and Walk.next is not None and l is not Walk.next:
                w = st.ghost.get("swapped")
                if eng.same(st, v, w if w is not None else eng.read(st, Walk.next)):
                    st.ghost["moved"] = num(1)
                    Walk.main = self.stack(st)[0]
                else:
                    st.ghost.pop("moved", None)
            Nest.on_write(self, eng, st, l, v)

    def current(eng, st):
        return eng.read(st, mon[0].queue) if mon[0].queue is not None else en.EMPTY

    def run_at(eng, st, ix):
        return eng.elem(st, current(eng, st), ix[1])

    def arr(eng, st, ix):
        return rd(eng, st, last(run_at(eng, st, ix)), "next")

    def lv_actions(eng, st, ix):
        return [(z, ACTIONS) for z in eng.assume(st, tm.numeq(en.size(arr(eng, st, ix)), ACTIONS))] or [(st, ACTIONS)]

    def edges(eng, st, ix):
        return eng.elem(st, arr(eng, st, ix), ix[2])

    def edge(eng, st, ix):
        e = eng.elem(st, edges(eng, st, ix), ix[3])
        return fld(e, "first"), fld(e, "second")

    def cond(eng, s, ix):
        t = edge(eng, s, ix)[1]
        return tm.band(tm.bnot(tm.veq(t, NULL)), tm.bnot(eng.has(s, s.ghost.get("vis") or eng.read(s, Walk.visited), t)))

    def ev_run(eng, st, l, v):
        for q in Walk.runs:
            # the last run added is lengthened in place
            if l.a[0] is q.a[0] and q is not Walk.queue and len(l.a[1]) == len(q.a[1]) + 1 and l.a[1][-1].op in ("I", "P") and st.ghost.get("raw") is not None:
                if implied(eng, st, tm.numeq(tm.add(l.a[1][-1].a[0], num(1)), en.size(eng.read(st, q)))):
                    st.ghost["raw"] = None
                    return (v, st)
        if l in Walk.runs and l is not Walk.queue and len(mon[0].stack(st)) > 1:
            x = appended(eng, st, l, v)
            if x is not None and x is not RESET:
                Walk.next = l
                if x.op != "run" or len(x.a) != 4:
                    st.ghost["raw"] = x
                    return None
                return (x, st)
            return x

    def want_run(eng, s, ix, pay):
        r, st = pay
        if r.op != "run" or len(r.a) != 4:
            return "the run added is %s" % tm.show(r, 5)
        t, d = edge(eng, s, ix)
        for (x, w, n) in ((r.a[0], run_at(eng, s, ix), "it extends"), (r.a[1], t, "its transition is"), (r.a[2], ix[2], "its action is"), (r.a[3], d, "it leads to")):
            if not sameval(eng, s, x, w):
                return "%s %s" % (n, tm.show(x, 6))
        st.ghost["seen"] = r.a[3]
        return None

    def ev_tried(eng, st, l, v):
        return v if l is TRIED else None

    def want_tried(eng, s, ix, r):
        if not eng.same(s, r, run_at(eng, s, ix)):
            return "the run tried is %s" % tm.show(r, 5)
        return None if implied(eng, s, eng.truth(rd(eng, s, last(r), "isMatch", ty="bool"))) else "a run is tried whose last state is not accepting"

    def cond_tried(eng, s, ix):
        return eng.truth(rd(eng, s, last(run_at(eng, s, ix)), "isMatch", ty="bool"))

    rounds = lambda eng, st, ix: mon[0].rounds(eng, st, ix)
    runs = lambda eng, st, ix: [(st, en.size(current(eng, st)))]
    rules = [Rule("tried", [rounds, runs], ev_tried, want_tried, cond_tried, "words of accepting runs", fixed=True),
             Rule("longer", [rounds, runs, lv_actions, lambda eng, st, ix: [(st, en.size(edges(eng, st, ix)))]], ev_run, want_run, cond, "longer runs", fixed=True)]

    class W2(Walk):
        def __init__(self, *a, **k):
            Walk.__init__(self, *a, **k)
            mon[0] = self

        def on_enter(self, eng, st, key):
            if not self.stack(st) and lkey(key) == Walk.main:
                m = seq_is(eng, st, current(eng, st), [(I, lambda x: mk("run", x))])
                if m:
                    self.bad.append((None, "the runs at first: %s" % m, st))
                v = eng.read(st, Walk.visited) if Walk.visited is not None else None
                if v is None or v.op == "phi":
                    raise TooComplex("the states visited are not followed")
                if not (v.op == "toset" and eng.same(st, v.a[0], I) or implied(eng, st, tm.numeq(en.size(v), num(0)))):
                    self.bad.append((None, "the states visited at first are %s" % tm.show(v, 5), st))
            return Walk.on_enter(self, eng, st, key)
    P = {cx.prog.find(SR + "::<ctor>", 1, lambda g: "shared_ptr" in g.fid).fid: p_start, SR + "::push_back": p_longer, SR + "::back": p_last, SR + "::reconstructWord": p_reconstruct}
    Walk.next = Walk.queue = Walk.main = None
    found = lambda v: v.op == "word" or v.op == "some" and v.a[0].op == "optval" and v.a[0].a[0].op == "word"

    def due(eng, s, v):
        return v is not None and not found(v)

    def at_end(eng, s, k, v):
        if k == "r" and found(v):
            w = v if v.op == "word" else v.a[0].a[0]
            cx.ob("sample", f.where(), implied(eng, s, mk("engaged", w, ty="bool")), "a word is returned although there is none", s.trace())
        else:
            cx.ob("sample", f.where(), k == "r" and v.op == "none", "the answer is %s" % tm.show(v, 5), s.trace())
    check_nest(cx, f, rules, lambda m: cx.engine(P, m, unroll=0, warm=True, lazymap=True), rule="sample", strict=False, nest=W2, due=due, at_end=at_end)
    if Walk.main is None:
        raise TooComplex("the rounds of the search are not found")
    # the remembered word
    f = cx.prog.find(ZA + "::sampleWithMemo")
    memo = fld(this_init(f), "sampleMemo")
    eng = cx.engine({ZA + "::sample": lambda eng, st, ol, args, e, fr: [(st, mk("found", ty="opt"))]}, Mon())
    for (s, k, v) in cx.run(eng, f):
        have = mk("engaged", memo, ty="bool")
        for z in cases(eng, s, have):
            w = memo if implied(eng, z, have) else mk("found", ty="opt")
            now = fld(eng.read(z, this_loc(f)), "sampleMemo")
            cx.ob("remembered", f.where(), k == "r" and samesome(eng, z, deref(eng, z, v), w) and samesome(eng, z, now, w), "the answer is %s, remembered is %s" % (tm.show(v, 5), tm.show(now, 5)), z.trace())
    cx.need(1, "the remembered word", "remembered")
    cx.need(3, "the search for an accepting run", "sample")


def samesome(eng, s, x, y):
    return x is y or eng.same(s, x, y) or x.op == "some" and x.a[0].op == "optval" and x.a[0].a[0] is y and implied(eng, s, mk("engaged", y, ty="bool"))


# ------------------------------------------------------------------ runs of the zone automaton
def check_run(cx):
    # the run of one state
    f = cx.prog.find(SR + "::<ctor>", 1, lambda g: "shared_ptr" in g.fid)
    eng = cx.engine(zone_prims(cx), Mon())
    x = arg(f, 0)
    at = lambda eng, s, n: eng.read(s, this_loc(f, n))
    for (s, k, v) in cx.run(eng, f):
        S, T = at(eng, s, "states"), at(eng, s, "tightZones")
        z = rd(eng, s, x, "zone")
        ok = implied(eng, s, tm.numeq(en.size(S), num(1))) and eng.same(s, eng.elem(s, S, num(0)), x)
        cx.ob("run", f.where(), ok, "the run of one state has the states %s" % tm.show(S, 5), s.trace(), "start")
        ok = implied(eng, s, tm.numeq(en.size(T), num(1))) and same_zone(eng, s, eng.elem(s, T, num(0)), z)
        cx.ob("run", f.where(), ok, "the run of one state has the zones %s" % tm.show(T, 5), s.trace(), "start")
        for n in ("edges", "word"):
            c = at(eng, s, n)
            cx.ob("run", f.where(), implied(eng, s, tm.numeq(en.size(c), num(0))), "the run of one state has %s" % tm.show(c, 5), s.trace(), "start")
    # one more step
    f = cx.prog.find(SR + "::push_back", 3)
    eng = cx.engine(zone_prims(cx), Mon())
    me = this_init(f)
    tr = arg(f, 0)
    T0 = fld(me, "tightZones")
    n = en.size(T0)
    for s0 in eng.assume(St(), tm.le(num(1), n)):
        for (s, k, v) in cx.run(eng, f, st=s0):
            for (nm, w) in (("states", arg(f, 2)), ("edges", tr), ("word", argv(f, 1))):
                c0, c = fld(me, nm), at(eng, s, nm)
                ok = k != "t" and eng.same(s, c, en.append(c0, w))
                cx.ob("run", f.where(), ok, "%s of the longer run are %s" % (nm, tm.show(c, 5)), s.trace(), nm)
            T = at(eng, s, "tightZones")
            z0 = eng.elem(s, T0, tm.sub(n, num(1)))
            got = core(eng, s, fld(eng.elem(s, T, n), "value"))
            want = mk("z", "applyResets", mk("z", "tighten", mk("z", "elapse", core(eng, s, fld(z0, "value"))), fld(tr, "guard")), fld(tr, "resetVars"))
            ok = implied(eng, s, tm.numeq(en.size(T), tm.add(n, num(1))))
            cx.ob("run", f.where(), ok, "the longer run has %s zones" % tm.show(en.size(T), 5), s.trace(), "zones")
            if any(q.op == "phi" for q in tm.subterms(got)):
                raise TooComplex("the zone after a step is %s" % tm.show(got, 5))
            cx.ob("run", f.where(), got is want or eng.same(s, got, want), "the zone after a step is %s" % tm.show(got, 7), s.trace(), "zones")
            K = mk("sym", "%K", ty="nat")
            for z in eng.assume(s, tm.lt(K, n)):
                cx.ob("run", f.where(), eng.same(z, eng.elem(z, T, K), eng.elem(z, T0, K)), "an earlier zone changes", z.trace(), "zones")
    # what is read back
    for (nm, c) in (("stateAt", "states"), ("edgeAt", "edges"), ("tightZoneAt", "tightZones"), ("back", "states")):
        for f in cx.prog.find_all(SR + "::" + nm):
            eng = cx.engine(zone_prims(cx), Mon())
            C = fld(this_init(f), c)
            i = argv(f, 0) if f.params else tm.sub(en.size(C), num(1))
            for s0 in [b for a in eng.assume(St(), tm.le(num(0), i)) for b in eng.assume(a, tm.lt(i, en.size(C)))]:
                for (s, k, v) in cx.run(eng, f, st=s0):
                    cx.ob("run", f.where(), k == "r" and eng.same(s, deref(eng, s, v), eng.elem(s, C, i)), "%s is %s" % (nm, tm.show(v, 5)), s.trace(), nm)
    cx.need(10, "runs", "run")
