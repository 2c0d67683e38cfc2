"""Orders on fractional parts and regional elementary languages."""
from .conditions import *
from .words import inv_timed_word, seqsame, TW
from .nest import seq_is

FO = "learnta::FractionalOrder"
EL = "learnta::ElementaryLanguage"
FW = "learnta::ForwardRegionalElementaryLanguage"
BW = "learnta::BackwardRegionalElementaryLanguage"


# ------------------------------------------------------------------ orders
def as_list(eng, s, got, size, at):
    """got has the given number of elements and element K is at(K); message or None"""
    if not implied(eng, s, tm.numeq(en.size(got), size)):
        return "%s groups instead of %s" % (tm.show(en.size(got)), tm.show(size))
    K = mk("sym", "%K", ty="nat")
    for z in eng.assume(s, tm.lt(K, size)):
        for z1 in cases(eng, z, tm.numeq(K, num(0)), tm.numeq(tm.add(K, num(1)), size)):
            for (z2, (x, y)) in eng.splits(z1, (eng.elem(z1, got, K), at(eng, z1, K))):
                if not seqeq(eng, z2, x, y):
                    return "group %s is %s instead of %s" % (tm.show(K), tm.show(x, 5), tm.show(y, 5))
    return None


def seqeq(eng, s, x, y):
    """two sequences of numbers are equal"""
    if seqsame(eng, s, x, y):
        return True
    if not implied(eng, s, tm.numeq(en.size(x), en.size(y))):
        return False
    k = mk("sym", "%k", ty="nat")
    for z in eng.assume(s, tm.lt(k, en.size(x))):
        for z1 in cases(eng, z, tm.numeq(k, num(0)), tm.numeq(tm.add(k, num(1)), en.size(x))):
            for (z2, (a, b)) in eng.splits(z1, (eng.elem(z1, x, k, "nat"), eng.elem(z1, y, k, "nat"))):
                if not sameval(eng, z2, a, b):
                    return False
    return True


def order_states(eng, o):
    """an order has a group of variables that are zero, and if that is empty another one"""
    G = fld(o, "order")
    n = en.size(G)
    out = []
    for s in eng.assume(St(), tm.le(num(1), n)):
        for (z, e) in eng.branch(s, tm.numeq(en.size(eng.elem(s, G, num(0))), num(0))):
            out += [(x, e) for x in (eng.assume(z, tm.le(num(2), n)) if e else [z])]
    return out


def order_step(G, nm, empty):
    """(number of groups, group K) after the step"""
    n = en.size(G)
    at = lambda eng, s, k: eng.elem(s, G, k)
    if nm == "successor":
        if empty:
            return tm.sub(n, num(1)), lambda eng, s, K: at(eng, s, tm.sub(n, num(1))) if implied(eng, s, tm.numeq(K, num(0))) else at(eng, s, K)
        return tm.add(n, num(1)), lambda eng, s, K: en.EMPTY if implied(eng, s, tm.numeq(K, num(0))) else at(eng, s, tm.sub(K, num(1)))
    if empty:
        return tm.sub(n, num(1)), lambda eng, s, K: at(eng, s, tm.add(K, num(1)))
    return tm.add(n, num(1)), lambda eng, s, K: en.EMPTY if implied(eng, s, tm.numeq(K, num(0))) else at(eng, s, num(0)) if implied(eng, s, tm.numeq(K, n)) else at(eng, s, K)


def check_order_steps(cx):
    for (nm, step) in (("successor", "successor"), ("successorAssign", "successor"), ("predecessor", "predecessor")):
        f = cx.prog.find(FO + "::" + nm)
        eng = cx.engine({}, Mon())
        o = this_init(f)
        for (s0, empty) in order_states(eng, o):
            for (s, k, v) in cx.run(eng, f, st=s0):
                got = eng.read(s, this_loc(f)) if nm == "successorAssign" else deref(eng, s, v)
                n, at = order_step(fld(o, "order"), step, empty)
                m = "throws" if k != "r" else as_list(eng, s, fld(got, "order"), n, at)
                if m is None and not eng.same(s, fld(got, "size"), fld(o, "size")):
                    m = "the number of variables becomes %s" % tm.show(fld(got, "size"))
                cx.ob("order-step", f.where(), m is None, "%s: %s" % (nm, m), s.trace())
    cx.need(6, "steps of an order", "order-step")
    for nm in ("successorVariables", "predecessorVariables"):
        f = cx.prog.find(FO + "::" + nm)
        eng = cx.engine({}, Mon())
        o = this_init(f)
        G = fld(o, "order")
        for (s0, empty) in order_states(eng, o):
            for (s, k, v) in cx.run(eng, f, st=s0):
                w = eng.elem(s, G, num(0) if not empty else tm.sub(en.size(G), num(1)) if nm == "successorVariables" else num(1))
                got = deref(eng, s, v)
                cx.ob("moving", f.where(), k == "r" and seqeq(eng, s, got, w), "%s are %s" % (nm, tm.show(got, 5)), s.trace())
    cx.need(4, "variables that leave or reach a whole number", "moving")


def check_order_vars(cx):
    for nm in ("extendN", "removeN"):
        f = cx.prog.find(FO + "::" + nm)
        eng = cx.engine({}, Mon(), trust_asserts=True)
        o = this_init(f)
        G, n = fld(o, "order"), argsize(o)
        for s0 in cut(eng, [St()], tm.le(num(1), en.size(G)), *([tm.le(num(1), n)] if nm == "removeN" else [])):
            g0 = eng.elem(s0, G, num(0))
            for s1 in cut(eng, [s0], *([tm.le(num(1), en.size(g0))] if nm == "removeN" else [])):
                for (s, k, v) in cx.run(eng, f, st=s1):
                    got = deref(eng, s, v)
                    w0 = en.append(g0, n) if nm == "extendN" else en.mkseq([mk("sub", g0, num(0), tm.sub(en.size(g0), num(1)))])
                    m = as_list(eng, s, fld(got, "order"), en.size(G), lambda eng, z, K: w0 if implied(eng, z, tm.numeq(K, num(0))) else eng.elem(z, G, K))
                    d = tm.add(n, num(1)) if nm == "extendN" else tm.sub(n, num(1))
                    if m is None and not implied(eng, s, tm.numeq(fld(got, "size", ty="nat"), d)):
                        m = "the number of variables becomes %s" % tm.show(fld(got, "size"))
                    cx.ob("order-last", f.where(), k == "r" and m is None, "%s: %s" % (nm, m), s.trace())
    cx.need(2, "adding and removing the last variable", "order-last")
    f = cx.prog.find(FO + "::getSize")
    eng = cx.engine({}, Mon())
    for (s, k, v) in cx.run(eng, f):
        cx.ob("order-size", f.where(), k == "r" and eng.same(s, v, fld(this_init(f), "size")), "getSize is %s" % tm.show(v), s.trace())
    f = cx.prog.find(FO + "::<ctor>", 0)
    eng = cx.engine({}, Mon())
    for (s, k, v) in cx.run(eng, f):
        got = eng.read(s, this_loc(f))
        G = fld(got, "order")
        ok = eng.same(s, G, en.mkseq([mk("one", en.mkseq([mk("one", num(0))]))])) and implied(eng, s, tm.numeq(fld(got, "size", ty="nat"), num(1)))
        cx.ob("order-size", f.where(), ok, "the initial order is %s" % tm.show(G), s.trace())
    cx.need(2, "size and initial order", "order-size")


def argsize(o):
    return fld(o, "size", ty="nat")


def has_base(v, base):
    while v.op == "upd":
        v = v.a[0]
    return v is base


def check_order_zero(cx):
    f = cx.prog.find(FO + "::extendZero")
    o = this_init(f)
    G, n = fld(o, "order"), argsize(o)
    local = {}

    def ev(eng, st, l, v):
        p = l.a[1]
        if l.a[0].op != "var" or len(p) < 2 or p[-1].op != "I" or p[-2].op != "I":
            return RESET if l.a[0].op == "var" and (l.a[0] in local or p and p[0] == F("order")) and st.ghost.get("stk") else None
        local[l.a[0]] = eng
        return (p[-2].a[0], p[-1].a[0], eng.read(st, l, "nat"), v)

    def want(eng, s, ix, pay):
        if not implied(eng, s, tm.numeq(pay[0], ix[0])) or not implied(eng, s, tm.numeq(pay[1], ix[1])):
            return "variable %s of group %s is renamed" % (tm.show(pay[1]), tm.show(pay[0]))
        return None if implied(eng, s, tm.numeq(pay[3], tm.add(pay[2], num(1)))) else "a variable becomes %s" % tm.show(pay[3])

    def group(eng, st, ix):
        return [(st, en.size(eng.elem(st, G, ix[0])))]
    eng0 = cx.engine({}, Mon())
    for s0 in cut(eng0, [St()], tm.le(num(1), en.size(G))):
        def mkeng(mon):
            enter = mon.on_enter

            def on_enter(eng, st, key):
                st = enter(eng, st, key)
                if len(mon.stack(st)) == 1:
                    st.ghost["gn"] = en.size(groups(eng, st))
                if len(mon.stack(st)) == 2:
                    st.ghost["gs"] = now(eng, st, [st.ghost["p:0"]])
                return st

            def invariant(eng, st):
                # nothing but the variables changes in the loops, so the groups are as many and as large as before
                k = len(mon.stack(st))
                return ([tm.numeq(en.size(groups(eng, st)), st.ghost["gn"])] if k else []) + (
                    [tm.numeq(now(eng, st, [st.ghost["p:0"]]), st.ghost["gs"])] if k == 2 else [])
            mon.on_enter, mon.invariant = on_enter, invariant
            return cx.engine({}, mon, unroll=0)
        c2 = Ctx(cx.prog, cx.pid, cx.tier)
        rules = [Rule("renamed", [lambda eng, st, ix: [(st, en.size(groups(eng, st)))], lambda eng, st, ix: [(st, cur_group(eng, st, ix))]], ev, want, None, "renaming of the variables")]

        def cur_group(eng, st, ix):
            # the loops do not change the number of variables of a group: its size on entry is its size now
            n = now(eng, st, ix)
            if st.ghost.get("gs") is None or len(st.ghost.get("stk") or ()) != 2:
                return n
            p = st.ghost.get("p:1")
            return n if p is not None and implied(eng, st, tm.le(n, p)) else st.ghost["gs"]

        def groups(eng, st):
            # nothing but the variables changes in the loops, so the groups are as many and as large as before
            for r in local:
                v = st.mem.get(r)
                if v is not None:
                    return fld(v, "order")
            return G

        def now(eng, st, ix):
            return en.size(eng.elem(st, groups(eng, st), ix[0]))

        def at_end(eng, s, k, v):
            got = deref(eng, s, v)
            g = fld(got, "order")
            m = None
            base, head = None, None
            ps = en.parts(g)
            if g.op == "upd" and implied(eng, s, tm.numeq(g.a[1], num(0))):
                base, head = g.a[0], g.a[2]
            elif len(ps) == 2 and ps[0].op == "one" and ps[1].op == "sub":
                c = ps[1].a[0]
                if implied(eng, s, tm.numeq(ps[1].a[1], num(1))) and implied(eng, s, tm.numeq(ps[1].a[2], en.size(c))):
                    base, head = c, ps[0].a[0]
            if base is None:
                m = "the groups become %s" % tm.show(g, 5)
            elif not seqeq(eng, s, head, en.mkseq([mk("one", num(0))] + en.parts(eng.elem(s, base, num(0))))):
                m = "the first group becomes %s" % tm.show(head, 5)
            elif base.op not in ("phi", "field"):
                m = "the groups become %s" % tm.show(base, 5)
            if m is None and not implied(eng, s, tm.numeq(fld(got, "size", ty="nat"), tm.add(n, num(1)))):
                m = "the number of variables becomes %s" % tm.show(fld(got, "size"))
            c2.ob("order-first", f.where(), k == "r" and m is None, "extendZero: %s" % m, s.trace())
        ends = check_nest(c2, f, rules, mkeng, st=s0, at_end=at_end, rule="order-renamed")
        cx.absorb(c2)
        if not local and not all(has_base(fld(deref(mkeng(Mon()), s, v), "order"), G) for (s, k, v) in ends if k == "r"):
            cx.obs = [o for o in cx.obs if o not in c2.obs]
            raise TooComplex("the renamed groups are built anew")
    cx.need(2, "adding a first variable")


def check_order_ctor(cx):
    """sorting the fractional parts and grouping equal ones"""
    f = cx.prog.find(FO + "::<ctor>", 1, lambda g: "vector" in g.params[0]["t"])
    V = arg(f, 0)
    n = en.size(V)

    def srt(st):
        v = [x for r, x in st.mem.items() if r.op == "var" and x.op == "sorted"]
        if len(v) != 1:
            raise TooComplex("the sorted fractional parts are not followed")
        return v[0]

    def ev(eng, st, l, v):
        if l.a[0].op != "var":
            return None
        if len(l.a[1]) == 1 and l.a[1][0].op == "I" and v.op == "rec":
            return (l.a[1][0].a[0], v)
        if not l.a[1] and v.op == "seq":
            x = appended(eng, st, l, v)
            return (en.size(eng.read(st, l)), x) if x is not None and x is not RESET and x.op == "rec" else None

    def want(eng, s, ix, pay):
        i, v = pay
        if not implied(eng, s, tm.numeq(i, ix[0])):
            return "entry %s is written" % tm.show(i)
        if not sameval(eng, s, fld(v, "first", ty="real"), eng.elem(s, V, ix[0], "real")) or not implied(eng, s, tm.numeq(fld(v, "second", ty="nat"), ix[0])):
            return "the entry is %s" % tm.show(v, 6)

    def at_end(eng, s, k, v):
        c = srt(s)
        cx.ob("order-entries", f.where(), implied(eng, s, tm.numeq(en.size(c.a[0]), n)), "%s entries are sorted" % tm.show(en.size(c)), s.trace())
        got = eng.read(s, this_loc(f, "size"), "nat")
        cx.ob("order-of", f.where(), implied(eng, s, tm.numeq(got, n)), "the number of variables is %s" % tm.show(got), s.trace())
    rules = [Rule("entry", [lambda eng, st, ix: [(st, n)]], ev, want, None, "the fractional parts with their variables")]
    check_nest(cx, f, rules, lambda mon: cx.engine({}, mon, unroll=0), at_end=at_end, rule="order-entries")

    class Groups(Fold):
        def on_enter(self, eng, st, key):
            new = Fold.on_enter(self, eng, st, key)
            if new is not st and "prev" not in new.ghost:
                new.ghost["prev"] = num(0)
            return new

        def on_back(self, eng, st, key, head):
            new = Fold.on_back(self, eng, st, key, head)
            if new is not st and not (new.mem is None):
                c = [x for r, x in st.mem.items() if r.op == "var" and x.op == "sorted"]
                if c:
                    x = fld(eng.elem(st, c[0], st.ghost["pos"]), "first", ty="real")
                    if not implied(eng, st, tm.numeq(x, st.ghost["prev"])):
                        new.ghost["prev"] = x
            return new

    def step(eng, st, h, p):
        out = []
        if not any(r.op == "var" and x.op == "sorted" for r, x in st.mem.items()):
            return [(st, h)]
        e = eng.elem(st, srt(st), p)
        x, i = fld(e, "first", ty="real"), fld(e, "second", ty="nat")
        last = tm.sub(en.size(h), num(1))
        for s in eng.assume(st, tm.le(num(1), en.size(h))):
            for (z, b) in eng.branch(s, tm.numeq(x, s.ghost["prev"])):
                g = en.append(eng.elem(z, h, last), i) if b else en.mkseq([mk("one", i)])
                out.append((z, eng.upd_elem(z, h, last, g) if b else en.append(h, g)))
        return out

    def compare(eng, s, m, w):
        if m is w or eng.same(s, m, w):
            return None
        K = mk("sym", "%K", ty="nat")
        if not implied(eng, s, tm.numeq(en.size(m), en.size(w))):
            return "%s groups instead of %s" % (tm.show(en.size(m)), tm.show(en.size(w)))
        for z in eng.assume(s, tm.lt(K, en.size(m))):
            for z1 in cases(eng, z, tm.numeq(tm.add(K, num(1)), en.size(m))):
                if not seqeq(eng, z1, eng.elem(z1, m, K), eng.elem(z1, w, K)):
                    return "the last group becomes %s instead of %s" % (tm.show(eng.elem(z1, m, K), 5), tm.show(eng.elem(z1, w, K), 5))
        return None
    G = lambda eng, st: eng.read(st, this_loc(f, "order"))
    mon = Groups(G, (n, step), compare=compare)
    eng = cx.engine({}, mon, unroll=0)
    for (s, k, v) in cx.run(eng, f):
        mon.report(cx, "order-groups", f, s, "grouping the fractional parts")
        h = s.ghost.get("G")
        cx.ob("order-of", f.where(), h is not None and (G(eng, s) is h or eng.same(s, G(eng, s), h)), "the groups are changed afterwards", s.trace())
    cx.need(5, "order of fractional parts")


def check_order_eq(cx):
    f = cx.prog.find(FO + "::operator==")
    eng = cx.engine({}, Mon())
    a, b = this_init(f), arg(f, 0)
    for (s, k, v) in cx.run(eng, f):
        w = tm.band(tm.numeq(argsize(a), argsize(b)), eng.truth(eng.stl.equal(s, fld(a, "order"), fld(b, "order"))))
        cx.ob("order-equal", f.where(), k == "r" and eqv(eng, s, eng.truth(v), w), "equality is %s" % tm.show(v, 5), s.trace())
    cx.need(1, "equality of orders", "order-equal")


# --------------------------------------------------------------- languages
def app(name, *args, ty=None):
    return mk("app", name, *args, ty=ty)


def p_app(name, ty=None):
    """the result of a function whose own meaning is decided elsewhere"""
    def p(eng, st, ol, args, e, fr):
        o = [eng.read(st, ol)] if ol is not None and ol.op == "loc" else []
        return [(st, app(name, *(o + [eng.argval(st, a) for a in args]), ty=ty))]
    return p


def p_assign(name):
    def p(eng, st, ol, args, e, fr):
        s = st.copy()
        eng.write(s, ol, app(name, eng.read(s, ol), *[eng.argval(s, a) for a in args]))
        return [(s, VOID)]
    return p


def p_ctor(name):
    """constructor from one container; copies and default construction are left to the analysis"""
    def p(eng, st, ol, args, e, fr):
        if len(args) != 1:
            return None
        v = eng.argval(st, args[0])
        return [(st, app(name, v))]
    return p


def opaque(**more):
    P = {}
    for m in ("extendN", "removeN", "extendZero", "successor", "predecessor", "prefix", "suffix", "applyResets", "size", "operator+"):
        P[T + "::" + m] = p_app("tc." + m, "nat" if m == "size" else None)
    for m in ("hasPrefix", "hasSuffix", "hasEqualityN", "isSimple", "operator==", "operator!=", "<conv>bool"):
        P[T + "::" + m] = p_app("tc." + m, "bool")
    P[T + "::successorAssign"] = p_assign("tc.successor")
    P[T + "::convexHullAssign"] = p_assign("tc.convexHull")
    P[T + "::removeUpperBoundAssign"] = p_assign("tc.removeUpperBound")
    P[T + "::removeEqualityUpperBoundAssign"] = p_assign("tc.removeEqualityUpperBound")
    P[T + "::empty"] = p_app("tc.empty")
    for m in ("extendN", "removeN", "extendZero", "successor", "predecessor", "successorVariables", "predecessorVariables", "getSize"):
        P[FO + "::" + m] = p_app("fo." + m, "nat" if m == "getSize" else None)
    P[FO + "::operator=="] = p_app("fo.operator==", "bool")
    P[FO + "::successorAssign"] = p_assign("fo.successor")
    P.update(more)
    return P


def lang(w, c, o=None):
    r = {"word": w, "timedCondition": c}
    if o is not None:
        r["fractionalOrder"] = o
    return r


def is_lang(cx, rule, f, eng, s, got, want, what, kind="r"):
    """field by field"""
    for n, w in want.items():
        g = fld(got, n)
        ok = seqsame(eng, s, g, w) if n == "word" else eng.same(s, g, w)
        cx.ob(rule, f.where(), kind == "r" and ok, "%s: %s is %s instead of %s" % (what, {"word": "the word", "timedCondition": "the condition"}.get(n, "the order"), tm.show(g, 5), tm.show(w, 5)), s.trace(), n)


def check_lang_steps(cx):
    for (cls, nm, n) in ((FW, "successor", 0), (FW, "successor", 1), (FW, "successorAssign", 0), (BW, "predecessor", 0), (BW, "predecessor", 1)):
        f = cx.prog.find(cls + "::" + nm, n)
        eng = cx.engine(opaque(), Mon(), trust_asserts=True)
        me = this_init(f)
        w, c, o = fld(me, "word"), fld(me, "timedCondition"), fld(me, "fractionalOrder")
        if n == 1:
            x = mk("one", argv(f, 0))
            new = en.mkseq(en.parts(w) + [x]) if cls == FW else en.mkseq([x] + en.parts(w))
            ext = "extendN" if cls == FW else "extendZero"
            want = lang(new, app("tc." + ext, c), app("fo." + ext, o))
        else:
            step = "successor" if cls == FW else "predecessor"
            want = lang(w, app("tc." + step, c, app("fo.%sVariables" % step, o)), app("fo." + step, o))
        for (s, k, v) in cx.run(eng, f):
            got = eng.read(s, this_loc(f)) if nm == "successorAssign" else deref(eng, s, v)
            is_lang(cx, "language-step", f, eng, s, got, want, nm, k)
    cx.need(15, "steps of regional languages", "language-step")


def prefix_cases(eng, s, me):
    """[(state, None or the fields of the immediate prefix)]"""
    w, c, o = fld(me, "word"), fld(me, "timedCondition"), fld(me, "fractionalOrder")
    out = []
    for (s1, b) in eng.branch(s, app("tc.hasPrefix", c, ty="bool")):
        if b:
            out.append((s1, lang(w, app("tc.prefix", c, app("fo.predecessorVariables", o)), app("fo.predecessor", o))))
            continue
        for (s2, e) in eng.branch(s1, tm.numeq(en.size(w), num(0))):
            out.append((s2, None if e else lang(en.mkseq([mk("sub", w, num(0), tm.sub(en.size(w), num(1)))]), app("tc.removeN", c), app("fo.removeN", o))))
    return out


def check_prefix(cx):
    f = cx.prog.find(FW + "::immediatePrefix")
    eng = cx.engine(opaque(), Mon(), trust_asserts=True)
    me = this_init(f)
    for (s0, k, v) in cx.run(eng, f):
        v = deref(eng, s0, v)
        for (s, want) in prefix_cases(eng, s0, me):
            e = eng.simp(s, mk("engaged", v, ty="bool")) if v.op not in ("some", "none") else v.op == "some"
            ok = k == "r" and e is (want is not None)
            cx.ob("prefix", f.where(), ok, "there %s a prefix" % ("is" if e else "is not"), s.trace())
            if ok and want:
                is_lang(cx, "prefix", f, eng, s, v.a[0] if v.op == "some" else mk("optval", v), want, "the immediate prefix")
    cx.need(5, "immediate prefixes", "prefix")


def check_lang_eq(cx):
    for cls in (EL, FW, BW):
        f = cx.prog.find(cls + "::operator==")
        eng = cx.engine(opaque(), Mon())
        a, b = this_init(f), arg(f, 0)
        for (s, k, v) in cx.run(eng, f):
            w = [eng.truth(eng.stl.equal(s, fld(a, "word"), fld(b, "word"))), app("tc.operator==", fld(a, "timedCondition"), fld(b, "timedCondition"), ty="bool")]
            if cls != EL:
                w.append(app("fo.operator==", fld(a, "fractionalOrder"), fld(b, "fractionalOrder"), ty="bool"))
            cx.ob("language-equal", f.where(), k == "r" and eqv(eng, s, eng.truth(v), tm.band(*w)), "equality is %s" % tm.show(v, 5), s.trace(), cls)
    cx.need(3, "equality of languages", "language-equal")


def check_lang_ops(cx):
    me = lambda f: this_init(f)
    f = cx.prog.find(EL + "::operator+")
    eng = cx.engine(opaque(), Mon(), trust_asserts=True)
    a, b = me(f), arg(f, 0)
    for (s, k, v) in cx.run(eng, f):
        is_lang(cx, "language-op", f, eng, s, deref(eng, s, v), lang(en.concat(fld(a, "word"), fld(b, "word")), app("tc.operator+", fld(a, "timedCondition"), fld(b, "timedCondition"))), "the concatenation", k)
    for nm, op in (("removeUpperBoundAssign", "removeUpperBound"), ("removeUpperBound", "removeUpperBound"), ("removeEqualityUpperBoundAssign", "removeEqualityUpperBound")):
        f = cx.prog.find(EL + "::" + nm)
        eng = cx.engine(opaque(), Mon(), trust_asserts=True)
        for (s, k, v) in cx.run(eng, f):
            got = eng.read(s, this_loc(f)) if nm.endswith("Assign") else deref(eng, s, v)
            is_lang(cx, "language-op", f, eng, s, got, lang(fld(me(f), "word"), app("tc." + op, fld(me(f), "timedCondition"))), nm, k)
    f = cx.prog.find(EL + "::empty")
    eng = cx.engine(opaque(), Mon(), trust_asserts=True)
    for (s, k, v) in cx.run(eng, f):
        is_lang(cx, "language-op", f, eng, s, deref(eng, s, v), lang(en.EMPTY, app("tc.empty")), "the empty language", k)
    for nm in ("isSimple", "wordSize", "getWord", "getTimedCondition"):
        f = cx.prog.find(EL + "::" + nm)
        eng = cx.engine(opaque(), Mon())
        w = {"isSimple": app("tc.isSimple", fld(me(f), "timedCondition"), ty="bool"), "wordSize": en.size(fld(me(f), "word")), "getWord": fld(me(f), "word"), "getTimedCondition": fld(me(f), "timedCondition")}[nm]
        for (s, k, v) in cx.run(eng, f):
            cx.ob("language-op", f.where(), k == "r" and sameval(eng, s, deref(eng, s, v), w), "%s is %s" % (nm, tm.show(v, 5)), s.trace())
    f = cx.prog.find(EL + "::operator!=")
    eng = cx.engine(opaque(), Mon())
    for (s, k, v) in cx.run(eng, f):
        b = arg(f, 0)
        for (x, y) in ((me(f), b), (b, me(f))):
            w = tm.bnot(tm.band(eng.truth(eng.stl.equal(s, fld(x, "word"), fld(y, "word"))), app("tc.operator==", fld(x, "timedCondition"), fld(y, "timedCondition"), ty="bool")))
            ok = k == "r" and eqv(eng, s, eng.truth(v), w)
            if ok:
                break
        cx.ob("language-op", f.where(), ok, "inequality is %s" % tm.show(v, 5), s.trace())
    cx.need(15, "operations on languages", "language-op")


def either(cx, attempts):
    """the first form of the argument that goes through, or the findings of the first one"""
    first = None
    for a in attempts:
        c = Ctx(cx.prog, cx.pid, cx.tier)
        try:
            a(c)
        except TooComplex as e:
            first = first or e
            continue
        if all(o.ok for o in c.obs):
            cx.absorb(c)
            return
        first = first or c
    if isinstance(first, TooComplex):
        raise first
    cx.absorb(first)


def check_hull_of(cx):
    f = cx.prog.find(EL + "::convexHull")
    L = arg(f, 0)
    C = "timedCondition"

    class Hull(Fold):
        pass
    roots = []

    def get(eng, st):
        r = [x for x in st.mem if x.op == "var" and st.mem[x].op != "alias" and x in roots]
        return fld(st.mem[r[0]], C) if len(r) == 1 else None

    def on_decl(eng, st, v, root, fr):
        t = (v.get("t") or "").replace("const ", "").strip()
        if t in (EL, "ElementaryLanguage") and not v.get("ref") and not t.endswith("&"):
            roots.append(root)

    def step(eng, st, h, p):
        x = fld(eng.elem(st, L, p), C)
        return [(st, app("tc.convexHull", h, x))]

    def compare(eng, s, m, w):
        if eng.same(s, m, w) or m is w.a[1] and False:
            return None
        # the hull with the first language itself changes nothing
        x = w.a[2] if w.op == "app" else None
        if x is not None and eng.same(s, m, w.a[1]) and eng.same(s, x, fld(eng.elem(s, L, num(0)), C)):
            return None
        return "the condition becomes %s instead of %s" % (tm.show(m, 5), tm.show(w, 5))
    def attempt(c2, skip):
        """the first language may be left out of the loop: the result starts from it"""
        off = num(1 if skip else 0)
        mon = Fold(get, (tm.sub(en.size(L), off), lambda eng, st, h, p: step(eng, st, h, tm.add(p, off))), compare=compare)
        mon.on_decl = on_decl
        eng = c2.engine(opaque(), mon, unroll=0, trust_asserts=True)
        for (s, k, v) in c2.run(eng, f):
            got = deref(eng, s, v)
            if implied(eng, s, tm.numeq(en.size(L), num(0))):
                is_lang(c2, "hull", f, eng, s, got, lang(en.EMPTY, app("tc.empty")), "the hull of no language", k)
                continue
            mon.report(c2, "hull", f, s, "the convex hull")
            h = s.ghost.get("G")
            c2.ob("hull", f.where(), h is not None and eng.same(s, fld(got, C), h) and eng.same(s, fld(got, "word"), fld(eng.elem(s, L, num(0)), "word")), "the result is %s" % tm.show(got, 5), s.trace())
    either(cx, [lambda c: attempt(c, False), lambda c: attempt(c, True)])
    cx.need(4, "convex hull of languages", "hull")


def check_enumerate(cx):
    f = cx.prog.find(EL + "::enumerate", 1)
    me = this_init(f)
    c = fld(me, "timedCondition")

    def p_enum(eng, st, ol, args, e, fr):
        s = st.copy()
        eng.write(s, args[0].a[0], app("tc.enumerate", eng.read(s, ol)))
        return [(s, VOID)]
    E = app("tc.enumerate", c)
    out = loc(mk("argobj", 0, f.params[0]["n"]))
    mkeng = lambda mon: cx.engine(opaque(**{T + "::enumerate": p_enum}), mon, unroll=0, trust_asserts=True)
    simple = app("tc.isSimple", c, ty="bool")
    eng = mkeng(Mon())
    for s0 in eng.assume(St(), simple):
        for (s, k, v) in cx.run(mkeng(Mon()), f, st=s0.copy()):
            got = eng.read(s, out)
            ok = implied(eng, s, tm.numeq(en.size(got), num(1)))
            cx.ob("enumerate", f.where(), k == "r" and ok, "%s languages are listed" % tm.show(en.size(got)), s.trace())
            if ok:
                is_lang(cx, "enumerate", f, eng, s, eng.elem(s, got, num(0)), lang(fld(me, "word"), c), "a listed language")

    def ev(eng, st, l, v):
        if l.a[0].op == "argobj" and len(l.a[1]) == 1 and l.a[1][0].op == "I":
            return (l.a[1][0].a[0], v)
        if l == out and st.ghost.get("stk"):
            x = appended(eng, st, l, v)
            return x if x is None or x is RESET else (en.size(eng.read(st, l)), x)

    def want(eng, s, ix, pay):
        i, x = pay
        if not implied(eng, s, tm.numeq(i, ix[0])):
            return "entry %s is written" % tm.show(i)
        return None if eng.same(s, fld(x, "word"), fld(me, "word")) and eng.same(s, fld(x, "timedCondition"), eng.elem(s, E, i)) else "a listed language is %s" % tm.show(x, 5)

    def at_end(eng, s, k, v):
        got = eng.read(s, out)
        cx.ob("enumerate", f.where(), k == "r" and implied(eng, s, tm.numeq(en.size(got), en.size(E))), "%s languages are listed" % tm.show(en.size(got)), s.trace())
    rules = [Rule("listed", [lambda eng, st, ix: [(st, en.size(E))]], ev, want, None, "the languages of the simple conditions")]
    for s0 in eng.assume(St(), simple, False):
        check_nest(cx, f, rules, mkeng, st=s0, at_end=at_end, rule="enumerate")
    cx.need(6, "simple sublanguages", "enumerate")


def p_forced(which):
    def p(eng, st, ol, args, e, fr):
        s = st.copy()
        fo = eng.argval(s, args[3]) if len(args) > 3 else FALSE
        eng.write(s, ol, mk("rst", eng.read(s, ol), which if eng.simp(s, eng.truth(fo)) is False else which + "!", *[eng.argval(s, a) for a in args[:3]]))
        return [(s, VOID)]
    return p


def check_members(cx):
    """restricting the delays to those of a word"""
    eng0 = cx.engine({}, Mon())
    for nm in ("constrain", "contains"):
        f = cx.prog.find(EL + "::" + nm)
        me, w = this_init(f), arg(f, 0)
        D, W = fld(w, "durations"), fld(w, "word")
        c = fld(me, "timedCondition")
        n = en.size(W) if nm == "constrain" else app("tc.size", c, ty="nat")

        def spine(v):
            while v.op == "rst":
                v = v.a[0]
            return v
        seen, firsts = [], []

        def ev_of(which):
            def ev(eng, st, l, v):
                if v.op != "rst":
                    return RESET if l in seen else None
                seen.append(l)
                if v.a[0] is not eng.read(st, l):
                    return RESET
                return v if v.a[1].startswith(which) else None
            return ev

        def want_of(which):
            def want(eng, s, ix, pay):
                i = ix[0]
                if pay.a[1] != which:
                    return "the bound replaces the one that is there"
                if not implied(eng, s, tm.numeq(pay.a[2], i)) or not implied(eng, s, tm.numeq(pay.a[3], i)):
                    return "the bound is that of T_{%s,%s}" % (tm.show(pay.a[2]), tm.show(pay.a[3]))
                d = eng.elem(s, D, i, "real")
                if not sameval(eng, s, pay.a[4], bnd(d if which == "up" else tm.neg(d), True)):
                    return "the bound is %s" % tm.show(pay.a[4], 6)
            return want
        lv = [lambda eng, st, ix: [(st, n)]]
        rules = [Rule("upper", lv, ev_of("up"), want_of("up"), None, "the upper bound of a delay"), Rule("lower", lv, ev_of("lo"), want_of("lo"), None, "the lower bound of a delay")]

        def p_size(eng, st, ol, args, e, fr):
            return [(st, n)]        # restrictions keep the number of variables

        def mkeng(mon):
            P = opaque(**{T + "::restrictLowerBound": p_forced("lo"), T + "::restrictUpperBound": p_forced("up")})
            enter = getattr(mon, "on_enter", None)

            def on_enter(eng, st, key):
                if not mon.stack(st):
                    firsts.append(st)
                return enter(eng, st, key)
            if enter:
                mon.on_enter = on_enter
            P.pop(T + "::size")
            if nm == "contains":
                P[T + "::size"] = p_size
            return cx.engine(P, mon, unroll=0, trust_asserts=True)
        if nm == "contains":
            eng = mkeng(Mon())
            st = St()
            same = eng.truth(eng.stl.equal(st, W, fld(me, "word")))
            for s in eng.assume(st, same, False):
                for (z, k, v) in cx.run(mkeng(Mon()), f, st=s.copy()):
                    cx.ob("member", f.where(), k == "r" and eng.simp(z, eng.truth(v)) is False, "a word with other actions belongs to the language", z.trace())
            sts = eng.assume(st, same)
        else:
            sts = [St()]
        for s0 in sts:
            def at_end(eng, s, k, v):
                if nm == "contains":
                    sat = [x for t in list(s.facts) + [v] for x in tm.subterms(t) if x.op == "app" and x.a[0] == "tc.<conv>bool"]
                    ok = k == "r" and any(eqv(eng, s, eng.truth(v), x) and good(x.a[1]) for x in sat)
                    cx.ob("member", f.where(), ok, "membership is %s" % tm.show(v, 5), s.trace())
                else:
                    got = deref(eng, s, v)
                    cx.ob("constrained", f.where(), k == "r" and eng.same(s, fld(got, "word"), fld(me, "word")) and good(fld(got, "timedCondition")), "the result is %s" % tm.show(got, 5), s.trace())

            def good(x):
                x = spine(x)
                return x is c or x.op == "phi"
            check_nest(cx, f, rules, mkeng, st=s0, at_end=at_end, rule=nm)
            for s in firsts[:1]:
                cx.ob(nm, f.where(), bool(seen) and eng0.same(s, eng0.read(s, seen[0]), c), "%s does not start from the condition of the language" % nm, s.trace())
    cx.need(10, "membership and restriction")


class Chain(Mon):
    """vectors filled one entry after the other with the sums of the delays so far, or with the fractional parts of these sums"""

    def __init__(self, D):
        self.D = D
        self.keys = set()

    def pkey(self, s):
        return tuple(sorted(str(k) for k in s.ghost if isinstance(k, str) and k[:2] in ("c:", "u:", "a:") and s.ghost[k] is not None))

    def on_decl(self, eng, st, v, root, fr):
        x = st.mem.get(root)
        if x is not None and "&" not in v.get("t", ""):
            self.copied(eng, st, root, x)
            if x is en.EMPTY:
                for dr in ("asc", "desc"):
                    st.ghost["a:%s|%s" % (root, dr)] = True

    def copied(self, eng, st, root, x):
        """a copy of the delays: the last delay (for sums from the back) or the first one is its own sum, the others are still delays"""
        if x is not self.D or not implied(eng, st, tm.le(num(1), en.size(self.D))):
            return
        N = en.size(self.D)
        for (dr, c, at) in (("asc", num(1), num(0)), ("desc", tm.sub(N, num(1)), tm.sub(N, num(1)))):
            k = "%s|%s|acc" % (root, dr)
            self.keys.add(k)
            st.ghost["c:" + k] = c
            st.ghost["S:" + k] = eng.elem(st, self.D, at, "real")
            st.ghost["u:" + k] = num(1)

    def appends(self, eng, st, root, cur, val):
        """fractional parts of the sums held by another vector, appended one after the other"""
        n = en.size(cur)
        one = val.op == "seq" and implied(eng, st, tm.numeq(en.size(val), tm.add(n, num(1)))) and eng.same(st, val, en.append(cur, eng.elem(st, val, n, "real")))
        for dr in ("asc", "desc"):
            k = "a:%s|%s" % (root, dr)
            c = st.ghost.get(k)
            ok = False
            if one and (implied(eng, st, tm.numeq(n, num(0))) or c is not None):
                x = eng.elem(st, val, n, "real")
                for r2, v in st.mem.items():
                    c2 = st.ghost.get("c:%s|%s|acc" % (r2, dr))
                    if r2.op == "var" and r2 is not root and c2 is not None and implied(eng, st, tm.lt(n, c2) if dr == "asc" else tm.le(c2, n)):
                        y = eng.elem(st, v, n, "real")
                        ok = ok or sameval(eng, st, x, tm.sub(y, eng.stl.floor(y)))
            st.ghost[k] = True if ok else None

    def value(self, st, root):
        return st.mem.get(root)

    def on_write(self, eng, st, l, val):
        if l.a[0].op == "var" and not l.a[1]:
            self.copied(eng, st, l.a[0], val)
            self.appends(eng, st, l.a[0], eng.read(st, l), val)
        if l.a[0].op != "var" or len(l.a[1]) != 1 or l.a[1][0].op != "I" or not tm.isnumeric(val):
            return
        root, i = l.a[0], l.a[1][0].a[0]
        g = st.ghost
        for dr in ("asc", "desc"):
            g["a:%s|%s" % (root, dr)] = None
        N = en.size(self.D)
        cur = eng.read(st, loc(root))
        for dr in ("asc", "desc"):
            for kind in ("acc", "frac"):
                k = "%s|%s|%s" % (root, dr, kind)
                self.keys.add(k)
                if g.get("dead:" + k):
                    continue
                # the entries below c (ascending) or from c on (descending) are right
                c = g.get("c:" + k)
                n = c if c is not None else num(0) if dr == "asc" else N
                at = n if dr == "asc" else tm.sub(n, num(1))
                if implied(eng, st, tm.numeq(i, at)):
                    if any(self.fits(eng, st, root, cur, dr, kind, n, a, val) for a in (i, at)):
                        g["c:" + k] = tm.add(n, num(1)) if dr == "asc" else i
                        g["S:" + k] = val
                    else:
                        g["u:" + k] = None
                    continue
                if not eng.same(st, eng.elem(st, cur, i, "real"), val):
                    g["u:" + k] = None
                done = tm.lt(i, n) if dr == "asc" else tm.lt(at, i)
                if c is not None and eng.assume(st, done):
                    old = eng.elem(st, cur, i, "real")
                    if not eng.same(st, old, val):
                        g["dead:" + k] = True
                        g["c:" + k] = None

    def fits(self, eng, st, root, cur, dr, kind, n, at, val):
        d = eng.elem(st, self.D, at, "real")
        none = tm.numeq(n, num(0) if dr == "asc" else en.size(self.D))
        first = implied(eng, st, none)
        if not first and eng.assume(st, none):
            return False
        before = tm.sub(at, num(1)) if dr == "asc" else tm.add(at, num(1))
        sums = []
        if st.ghost.get("u:%s|%s|acc" % (root, dr)) is not None and kind == "acc" and not first:
            # this entry is still the delay
            sums.append(tm.add(eng.elem(st, cur, before, "real"), eng.elem(st, cur, at, "real")))
            if st.ghost.get("S:%s|%s|acc" % (root, dr)) is not None:
                sums.append(tm.add(st.ghost["S:%s|%s|acc" % (root, dr)], eng.elem(st, cur, at, "real")))
        if first:
            sums.append(d)
        else:
            sums.append(tm.add(eng.elem(st, cur, before, "real"), d))
            s = st.ghost.get("S:%s|%s|%s" % (root, dr, kind))
            if s is not None:
                sums.append(tm.add(s, d))
        if kind == "frac":
            for r2, v in st.mem.items():
                if r2.op != "var" or r2 is root:
                    continue
                k2 = "%s|%s|acc" % (r2, dr)
                c2 = st.ghost.get("c:" + k2)
                if c2 is not None and implied(eng, st, tm.lt(at, c2) if dr == "asc" else tm.le(c2, at)):
                    sums.append(eng.elem(st, v, at, "real"))
                    if implied(eng, st, tm.numeq(c2, tm.add(at, num(1)) if dr == "asc" else at)):
                        sums.append(st.ghost["S:" + k2])
                if dr == "desc" and self.accumulated(v):
                    sums.append(eng.elem(st, v, at, "real"))
            if self.accumulated(cur):
                # computed in place
                sums.append(eng.elem(st, cur, at, "real"))
            sums = [tm.sub(x, eng.stl.floor(x)) for x in sums]
        return any(val is x or eng.same(st, val, x) or sameval(eng, st, val, x) for x in sums)

    def accumulated(self, v):
        while v.op == "upd":
            v = v.a[0]
        return v.op == "app" and v.a[0] == "accumulated" and v.a[1] is self.D

    def complete(self, eng, st, a, dr, kind):
        """the argument is a vector filled completely; message or None"""
        if a.op != "byref" or a.a[0].a[0].op != "var" or a.a[0].a[1]:
            v = eng.argval(st, a)
            if kind == "acc" and self.accumulated(v):
                return None
            raise TooComplex("a vector of delays is not followed")
        root = a.a[0].a[0]
        v = eng.read(st, loc(root))
        N = en.size(self.D)
        if kind == "acc" and dr == "desc" and v.op == "app" and self.accumulated(v):
            return None
        if not implied(eng, st, tm.numeq(en.size(v), N)):
            return "%s entries instead of %s" % (tm.show(en.size(v)), tm.show(N))
        c = st.ghost.get("c:%s|%s|%s" % (root, dr, kind))
        n = st.ghost.get("a:%s|%s" % (root, dr))
        if kind == "frac" and n is not None:
            return None
        if c is None and not any(k.startswith("%s|" % root) for k in self.keys):
            raise TooComplex("a vector of delays is not filled entry by entry")
        if c is None or not implied(eng, st, tm.numeq(c, en.size(v) if dr == "asc" else num(0))):
            return "not all entries hold the %s of the delays %s" % ("sum" if kind == "acc" else "fractional part of the sum", "so far" if dr == "asc" else "from there on")
        return None


def chain_engine(cx, f, D, dirs, rule, prims=()):
    mon = Chain(D)
    made = []

    def p_tc(eng, st, ol, args, e, fr):
        if len(args) != 1 or "vector" not in e.get("fid", ""):
            return None
        m = mon.complete(eng, st, args[0], "desc", "acc")
        made.append("tc")
        cx.ob(rule, f.where(), m is None, "the sums of the delays: %s" % m, st.trace())
        return [(st, app("tc.around", mk("sym", "%sums")))]

    def p_fo(eng, st, ol, args, e, fr):
        if len(args) != 1 or "vector" not in e.get("fid", ""):
            return None
        m = mon.complete(eng, st, args[0], dirs, "frac")
        made.append("fo")
        cx.ob(rule, f.where(), m is None, "the fractional parts: %s" % m, st.trace())
        return [(st, app("fo.of", mk("sym", "%fractions")))]

    def p_acc(eng, st, ol, args, e, fr):
        w = eng.read(st, ol)
        return [(st, app("accumulated", fld(w, "durations")))]
    P = opaque(**{T + "::<ctor>": p_tc, FO + "::<ctor>": p_fo, TW + "::getAccumulatedDurations": p_acc})
    P.update(dict(prims))
    return cx.engine(P, mon, unroll=0, trust_asserts=True, notab=True), made


AROUND = app("tc.around", mk("sym", "%sums"))
FRACTIONS = app("fo.of", mk("sym", "%fractions"))


def check_from_word(cx):
    for cls, dr in ((FW, "desc"), (BW, "asc")):
        f = cx.prog.find(cls + "::fromTimedWord")
        w = arg(f, 0)
        D, W = fld(w, "durations"), fld(w, "word")
        eng, made = chain_engine(cx, f, D, dr, "from-word")
        st = St()
        inv_timed_word(st, w)
        for (s, k, v) in cx.run(eng, f, st=st):
            is_lang(cx, "from-word-language", f, eng, s, deref(eng, s, v), lang(W, AROUND, FRACTIONS), "the language of a word", k)
    cx.need(10, "languages of words")


def check_prefixes(cx):
    """the chain of immediate prefixes, shortest first"""
    f = cx.prog.find(FW + "::prefixes")
    me = this_init(f)
    IP = lambda x: app("prefix", x)

    class Mn(Mon):
        def pkey(self, s):
            return s.ghost.get("list"), s.ghost.get("cur") is None, s.ghost.get("dir")

        def on_write(self, eng, st, l, v):
            g = st.ghost
            if l.a[0].op != "var" or l.a[1] or v.op != "seq" and not g.get("list") == str(l.a[0]):
                return
            old = eng.read(st, l)
            if g.get("list") is None:
                if not implied(eng, st, tm.numeq(en.size(old), num(0))) or not implied(eng, st, tm.numeq(en.size(v), num(1))):
                    return
                g["list"] = str(l.a[0])
            elif g["list"] != str(l.a[0]):
                return
            n = en.size(old)
            first = None
            if implied(eng, st, tm.numeq(en.size(v), tm.add(n, num(1)))):
                x = eng.elem(st, v, num(0))
                dr = None
                if eng.same(st, v, en.mkseq([mk("one", x)] + en.parts(old))):
                    first, dr = x, "front"
                elif eng.same(st, v, en.append(old, eng.elem(st, v, n))):
                    first, dr = eng.elem(st, v, n), "back"
                if g["dir"] and dr != g["dir"] and implied(eng, st, tm.numeq(n, num(0))):
                    dr = g["dir"]
                if dr and g["dir"] and dr != g["dir"]:
                    raise TooComplex("the prefixes are collected in changing order")
                if not implied(eng, st, tm.numeq(n, num(0))):
                    g["dir"] = dr
            if first is None:
                raise TooComplex("the list of prefixes is not followed")
            cur = g["cur"]
            if cur is None:
                ok, what = eng.same(st, first, me), "the language itself"
            else:
                e = g["nx"]
                ok = eng.same(st, first, mk("optval", e)) and implied(eng, st, mk("engaged", e, ty="bool"))
                what = "its immediate prefix"
            cx.ob("prefixes", f.where(), ok, "%s is listed instead of %s" % (tm.show(first, 5), what), st.trace())
            g["cur"] = first
            g["nx"] = IP(first)
    mon = Mn()
    eng = cx.engine({FW + "::immediatePrefix": p_app("prefix")}, mon, unroll=0, trust_asserts=True)
    for (s, k, v) in cx.run(eng, f, st=St(ghost={"cur": None, "nx": None, "list": None, "dir": None})):
        got = deref(eng, s, v)
        cur = s.ghost["cur"]
        ok = k == "r" and cur is not None and implied(eng, s, tm.bnot(mk("engaged", s.ghost["nx"], ty="bool")))
        cx.ob("prefixes", f.where(), ok, "prefixes are missing", s.trace())
        ls = [x for r, x in s.mem.items() if str(r) == s.ghost["list"]]
        if not ok:
            continue
        if not ls or not implied(eng, s, tm.numeq(en.size(ls[0]), en.size(got))):
            if got.op == "phi":
                raise TooComplex("the list of prefixes is not followed")
        ok = bool(ls) and as_items(eng, s, got, ls[0], s.ghost["dir"] == "back")
        cx.ob("prefixes", f.where(), ok, "the result is %s instead of the list of prefixes" % tm.show(got, 5), s.trace())
    cx.need(4, "prefixes", "prefixes")


def as_items(eng, s, got, want, back=False):
    if eng.same(s, got, want) and not back:
        return True
    if not implied(eng, s, tm.numeq(en.size(got), en.size(want))):
        return False
    K = mk("sym", "%K", ty="nat")
    return all(eng.same(z, x, y) for z0 in eng.assume(s, tm.lt(K, en.size(want))) for (z, (x, y)) in eng.splits(z0, (eng.elem(z0, got, K), eng.elem(z0, want, tm.sub(tm.sub(en.size(want), num(1)), K) if back else K))))


def check_lang_resets(cx):
    for n in (1, 3):
        f = cx.prog.find(FW + "::applyResets", n)
        me = this_init(f)

        def p_from(eng, st, ol, args, e, fr):
            return [(st, app("from-word", eng.argval(st, args[0])))]

        def p_sample(eng, st, ol, args, e, fr):
            x = eng.read(st, ol)
            return [(st, app("sample", fld(x, "word"), fld(x, "timedCondition")))]
        eng = cx.engine(opaque(**{FW + "::fromTimedWord": p_from, EL + "::sample": p_sample}), Mon(), trust_asserts=True)
        c = fld(me, "timedCondition")
        for (s, k, v) in cx.run(eng, f):
            want = app("from-word", app("sample", fld(me, "word"), app("tc.applyResets", c, arg(f, 0))) if n == 1 else
                       app("sample", arg(f, 0), app("tc.applyResets", c, arg(f, 1), argv(f, 2))))
            got = deref(eng, s, v)
            cx.ob("language-resets", f.where(), k == "r" and eng.same(s, got, want), "the language after resets is %s" % tm.show(got, 6), s.trace())
    cx.need(2, "languages after resets", "language-resets")


def check_suffix(cx):
    """the suffix of a regional language after one of its prefixes"""
    f = cx.prog.find(FW + "::suffix")
    me, p = this_init(f), arg(f, 0)
    W, PW = fld(me, "word"), fld(p, "word")
    word = lambda w, c: app("sample", w, c)
    sw = word(PW, fld(p, "timedCondition"))
    full = word(W, app("constrain", fld(me, "timedCondition"), sw))
    k0 = en.size(PW)
    pd, fd = fld(sw, "durations"), fld(full, "durations")

    def p_sample(eng, st, ol, args, e, fr):
        x = eng.read(st, ol)
        return [(st, word(fld(x, "word"), fld(x, "timedCondition")))]

    def p_constrain(eng, st, ol, args, e, fr):
        x = eng.read(st, ol)
        return [(st, tm.rec(EL, lang(fld(x, "word"), app("constrain", fld(x, "timedCondition"), eng.argval(st, args[0])))))]

    def p_from(eng, st, ol, args, e, fr):
        w = eng.argval(st, args[0])
        return [(st, tm.rec(FW, lang(fld(w, "word"), app("around-word", fld(w, "word"), fld(w, "durations")), app("order-word", fld(w, "word"), fld(w, "durations")))))]

    def p_word(eng, st, ol, args, e, fr):
        if len(args) == 2:
            return [(st, tm.rec(TW, {"word": eng.argval(st, args[0]), "durations": eng.argval(st, args[1])}))]
    st = St()
    for w in (sw, full):
        inv_timed_word(st, w)
    st = cut(Engine(cx.prog), [st], tm.le(k0, en.size(W)))[0]
    # samples have the actions of the language
    e0 = cx.engine({}, Mon())
    for (a, b) in ((fld(sw, "word"), PW), (fld(full, "word"), W)):
        st = e0.assume(st, tm.numeq(en.size(a), en.size(b)))[0]
    SD = en.mkseq([mk("one", tm.sub(e0.elem(st, fd, k0, "real"), e0.elem(st, pd, tm.sub(en.size(pd), num(1)), "real"))), mk("sub", fd, tm.add(k0, num(1)), en.size(fd))])
    eng, made = chain_engine(cx, f, SD, "asc", "suffix-order", {EL + "::sample": p_sample, EL + "::constrain": p_constrain, FW + "::fromTimedWord": p_from, TW + "::<ctor>": p_word})
    for (s, k, v) in cx.run(eng, f, st=st):
        got = deref(eng, s, v)
        w = en.mkseq([mk("sub", W, k0, en.size(W))])
        g = fld(got, "timedCondition")
        cx.ob("suffix", f.where(), k == "r" and seqsame(eng, s, fld(got, "word"), w), "the actions are %s" % tm.show(fld(got, "word"), 5), s.trace())
        ok = g.op == "app" and g.a[0] == "around-word" and seqsame(eng, s, g.a[1], w) and seqsame(eng, s, g.a[2], SD)
        cx.ob("suffix", f.where(), ok, "the condition is %s" % tm.show(g, 6), s.trace())
        cx.ob("suffix", f.where(), eng.same(s, fld(got, "fractionalOrder"), FRACTIONS), "the order is %s" % tm.show(fld(got, "fractionalOrder"), 5), s.trace())
    cx.need(4, "suffixes of languages")
