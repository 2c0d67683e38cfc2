"""Analysis of counterexamples: the hypothesis as a recognisable language, its reductions, and the suffix found."""
from .equivalence import *
from .automata import appended
from .table import OT, Rows, ROWS, MEMO, in_P, inside, rows_of, asked, member, CELLS, Fresh, searching

RL = "learnta::RecognizableLanguage"
SM = "learnta::SingleMorphism"
MO = "learnta::MembershipOracle"
TW = "learnta::TimedWord"


def lang_prims():
    return {RL + "::inPrefixes": p_app("inPrefixes", "bool"), RL + "::isFinal": p_app("isFinal", "bool"), RL + "::split": p_app("split", "opt"),
            RL + "::SplitTriple::apply": p_app("apply"), RL + "::contains": p_app("contains", "bool"), MO + "::answerQuery": p_app("answer", "bool"),
            EL + "::contains": p_app("in", "bool")}


# ------------------------------------------------------------------ the reduction of the word and the search along it
class Walk(Mon):
    """lists that grow by one element per reduction"""

    def __init__(self, f):
        self.word = arg(f, 0)
        self.hyp = arg(f, 2)
        self.bad = []
        self.suffix = None          # the lists that hold the suffixes left
        self.loops = set()
        self.M = None
        self.lead = {}              # root -> number of elements before the first reduction

    def pkey(self, s):
        return s.ghost.get("walk")

    def lists(self, st):
        return {r: v for (r, v) in st.mem.items() if r.op == "var" and v.op in ("seq", "phi")}

    def on_enter(self, eng, st, key):
        if st.ghost.get("walk"):
            return st
        ms = [r for (r, v) in self.lists(st).items() if v.op == "seq" and len(en.parts(v)) == 1 and en.parts(v)[0].op == "one" and eng.same(st, en.parts(v)[0].a[0], self.word)]
        if len(ms) != 1:
            return st
        self.M = ms[0]
        st = st.copy()
        st.ghost["walk"] = str(key)
        for (r, v) in self.lists(st).items():
            if r is not self.M and v.op == "seq":
                self.lead[r] = en.size(v)
        return st

    def on_head(self, eng, st, key):
        if st.ghost.get("walk") != str(key):
            return [st]
        st = st.copy()
        for r in [self.M] + list(self.lead):
            if r in st.mem:
                st.ghost["was:" + str(r.h)] = st.mem[r]
        return [st]

    def added(self, eng, st, r):
        """the one element added to the list in this iteration"""
        old, new = st.ghost.get("was:" + str(r.h)), st.mem.get(r)
        if old is None or new is None:
            return None
        ps = en.parts(new)
        if len(ps) == 2 and ps[0] is mk("sub", old, num(0), en.size(old)) and ps[1].op == "one":
            return ps[1].a[0]
        if len(ps) >= 2 and ps[-1].op == "one" and en.mkseq(ps[:-1]) is old:
            return ps[-1].a[0]
        n = en.size(old)
        if implied(eng, st, tm.numeq(en.size(new), tm.add(n, num(1)))):
            K = mk("sym", "%K", ty="nat")
            if all(eng.same(z, eng.elem(z, new, K), eng.elem(z, old, K)) for z in eng.assume(st, tm.lt(K, n))):
                return eng.elem(st, new, n)
        return None

    def on_back(self, eng, st, key, head):
        if st.ghost.get("walk") != str(key):
            return st
        self.loops.add(str(key))
        old = st.ghost["was:" + str(self.M.h)]
        last = eng.elem(st, old, tm.sub(en.size(old), num(1)))
        sp = mk("optval", mk("app", "split", self.hyp, last, ty="opt"))
        x = self.added(eng, st, self.M)
        if x is None or not eng.same(st, x, app("apply", sp)):
            self.bad.append(("a reduction adds %s" % (tm.show(x, 5) if x is not None else "no word"), st))
        ok = {r for r in self.lead if self.is_suffix(eng, st, r, sp)}
        self.suffix = ok if self.suffix is None else self.suffix & ok
        return st

    def is_suffix(self, eng, st, r, sp):
        y = self.added(eng, st, r)
        return y is not None and eng.same(st, y, fld(sp, "suffix"))

    def on_exit(self, eng, st, key, kind):
        if st.ghost.get("walk") != str(key):
            return st
        st = st.copy()
        st.ghost["walk"] = "done"
        for r in [self.M] + list(self.lead):
            st.ghost.pop("was:" + str(r.h), None)
            if r in st.mem:
                st.ghost["end:" + str(r.h)] = st.mem[r]
        return st


def check_analysis(cx):
    f = cx.prog.find("learnta::analyzeCEX")
    mon = Walk(f)
    eng = engine(cx, lang_prims(), mon, unroll=0)
    word, oracle, hyp, cs = arg(f, 0), arg(f, 1), arg(f, 2), arg(f, 3)
    ends = cx.run(eng, f)
    if mon.M is None or not mon.loops:
        raise TooComplex("no list of reduced words")
    cx.ob("reduction", f.where(), not mon.bad, mon.bad[0][0] if mon.bad else "", mon.bad[0][1].trace() if mon.bad else ())
    if not mon.suffix:
        for (s, k, v) in ends:
            v = deref(eng, s, v)
            if k == "r" and v.op == "some" and v.a[0].op == "elem" and any(v.a[0].a[0] is s.ghost.get("end:" + str(r.h)) for r in mon.lead):
                cx.ob("analysis", f.where(), False, "answers %s, an element of a list that does not hold the suffixes left" % tm.show(v, 5), s.trace())
                return
        raise TooComplex("no list of the suffixes left")
    ans = lambda w: mk("app", "answer", oracle, w, ty="bool")

    def cases_of(s, xs, same):
        """states in which the oracle's answers to both words are the same, or are not"""
        sts = [s]
        hs = {u for q in s.facts for u in tm.subterms(q) if is_app(u, "contains", 2)}
        for u in [ans(x) for x in xs] + sorted(hs, key=lambda u: u.h):
            sts = [z for y in sts for v in (True, False) for z in eng.assume(y, u, v)]
        return [z for z in sts if (eng.simp(z, ans(xs[0])) == eng.simp(z, ans(xs[1]))) == same and consistent(eng, z)]
    agree = lambda s, x, y: cases_of(s, (x, y), True)
    differ = lambda s, x, y: cases_of(s, (x, y), False)
    for (s, k, v) in ends:
        M = s.ghost.get("end:" + str(mon.M.h))
        if M is None:
            cx.ob("analysis", f.where(), False, "answers without reducing the word", s.trace())
            continue
        last = eng.elem(s, M, tm.sub(en.size(M), num(1)))
        cx.ob("reduction", f.where(), eng.simp(s, mk("app", "inPrefixes", hyp, last, ty="bool")) is True, "the last word need not be one of the prefixes", s.trace())
        if k == "t":
            # the first word stays the one given: lists are only appended to
            both = [z for b in (True, False) for z1 in eng.assume(s, ans(eng.elem(s, M, num(0))), b) for z0 in eng.assume(z1, ans(word), b) for z in eng.assume(z0, mk("app", "contains", hyp, last, ty="bool"), not b) if consistent(eng, z)]
            cx.ob("analysis", f.where(), not both, "gives up on a counterexample", s.trace())
            continue
        v = deref(eng, s, v)
        ms = []
        for r in sorted(mon.suffix, key=lambda r: r.h):
            L = s.ghost.get("end:" + str(r.h))
            ms.append(found(cx, eng, s, v, M, L, mon.lead[r], cs, agree, differ) if L is not None else "the suffixes are lost")
        m = None if None in ms else ms[0]
        cx.ob("analysis", f.where(), m is None, m or "", s.trace())
    cx.need(3, "outcomes of the analysis", "analysis")
    cx.need(4, "reductions of a word", "reduction")


def value(eng, s, t):
    """truth of a formula from that of its atoms"""
    if t.op == "not":
        v = value(eng, s, t.a[0])
        return None if v is None else not v
    if t.op in ("and", "or"):
        vs = [value(eng, s, x) for x in t.a]
        z = t.op == "or"
        return z if z in vs else None if None in vs else not z
    if t.op in ("eq", "eqv") and len(t.a) == 2 and all(eng.isbool(x) for x in t.a):
        x, y = [value(eng, s, x) for x in t.a]
        return None if x is None or y is None else x == y
    return eng.simp(s, t)


def consistent(eng, s):
    return not any(value(eng, s, q) is False for q in s.facts if q.op in ("not", "and", "or", "eq", "eqv"))


def found(cx, eng, s, v, M, L, lead, cs, agree, differ):
    K = mk("sym", "%K", ty="nat")
    if v.op == "some":
        w = v.a[0]
        if w.op != "elem" or w.a[0] is not L:
            return "answers %s" % tm.show(w, 5)
        j = tm.sub(w.a[1], lead)
        for c in (tm.le(num(0), j), tm.lt(tm.add(j, num(1)), en.size(M))):
            if not implied(eng, s, c):
                return "the suffix is that of no reduction"
        if agree(s, eng.elem(s, M, j), eng.elem(s, M, tm.add(j, num(1)))):
            return "the oracle may give the same answer before and after the reduction with this suffix"
        for z in eng.assume(s, tm.lt(K, en.size(cs))):
            for z2 in eng.inst(z, K):
                if eng.simp(z2, mk("app", "in", eng.elem(z2, cs, K), w, ty="bool")) is not False:
                    return "the suffix may be one of a current suffix language"
        return None
    if v.op != "none":
        return "answers %s" % tm.show(v, 4)
    for z in eng.assume(s, tm.lt(tm.add(K, num(1)), en.size(M))):
        for z2 in [y for x in eng.inst(z, K) for y in eng.inst(x, tm.add(K, num(1)))]:
            for z3 in differ(z2, eng.elem(z2, M, K), eng.elem(z2, M, tm.add(K, num(1)))):
                w = eng.elem(z3, L, tm.add(K, lead))
                if not any(eng.simp(z3, u) is True and eng.same(z3, u.a[2], w) and elem_of(eng, z3, u.a[1], cs)
                           for q in z3.facts for u in tm.subterms(q) if is_app(u, "in", 2)):
                    return "finds nothing although a reduction changes the answer and its suffix may be new"
    return None


# ------------------------------------------------------------------ the language a hypothesis stands for
def check_language(cx):
    for (nm, fl) in (("inPrefixes", "prefixes"), ("isFinal", "final")):
        f = cx.prog.find(RL + "::" + nm)
        eng = engine(cx, {EL + "::contains": p_app("in", "bool")}, Mon(), unroll=0)
        L, w = fld(this_init(f), fl), arg(f, 0)
        for (s0, k, v) in cx.run(eng, f):
            for (s, b) in eng.branch(s0, eng.truth(v)):
                cx.ob("member", f.where(), k == "r" and some_elem(eng, s, b, L, lambda x: mk("app", "in", x, w, ty="bool")), "answers %s for the list of %s" % (b, fl), s.trace())
    f = cx.prog.find(RL + "::contains")
    me = this_init(f)

    class Reduce(Mon):
        bad = []
        root = None
        loops = set()

        def on_head(self, eng, st, key):
            if self.root is None:
                self.root = next((r for (r, v) in st.mem.items() if v is arg(f, 0)), None)
            st = st.copy()
            r = self.cur(st)
            if r is not None:
                st.ghost["w"] = r
            return [st]

        def cur(self, st):
            return st.mem.get(self.root, arg(f, 0)) if self.root is not None else None

        def on_back(self, eng, st, key, head):
            self.loops.add(key)
            w, x = st.ghost.get("w"), self.cur(st)
            if w is None or x is None:
                self.bad.append(("the word is not followed", st))
                return st
            ok = eng.simp(st, mk("app", "inPrefixes", me, w, ty="bool")) is False and eng.same(st, x, app("apply", mk("optval", mk("app", "split", me, w, ty="opt"))))
            if not ok:
                self.bad.append(("a word becomes %s" % tm.show(x, 5), st))
            return st
    P = lang_prims()
    P.pop(RL + "::contains")
    mon = Reduce()
    mon.bad, mon.loops = [], set()
    eng = engine(cx, P, mon, unroll=0)
    ends = cx.run(eng, f)
    if not mon.loops:
        raise TooComplex("no loop that reduces the word")
    cx.ob("reduce", f.where(), not mon.bad, mon.bad[0][0] if mon.bad else "", mon.bad[0][1].trace() if mon.bad else ())
    for (s, k, v) in ends:
        x = mon.cur(s) if mon.cur(s) is not None else arg(f, 0)
        v = deref(eng, s, v)
        fin = mk("app", "isFinal", me, x, ty="bool")
        ok = k == "r" and eng.simp(s, mk("app", "inPrefixes", me, x, ty="bool")) is True and (eng.same(s, v, fin) or eng.simp(s, v) is not None and eng.simp(s, v) is eng.simp(s, fin))
        cx.ob("reduce", f.where(), ok, "answers %s" % tm.show(v, 5), s.trace())
    f = cx.prog.find(RL + "::SplitTriple::apply")
    eng = engine(cx, {SM + "::maps": p_app("maps"), TW + "::operator+": p_app("then")}, Mon())
    me = this_init(f)
    for (s, k, v) in cx.run(eng, f):
        want = app("then", app("maps", fld(me, "morphism"), fld(me, "prefix")), fld(me, "suffix"))
        cx.ob("apply", f.where(), k == "r" and eng.same(s, deref(eng, s, v), want), "gives %s" % tm.show(v, 6), s.trace())
    cx.need(4, "membership in a list of languages", "member")
    cx.need(2, "reduction until a prefix is reached", "reduce")
    cx.need(1, "application of a morphism", "apply")


def some_elem(eng, s, b, L, test):
    """b says whether an element of L passes the test"""
    if b:
        return any(implied(eng, s, tm.lt(i, en.size(L))) and eng.simp(s, test(eng.elem(s, L, i))) is True for i in positions(s, None))
    K = mk("sym", "%K", ty="nat")
    return all(eng.simp(z2, test(eng.elem(z2, L, K))) is False for z in eng.assume(s, tm.lt(K, en.size(L))) for z2 in eng.inst(z, K))


def p_word(eng, st, ol, args, e, fr):
    v = [eng.argval(st, a) for a in args]
    return [(st, app("word", *v))] if len(v) == 2 else None


def fixed(cx, f, S):
    """every delay before the last letter is bounded from both sides by the word's own"""
    d = lambda eng, s, i: eng.elem(s, app("durations", S["w"]), i, "real")

    def ev(what):
        def event(eng, st, l, v):
            if l.a[0].op not in ("var", "argobj") or l.a[1]:
                return None
            if is_app(v, what) and len(v.a) in (5, 6):
                if not eng.same(st, v.a[1], eng.read(st, l)):
                    return RESET
                S["loc"].add(l)
                return v
            if l in S["loc"] and not (is_app(v, "below") or is_app(v, "above")):
                return RESET
            return None
        return event

    def want(sign):
        def w(eng, s, ix, v):
            b = v.a[4]
            if len(v.a) > 5 and eng.simp(s, eng.truth(v.a[5])) is not False:
                return "the bound is forced"
            if not all(implied(eng, s, tm.numeq(x, ix[0])) for x in v.a[2:4]):
                return "the bound is for the delays from %s to %s" % (tm.show(v.a[2]), tm.show(v.a[3]))
            x = d(eng, s, ix[0])
            x = tm.neg(x) if sign < 0 else x
            if not (implied(eng, s, tm.numeq(fld(b, "first", ty="real"), x)) and eng.simp(s, eng.truth(fld(b, "second"))) is True):
                return "the bound is %s" % tm.show(b, 6)
            return None
        return w
    n = lambda eng, st, ix: [(st, mk("app", "wordSize", S["dom"](eng, st), ty="nat"))]
    return [Rule("upper", [n], ev("below"), want(1), what="the upper bounds of the delays"),
            Rule("lower", [n], ev("above"), want(-1), what="the lower bounds of the delays")]


def check_split(cx):
    f = cx.prog.find(RL + "::split")
    w, ms = arg(f, 0), fld(this_init(f), "morphisms")
    S = {"w": w, "loc": set()}

    def chosen(eng, s):
        """morphisms whose domain is known to be one of the prefixes of the word's region"""
        pre = app("prefixes", app("regional", w))
        out = []
        for q in s.facts:
            if is_app(q, "lang.same", 2):
                for (x, y) in (q.a[1:], q.a[:0:-1]):
                    if x.op == "field" and x.a[1] == "domain" and elem_of(eng, s, x.a[0], ms) and elem_of(eng, s, y, pre):
                        out.append(x.a[0])
        return out

    def dom(eng, st):
        c = chosen(eng, st)
        if not c:
            raise TooComplex("the delays are bounded before a morphism is chosen")
        return fld(c[0], "domain")
    S["dom"] = dom

    def at_end(eng, s, k, v):
        v = deref(eng, s, v)
        if k != "r" or v.op not in ("some", "none"):
            raise TooComplex("answers %s" % tm.show(v, 4))
        if v.op == "none":
            K, J = mk("sym", "%K", ty="nat"), mk("sym", "%J", ty="nat")
            pre = app("prefixes", app("regional", w))
            ok = all(eng.simp(z3, lang_same(eng, z3, fld(eng.elem(z2, ms, K), "domain"), eng.elem(z2, pre, J))) is False
                     for z in eng.assume(s, tm.lt(K, en.size(ms))) for z1 in eng.assume(z, tm.lt(J, en.size(pre))) for z2 in eng.inst(z1, K) for z3 in eng.inst(z2, J))
            cx.ob("split", f.where(), ok, "finds no morphism although there may be one", s.trace())
            return
        t = v.a[0]
        m = fld(t, "morphism")
        D = fld(m, "domain")
        if not any(eng.same(s, m, c) for c in chosen(eng, s)):
            cx.ob("split", f.where(), False, "uses %s, whose domain need not be a prefix of the word" % tm.show(m, 5), s.trace())
            return
        p, rest = fld(t, "prefix"), fld(t, "suffix")
        for (z, b) in eng.branch(s, mk("app", "in", D, w, ty="bool")):
            cx.ob("split", f.where(), whole(eng, z, p, rest) if b else part(eng, z, D, p, rest), "splits into %s and %s" % (tm.show(p, 6), tm.show(rest, 4)), z.trace())

    def whole(eng, s, p, rest):
        if not eng.same(s, p, w):
            return False
        return is_app(rest, "word", 2) and rest.a[1].op == "str" and not rest.a[1].a[0] and implied(eng, s, tm.numeq(en.size(rest.a[2]), num(1))) and \
            implied(eng, s, tm.numeq(eng.elem(s, rest.a[2], num(0), "real"), num(0)))

    def part(eng, s, D, p, rest):
        if not (is_app(p, "word", 2) and eng.same(s, p.a[1], app("letters", D)) and eng.same(s, rest, app("after", w, p))):
            return False
        N = mk("app", "wordSize", D, ty="nat")
        du = app("durations", w)
        L = p.a[2]
        if not implied(eng, s, tm.numeq(en.size(L), tm.add(N, num(1)))):
            return False
        K = mk("sym", "%K", ty="nat")
        for z in eng.assume(s, tm.lt(K, N)):
            if not implied(eng, z, tm.numeq(eng.elem(z, L, K, "real"), eng.elem(z, du, K, "real"))):
                return False
        last = eng.elem(s, L, N, "real")
        C = [eng.read(s, l) for l in S["loc"]]
        if not C:
            return False
        U = app("upper", C[0], N, N)
        u, closed = fld(U, "first", ty="real"), fld(U, "second", ty="bool")
        d = eng.elem(s, du, N, "real")
        for z in cases(eng, s, tm.lt(d, u), tm.lt(u, d), closed):
            own = eng.simp(z, tm.lt(d, u)) is True or eng.simp(z, tm.lt(u, d)) is False and eng.simp(z, closed) is True
            if own:
                x = d
            elif eng.simp(z, closed) is True:
                x = u
            else:
                smp = app("durations", app("sample", mk("rec", "learnta::ElementaryLanguage", (("timedCondition", C[0]), ("word", app("letters", D))))))
                x = None
                ok = any(is_app(y, "durations", 1) and is_app(y.a[1], "sample", 1) and eng.same(z, fld(y.a[1].a[1], "timedCondition"), C[0]) and
                         eng.same(z, fld(y.a[1].a[1], "word"), app("letters", D)) and implied(eng, z, tm.numeq(last, eng.elem(z, y, tm.sub(en.size(y), num(1)), "real")))
                         for y in tm.subterms(last))
                if not ok:
                    return False
            if x is not None and not implied(eng, z, tm.numeq(last, x)):
                return False
        return True
    P = {FW + "::fromTimedWord": p_app("regional"), FW + "::prefixes": p_app("prefixes"), EL + "::operator==": p_app("lang.same", "bool"),
         EL + "::contains": p_app("in", "bool"), EL + "::sample": p_app("sample"), TW + "::getSuffix": p_app("after"),
         EL + "::wordSize": p_app("wordSize", "nat"), EL + "::getWord": p_app("letters"), EL + "::getTimedCondition": p_cond,
         TC + "::restrictUpperBound": p_assign("below"), TC + "::restrictLowerBound": p_assign("above"),
         TC + "::getUpperBound": p_app("upper"), TW + "::getDurations": p_app("durations"), TW + "::<ctor>": p_word}
    check_nest(cx, f, fixed(cx, f, S), lambda mon: engine(cx, P, mon, unroll=0), at_end=at_end, rule="bounded",
               due=lambda eng, s, v: bool(S["loc"] & {l for l in S["loc"] if l.a[0] in s.mem}))
    cx.need(5, "splits of a word", "split")
    cx.need(4, "delays of the prefix bounded", "bounded")


def lang_same(eng, s, x, y):
    return next((u for q in s.facts for u in tm.subterms(q) if is_app(u, "lang.same", 2) and pair_is(eng, s, u.a[1], u.a[2], x, y)), mk("app", "lang.same", x, y, ty="bool"))


# ------------------------------------------------------------------ the image of a word under a morphism
def p_keep(eng, st, ol, args, e, fr):
    return [(st, mk("void"))]


class Down(Nest):
    """variables that decrease by one per iteration are tied to the position"""

    def on_enter(self, eng, st, key):
        st = Nest.on_enter(self, eng, st, key)
        d = len(self.stack(st)) - 1
        for r in self.down:
            if r in st.mem:
                st.ghost["d%d:%s" % (d, r.h)] = st.mem[r]
        return st

    def invariant(self, eng, st):
        d = len(self.stack(st)) - 1
        return [tm.numeq(tm.add(st.mem[r], st.ghost["p:%d" % d]), st.ghost["d%d:%s" % (d, r.h)]) for r in self.down
                if r in st.mem and st.ghost.get("d%d:%s" % (d, r.h)) is not None]

    def on_head(self, eng, st, key):
        out = []
        for z in Nest.on_head(self, eng, st, key):
            self.heads[lkey(key)] = dict(z.mem)
            out.append(z)
        return out

    def on_back(self, eng, st, key, head):
        h = self.heads.get(lkey(key)) or {}
        for (r, v) in st.mem.items():
            if r.op == "var" and r in h and h[r].op == "phi" and eng.simp(st, tm.numeq(tm.add(v, num(1)), h[r])) is True:
                self.found.add(r)
        return Nest.on_back(self, eng, st, key, head)


def descending(found, down):
    class D(Down):
        heads = {}
    D.found, D.down = found, down
    return D


def check_maps(cx):
    f = cx.prog.find(SM + "::maps")
    me, w = this_init(f), arg(f, 0)
    D, C, R = fld(me, "domain"), fld(me, "codomain"), fld(me, "renaming")
    nd, nc = [mk("app", "wordSize", x, ty="nat") for x in (D, C)]
    exact = app("exact", app("sums", w))
    joint = app("joint", exact, app("cond", C))
    values = app("sample", app("renamed", joint, R))
    P = {TW + "::getAccumulatedDurations": p_app("sums"), TC + "::makeExact": p_app("exact"), TC + "::operator^": p_app("joint"),
         JZ + "::addRenaming": p_assign("renamed"), Z + "::canonize": p_keep, Z + "::sample": p_app("sample"), EL + "::getTimedCondition": p_cond,
         EL + "::wordSize": p_app("wordSize", "nat"), EL + "::getWord": p_app("letters"), TW + "::<ctor>": p_word, EL + "::contains": p_app("in", "bool")}

    def ev(eng, st, l, v):
        if l.a[0].op not in ("var", "argobj"):
            return None
        if len(l.a[1]) == 1 and l.a[1][0].op == "I":
            return (l, l.a[1][0].a[0], v)
        if not l.a[1] and v.op == "seq":
            x = appended(eng, st, l, v)
            return x if x is None or x is RESET else (l, en.size(eng.read(st, l)), x)
        return None

    found = set()

    def attempt(back, down, split):
        def run(c):
            touched = set()
            most = nc if split else tm.add(nc, num(1))
            at = lambda ix: nc if not ix else tm.sub(tm.sub(most, num(1)), ix[0]) if back else ix[0]

            def want(eng, s, ix, pay):
                l, at_i, v = pay
                touched.add(l.a[0])
                i = at(ix)
                if not implied(eng, s, tm.numeq(at_i, i)):
                    return "delay number %s is written" % tm.show(at_i)
                i = at_i
                base = tm.add(i, tm.add(nd, num(1)))
                x, y = [eng.elem(s, values, tm.add(base, num(k)), "real") for k in (0, 1)]
                end = eng.elem(s, values, tm.sub(en.size(values), num(1)), "real")
                for z in cases(eng, s, tm.lt(i, nc)):
                    if not implied(eng, z, tm.numeq(v, tm.sub(x, y) if eng.simp(z, tm.lt(i, nc)) is True else end)):
                        return "delay number %s is %s" % (tm.show(i), tm.show(v, 6))
                return None

            def at_end(eng, s, k, v):
                v = deref(eng, s, v)
                ok = k == "r" and is_app(v, "word", 2) and eng.same(s, v.a[1], app("letters", C)) and implied(eng, s, tm.numeq(en.size(v.a[2]), tm.add(nc, num(1)))) and \
                    any(eng.same(s, v.a[2], eng.read(s, mk("loc", r, ()))) for r in touched if r in s.mem)
                c.ob("image", f.where(), ok, "gives %s" % tm.show(v, 6), s.trace())
            st = cut(engine(c, P, Mon()), [St()], tm.numeq(en.size(values), tm.add(tm.add(nc, nd), num(2))))[0]
            check_nest(c, f, [Rule("delay", [lambda e, s, ix: [(s, most)]], ev, want, what="the delays of the image")] + ([Rule("last", [], ev, want, what="the last delay of the image")] if split else []),
                       lambda mon: engine(c, P, mon, unroll=0), st=st, at_end=at_end, rule="image", nest=descending(found, down))
        return run
    either(cx, [attempt(b, found if b else set(), sp) for (b, sp) in ((False, False), (True, False), (False, True), (True, True))])
    cx.need(3, "delays of the image of a word", "image")



# ------------------------------------------------------------------ what the table does with a counterexample
def p_close(eng, st, ol, args, e, fr):
    """closing the table: answers whether nothing had to be moved"""
    z = st.copy()
    asked(eng, z, "closed")
    for x in MEMO:
        eng.write(z, member(ol, x), app("closed", eng.read(z, member(ol, x))))
    s = st.copy()
    asked(eng, s, "opened")
    for x in ROWS + CELLS + MEMO:
        eng.write(s, member(ol, x), app("opened", eng.read(s, member(ol, x))))
    return [(z, TRUE), (s, FALSE)]


def p_hypothesis(eng, st, ol, args, e, fr):
    s = st.copy()
    for x in MEMO:
        eng.write(s, member(ol, x), app("searched", eng.read(s, member(ol, x))))
    return [(s, app("hypothesis"))]


class Refine(Mon):
    def __init__(self, cx, f):
        self.cx, self.f, self.w = cx, f, arg(f, 0)
        self.ls = app("prefixes", app("regional", self.w))
        self.loop = None

    def pkey(self, s):
        g = s.ghost
        return (g.get("dirty"), g.get("open"), g.get("in"), g.get("moved"), g.get("done"), g.get("suffix"), g.get("now"), g.get("any"))

    def say(self, ok, what, st):
        self.cx.ob("handled", self.f.where(), ok, what, st.trace())

    def on_write(self, eng, st, l, v):
        r, g = l.a[0], st.ghost
        if r.op == "refresh":
            g["dirty"] = False
        elif r.op == "closed":
            g["now"] = False
        elif r.op == "opened":
            g["now"] = False
            g["open"] = True
        elif r.op == "moveToP":
            g["any"] = True
            self.say(not g.get("dirty") and not g.get("suffix"), "a row is moved although a suffix was added", st)
            i = v.a[1]
            P, rows = [eng.read(st, this_loc(self.f, x)) for x in ("pIndices", "prefixes")]
            self.say(eng.simp(st, eng.has(st, P, i)) is False, "row %s may already be in P when it is moved" % tm.show(i, 4), st)
            x = eng.elem(st, self.ls, g["p"]) if g.get("in") else None
            self.say(x is not None and self.is_row(eng, st, i, x), "row %s is not that of a prefix of the counterexample" % tm.show(i, 4), st)
            g["now"] = True
            g["moved"] = True
        elif r.op == "this" and l.a[1] and l.a[1][0].a[0] == "suffixes":
            x = appended(eng, st, l, v) if len(l.a[1]) == 1 else RESET
            if x is None:
                return
            self.say(x is not RESET and is_app(x, "backward", 1) and eng.same(st, x.a[1], mk("optval", self.found(st))) and not g.get("suffix"),
                     "%s is added to the suffixes" % (tm.show(x, 5) if x is not RESET else "something else"), st)
            g["dirty"] = True
            g["suffix"] = True
        elif r.op == "this" and l.a[1] and l.a[1][0].a[0] in CELLS + ROWS and v.op != "app":
            self.say(False, "the table is changed", st)

    def found(self, st):
        return st.ghost.get("analysis") or mk("none")

    def is_row(self, eng, st, i, x):
        rows = eng.read(st, this_loc(self.f, "prefixes"))
        y = eng.elem(st, rows, i)
        return any(eng.simp(st, u) is True and pair_is(eng, st, u.a[1], u.a[2], y, x) for q in st.facts for u in tm.subterms(q) if is_app(u, "lang.same", 2)) or eng.same(st, x, y)

    def placed(self, eng, st, x):
        """the prefix is known to be a row of P"""
        P = eng.read(st, this_loc(self.f, "pIndices"))
        return any(eng.simp(st, q) is True and self.is_row(eng, st, q.a[1], x) for q in st.facts if q.op == "has" and q.a[0] is P)

    def on_enter(self, eng, st, key):
        if st.ghost.get("in") or self.loop not in (None, key) or not st.ghost.get("analysis") or self.found(st).op != "app":
            return st
        if eng.simp(st, mk("engaged", self.found(st), ty="bool")) is not False:
            return st
        st = st.copy()
        st.ghost.update({"in": str(key), "p": num(0), "moved": False})
        return st

    def on_back(self, eng, st, key, head):
        if st.ghost.get("in") != str(key):
            return st
        st = st.copy()
        if not st.ghost.get("moved"):
            self.say(self.placed(eng, st, eng.elem(st, self.ls, st.ghost["p"])), "a prefix of the counterexample is left outside P", st)
        self.say(not st.ghost.get("open") and not st.ghost.get("now"), "goes on without closing the table", st)
        st.ghost["p"] = tm.add(st.ghost["p"], num(1))
        st.ghost["moved"] = False
        return st

    def on_exit(self, eng, st, key, kind):
        if st.ghost.get("in") != str(key):
            return st
        st = st.copy()
        if kind == "n" or implied(eng, st, tm.le(en.size(self.ls), st.ghost["p"])):
            st.ghost["done"] = st.ghost.get("done") or implied(eng, st, tm.le(en.size(self.ls), st.ghost["p"]))
        for k in ("in", "p", "moved"):
            st.ghost.pop(k, None)
        return st


def check_handle(cx):
    f = cx.prog.find(OT + "::handleCEX")
    me = this_init(f)

    def p_analysis(eng, st, ol, args, e, fr):
        v = [deref(eng, st, eng.argval(st, a)) for a in args]
        ok = len(v) == 4 and v[0] is arg(f, 0) and eng.same(st, v[2], app("hypothesis")) and v[3] is fld(me, "suffixes") and not st.ghost.get("analysis")
        orc = len(v) == 4 and any(y is fld(me, "memOracle") for y in tm.subterms(v[1]))
        cx.ob("handled", f.where(), ok and orc, "the analysis is given %s" % ", ".join(tm.show(x, 4) for x in v), st.trace())
        s = st.copy()
        r = mk("app", "analysis", ty="opt")
        s.ghost["analysis"] = r
        return [(s, r)]
    P = inside()
    P.update({"learnta::analyzeCEX": p_analysis, OT + "::toRecognizable": p_hypothesis, OT + "::close": p_close, BW + "::fromTimedWord": p_app("backward"),
              FW + "::fromTimedWord": p_app("regional"), FW + "::prefixes": p_app("prefixes"), EL + "::operator==": p_app("lang.same", "bool")})
    mon = Refine(cx, f)
    eng = cx.engine(P, mon, unroll=0, trust_asserts=True)
    for (s, k, v) in cx.run(eng, f):
        g = s.ghost
        if k == "t":
            continue
        if not g.get("analysis"):
            mon.say(False, "the counterexample is not analysed", s)
        elif eng.simp(s, mk("engaged", g["analysis"], ty="bool")) is True:
            mon.say(g.get("suffix") and not g.get("dirty") and not g.get("any"), "the suffix found is not added, or the table is not filled", s)
        elif eng.simp(s, mk("engaged", g["analysis"], ty="bool")) is False:
            mon.say(not g.get("suffix") and not g.get("now") and (g.get("open") or g.get("done")) and g.get("any"), "ends before the prefixes of the counterexample are in P", s)
        else:
            mon.say(False, "ends whatever the analysis found", s)
    cx.need(8, "counterexample handled", "handled")


# ------------------------------------------------------------------ the hypothesis as a language
def p_try(eng, st, ol, args, e, fr):
    """the test of two rows: if they are equivalent, the renaming found is the one remembered for them"""
    s = st.copy()
    v = [eng.argval(s, a) for a in args]
    r = rows_of(*v)
    out = []
    for (z, b) in eng.branch(s, mk("engaged", r, ty="bool")):
        z = z.copy()
        if b:
            l = member(ol, "closedRelation")
            c = eng.read(z, l)
            eng.write(z, l, eng.mput(z, c, v[0], eng.mput(z, eng.mget(z, c, v[0]), v[1], mk("optval", r))))
        out.append((z, r))
    return out


def same_lang(eng, s, x, y):
    """as elementary languages"""
    return eng.same(s, x, y) or all(eng.same(s, fld(x, n), fld(y, n)) for n in ("word", "timedCondition"))


class Pick(Mon):
    """one morphism for every row outside P that has a row of P to go to"""

    def __init__(self, cx, f, root, keyed):
        self.cx, self.f, self.root, self.keyed = cx, f, root, keyed
        self.loop = None
        self.seen = 0

    def pkey(self, s):
        return (s.ghost.get("stk"), s.ghost.get("got"), s.ghost.get("all"), s.ghost.get("out"))

    def on_head(self, eng, st, key):
        """the row whose turn it is stays the same while its entries are visited"""
        g = st.ghost
        if len(g.get("stk") or ()) > 1 and g.get("out") is not None:
            b = eng.has(st, eng.read(st, this_loc(self.f, "pIndices")), self.row(eng, st))
            return eng.assume(st, b if g["out"] == "in" else tm.bnot(b))
        return [st]

    def settle(self, eng, st):
        b = self.has_P(eng, st, self.row(eng, st))
        st.ghost["out"] = None if b is None else "in" if b else "out"

    def say(self, ok, what, st):
        self.cx.ob("morphism", self.f.where(), ok, what, st.trace())

    def has_P(self, eng, st, j):
        return eng.simp(st, eng.has(st, eng.read(st, this_loc(self.f, "pIndices")), j))

    def row(self, eng, st):
        p = st.ghost["p"]
        return eng.keyat(st, eng.read(st, this_loc(self.f, "closedRelation")), p) if self.keyed else p

    def on_write(self, eng, st, l, v):
        r, g = l.a[0], st.ghost
        rows = eng.read(st, this_loc(self.f, "prefixes"))
        if r is self.root:
            x = appended(eng, st, l, v) if not l.a[1] else RESET
            if x is None or x is RESET and not g.get("stk") and en.size(v) is num(0):
                return
            self.seen += 1
            ok = False
            if x is not RESET and is_app(x, "morphism", 3) and g.get("stk"):
                i = self.row(eng, st)
                c = eng.mget(st, eng.read(st, this_loc(self.f, "closedRelation")), i)
                js = [u.a[0].a[2] for u in st.facts if u.op == "engaged" and is_app(u.a[0], "rows", 2) and implied(eng, st, tm.numeq(u.a[0].a[1], i))]
                ok = self.has_P(eng, st, i) is False and same_lang(eng, st, x.a[1], eng.elem(st, rows, i)) and \
                    any(self.has_P(eng, st, j) is True and same_lang(eng, st, x.a[2], eng.elem(st, rows, j)) and
                        (eng.same(st, x.a[3], mk("optval", rows_of(i, j))) or eng.same(st, x.a[3], eng.mget(st, c, j))) for j in js)
                self.loop = self.loop or g["stk"][0]
            self.say(ok, "the morphism %s need not be one of a row outside P to an equivalent row of P" % (tm.show(x, 5) if x is not RESET else "list"), st)
            self.say(not g.get("got"), "a second morphism for the same row", st)
            g["got"] = True
        elif r.op == "this" and l.a[1] and l.a[1][0].a[0] in ROWS + CELLS + ("suffixes",) and v.op != "app":
            self.say(False, "the table is changed", st)
        if r.op == "this" and l.a[1] and l.a[1][0].a[0] == "closedRelation":
            old = eng.read(st, mk("loc", r, l.a[1][:1]))
            if len(l.a[1]) > 1:
                kept = l.a[1][1].op in ("M", "P") and (l.a[1][1].op == "P" or eng.simp(st, eng.has(st, old, l.a[1][1].a[0])) is True)
            else:
                kept = eng.keyat(st, v, num(0)) is eng.keyat(st, old, num(0))
            if not kept:
                g["out"] = None
        if r.op == "this" and v.op == "merase" and g.get("stk"):
            i = self.row(eng, st)
            ok = len(l.a[1]) in (2, 3) and (self.has_P(eng, st, v.a[1]) is False or eng.simp(st, mk("engaged", rows_of(i, v.a[1]), ty="bool")) is False)
            self.say(ok, "row %s is forgotten though it may be equivalent" % tm.show(v.a[1], 4), st)

    def on_enter(self, eng, st, key):
        st = st.copy()
        g = st.ghost
        g["stk"] = (g.get("stk") or ()) + (str(key),)
        if len(g["stk"]) == 1:
            g["p"] = num(0)
            g["got"] = False
        else:
            self.settle(eng, st)
        return st

    def on_back(self, eng, st, key, head):
        g = st.ghost
        if (g.get("stk") or ())[:1] != (str(key),):
            return st
        st = st.copy()
        g = st.ghost
        if self.loop == str(key) and not g.get("got"):
            i = self.row(eng, st)
            c = eng.read(st, this_loc(self.f, "closedRelation"))
            m = eng.mget(st, c, i)
            K = mk("sym", "%K", ty="nat")
            ok = self.has_P(eng, st, i) is True or eng.simp(st, eng.has(st, c, i)) is False or \
                all(self.useless(eng, z2, i, eng.keyat(z2, m, K)) for z in eng.assume(st, tm.lt(K, en.size(m))) for z2 in eng.inst(z, K))
            self.say(ok, "row %s is left without a morphism though it may have one" % tm.show(i, 4), st)
        g["got"] = False
        g["p"] = tm.add(g["p"], num(1))
        return st

    def useless(self, eng, s, i, j):
        return self.has_P(eng, s, j) is False or eng.simp(s, mk("engaged", rows_of(i, j), ty="bool")) is False

    def on_exit(self, eng, st, key, kind):
        stk = st.ghost.get("stk") or ()
        if str(key) not in stk:
            return st
        st = st.copy()
        g = st.ghost
        d = stk.index(str(key))
        g["stk"] = stk[:d]
        if d == 1:
            g["out"] = None
        if d == 0:
            if self.loop == str(key):
                n = en.size(eng.read(st, this_loc(self.f, "closedRelation" if self.keyed else "prefixes")))
                g["all"] = implied(eng, st, tm.le(n, g["p"]))
            g.pop("p", None)
            g.pop("got", None)
        return st


def check_recognizable(cx):
    f = cx.prog.find(OT + "::toRecognizable")
    me = this_init(f)
    rows, P0 = fld(me, "prefixes"), fld(me, "pIndices")
    P = inside()
    P.update({OT + "::equivalentWithMemo": p_try, RL + "::<ctor>": p_app("language"), SM + "::<ctor>": p_app("morphism"),
              "learnta::TimedConditionSet::empty": p_app("bottom", "bool")})

    class Where(Mon):
        lists = set()

        def on_write(self, eng, st, l, v):
            if l.a[0].op == "var" and v.op == "seq":
                self.lists.add(l.a[0])
    wh = Where()
    wh.lists = set()
    eng = engine(cx, P, wh, unroll=0)
    ends = [(s, deref(eng, s, v)) for (s, k, v) in cx.run(eng, f) if k == "r"]
    roots = None
    for (s, v) in ends:
        if not is_app(v, "language", 3):
            raise TooComplex("gives %s" % tm.show(v, 4))
        rs = [[r for r in wh.lists if s.mem.get(r) is x] for x in v.a[1:]]
        if any(x.op == "seq" and not x.a for x in v.a[1:]):
            continue
        if any(len(r) != 1 for r in rs):
            raise TooComplex("the lists of the language are not followed")
        rs = tuple(r[0] for r in rs)
        if roots not in (None, rs):
            raise TooComplex("the lists of the language differ")
        roots = rs
    if roots is None:
        cx.ob("language", f.where(), False, "the language has no prefixes", ())
        return
    if len(set(roots)) != 3:
        cx.ob("language", f.where(), False, "the same list is given twice", ())
        return

    def ev(n):
        def event(eng, st, l, v):
            if l.a[0] is not roots[n]:
                return None
            x = appended(eng, st, l, v) if not l.a[1] else RESET
            return RESET if x is RESET and (eng.stk_open(st) if hasattr(eng, "stk_open") else st.ghost.get("stk")) else None if x is RESET else x
        return event

    def match(eng, s, i):
        cell = eng.elem(s, eng.elem(s, fld(me, "table"), i), num(0))
        return tm.bnot(mk("app", "bottom", cell, ty="bool"))

    def due(n):
        return lambda eng, s, ix: tm.band(eng.has(s, P0, ix[0]), match(eng, s, ix[0])) if n else eng.has(s, P0, ix[0])

    def want(n):
        def w(eng, s, ix, x):
            if not same_lang(eng, s, x, eng.elem(s, rows, ix[0])):
                return "%s is listed" % tm.show(x, 5)
            return None if not eng.assume(s, tm.bnot(due(n)(eng, s, ix))) else "row %s is listed though it need not be one" % tm.show(ix[0])
        return w

    def wantp(eng, s, ix, x):
        i = mk("key", P0, ix[0])
        if not same_lang(eng, s, x, eng.elem(s, rows, i)):
            return "%s is listed" % tm.show(x, 5)
        return None

    def wantf(eng, s, ix, x):
        i = mk("key", P0, ix[0])
        if not same_lang(eng, s, x, eng.elem(s, rows, i)):
            return "%s is listed" % tm.show(x, 5)
        return None if not eng.assume(s, tm.bnot(match(eng, s, i))) else "row %s is final though it need not be" % tm.show(i)
    n = [lambda eng, st, ix: [(st, en.size(rows))]]
    m = [lambda eng, st, ix: [(st, en.size(P0))]]
    run = lambda c, rules: check_nest(c, f, rules, lambda mon: engine(c, P, mon, unroll=0), rule="language")
    either(cx, [lambda c: run(c, [Rule("prefixes", n, ev(0), want(0), due(0), "the prefixes"), Rule("final", n, ev(1), want(1), due(1), "the final prefixes")]),
                lambda c: run(c, [Rule("prefixes", m, ev(0), wantp, None, "the prefixes"),
                                  Rule("final", m, ev(1), wantf, lambda eng, s, ix: match(eng, s, mk("key", P0, ix[0])), "the final prefixes")])])

    def morphisms(keyed):
        def go(c):
            mon = Pick(c, f, roots[2], keyed)
            for rep in (0, 1):                 # the second pass knows the loop
                eng = engine(c, P, mon, unroll=0)
                ends = c.run(eng, f)
            if mon.loop is None:
                raise TooComplex("no loop that adds morphisms")
            for (s, k, v) in ends:
                if k == "r":
                    mon.say(s.ghost.get("all") is True, "not all rows get their morphism", s)
        return go
    either(cx, [morphisms(True), morphisms(False)])
    cx.need(4, "prefixes and final prefixes", "language")
    cx.need(4, "morphisms of the rows", "morphism")
