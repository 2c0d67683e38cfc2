"""Comparison of rows: when a renaming makes two rows equivalent, and the renamings offered as answers."""
from .juxtapose import *
from .table import engine, is_app, EL, BW, FW

EQ = "learnta::equivalence"
FIND = "learnta::findDeterministicEquivalentRenaming"
TC, TS = "learnta::TimedCondition", "learnta::TimedConditionSet"
from ..terms import T as Term
PASS = mk("compared")


def beside(x, y):
    return app("beside", x, y)


def renamed(x, r):
    return mk("app", "renamed", x, r)


def sat(x):
    return mk("app", "juxtaposition.satisfiable", x, ty="bool")


def same_sets(x, y):
    return mk("app", "sets.same", x, y, ty="bool")


def sides(x, y, n):
    return app("juxtapositions", x, y, n)


def p_same(want):
    """two sets of juxtaposed zones are compared: being equal is what the rules look at"""
    def p(eng, st, ol, args, e, fr):
        if args and len(args) == 1:
            x, y = eng.read(st, ol), eng.argval(st, args[0])
        else:
            x, y = [eng.argval(st, a) for a in args]
        out = []
        for (s, b) in eng.branch(st, same_sets(x, y)):
            if b:
                s = s.copy()
                eng.write(s, loc(PASS), app("pair", x, y))
            out.append((s, TRUE if b == want else FALSE))
        return out
    return p


def p_sides(eng, st, ol, args, e, fr):
    return [(st, sides(*[eng.argval(st, a) for a in args]))] if len(args) == 3 else None


def p_cond(eng, st, ol, args, e, fr):
    return [(st, app("cond", eng.read(st, ol)))]


def p_plus(eng, st, ol, args, e, fr):
    """concatenation of conditions: the condition of the concatenation of the languages they come from"""
    x, y = eng.read(st, ol), eng.argval(st, args[0])
    if is_app(x, "cond", 1) and is_app(y, "cond", 1):
        return [(st, app("cond", app("cat", x.a[1], y.a[1])))]
    return [(st, app("cat", x, y))]


def prims():
    return {TC + "::operator^": p_app("beside"), JZ + "::addRenaming": p_rename, JS + "::addRenaming": p_rename,
            Z + "::isSatisfiableNoCanonize": p_app("juxtaposition.satisfiable", "bool"), Z + "::<conv>bool": p_app("juxtaposition.satisfiable", "bool"),
            JS + "::<ctor>": p_sides, JS + "::operator==": p_same(True), JS + "::operator!=": p_same(False),
            EL + "::operator+": p_app("cat"), EL + "::getTimedCondition": p_cond, TC + "::operator+": p_plus,
            BW + "::wordSize": p_app("wordSize", "nat"), EL + "::wordSize": p_app("wordSize", "nat")}


def p_rename(eng, st, ol, args, e, fr):
    s = st.copy()
    eng.write(s, ol, renamed(eng.read(s, ol), eng.argval(s, args[0])))
    return [(s, VOID)]


class Args:
    """the arguments of one form of the comparison, by their types"""

    def __init__(self, f):
        n = {"lang": [], "row": [], "conc": [], "suffix": [], "ren": [], "sets": [], "zone": []}
        for i, p in enumerate(f.params):
            t = p["t"].replace("learnta::", "")
            k = ("row" if "vector<TimedConditionSet" in t else "conc" if "vector<TimedCondition" in t else "suffix" if "vector<Backward" in t else
                 "sets" if "vector<JuxtaposedZoneSet" in t else "ren" if "RenamingRelation" in t else "zone" if "JuxtaposedZone" in t else "lang" if "ElementaryLanguage" in t else None)
            if k is None:
                raise TooComplex("parameter of type %s" % p["t"])
            n[k].append(arg(f, i))
        self.__dict__.update(n)

    def prefix(self):
        return self.zone[0] if self.zone else beside(app("cond", self.lang[0]), app("cond", self.lang[1]))

    def n(self):
        return en.size(self.sets[0] if self.sets else self.row[0])

    def columns(self, eng, s, i, ren):
        if self.sets:
            l, r = [eng.elem(s, x, i) for x in self.sets]
        else:
            w = eng.elem(s, self.suffix[0], i)
            ws = mk("app", "wordSize", w, ty="nat")
            c = [eng.elem(s, x, i) for x in self.conc] or [app("cond", app("cat", x, w)) for x in self.lang]
            a, b = [eng.elem(s, x, i) for x in self.row]
            l, r = sides(a, c[1], ws), sides(c[0], b, ws)
        return renamed(l, ren), renamed(r, ren)

    def start(self, eng):
        """rows, columns and suffixes go together"""
        sts = [St()]
        n = self.n()
        for x in self.sets[1:] + self.row[1:] + self.conc + self.suffix:
            sts = [z for s in sts for z in eng.assume(s, tm.numeq(en.size(x), n))]
        return sts


def pair_is(eng, s, x, y, l, r):
    return any(eng.same(s, u, a) and eng.same(s, v, b) for (u, v) in ((x, y), (y, x)) for (a, b) in ((l, r),))


def positions(s, n):
    return sorted({x for q in list(s.facts) + [s.ghost.get(g) for g in s.ghost if isinstance(s.ghost[g], Term)] for x in tm.subterms(q) if x.op in ("phi", "at") and x.ty} | {num(0)}, key=lambda q: q.h)


def check_equivalence(cx):
    for f in cx.prog.find_all(EQ):
        A = Args(f)
        ren = A.ren[0]

        def ev(eng, st, l, v):
            return (v.a[1], v.a[2]) if l.a[0] is PASS else None

        def want(eng, s, ix, pay):
            l, r = A.columns(eng, s, ix[0], ren)
            return None if pair_is(eng, s, pay[0], pay[1], l, r) else "compared are %s and %s" % (tm.show(pay[0], 5), tm.show(pay[1], 5))

        def true(eng, s, v):
            return eng.simp(s, eng.truth(deref(eng, s, v))) is not False

        def at_end(eng, s0, k, v):
            p = sat(renamed(A.prefix(), ren))
            if k == "t":
                cx.ob("equivalent", f.where(), False, "throws", s0.trace())
                return
            for (s, b) in eng.branch(s0, eng.truth(deref(eng, s0, v))):
                ps = [q for q in s.facts for q in tm.subterms(q) if is_app(q, "juxtaposition.satisfiable", 1) and eng.same(s, q.a[1], p.a[1])]
                known = {eng.simp(s, q) for q in ps}
                if b:
                    cx.ob("equivalent", f.where(), True in known, "accepts without the prefixes being compatible", s.trace())
                else:
                    ok = False in known or any(differs(eng, s, A, ren, i) for i in positions(s, A.n()))
                    cx.ob("equivalent", f.where(), ok, "rejects although the prefixes are compatible and all columns may agree", s.trace())
        for st in A.start(cx.engine({}, Mon())):
            check_nest(cx, f, [Rule("columns", [lambda e, s, ix: [(s, A.n())]], ev, want, what="the comparison of the columns")],
                       lambda mon: engine(cx, prims(), mon, unroll=0), st=st, at_end=at_end, rule="columns", due=true)
    cx.need(3, "comparisons of rows under a renaming", "columns")
    cx.need(9, "outcomes of the comparison of rows", "equivalent")


def differs(eng, s, A, ren, i):
    if not implied(eng, s, tm.lt(i, A.n())):
        return False
    l, r = A.columns(eng, s, i, ren)
    for q in s.facts:
        for u in tm.subterms(q):
            if is_app(u, "sets.same", 2) and eng.simp(s, u) is False and pair_is(eng, s, u.a[1], u.a[2], l, r):
                return True
    return False


def check_status(cx):
    f = cx.prog.find("learnta::decideStatus")
    eng = engine(cx, {TC + "::operator==": p_app("tc.same", "bool"), TC + "::operator!=": p_differ, TC + "::enumerate": p_app("simple parts")}, Mon())
    c, S = arg(f, 0), fld(arg(f, 1), "conditions")
    n = en.size(S)
    for (s0, k, v) in cx.run(eng, f):
        v = deref(eng, s0, v)
        if k != "r" or v.op != "enum":
            cx.ob("status", f.where(), False, "answers %s" % tm.show(v, 4), s0.trace())
            continue
        st = v.a[0].split("::")[-1]
        for (s1, z) in eng.branch(s0, tm.numeq(n, num(0))):
            for (s2, one) in ([(s1, False)] if z else eng.branch(s1, tm.numeq(n, num(1)))):
                for (s, t) in ([(s2, False)] if not one else eng.branch(s2, tc_same(eng, s2, c, eng.elem(s2, S, num(0))))):
                    w = "bottom" if z else "top" if t else "middle"
                    cx.ob("status", f.where(), st == w, "%s instead of %s" % (st, w), s.trace())
    cx.need(3, "statuses of cells", "status")


def p_differ(eng, st, ol, args, e, fr):
    return [(st, tm.bnot(mk("app", "tc.same", eng.read(st, ol), eng.argval(st, args[0]), ty="bool")))]


def tc_same(eng, s, x, y):
    for q in s.facts:
        for u in tm.subterms(q):
            if is_app(u, "tc.same", 2) and pair_is(eng, s, u.a[1], u.a[2], x, y):
                return u
    return mk("app", "tc.same", x, y, ty="bool")


# ------------------------------------------------------------------ the renaming offered
def find_prims():
    P = prims()
    P.update({EQ: p_app("equivalent", "bool"), "learnta::toGraph": p_app("graph"), "learnta::makeConstrainedVariables": p_app("constrained"),
              "learnta::generateDeterministicCandidates": p_app("candidates"), "learnta::RenamingRelation::addImplicitConstraints": p_assign("implied"),
              "learnta::decideStatus": p_app("status")})
    return P


class Search:
    """what the search may rely on, by the arguments it got"""

    def __init__(self, eng, f):
        self.eng, self.A = eng, Args(f)
        self.prefix = self.A.prefix()

    def conc(self, s, n, i):
        if self.A.conc:
            return self.eng.elem(s, self.A.conc[n], i)
        return app("cond", app("cat", self.A.lang[n], self.eng.elem(s, self.A.suffix[0], i)))

    def sides(self, s, n, i):
        A, eng = self.A, self.eng
        ws = mk("app", "wordSize", eng.elem(s, A.suffix[0], i), ty="nat")
        if n == 0:
            return sides(eng.elem(s, A.row[0], i), self.conc(s, 1, i), ws)
        return sides(self.conc(s, 0, i), eng.elem(s, A.row[1], i), ws)

    def same(self, s, x, y):
        return self.eng.same(s, x, y)

    def each(self, s, got, at):
        if got.op not in ("seq", "init", "field", "phi"):
            return False
        return each_is(self.eng, s, got, self.A.n(), at) is None

    def about(self, s, q):
        """q: a comparison of the rows given, with all their columns; the renaming it is about"""
        A, eng = self.A, self.eng
        a = q.a[1:]
        if len(a) == 8:
            ok = all(self.same(s, a[k], x) for (k, x) in ((0, A.lang[0]), (1, A.row[0]), (3, A.lang[1]), (4, A.row[1]), (6, A.suffix[0])))
            ok = ok and all(self.same(s, a[k], A.conc[n]) if A.conc else self.each(s, a[k], lambda e, z, i: self.conc(z, n, i)) for (k, n) in ((2, 0), (5, 1)))
        elif len(a) == 6:
            ok = all(self.same(s, a[k], x) for (k, x) in ((0, A.lang[0]), (1, A.row[0]), (2, A.lang[1]), (3, A.row[1]), (4, A.suffix[0])))
        elif len(a) == 4:
            ok = self.same(s, a[0], self.prefix) and all(self.each(s, a[n + 1], lambda e, z, i: self.sides(z, n, i)) for n in (0, 1))
        else:
            ok = False
        return a[-1] if ok else None

    def tested(self, s, b):
        """renamings known to pass or fail"""
        out = []
        for q in list(s.facts):
            for u in ([q] if is_app(q, "equivalent") else [q.a[0]] if q.op == "not" and is_app(q.a[0], "equivalent") else []):
                if self.eng.simp(s, u) is b:
                    r = self.about(s, u)
                    if r is not None:
                        out.append(r)
        return out

    def columns_differ(self, s):
        """a column whose cells have different status, or of which only one is empty"""
        A, eng = self.A, self.eng
        st = lambda z, n, i: app("status", self.conc(z, n, i), eng.elem(z, A.row[n], i))
        for q in list(s.facts):
            if q.op == "not" and q.a[0].op in ("eq", "eqv") and len(q.a[0].a) == 2:
                x, y = q.a[0].a
                for (m, n) in ((0, 1), (1, 0)):
                    if x.op == "app" and x.a[0] == "status":
                        for i in positions(s, A.n()):
                            if implied(eng, s, tm.lt(i, A.n())) and self.same(s, x, st(s, m, i)) and self.same(s, y, st(s, n, i)):
                                return True
                    elif self.each(s, x, lambda e, z, i: st(z, m, i)) and self.each(s, y, lambda e, z, i: st(z, n, i)):
                        return True
        for i in positions(s, A.n()):
            if implied(eng, s, tm.lt(i, A.n())):
                e = [tm.numeq(en.size(fld(eng.elem(s, r, i), "conditions")), num(0)) for r in A.row]
                if any(eng.simp(s, tm.eq(x, y)) is False for (x, y) in (e, e[::-1])) or not any(z for b in (True, False) for z0 in eng.assume(s, e[0], b) for z in eng.assume(z0, e[1], b)):
                    return True
                if not any(z for z in eng.assume(s, tm.numeq(num(0), num(0))) for z in eng.assume(z, tm.eq(st(z, 0, i), st(z, 1, i)))):
                    return True
        return False

    def candidates(self, s, c):
        """c: what is generated for the two prefixes"""
        return is_app(c, "candidates", 5)


def check_search(cx):
    for f in cx.prog.find_all(FIND):
        probe = engine(cx, find_prims(), Mon(), unroll=0)
        S = Search(probe, f)
        G = app("graph", app("cond", S.A.lang[0]), app("cond", S.A.lang[1]))

        class Updating(Nest):
            """the candidates are updated one by one: their number stays"""

            def on_enter(self, eng, st, key):
                st = Nest.on_enter(self, eng, st, key)
                if len(self.stack(st)) == 1 and "list" not in st.ghost:
                    for (r, v) in st.mem.items():
                        if is_app(v, "candidates") and r.op == "var":
                            st.ghost["list"] = r
                            st.ghost["generated"] = v
                return st

            def pkey(self, s):
                return Nest.pkey(self, s) + (s.ghost.get("list"),)

            def invariant(self, eng, st):
                r = st.ghost.get("list")
                if r is None or len(self.stack(st)) != 1 or r not in st.mem:
                    return []
                return [tm.numeq(en.size(st.mem[r]), en.size(st.ghost["generated"]))]

        def number(eng, st, ix):
            g = st.ghost.get("generated")
            return [(st, num(0) if g is None else en.size(g))]

        def ev(eng, st, l, v):
            if l.a[0].op != "var" or len(l.a[1]) != 1 or l.a[1][0].op != "I":
                return None
            old = eng.read(st, l)
            return (l, old, v) if is_app(v, "implied") else None

        def want(eng, s, ix, pay):
            l, old, v = pay
            if not implied(eng, s, tm.numeq(l.a[1][0].a[0], ix[0])):
                return "the candidate changed is %s" % tm.show(l.a[1][0].a[0])
            if not (eng.same(s, v.a[1], old) and eng.same(s, v.a[2], S.prefix)):
                return "the candidate becomes %s" % tm.show(v, 5)
            return None

        def generated(eng, s):
            """the candidates, as generated"""
            out = []
            for q in list(s.facts) + list(s.mem.values()):
                out += [u for u in tm.subterms(q) if is_app(u, "candidates", 5)]
            return out

        def at_end(eng, s, k, v):
            S.eng = eng
            if k == "t":
                cx.ob("offered", f.where(), False, "throws", s.trace())
                return
            v = deref(eng, s, v)
            if v.op == "some":
                ok = any(eng.same(s, r, v.a[0]) for r in S.tested(s, True))
                cx.ob("offered", f.where(), ok, "offers %s, which has not passed the comparison of all columns" % tm.show(v.a[0], 5), s.trace())
            elif v.op == "none":
                ok = S.columns_differ(s)
                if not ok:
                    m = all_fail(eng, s)
                    ok = m is None
                cx.ob("none-offered", f.where(), ok, ok or m, s.trace())
            else:
                raise TooComplex("answers %s" % tm.show(v, 4))

        def all_fail(eng, s):
            if not any(en.empty(r) if hasattr(en, "empty") else eng.same(s, r, en.EMPTY) for r in S.tested(s, False)):
                return "the empty renaming need not have failed"
            gs = generated(eng, s)
            if not gs:
                return "no candidates are generated"
            g = gs[0]
            K = mk("sym", "%K", ty="nat")
            for z in eng.assume(s, tm.lt(K, en.size(g))):
                for z2 in eng.inst(z, K):
                    if not any(of_list(eng, z2, r, g, K) for r in S.tested(z2, False)):
                        return "a candidate need not have failed"
            return None

        def of_list(eng, z, r, g, K):
            """r is element K of the list of candidates, as updated"""
            if r.op == "elem" or r.op in ("key",):
                return eng.same(z, r, eng.elem(z, r.a[0], K)) and (r.a[0] is g or implied(eng, z, tm.numeq(en.size(r.a[0]), en.size(g))))
            e = eng.elem(z, g, K)
            return eng.same(z, r, e) or is_app(r, "implied", 2) and eng.same(z, r.a[1], e)
        def nonempty(eng, s, ix):
            c = s.mem.get(s.ghost.get("list"))
            return tm.lt(num(0), en.size(eng.elem(s, c, ix[0]))) if c is not None else FALSE
        for st in S.A.start(probe):
            check_nest(cx, f, [Rule("implied", [number], ev, want, nonempty, "the implied equalities of the candidates")],
                       lambda mon: engine(cx, find_prims(), mon, unroll=0), st=st, at_end=at_end, rule="implied", nest=Updating,
                       due=lambda eng, s, v: "list" in s.ghost)
    cx.need(4, "renamings offered", "offered")
    cx.need(4, "searches without result", "none-offered")
