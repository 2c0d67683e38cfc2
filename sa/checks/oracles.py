"""Membership queries, caches, counters, equivalence oracles, the learner loop."""
from ..core import *
from ..stl import NONE


def sulkind(e):
    if e["m"] == "step":
        return "act" if "(char)" in e["fid"] else "delay"
    return e["m"]


class Feed:
    """Ghost typestate of one system: q in {None,'ready','delayed','done'}; n = actions fed so far."""


def check_membership_run(cx):
    f = cx.prog.find("learnta::SULMembershipOracle::answerQuery")
    W = mk("init", mk("argobj", 0, f.params[0]["n"]))
    word, dur = tm.getf(W, "word"), tm.getf(W, "durations")

    def event(eng, st, ol, args, e, fr):
        st = st.copy()
        k = sulkind(e)
        q, n = st.ghost["q"], st.ghost["n"]
        where = fr.fn.where(e["l"])
        # every call must go to the wrapped system
        cx.ob("system", where, ol is not None and tm.getf(mk("init", mk("this", f.cls)), "sul") is objptr(ol),
              "call on %s" % tm.show(ol), st.trace())
        if k == "pre":
            cx.ob("start", where, q is None, "reset while in phase %s" % q, st.trace())
            st.ghost["q"] = "ready"
            return [(st, VOID)]
        if k == "post":
            cx.ob("finish", where, q == "delayed" and eng.simp(st, tm.numeq(n, en.size(word))) is True,
                  "finished in phase %s after %s actions of %s" % (q, tm.show(n), tm.show(en.size(word))), st.trace())
            st.ghost["q"] = "done"
            return [(st, VOID)]
        v = eng.argval(st, args[0])
        if k == "delay":
            i = tm.add(n, num(1)) if q == "acted" else n
            exp = eng.elem(st, dur, i, "real")
            ok = q in ("ready", "acted") and (v is exp or eng.simp(st, tm.veq(v, exp)) is True)
            if q == "ready":
                ok = ok and eng.simp(st, tm.eq0(n)) is True
            cx.ob("delay", where, ok, "phase %s: fed delay %s, expected %s" % (q, tm.show(v), tm.show(exp)), st.trace())
            st.ghost["q"] = "delayed"
            st.ghost["n"] = i
            r = mk("out", i, ty="bool")
            st.ghost["last"] = r
            return [(st, r)]
        if k == "act":
            exp = eng.elem(st, word, n, "int")
            ok = q == "delayed" and (v is exp or eng.simp(st, tm.veq(v, exp)) is True)
            cx.ob("action", where, ok, "phase %s: fed action %s, expected %s" % (q, tm.show(v), tm.show(exp)), st.trace())
            st.ghost["q"] = "acted"
            return [(st, mk("aout", n, ty="bool"))]
        return None

    prims = {"learnta::SUL::pre": event, "learnta::SUL::post": event, "learnta::SUL::step": event}
    eng = cx.engine(prims, Mon())
    st = St(ghost={"q": None, "n": num(0), "last": VOID})
    inv_timed_word(st, W)
    for (s, k, v) in cx.run(eng, f, st=st):
        w = f.where()
        cx.ob("complete", w, k == "r" and s.ghost["q"] in ("delayed", "done") and
              eng.simp(s, tm.numeq(s.ghost["n"], en.size(word))) is True,
              "query ends in phase %s after %s actions" % (s.ghost["q"], tm.show(s.ghost["n"])), s.trace())
        cx.ob("finished", w, s.ghost["q"] == "done", "the end of the word is not signalled", s.trace())
        cx.ob("answer", w, v is s.ghost["last"], "returns %s, last output is %s" % (tm.show(v), tm.show(s.ghost["last"])), s.trace())
    cx.need(1, "start of a query", "start")
    cx.need(2, "delays", "delay")
    cx.need(1, "actions", "action")
    cx.need(1, "answers", "answer")


class Mon:
    pass


def objptr(ol):
    """pointer value an object location was reached through"""
    if ol.a[0].op == "obj" and not ol.a[1]:
        return ol.a[0].a[0]
    return ol


# ---------------------------------------------------------------- membership cache
def this_init(f):
    return mk("init", mk("this", f.cls))


def check_membership_cache(cx):
    f = cx.prog.find("learnta::MembershipOracleCache::answerQuery")
    W = mk("init", mk("argobj", 0, f.params[0]["n"]))
    T0 = this_init(f)
    c0 = tm.getf(T0, "membershipCache")
    inner = tm.getf(T0, "oracle")

    def ask(eng, st, ol, args, e, fr):
        st = st.copy()
        where = fr.fn.where(e["l"])
        v = eng.argval(st, args[0])
        cx.ob("inner-query", where, objptr(ol) is inner and v is W and not st.ghost["asked"],
              "asks %s about %s (already asked: %s)" % (tm.show(ol), tm.show(v), st.ghost["asked"]), st.trace())
        st.ghost["asked"] = 1
        return [(st, mk("answer", v, ty="bool"))]
    eng = cx.engine({"learnta::MembershipOracle::answerQuery": ask}, Mon())
    ans = mk("answer", W, ty="bool")
    stored = mk("mget", c0, W, ty="bool")
    hit = miss = 0
    for (s, k, v) in cx.run(eng, f, st=St(ghost={"asked": 0})):
        w = f.where()
        end = eng.read(s, loc(mk("this", f.cls), F("membershipCache")))
        h = eng.simp(s, mk("has", c0, W))
        if h is True:
            hit += 1
            cx.ob("hit", w, k == "r" and eng.same(s, v, stored) and not s.ghost["asked"],
                  "a stored word answers %s (system asked: %s)" % (tm.show(v), s.ghost["asked"]), s.trace())
            cx.ob("hit-keeps", w, eng.same(s, end, c0), "a hit changes the cache to %s" % tm.show(end), s.trace())
        elif h is False:
            miss += 1
            cx.ob("miss", w, k == "r" and s.ghost["asked"] and veqb(eng, s, v, ans),
                  "a fresh word answers %s" % tm.show(v), s.trace())
            # the entry for the word is the answer, every other entry is untouched
            ok = end.op == "mput" and eng.same(s, end.a[0], c0) and eng.same(s, end.a[1], W) and veqb(eng, s, end.a[2], ans)
            cx.ob("store", w, ok or end is c0, "the cache becomes %s" % tm.show(end), s.trace())
        else:
            cx.ob("lookup", w, False, "answers %s without consulting the cache entry of the word" % tm.show(v), s.trace())
    cx.need(1, "cache hits", "hit")
    cx.need(1, "cache misses", "miss")
    check_timed_word_identity(cx)


def veqb(eng, s, x, y):
    """equal booleans"""
    if x is y:
        return True
    a, b = eng.simp(s, x), eng.simp(s, y)
    return a is not None and a == b


def fields_read(v, base):
    """field names of base occurring in v; None if base itself escapes whole"""
    out = set()
    whole = [False]

    def go(x, parent):
        if isinstance(x, tuple):
            for y in x:
                go(y, parent)
        elif isinstance(x, T):
            if x is base:
                whole[0] = True
                return
            if x.op == "field" and x.a[0] is base:
                out.add(x.a[1])
                return
            for y in x.a:
                go(y, x)
    go(v, None)
    return out, whole[0]


def check_timed_word_identity(cx):
    """two words share a cache entry only if they are the same word"""
    f = cx.prog.find("learnta::TimedWord::operator==")
    A = this_init(f)
    B = mk("init", mk("argobj", 0, f.params[0]["n"]))
    eng = cx.engine({}, Mon())
    for (s, k, v) in cx.run(eng, f):
        for (s2, b) in eng.branch(s, v):
            if not b:
                continue
            for fld in ("word", "durations"):
                cx.ob("key-equality", f.where(), eng.same(s2, tm.getf(A, fld), tm.getf(B, fld)),
                      "words compare equal although their %s may differ" % fld, s2.trace(), fld)
        for fld in ("word", "durations"):
            pass
    # conversely equal contents compare equal
    for (s, k, v) in cx.run(eng, f):
        s2s = [s]
        for fld in ("word", "durations"):
            s2s = [x for y in s2s for x in eng.assume(y, tm.eq(tm.getf(A, fld), tm.getf(B, fld)))]
        for s2 in s2s:
            cx.ob("key-reflexive", f.where(), eng.simp(s2, eng.truth(v)) is True,
                  "words with equal contents compare different: %s" % tm.show(v), s2.trace())
    hf = cx.prog.find("learnta::hash_value", 1, lambda x: "TimedWord" in x.fid)
    H = mk("init", mk("argobj", 0, hf.params[0]["n"]))
    for (s, k, v) in cx.run(eng, hf):
        names, whole = fields_read(v, H)
        impure = [x for x in tm.subterms(v) if x.op == "init" and x is not H]
        cx.ob("key-hash", hf.where(), names <= {"word", "durations"} and not whole and not impure,
              "hash depends on %s" % tm.show(v), s.trace())
    cx.need(2, "key equality", "key-equality")


# ---------------------------------------------------------------- symbolic membership
def check_symbolic_query(cx):
    f = cx.prog.find("learnta::SymbolicMembershipOracle::query")
    E = mk("init", mk("argobj", 0, f.params[0]["n"]))
    T0 = this_init(f)
    c0 = tm.getf(T0, "cache")
    L = mk("enum_of", E)
    cond = lambda x: mk("cond_of", x)

    def p_enum(eng, st, ol, args, e, fr):
        return [(st, mk("enum_of", eng.read(st, ol)))]

    def p_sample(eng, st, ol, args, e, fr):
        return [(st, mk("sample_of", eng.read(st, ol)))]

    def p_cond(eng, st, ol, args, e, fr):
        return [(st, cond(eng.read(st, ol)))]

    def p_hull(eng, st, ol, args, e, fr):
        return [(st, mk("hull", eng.argval(st, args[0])))]

    def p_reduce(eng, st, ol, args, e, fr):
        return [(st, mk("tcs_reduce", eng.argval(st, args[0])))]

    def p_bottom(eng, st, ol, args, e, fr):
        return [(st, mk("tcs_bottom"))]

    def p_tcs(eng, st, ol, args, e, fr):
        if len(args) == 1:
            v = eng.argval(st, args[0])
            if v.op in ("cond_of",):
                return [(st, mk("tcs_one", v))]
        return None

    def ask(eng, st, ol, args, e, fr):
        st = st.copy()
        where = fr.fn.where(e["l"])
        v = eng.argval(st, args[0])
        n = st.ghost["n"]
        exp = mk("sample_of", eng.elem(st, L, n))
        cx.ob("element-query", where, v is exp or eng.same(st, v, exp), "query %s, expected the sample of element %s" % (tm.show(v), tm.show(n)), st.trace())
        cx.ob("element-recorded", where, st.ghost["open"] is VOID, "the previous answer was not used", st.trace())
        st.ghost["open"] = n
        return [(st, mk("member", v, ty="bool"))]

    class M(Mon):
        def pkey(self, s):
            return (s.ghost["all"], s.ghost["open"] is VOID)

        def on_fact(self, eng, st, t):
            neg = t.op == "not"
            x = t.a[0] if neg else t
            if x.op != "member" or st.ghost["open"] is VOID:
                return
            n = st.ghost["open"]
            if not eng.same(st, x, mk("member", mk("sample_of", eng.elem(st, L, n)), ty="bool")):
                return
            st.ghost["open"] = VOID
            st.ghost["n"] = tm.add(n, num(1))
            if neg:
                st.ghost["all"] = False
            else:
                st.ghost["inc"] = en.append(st.ghost["inc"], eng.elem(st, L, n))
    EL = "learnta::ElementaryLanguage::"
    prims = {EL + "enumerate": p_enum, EL + "sample": p_sample, EL + "getTimedCondition": p_cond, EL + "convexHull": p_hull,
             "learnta::TimedConditionSet::reduce": p_reduce, "learnta::TimedConditionSet::bottom": p_bottom,
             "learnta::TimedConditionSet::<ctor>": p_tcs, "learnta::MembershipOracle::answerQuery": ask}
    eng = cx.engine(prims, M())
    eng.copyloop = True
    g = {"n": num(0), "inc": en.EMPTY, "all": True, "open": VOID}
    outs = cx.run(eng, f, st=St(ghost=g))
    w = f.where()
    for (s, k, v) in outs:
        # as many accepted elements as elements, exactly if all are accepted
        if eng.simp(s, tm.numeq(s.ghost["n"], en.size(L))) is True and eng.simp(s, tm.numeq(en.size(s.ghost["inc"]), en.size(L))) is (not s.ghost["all"]):
            continue
        end = eng.read(s, loc(mk("this", f.cls), F("cache")))
        if v.op == "ref":
            v = eng.read(s, v.a[0])
        h = eng.simp(s, mk("has", c0, E))
        n, inc = s.ghost["n"], s.ghost["inc"]
        if h is True:
            cx.ob("hit", w, k == "r" and eng.same(s, v, mk("mget", c0, E)) and n is num(0) and end is c0,
                  "a stored answer yields %s" % tm.show(v), s.trace())
            continue
        cx.ob("fresh", w, h is False, "the cache is not consulted for the queried language", s.trace())
        cx.ob("all-elements", w, eng.simp(s, tm.numeq(n, en.size(L))) is True and s.ghost["open"] is VOID,
              "answers after %s of %s elements" % (tm.show(n), tm.show(en.size(L))), s.trace())
        none = eng.simp(s, tm.eq0(en.size(inc)))
        allin = s.ghost["all"]
        if none is True:
            exp, name = [mk("tcs_bottom")], "none"
            if allin:
                exp.append(mk("tcs_one", cond(E)))
        elif allin:
            exp, name = [mk("tcs_one", cond(E))], "all"
            if none is not False:
                exp = []
        else:
            hull = mk("hull", inc)
            exact = eng.simp(s, tm.numeq(en.size(mk("enum_of", hull)), en.size(inc)))
            name = "exact" if exact else "union"
            exp = [mk("tcs_reduce", inc)] if none is False else []
            if exact is True and none is False:
                exp.append(mk("tcs_one", cond(hull)))
        cx.ob("answer-" + name, w, k == "r" and any(eng.same(s, v, x) for x in exp),
              "answers %s with included elements %s (all: %s)" % (tm.show(v), tm.show(inc), allin), s.trace())
        ok = end is c0 or end.op == "mput" and eng.same(s, strip_puts(eng, s, end, E), c0) and eng.same(s, eng.mget(s, end, E), v)
        cx.ob("store", w, ok, "stores %s" % tm.show(end), s.trace())
    for nm in ("hit", "answer-none", "answer-all", "answer-exact", "answer-union"):
        cx.need(1, "outcome " + nm, nm)


def strip_puts(eng, s, m, k):
    """the map without (re)definitions of the one key k"""
    while m.op == "mput" and eng.same(s, m.a[1], k):
        m = m.a[0]
    return m


# ---------------------------------------------------------------- learner loop
TABLE = "learnta::ObservationTable::"
CONDS = ("close", "consistent", "exteriorConsistent", "timeSaturate")
PRESERVE = ("simplify", "simplifyStrong", "simplifyWithZones", "simplifyWeak")


def check_learner(cx):
    f = cx.prog.find("learnta::Learner::run")
    T0 = this_init(f)
    tbl = loc(mk("this", f.cls), F("observationTable"))
    orc = tm.getf(T0, "eqOracle")

    def settle(st):
        """a condition call whose outcome was not inspected leaves the table in doubt"""
        if st.ghost["open"] is not None:
            st.ghost["ok"] = frozenset()
            st.ghost["open"] = None

    def p_cond(eng, st, ol, args, e, fr):
        st = st.copy()
        settle(st)
        m = e["m"]
        cx.ob("table", fr.fn.where(e["l"]), ol is tbl, "%s on another table" % m, st.trace(), m)
        r = mk("cond_true", m, tuple(e["l"]), fr.ctx, ty="bool")
        # the outcome of an earlier call at this site is forgotten
        forget(st, r)
        st.ghost["open"] = (m, r)
        return [(st, r)]

    def p_hyp(eng, st, ol, args, e, fr):
        st = st.copy()
        settle(st)
        w = fr.fn.where(e["l"])
        cx.ob("ready", w, frozenset(CONDS) <= st.ghost["ok"],
              "hypothesis built with only %s established since the table last changed" % sorted(st.ghost["ok"]), st.trace())
        l = st.ghost["last"]
        cx.ob("learnt", w, l is VOID or engaged(eng, st, l) is False, "the previous counterexample was not given to the table", st.trace())
        return [(st, mk("hyp", tuple(e["l"])))]

    def p_eq(eng, st, ol, args, e, fr):
        st = st.copy()
        settle(st)
        w = fr.fn.where(e["l"])
        h = eng.argval(st, args[0])
        cx.ob("asks-oracle", w, objptr(ol) is orc and any(x.op == "hyp" for x in tm.subterms(h)), "queries %s about %s" % (tm.show(ol), tm.show(h)), st.trace())
        st.ghost["asked"] = h
        r = mk("cex", tuple(e["l"]), fr.ctx)
        forget(st, r)
        st.ghost["last"] = r
        return [(st, r)]

    def p_cex(eng, st, ol, args, e, fr):
        st = st.copy()
        settle(st)
        w = fr.fn.where(e["l"])
        v = eng.argval(st, args[0])
        r = st.ghost["last"]
        ok = r is not VOID and eng.same(st, v, mk("optval", r)) and engaged(eng, st, r) is True
        cx.ob("learns-cex", w, ok and ol is tbl, "the table is given %s" % tm.show(v), st.trace())
        st.ghost["ok"] = frozenset()
        st.ghost["last"] = VOID
        st.ghost["asked"] = VOID
        st.ghost["todo"] = False
        return [(st, VOID)]

    def p_mod(eng, st, ol, args, e, fr):
        st = st.copy()
        eng.write(st, ol, mk("mod", e["m"], eng.read(st, ol)))
        return [(st, mk("ref", ol) if e.get("t", "void") != "void" else VOID)]

    def p_pure(eng, st, ol, args, e, fr):
        return [(st, mk("obs", e["m"], eng.read(st, ol), ty="bool"))]

    class Mn(Mon):
        def pkey(self, s):
            return (s.ghost["ok"], s.ghost["open"], s.ghost["last"] is VOID, s.ghost["asked"] is VOID)

        def on_fact(self, eng, st, t):
            o = st.ghost.get("open")
            x = t.a[0] if t.op == "not" else t
            if o and x is o[1]:
                st.ghost["open"] = None
                st.ghost["ok"] = frozenset() if t.op == "not" else st.ghost["ok"] | {o[0]}
    prims = {TABLE + c: p_cond for c in CONDS}
    prims[TABLE + "renameConsistent"] = p_cond
    prims[TABLE + "generateHypothesis"] = p_hyp
    prims[TABLE + "handleCEX"] = p_cex
    prims["learnta::EquivalenceOracle::findCounterExample"] = p_eq
    for m in PRESERVE:
        prims["learnta::TimedAutomaton::" + m] = p_mod
    prims["learnta::TimedAutomaton::deterministic"] = p_pure
    eng = cx.engine(prims, Mn(), unroll=0)
    st = St(ghost={"ok": frozenset(), "open": None, "last": VOID, "asked": VOID, "todo": False})
    for (s, k, v) in cx.run(eng, f, st=st):
        w = f.where()
        r = s.ghost["last"]
        cx.ob("approved", w, k == "r" and r is not VOID and engaged(eng, s, r) is False,
              "returns although the last equivalence query was not answered with 'equivalent'", s.trace())
        cx.ob("same-automaton", w, eng.same(s, v, s.ghost["asked"]), "returns %s but the oracle approved %s" % (tm.show(v), tm.show(s.ghost["asked"])), s.trace())
    cx.need(1, "hypothesis construction", "ready")
    cx.need(1, "equivalence query", "asks-oracle")
    cx.need(1, "counterexample handling", "learns-cex")
    cx.need(1, "return", "approved")


def forget(st, r):
    """drop facts about a symbol about to denote a new value"""
    st.facts = frozenset(x for x in st.facts if not any(y is r for y in tm.subterms(x)))


# ---------------------------------------------------------------- equivalence oracles
EQ = "learnta::EquivalenceOracle::findCounterExample"


def opt_is(eng, s, v, r):
    """the returned optional is the result r"""
    if eng.same(s, v, r):
        return True
    if v.op == "some" and eng.same(s, v.a[0], mk("optval", r)) and engaged(eng, s, r) is True:
        return True
    if v is NONE and engaged(eng, s, r) is False:
        return True
    return False


def check_chain(cx):
    f = cx.prog.find("learnta::EquivalenceOracleChain::findCounterExample")
    T0 = this_init(f)
    H = mk("init", mk("argobj", 0, f.params[0]["n"]))
    os_ = tm.getf(T0, "oracles")

    def ask(eng, st, ol, args, e, fr):
        st = st.copy()
        w = fr.fn.where(e["l"])
        n, last = st.ghost["n"], st.ghost["last"]
        p = objptr(ol)
        cx.ob("chain-order", w, eng.same(st, p, eng.elem(st, os_, n)), "consults %s, expected member %s" % (tm.show(p), tm.show(n)), st.trace())
        cx.ob("chain-hypothesis", w, eng.argval(st, args[0]) is H, "asks about another automaton", st.trace())
        cx.ob("chain-continue", w, last is VOID or engaged(eng, st, last) is False, "continues although a counterexample may have been found", st.trace())
        r = mk("cexof", n)
        st.ghost["n"] = tm.add(n, num(1))
        st.ghost["last"] = r
        return [(st, r)]
    class Mc(Mon):
        def pkey(self, s):
            return s.ghost["last"] is VOID

        def on_fact(self, eng, st, t):
            l = st.ghost["last"]
            if l is not VOID and engaged(eng, st, l) is False:
                st.ghost["last"] = VOID
    eng = cx.engine({EQ: ask}, Mc())
    for (s, k, v) in cx.run(eng, f, st=St(ghost={"n": num(0), "last": VOID})):
        w = f.where()
        last = s.ghost["last"]
        if v is NONE or engaged(eng, s, v) is False:
            cx.ob("chain-none", w, k == "r" and eng.simp(s, tm.numeq(s.ghost["n"], en.size(os_))) is True,
                  "reports equivalence after %s of %s oracles" % (tm.show(s.ghost["n"]), tm.show(en.size(os_))), s.trace())
            cx.ob("chain-none-last", w, last is VOID or engaged(eng, s, last) is False, "a found counterexample is dropped", s.trace())
        else:
            cx.ob("chain-cex", w, k == "r" and last is not VOID and opt_is(eng, s, v, last), "returns %s instead of %s" % (tm.show(v), tm.show(last)), s.trace())
    cx.need(1, "equivalence verdict", "chain-none")
    cx.need(1, "counterexample", "chain-cex")
    g = cx.prog.find("learnta::EquivalenceOracleChain::push_back")
    eng = cx.engine({}, Mon())
    A = mk("init", mk("argobj", 0, g.params[0]["n"]))
    for (s, k, v) in cx.run(eng, g):
        end = eng.read(s, loc(mk("this", g.cls), F("oracles")))
        cx.ob("chain-add", g.where(), eng.same(s, end, en.append(tm.getf(this_init(g), "oracles"), A)), "the chain becomes %s" % tm.show(end), s.trace())


def check_memo(cx):
    f = cx.prog.find("learnta::EquivalenceOracleMemo::findCounterExample")
    T0 = this_init(f)
    H = mk("init", mk("argobj", 0, f.params[0]["n"]))
    inner = tm.getf(T0, "oracle")
    tester = loc(mk("this", f.cls), F("oracleByTest"))
    words0 = tm.getf(tm.getf(T0, "oracleByTest"), "words")

    def ask_test(eng, st, ol, args, e, fr):
        st = st.copy()
        w = fr.fn.where(e["l"])
        cx.ob("memo-test", w, ol is tester and eng.argval(st, args[0]) is H, "replays on %s" % tm.show(ol), st.trace())
        st.ghost["test"] = mk("cexof", "test")
        return [(st, st.ghost["test"])]

    def ask(eng, st, ol, args, e, fr):
        st = st.copy()
        w = fr.fn.where(e["l"])
        cx.ob("memo-inner", w, objptr(ol) is inner and eng.argval(st, args[0]) is H and st.ghost["inner"] is VOID,
              "asks %s" % tm.show(ol), st.trace())
        st.ghost["inner"] = mk("cexof", "inner")
        return [(st, st.ghost["inner"])]
    eng = cx.engine({EQ: ask, "learnta::EquivalenceOracleByTest::findCounterExample": ask_test}, Mon())
    for (s, k, v) in cx.run(eng, f, st=St(ghost={"test": VOID, "inner": VOID})):
        w = f.where()
        t, i = s.ghost["test"], s.ghost["inner"]
        words = eng.read(s, ext(tester, F("words")))
        if i is not VOID and engaged(eng, s, i) is None:
            sts = eng.assume(s, mk("engaged", i, ty="bool")) + eng.assume(s, mk("engaged", i, ty="bool"), False)
        else:
            sts = [s]
        for s2 in sts:
            ri = engaged(eng, s2, i) if i is not VOID else None
            rt = engaged(eng, s2, t) if t is not VOID else None
            if i is VOID:
                cx.ob("memo-verdict", w, k == "r" and t is not VOID and rt is True and opt_is(eng, s2, v, t),
                      "answers %s without asking the wrapped oracle" % tm.show(v), s2.trace())
                cx.ob("memo-keep", w, eng.same(s2, words, words0), "memorised words change to %s" % tm.show(words), s2.trace())
            elif ri is False:
                cx.ob("memo-verdict", w, k == "r" and (opt_is(eng, s2, v, i) or t is not VOID and rt is True and opt_is(eng, s2, v, t)),
                      "answers %s when the wrapped oracle found nothing" % tm.show(v), s2.trace())
                cx.ob("memo-keep", w, eng.same(s2, words, words0), "memorised words change to %s" % tm.show(words), s2.trace())
            else:
                cx.ob("memo-verdict", w, k == "r" and ri is True and opt_is(eng, s2, v, i), "answers %s instead of %s" % (tm.show(v), tm.show(i)), s2.trace())
                cx.ob("memo-store", w, eng.same(s2, words, en.append(words0, mk("optval", i))), "memorised words become %s" % tm.show(words), s2.trace())
    cx.need(3, "verdicts", "memo-verdict")
    cx.need(1, "memorised counterexamples", "memo-store")


LANG_SAME = ("simplify", "simplifyStrong", "simplifyWithZones", "simplifyWeak", "addUpperBoundForUnobservableTransitions",
             "mergeNondeterministicBranching", "removeUselessTransitions", "removeDeadStates", "removeTriviallyDeadStates",
             "mergeTransitions", "removeUnusedClockVariables")


def check_complement_oracle(cx):
    f = cx.prog.find("learnta::ComplementTimedAutomataEquivalenceOracle::findCounterExample")
    T0 = this_init(f)
    H = mk("init", mk("argobj", 0, f.params[0]["n"]))
    target, compl, alph = tm.getf(T0, "target"), tm.getf(T0, "complement"), tm.getf(T0, "alphabet")

    def inter(a, b):
        return mk("inter", *sorted((a, b), key=lambda t: (t.h, t.op)))
    MISSING = mk("empty_of", inter(compl, H))
    EXTRA = mk("empty_of", inter(target, mk("compl", H, alph)))

    def p_inter(eng, st, ol, args, e, fr):
        st = st.copy()
        eng.write(st, args[2].a[0], inter(eng.argval(st, args[0]), eng.argval(st, args[1])))
        return [(st, VOID)]

    def p_compl(eng, st, ol, args, e, fr):
        return [(st, mk("compl", eng.read(st, ol), eng.argval(st, args[0])))]

    def p_same(eng, st, ol, args, e, fr):
        return [(st, mk("ref", ol) if e.get("t", "void") != "void" else VOID)]

    def p_zone(eng, st, ol, args, e, fr):
        st = st.copy()
        eng.write(st, args[1].a[0], mk("zone_of", eng.argval(st, args[0])))
        return [(st, VOID)]

    def p_sample(eng, st, ol, args, e, fr):
        st = st.copy()
        w = fr.fn.where(e["l"])
        z = eng.read(st, ol)
        r = mk("empty_of", z.a[0] if z.op == "zone_of" else z)
        cx.ob("difference", w, r is MISSING or r is EXTRA, "checks emptiness of %s" % tm.show(r), st.trace(), "missing" if r is MISSING else "extra")
        st.ghost["asked"] = st.ghost["asked"] | {r}
        return [(st, r)]

    def p_run(eng, st, ol, args, e, fr):
        return [(st, mk("step", ty="bool") if e["t"] == "bool" else VOID)]

    def p_newrun(eng, st, ol, args, e, fr):
        return [(st, mk("runner", eng.argval(st, args[0])))]
    TA = "learnta::TimedAutomaton::"
    R = "learnta::TimedAutomatonRunner::"
    prims = {"learnta::intersectionTA": p_inter, TA + "complement": p_compl, "learnta::ta2za": p_zone,
             "learnta::ZoneAutomaton::sampleWithMemo": p_sample, "learnta::ZoneAutomaton::sample": p_sample,
             R + "<ctor>": p_newrun, R + "step": p_run, R + "pre": p_run, R + "post": p_run}
    for m in LANG_SAME:
        prims[TA + m] = p_same
    eng = cx.engine(prims, Mon(), trust_asserts=False)
    n = {True: 0, False: 0}
    for (s, k, v) in cx.run(eng, f, st=St(ghost={"asked": frozenset()})):
        w = f.where()
        if k == "t":
            cx.ob("answers", w, False, "the query aborts", s.trace())
            continue
        sts = [s]
        for r in (MISSING, EXTRA):
            if r in s.ghost["asked"]:
                q = mk("engaged", r, ty="bool")
                sts = [y for x in sts for y in (eng.assume(x, q) + eng.assume(x, q, False))]
        for s2 in sts:
            m = engaged(eng, s2, MISSING) if MISSING in s.ghost["asked"] else None
            x = engaged(eng, s2, EXTRA) if EXTRA in s.ghost["asked"] else None
            none = v is NONE or engaged(eng, s2, v) is False
            if none:
                n[False] += 1
                cx.ob("equivalent", w, m is False and x is False,
                      "reports equivalence (missing words excluded: %s, extra words excluded: %s)" % (m is False, x is False), s2.trace())
            else:
                n[True] += 1
                cx.ob("counterexample", w, m is True and opt_is(eng, s2, v, MISSING) or x is True and opt_is(eng, s2, v, EXTRA),
                      "returns %s" % tm.show(v), s2.trace())
    cx.need(2, "emptiness checks", "difference")
    cx.need(1, "equivalence verdict", "equivalent")
    cx.need(2, "counterexamples", "counterexample")


# ---------------------------------------------------------------- testing oracles
def check_testing(cx, cname, words_field, cond):
    f = cx.prog.find(cname + "::findCounterExample")
    T0 = this_init(f)
    H = mk("init", mk("argobj", 0, f.params[0]["n"]))
    TGT = tm.getf(T0, "automaton")
    words = tm.getf(T0, words_field) if words_field else None
    R = "learnta::TimedAutomatonRunner::"
    tag = cname.split("::")[-1]

    def p_new(eng, st, ol, args, e, fr):
        a = eng.argval(st, args[0])
        cx.ob("systems", fr.fn.where(e["l"]), a is TGT or a is H, "runs %s" % tm.show(a), st.trace(), tag)
        return [(st, mk("runner", a))]

    def side(v):
        return "T" if v is mk("runner", TGT) else "H" if v is mk("runner", H) else None

    def fed(st, x):
        return st.ghost["aw" + x], st.ghost["ad" + x], st.ghost["ph" + x]

    def agree(eng, st):
        """outputs after the last common step are known equal"""
        a, b = st.ghost["outT"], st.ghost["outH"]
        return a is VOID or b is VOID or st.ghost["cmp"] == "eq"

    def level(eng, st):
        return all(eng.same(st, st.ghost[p + "T"], st.ghost[p + "H"]) if isinstance(st.ghost[p + "T"], T) else
                   st.ghost[p + "T"] == st.ghost[p + "H"] for p in ("aw", "ad", "ph"))

    def finished(eng, st):
        """the current word was replayed completely"""
        if words is None:
            return True
        k = st.ghost["k"]
        if k is VOID:
            return True
        return st.ghost["fin"]

    def isfin(eng, st):
        if words is None or st.ghost["k"] is VOID:
            return False
        w = eng.elem(st, words, st.ghost["k"])
        return eng.same(st, st.ghost["awT"], tm.getf(w, "word")) and eng.same(st, st.ghost["adT"], tm.getf(w, "durations"))

    def p_ev(eng, st, ol, args, e, fr):
        st = st.copy()
        w = fr.fn.where(e["l"])
        x = side(eng.read(st, ol))
        if x is None:
            cx.ob("systems", w, False, "steps an unknown system %s" % tm.show(eng.read(st, ol)), st.trace(), tag)
            return [(st, mk("out", ty="bool"))]
        y = "H" if x == "T" else "T"
        k = sulkind(e)
        if k == "post":
            return [(st, VOID)]
        if k == "pre":
            if st.ghost["ph" + x] != "ready":
                if st.ghost["ph" + y] != "ready":
                    # first reset of a new word
                    cx.ob("completed", w, level(eng, st) and agree(eng, st) and finished(eng, st),
                          "leaves a word after %s / %s" % (tm.show(st.ghost["awT"]), tm.show(st.ghost["adT"])), st.trace(), tag)
                    if words is not None:
                        st.ghost["k"] = num(0) if st.ghost["k"] is VOID else tm.add(st.ghost["k"], num(1))
                        st.ghost["fin"] = False
                        inv_timed_word(st, eng.elem(st, words, st.ghost["k"]))
            for p in ("aw", "ad"):
                st.ghost[p + x] = en.EMPTY
            st.ghost["ph" + x] = "ready"
            st.ghost["out" + x] = VOID
            return [(st, VOID)]
        v = eng.argval(st, args[0])
        aw, ad, ph = fed(st, x)
        if level(eng, st):
            cx.ob("agreement", w, agree(eng, st), "continues although the outputs may differ", st.trace(), tag)
            if words is not None and st.ghost["k"] is not VOID:
                wd = eng.elem(st, words, st.ghost["k"])
                exp = eng.elem(st, tm.getf(wd, "durations"), en.size(ad), "real") if k == "delay" else \
                    eng.elem(st, tm.getf(wd, "word"), en.size(aw), "int")
                cx.ob("input", w, eng.same(st, v, exp), "feeds %s, expected %s" % (tm.show(v), tm.show(exp)), st.trace(), tag)
        okp = (k == "delay" and ph in ("ready", "acted")) or (k == "act" and ph == "delayed")
        cx.ob("phase", w, okp, "%s in phase %s" % (k, ph), st.trace(), tag)
        ahead = not level(eng, st)
        st.ghost["cmp"] = None
        if k == "delay":
            st.ghost["ad" + x] = en.append(ad, v)
            st.ghost["ph" + x] = "delayed"
        else:
            st.ghost["aw" + x] = en.append(aw, v)
            st.ghost["ph" + x] = "acted"
        if ahead:
            cx.ob("lockstep", w, level(eng, st), "the two systems receive different inputs: %s / %s" % (tm.show(v), tm.show(st.ghost["ad" + y])), st.trace(), tag)
        o = mk("out" + x, tuple(e["l"]), ty="bool")
        forget(st, o)
        st.ghost["out" + x] = o
        return [(st, o)]

    def p_word(eng, st, ol, args, e, fr):
        if len(args) == 2:
            return [(st, tm.rec("learnta::TimedWord", {"word": eng.argval(st, args[0]), "durations": eng.argval(st, args[1])}))]
        return None

    class Mn(Mon):
        def pkey(self, s):
            return (s.ghost["phT"], s.ghost["phH"], s.ghost["cmp"], s.ghost["fin"], s.ghost["k"] is VOID, s.ghost["outT"] is VOID)

        def on_fact(self, eng, st, t):
            a, b = st.ghost["outT"], st.ghost["outH"]
            if a is not VOID and b is not VOID and st.ghost["cmp"] is None:
                r = True if veqb(eng, st, a, b) else eng.simp(st, eng.equal(st, a, b))
                if r is None and None not in (eng.simp(st, a), eng.simp(st, b)):
                    r = False
                st.ghost["cmp"] = "eq" if r is True else "ne" if r is False else None
                st.ghost["fin"] = r is True and level(eng, st) and isfin(eng, st)
    prims = {R + "<ctor>": p_new, R + "pre": p_ev, R + "post": p_ev, R + "step": p_ev, "learnta::TimedWord::<ctor>": p_word}
    eng = cx.engine(prims, Mn(), unroll=0)
    g = {"k": VOID, "cmp": None, "fin": False}
    for x in "TH":
        g.update({"aw" + x: en.EMPTY, "ad" + x: en.EMPTY, "ph" + x: None, "out" + x: VOID})
    st = St(ghost=g)
    if words is not None:
        eng.word_lists = (words,)
    for (s, k, v) in cx.run(eng, f, st=st):
        w = f.where()
        if k != "r":
            cx.ob("answers", w, False, "does not answer", s.trace(), tag)
            continue
        if v is NONE:
            if words is not None:
                kk = s.ghost["k"]
                n = num(0) if kk is VOID else tm.add(kk, num(1))
                cx.ob("exhaustive", w, eng.simp(s, tm.numeq(n, en.size(words))) is True,
                      "reports equivalence after %s of %s words" % (tm.show(n), tm.show(en.size(words))), s.trace(), tag)
            cx.ob("none", w, level(eng, s) and agree(eng, s) and finished(eng, s), "reports equivalence although the outputs may differ", s.trace(), tag)
            continue
        if v.op != "some":
            cx.ob("word", w, False, "returns %s" % tm.show(v), s.trace(), tag)
            continue
        x = v.a[0]
        cx.ob("disagreement", w, level(eng, s) and s.ghost["cmp"] == "ne",
              "returns a word on which the outputs are not known to differ", s.trace(), tag)
        ad = s.ghost["adT"]
        if s.ghost["phT"] == "acted":
            ad = en.append(ad, num(0))
        cx.ob("word", w, eng.same(s, tm.getf(x, "word"), s.ghost["awT"]) and eng.same(s, tm.getf(x, "durations"), ad),
              "returns %s but the systems consumed %s / %s" % (tm.show(x), tm.show(s.ghost["awT"]), tm.show(ad)), s.trace(), tag)
    cx.need(3, "counterexamples", "word")
    cx.need(1, "verdicts", "none")


def check_bytest(cx):
    check_testing(cx, "learnta::EquivalenceOracleByTest", "words", None)


def check_random(cx):
    check_testing(cx, "learnta::EquivalenceOracleByRandomTest", None, None)
