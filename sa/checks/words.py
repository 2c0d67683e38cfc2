"""Timed words: normal form, concatenation, suffixes, accumulated delays."""
from .util import *

TW = "learnta::TimedWord"
UNOBS = num(0)


def word_rec(w, d):
    return tm.rec(TW, {"word": w, "durations": d})


def check_word_ctor(cx):
    """lock-step with the definition: skip unobservable actions and add up their delays"""
    f = cx.prog.find(TW + "::<ctor>", None, lambda x: len(x.params) == 2)
    W, D = arg(f, 0), arg(f, 1)

    class Mn(Mon):
        def on_fact(self, eng, st, t):
            n = st.ghost["n"]
            x = eng.elem(st, W, n, "int")
            q = tm.eq0(tm.sub(x, UNOBS))
            r = eng.simp(st, q)
            if r is None or not any(y is x for y in tm.subterms(t)):
                return
            d = eng.elem(st, D, tm.add(n, num(1)), "real")
            if r:
                gd = st.ghost["gd"]
                last = tm.sub(en.size(gd), num(1))
                st.ghost["gd"] = eng.upd_elem(st, gd, last, tm.add(eng.elem(st, gd, last, "real"), d))
            else:
                st.ghost["gw"] = en.append(st.ghost["gw"], x)
                st.ghost["gd"] = en.append(st.ghost["gd"], d)
            st.ghost["n"] = tm.add(n, num(1))
    eng = cx.engine({}, Mn(), unroll=0)
    st = St(ghost={"n": num(0), "gw": en.EMPTY, "gd": en.mkseq([mk("one", eng.elem(St(), D, num(0), "real"))])})
    a, b = en.size(W), en.size(D)
    st.dbm = st.dbm.add(a, b, -1, False).add(b, a, 1, False)
    for (s, k, v) in cx.run(eng, f, st=st):
        w = f.where()
        cx.ob("all-events", w, k == "r" and implied(eng, s, tm.numeq(s.ghost["n"], en.size(W))),
              "stops after %s of %s events" % (tm.show(s.ghost["n"]), tm.show(en.size(W))), s.trace())
        gw, gd = eng.read(s, this_loc(f, "word")), eng.read(s, this_loc(f, "durations"))
        cx.ob("word", w, eng.same(s, gw, s.ghost["gw"]), "actions are %s, expected %s" % (tm.show(gw), tm.show(s.ghost["gw"])), s.trace())
        cx.ob("durations", w, eng.same(s, gd, s.ghost["gd"]), "delays are %s, expected %s" % (tm.show(gd), tm.show(s.ghost["gd"])), s.trace())
    g = [x for x in cx.prog.find_all(TW + "::<ctor>") if len(x.params) == 0]
    for h in g:
        eng = cx.engine({}, Mon())
        for (s, k, v) in cx.run(eng, h):
            cx.ob("empty", h.where(), eng.same(s, eng.read(s, this_loc(h, "durations")), en.mkseq([mk("one", num(0))])) and
                  eng.same(s, eng.read(s, this_loc(h, "word")), en.EMPTY) or
                  eng.read(s, this_loc(h, "word")).op == "field" and eng.same(s, eng.read(s, this_loc(h, "durations")), en.mkseq([mk("one", num(0))])),
                  "the empty word is %s" % tm.show(eng.read(s, this_loc(h))), s.trace())
    cx.need(1, "constructor", "durations")


def check_word_ops(cx):
    fs = [x for x in cx.prog.find_all(TW + "::operator+")]
    for f in fs:
        A = this_init(f)
        aw, ad = fld(A, "word"), fld(A, "durations")
        t = f.params[0]["t"]
        eng = cx.engine({}, Mon(), unroll=0)
        st = St()
        inv_timed_word(st, A)
        if "TimedWord" in t:
            B = arg(f, 0)
            inv_timed_word(st, B)
            bw, bd = fld(B, "word"), fld(B, "durations")
        for (s, k, v) in cx.run(eng, f, st=st):
            last = tm.sub(en.size(ad), num(1))
            head = mk("sub", ad, num(0), last)
            x = eng.elem(s, ad, last, "real")
            if "TimedWord" in t:
                ew = en.concat(aw, bw)
                ed = en.mkseq([head, mk("one", tm.add(x, eng.elem(s, bd, num(0), "real"))), mk("sub", bd, num(1), en.size(bd))])
            elif t == "char" or t == "const char":
                ew = en.append(aw, argv(f, 0))
                ed = en.append(ad, num(0))
            else:
                ew = aw
                ed = en.mkseq([head, mk("one", tm.add(x, argv(f, 0)))])
            rw, rd = fld(v, "word"), fld(v, "durations")
            cx.ob("concat-word", f.where(), k == "r" and seqsame(eng, s, rw, ew), "actions become %s, expected %s" % (tm.show(rw), tm.show(ew)), s.trace(), t)
            cx.ob("concat-delays", f.where(), seqsame(eng, s, rd, ed), "delays become %s, expected %s" % (tm.show(rd), tm.show(ed)), s.trace(), t)
            cx.ob("concat-pure", f.where(), eng.read(s, this_loc(f)) is A, "the left operand is modified", s.trace(), t)
    cx.need(3, "concatenations", "concat-word")
    f = cx.prog.find(TW + "::getSuffix")
    A, B = this_init(f), arg(f, 0)
    aw, ad, bw, bd = fld(A, "word"), fld(A, "durations"), fld(B, "word"), fld(B, "durations")
    n = en.size(bw)

    def p_new(eng, st, ol, args, e, fr):
        if len(args) == 2:
            return [(st, word_rec(eng.argval(st, args[0]), eng.argval(st, args[1])))]
        return None
    eng = cx.engine({TW + "::<ctor>": p_new}, Mon(), unroll=0)
    st = St()
    inv_timed_word(st, A)
    inv_timed_word(st, B)
    st = eng.assume(st, tm.le(n, en.size(aw)))[0]
    for (s, k, v) in cx.run(eng, f, st=st):
        ew = en.mkseq([mk("sub", aw, n, en.size(aw))])
        ed = en.mkseq([mk("one", tm.sub(eng.elem(s, ad, n, "real"), eng.elem(s, bd, tm.sub(en.size(bd), num(1)), "real"))),
                       mk("sub", ad, tm.add(n, num(1)), en.size(ad))])
        rw, rd = fld(v, "word"), fld(v, "durations")
        cx.ob("suffix-word", f.where(), k == "r" and seqsame(eng, s, rw, ew), "actions are %s, expected %s" % (tm.show(rw), tm.show(ew)), s.trace())
        cx.ob("suffix-delays", f.where(), seqsame(eng, s, rd, ed), "delays are %s, expected %s" % (tm.show(rd), tm.show(ed)), s.trace())
    f = cx.prog.find(TW + "::wordSize")
    eng = cx.engine({}, Mon())
    for (s, k, v) in cx.run(eng, f):
        cx.ob("size", f.where(), eng.same(s, v, en.size(fld(this_init(f), "word"))), "returns %s" % tm.show(v), s.trace())
    for m, fl in (("getWord", "word"), ("getDurations", "durations")):
        f = cx.prog.find(TW + "::" + m)
        for (s, k, v) in cx.run(eng, f):
            cx.ob("accessor", f.where(), eng.same(s, deref(eng, s, v), fld(this_init(f), fl)), "returns %s" % tm.show(v), s.trace())


def norm_elems(eng, s, v):
    """spell out provable unit subranges and sequence updates"""
    if v.op == "upd" and v.a[0].op != "upd":
        b, i, x = v.a
        return en.mkseq([mk("sub", b, num(0), i), mk("one", x), mk("sub", b, tm.add(i, num(1)), en.size(b))])
    return v


def pieces(eng, s, v):
    v = eng.norm(s, norm_elems(eng, s, v))
    out = []
    for p in en.parts(v):
        if p.op == "sub" and eng.same_num(s, tm.sub(p.a[2], p.a[1]), num(1)):
            p = mk("one", eng.elem(s, p.a[0], p.a[1], None))
        out.append(p)
    return out


def seqsame(eng, s, x, y):
    if eng.same(s, x, y):
        return True
    px, py = pieces(eng, s, x), pieces(eng, s, y)
    if len(px) != len(py):
        return False
    for a, b in zip(px, py):
        if a.op == "one" and b.op == "one":
            u, v = a.a[0], b.a[0]
            if eng.same(s, u, v) or tm.isnumeric(u) and tm.isnumeric(v) and implied(eng, s, tm.numeq(u, v)):
                continue
            if u.op == "elem" and v.op == "elem" and eng.same(s, u.a[0], v.a[0]) and eng.same_num(s, u.a[1], v.a[1]):
                continue
            return False
        if not eng.same(s, a, b):
            return False
    return True


def check_accumulated(cx):
    """T_{i,N}: every entry is its own delay plus the entry after it; all entries are written, from the last"""
    f = cx.prog.find(TW + "::getAccumulatedDurations")
    D = fld(this_init(f), "durations")
    N = en.size(D)

    class Mn(Mon):
        def on_write(self, eng, st, l, val):
            if not l.a[1] or l.a[1][-1].op != "I" or l.a[0].op != "var":
                return
            if st.ghost["res"] is None:
                st.ghost["res"] = l.a[0]
            if l.a[0] is not st.ghost["res"]:
                return
            i = l.a[1][-1].a[0]
            lo, S = st.ghost["lo"], st.ghost["S"]
            nx = tm.sub(lo, num(1))
            d = eng.elem(st, D, nx, "real")
            cur = eng.read(st, loc(l.a[0]))
            okv = False
            if lo is N and not st.ghost["copy"] and eng.same(st, cur, D):
                # started from a copy of the delays: the last entry is already right
                st.ghost["copy"] = True
                if implied(eng, st, tm.numeq(i, tm.sub(N, num(2)))):
                    lo, S = nx, eng.elem(st, D, nx, "real")
                    nx = tm.sub(lo, num(1))
            if st.ghost["copy"]:
                own = eng.elem(st, cur, nx, "real")
                val = tm.subst(val, {own: eng.elem(st, D, nx, "real")})
            d = eng.elem(st, D, nx, "real")
            if eng.simp(st, tm.numeq(lo, N)) is True:
                okv = implied(eng, st, tm.numeq(val, d))
            else:
                rest = tm.sub(val, d)
                okv = rest is S or eng.same(st, rest, S) or rest.op == "elem" and eng.same(st, rest.a[0], cur) and eng.same_num(st, rest.a[1], lo)
            ok = implied(eng, st, tm.numeq(i, nx)) and okv
            cx.ob("accumulate", f.where(), ok, "entry %s is set to %s when entries from %s on are complete" % (tm.show(i), tm.show(val), tm.show(lo)), st.trace())
            st.ghost["lo"] = nx
            st.ghost["S"] = val

        def pkey(self, s):
            return (s.ghost["res"], s.ghost["S"] is VOID, s.ghost["copy"])
    eng = cx.engine({}, Mn(), unroll=0)
    st = St(ghost={"lo": N, "S": VOID, "res": None, "copy": False})
    inv_timed_word(st, this_init(f))
    for (s, k, v) in cx.run(eng, f, st=st):
        if s.ghost["lo"] is N and eng.same(s, v, D):
            cx.ob("accumulate-all", f.where(), k == "r" and implied(eng, s, tm.le(N, num(1))), "no entry is accumulated", s.trace())
            continue
        cx.ob("accumulate-all", f.where(), k == "r" and implied(eng, s, tm.eq0(s.ghost["lo"])) and implied(eng, s, tm.numeq(en.size(v), N)),
              "entries before %s are never set, %s entries of %s" % (tm.show(s.ghost["lo"]), tm.show(en.size(v)), tm.show(N)), s.trace())
    cx.need(2, "entries", "accumulate")
