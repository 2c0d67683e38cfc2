"""Matrices (the part of Eigen LearnTA uses).

A matrix value is mlam(rows, cols, body): the cell (i, j) is the body at i and j; other
values are opaque matrices with opaque cells.  Blocks, rows, columns and single
cells are selectors of locations, so that writing through them updates the matrix
they were taken from.  mclose(m, P) is the matrix m after closing it through the
pivots P ("all", or a tuple), used by the checks that verify the closing loops on
their own.
"""
from . import terms as tm
from .terms import mk, num, TRUE, FALSE, T

SELECT = ("C", "B", "D")
ZERO = num(0)
ONE = num(1)


def undef():
    return tm.rec("pair", {"first": mk("undef", "first", ty="real"), "second": mk("undef", "second", ty="bool")})


def ge(x, y):
    """y <= x, trivially true cases removed"""
    d = tm.sub(x, y)
    c, it = tm.lin(d)
    if c >= 0 and all(k > 0 and t.ty == "nat" for t, k in it.items()):
        return TRUE
    return tm.le(y, x)


def below(i, base, n, total):
    """base <= i < base + n inside [0, total)"""
    hi = tm.add(base, n)
    return tm.band(ge(i, base), TRUE if hi is total else tm.lt(i, hi))


def at(i, base, n, total):
    if n is ONE:
        return tm.numeq(i, base)
    return below(i, base, n, total)


def rows(v):
    return tm.ite(v.a[0], rows(v.a[1]), rows(v.a[2])) if v.op == "ite" else tm.mrows(v)


def cols(v):
    return tm.ite(v.a[0], cols(v.a[1]), cols(v.a[2])) if v.op == "ite" else tm.mcols(v)


def cell(v, i, j):
    if v.op == "ite":
        return tm.ite(v.a[0], cell(v.a[1], i, j), cell(v.a[2], i, j))
    return tm.cellof(v, i, j)


def proj(v, s):
    if s.op == "C":
        return cell(v, s.a[0], s.a[1])
    if s.op == "D":
        return tm.lam(rows(v), ONE, lambda i, j: cell(v, i, i))
    r0, c0, h, w = s.a
    return tm.lam(h, w, lambda i, j: cell(v, tm.add(i, r0), tm.add(j, c0)))


def ent(v):
    """an entry with its two parts spelled out"""
    if v.op in ("init", "field", "phi", "elem", "mget", "optval", "vget", "retval", "call") and v.ty is None:
        return tm.rec("pair", {"first": tm.getf(v, "first", "real"), "second": tm.getf(v, "second", "bool")})
    return v


def upd(v, s, val):
    n, m = rows(v), cols(v)
    if s.op == "C":
        val = ent(val)
        return tm.lam(n, m, lambda i, j: tm.ite(tm.band(tm.numeq(i, s.a[0]), tm.numeq(j, s.a[1])), val, cell(v, i, j)))
    if s.op == "D":
        if v.op == "z":
            # zones whose operations are not looked into
            return mk("z", "diagonal", v, val.a[2] if val.op == "mlam" else val)
        return tm.lam(n, m, lambda i, j: tm.ite(tm.numeq(i, j), cell(val, i, ZERO), cell(v, i, j)))
    r0, c0, h, w = s.a
    return tm.lam(n, m, lambda i, j: tm.ite(tm.band(at(i, r0, h, n), at(j, c0, w, m)),
                                            cell(val, tm.sub(i, r0) if h is not ONE else ZERO, tm.sub(j, c0) if w is not ONE else ZERO),
                                            cell(v, i, j)))


def select(l, s):
    """location l extended by selector s; a block of a block is one block"""
    p = l.a[1]
    if p and p[-1].op == "B":
        r0, c0 = p[-1].a[0], p[-1].a[1]
        if s.op == "B":
            s = mk("B", tm.add(r0, s.a[0]), tm.add(c0, s.a[1]), s.a[2], s.a[3])
            return mk("loc", l.a[0], p[:-1] + (s,))
        if s.op == "C":
            return mk("loc", l.a[0], p[:-1] + (mk("C", tm.add(r0, s.a[0]), tm.add(c0, s.a[1])),))
    return mk("loc", l.a[0], p + (s,))


# ------------------------------------------------------------------ closure
def close(m, x):
    if m.op == "mclose":
        b, p = m.a
        if p == "all":
            return m
        if x == "all":
            return mk("mclose", b, "all")
        if x in p:
            return m
        return mk("mclose", b, tuple(sorted(p + (x,), key=lambda t: t.h)))
    return mk("mclose", m, "all" if x == "all" else (x,))


def same_close(eng, st, x, y, depth=0):
    p, q = x.a[1], y.a[1]
    if p == "all" or q == "all":
        if p != q:
            return False
    else:
        q = list(q)
        for a in p:
            k = [b for b in q if eng.same(st, a, b, depth + 1)]
            if not k:
                return False
            q.remove(k[0])
        if q:
            return False
    return same(eng, st, x.a[0], y.a[0], depth)


# ------------------------------------------------------------------ comparison
_n = [0]


def skolem(eng, st, n, m, tag=""):
    """a state with a generic cell (i, j) of an n x m matrix"""
    _n[0] += 1
    i, j = mk("sym", "%%i%d" % _n[0], ty="nat"), mk("sym", "%%j%d" % _n[0], ty="nat")
    sts = [s2 for s1 in eng.assume(st.copy(), tm.lt(i, n)) for s2 in eng.assume(s1, tm.lt(j, m))]
    _n[0] -= 1
    return i, j, sts


def difference(eng, st, x, y, depth=0, only=None, extra=()):
    """None when the matrices are equal, else a description of a differing cell"""
    if x is y:
        return None
    for (a, b, w) in ((rows(x), rows(y), "rows"), (cols(x), cols(y), "columns")):
        if not eng.same(st, a, b):
            for s, (a2, b2) in eng.splits(st, (a, b)):
                if not eng.same(s, a2, b2):
                    return "%s %s instead of %s" % (tm.show(a), w, tm.show(b))
    _n[0] += 10 * (depth + 1)
    try:
        i, j, sts = skolem(eng, st, rows(x), cols(x))
        for s in sts:
            for r in ([s] if only is None else eng.assume(s, only(i, j))):
                d = cells_differ(eng, r, i, j, cell(x, i, j), cell(y, i, j), depth)
                if d is not None:
                    return d
    finally:
        _n[0] -= 10 * (depth + 1)
    return None


def same(eng, st, x, y, depth=0):
    if x is y:
        return True
    if depth > 3:
        return False
    return difference(eng, st, x, y, depth) is None


def isindexcond(c):
    """a condition about positions only"""
    return not any(x.op in ("cell", "elem") for x in tm.subterms_open(c))


def indices(ts):
    out = []
    for t in ts:
        for x in tm.subterms_open(t):
            if x.op in ("cell", "elem"):
                for i in x.a[1:]:
                    if i not in out:
                        out.append(i)
    return out


def isbound(i):
    return any(x.op == "sym" and str(x.a[0]).startswith("%r") or x.op == "sym" and str(x.a[0]).startswith("%c") for x in tm.subterms_open(i))


def normalise(eng, s, ts):
    """positions known to be equal get one name: (state, terms, map)"""
    old = [t for f in s.facts for t in (f,)] + [u for u in s.dbm.nodes() if u is not None]
    ix = [i for i in indices(list(ts) + old) if not isbound(i)]
    ix.sort(key=lambda i: (not tm.is_num(i), len(tm.show(i, 9)), i.h))
    m = {}
    reps = []
    for i in ix:
        for r in reps:
            if eng.holds(s, tm.numeq(i, r)):
                m[i] = r
                break
        else:
            reps.append(i)
    if not m:
        return s, tuple(ts), m

    def canon(t):
        cs = {}
        for x in tm.subterms_open(t):
            if x.op == "cell" and any(i in m for i in x.a[1:]):
                cs[x] = tm.cellof(x.a[0], *[m.get(i, i) for i in x.a[1:]])
            elif x.op == "elem" and x.a[1] in m:
                cs[x] = tm.rebuild(x, (x.a[0], m[x.a[1]]))
        return tm.subst(t, cs) if cs else t
    out = tuple(canon(t) for t in ts)
    for f in list(s.facts):
        f2 = canon(f)
        if f2 is not f:
            r = eng.assume(s, f2)
            if not r:
                return None, out, m
            if len(r) == 1:
                s = r[0]
    for u in list(s.dbm.nodes()):
        if u is None:
            continue
        u2 = canon(u)
        if u2 is not u:
            r = eng.assume(s, tm.numeq(u, u2))
            if not r:
                return None, out, m
            if len(r) == 1:
                s = r[0]
    return s, out, m


def at_origin(eng, s, *ix):
    """positions known to be 0 are replaced by 0 in what is known; None when that is contradictory"""
    m = {x: tm.num(0) for x in ix if not tm.is_num(x) and eng.holds(s, tm.numeq(x, tm.num(0)))}
    if not m:
        return s
    for f in list(s.facts):
        f2 = tm.subst(f, m)
        if f2 is not f:
            r = eng.assume(s, f2)
            if not r:
                return None
            if len(r) == 1:
                s = r[0]
    return s


def cells_differ(eng, st, i, j, a, b, depth=0):
    # first which positions coincide, then the entries
    for (s, vs) in eng.splits(st, (a, b), only=isindexcond):
        s = at_origin(eng, s, i, j)
        if s is None:
            continue
        s, vs, _ = normalise(eng, s, vs)
        if s is None:
            continue
        if eng.same(s, vs[0], vs[1]):
            continue
        for (s2, (u, v)) in eng.splits(s, vs):
            if equal_value(eng, s2, u, v, depth):
                continue
            s3, (u, v), _ = normalise(eng, s2, (u, v))
            if s3 is None or equal_value(eng, s3, u, v, depth):
                continue
            why = [tm.show(f, 5) for f in s3.facts - st.facts]
            return "entry (%s,%s) is %s instead of %s%s" % (tm.show(i), tm.show(j), tm.show(u, 5), tm.show(v, 5),
                                                            " when " + ", ".join(sorted(why)[:8]) if why else "")
    return None


def equal_value(eng, s, u, v, depth=0):
    if eng.same(s, u, v, depth + 1):
        return True
    if u.op == "rec" and v.op == "rec":
        fu, fv = dict(u.a[1]), dict(v.a[1])
        return set(fu) == set(fv) and all(equal_value(eng, s, fu[k], fv[k], depth) for k in fu)
    if eng.isbool(u) and eng.isbool(v):
        for t in (True, False):
            for s2 in eng.assume(s.copy(), u, t):
                if eng.assume(s2, v, not t):
                    return False
        return True
    if tm.isnumeric(u) and tm.isnumeric(v):
        return not eng.assume(s.copy(), tm.bnot(tm.numeq(u, v)))
    return False


def exmap(eng, st, t, pool):
    """t with its "some cell" atoms replaced by equivalent ones from the pool"""
    m = {}
    for x in tm.subterms_open(t):
        if x.op == "ex" and x not in pool:
            for y in pool:
                if equiv_ex(eng, st, x, y):
                    m[x] = y
                    break
    return tm.subst(t, m) if m else t


def equiv_ex(eng, st, x, y):
    return difference(eng, st, x.a[0], y.a[0]) is None


def exatoms(*ts):
    out = []
    for t in ts:
        for x in tm.subterms_open(t):
            if x.op == "ex" and x not in out:
                out.append(x)
    return out


# ------------------------------------------------------------------ element operations
def padd(x, y):
    x, y = ent(x), ent(y)
    return tm.rec("pair", {"first": tm.add(tm.getf(x, "first"), tm.getf(y, "first")),
                           "second": tm.band(tm.getf(x, "second"), tm.getf(y, "second"))})


def lexless(x, y):
    x, y = ent(x), ent(y)
    fx, fy = tm.getf(x, "first"), tm.getf(y, "first")
    return tm.bor(tm.lt(fx, fy), tm.band(tm.numeq(fx, fy), tm.bnot(tm.getf(x, "second")), tm.getf(y, "second")))


def pmin(x, y):
    x, y = ent(x), ent(y)
    return tm.ite(lexless(y, x), y, x)


def pmax(x, y):
    x, y = ent(x), ent(y)
    return tm.ite(lexless(x, y), y, x)


def ismat(v):
    return v.op in ("mlam", "mclose", "t3") or v.op == "ite" and ismat(v.a[1])


def iseigen(t):
    return "Eigen::" in (t or "")


# ------------------------------------------------------------------ calls
def elementwise(f, x, y, ty):
    """f on matrices of equal size, or a matrix and a scalar"""
    if not (iseigen(ty) or ismat(y)):
        y = ent(y)
    if iseigen(ty) or ismat(y):
        return tm.lam(rows(x), cols(x), lambda i, j: f(cell(x, i, j), cell(y, i, j)))
    return tm.lam(rows(x), cols(x), lambda i, j: f(cell(x, i, j), y))


class Unsupported(Exception):
    pass


def call(stl, e, st, fr, want_loc):
    """Eigen member functions and operators; None when unknown"""
    g = stl.g
    k = e["k"]
    if k == "MCall":
        return mcall(stl, g, e, st, fr)
    if k == "Op":
        return op(stl, g, e, st, fr)
    return None


def mat(g, s, l):
    return g.read(s, l)


def mcall(stl, g, e, st, fr):
    m = e["m"]
    out = []
    if m == "<conv>":
        return None
    for (s1, l) in g.obj_locs(e, st, fr):
        l = g.resolve(s1, l)
        for (s2, vs) in g.evs(e["a"], s1, fr):
            r = method(stl, g, e, s2, l, m, vs, fr)
            if r is None:
                return None
            out.extend(r)
    return out


def vec(v):
    """vectors: is the running index the row index?"""
    return cols(v) is ONE


def method(stl, g, e, s, l, m, vs, fr):
    ref = lambda l2: [(s, mk("ref", l2))]
    if m in ("array", "matrix", "eval", "derived", "noalias", "allowAliasing", "const_cast_derived"):
        return ref(l)
    v = g.read(s, l)
    n, w = rows(v), cols(v)
    if m == "rows":
        return [(s, n)]
    if m == "cols":
        return [(s, w)]
    if m == "size":
        if w is ONE:
            return [(s, n)]
        if n is ONE:
            return [(s, w)]
        return [(s, tm.mul(n, w))]
    B = lambda r0, c0, h, x: ref(select(l, mk("B", r0, c0, h, x)))
    if m == "block" and len(vs) == 4:
        return B(*vs)
    if m == "topLeftCorner" and len(vs) == 2:
        return B(ZERO, ZERO, *vs)
    if m == "bottomRightCorner" and len(vs) == 2:
        return B(tm.sub(n, vs[0]), tm.sub(w, vs[1]), *vs)
    if m == "topRightCorner" and len(vs) == 2:
        return B(ZERO, tm.sub(w, vs[1]), *vs)
    if m == "bottomLeftCorner" and len(vs) == 2:
        return B(tm.sub(n, vs[0]), ZERO, *vs)
    if m == "topRows" and len(vs) == 1:
        return B(ZERO, ZERO, vs[0], w)
    if m == "bottomRows" and len(vs) == 1:
        return B(tm.sub(n, vs[0]), ZERO, vs[0], w)
    if m == "leftCols" and len(vs) == 1:
        return B(ZERO, ZERO, n, vs[0])
    if m == "rightCols" and len(vs) == 1:
        return B(ZERO, tm.sub(w, vs[0]), n, vs[0])
    if m == "middleRows" and len(vs) == 2:
        return B(vs[0], ZERO, vs[1], w)
    if m == "middleCols" and len(vs) == 2:
        return B(ZERO, vs[0], n, vs[1])
    if m == "row" and len(vs) == 1:
        return B(vs[0], ZERO, ONE, w)
    if m == "col" and len(vs) == 1:
        return B(ZERO, vs[0], n, ONE)
    if m in ("tail", "head", "segment"):
        if m == "segment" and len(vs) == 2:
            off, k = vs
        elif len(vs) == 1 and m != "segment":
            k = vs[0]
            off = ZERO if m == "head" else tm.sub(n if vec(v) else w, k)
        else:
            return None
        return B(off, ZERO, k, ONE) if vec(v) else B(ZERO, off, ONE, k)
    if m == "diagonal" and not vs:
        return ref(select(l, mk("D")))
    if m in ("fill", "setConstant") and len(vs) == 1:
        s = s.copy()
        x = ent(vs[0])
        g.write(s, l, tm.lam(n, w, lambda i, j: x))
        return [(s, tm.VOID)]
    if m == "resize" and len(vs) == 2:
        if vs[0] is n and vs[1] is w:
            return [(s, tm.VOID)]
        s = s.copy()
        g.write(s, l, tm.lam(vs[0], vs[1], lambda i, j: undef()))
        return [(s, tm.VOID)]
    if m == "conservativeResize" and len(vs) == 2:
        s = s.copy()
        g.write(s, l, tm.lam(vs[0], vs[1], lambda i, j: tm.ite(tm.band(tm.lt(i, n), tm.lt(j, w)), cell(v, i, j), undef())))
        return [(s, tm.VOID)]
    if m in ("cwiseMin", "cwiseMax", "min", "max") and len(vs) == 1:
        f = pmin if m in ("cwiseMin", "min") else pmax
        return [(s, elementwise(f, v, vs[0], e["a"][0].get("t") or e["a"][0].get("ot")))]
    if m == "transpose":
        return [(s, tm.lam(w, n, lambda i, j: cell(v, j, i)))]
    if m in ("minCoeff", "maxCoeff") and not vs:
        return [(s, mk("mincoeff" if m == "minCoeff" else "maxcoeff", v))]
    if m == "any":
        return [(s, tm.ex(v))]
    if m == "all":
        return [(s, tm.bnot(tm.ex(tm.lam(n, w, lambda i, j: tm.bnot(cell(v, i, j))))))]
    if m == "unaryExpr" and len(vs) == 1:
        # the function is evaluated on a generic element
        box = {}

        def f(i, j):
            box["v"] = apply_term(g, s, vs[0], [cell(v, i, j)], fr, e)
            return box["v"]
        return [(s, tm.lam(n, w, f))]
    if m == "operator=":
        s = s.copy()
        x = vs[0]
        g.write(s, l, tm.lam(rows(x), cols(x), lambda i, j: cell(x, i, j)))
        return [(s, mk("ref", l))]
    return None


def apply_term(g, st, f, args, fr, e):
    """result of a side-effect free function as one conditional value"""
    s = st.copy()
    ls = []
    for n, v in enumerate(args):
        root = mk("var", "#ae%d" % n, fr.ctx, "ae")
        s.mem[root] = v
        ls.append(mk("byref", mk("loc", root, ())))
    old = getattr(g, "trust_asserts", True)
    g.trust_asserts = None if old is None else False
    try:
        rs = g.stl.callf(f, ls, s, fr, e)
    finally:
        g.trust_asserts = old
    return merge(st, [(s2, v) for (s2, v) in rs])


def merge(st, rs):
    """conditional value over the outcomes of a deterministic computation"""
    r = None
    for (s2, v) in reversed(rs):
        c = tm.band(*[x for x in s2.facts if x not in st.facts])
        r = v if r is None else tm.ite(c, v, r)
    return r


def op(stl, g, e, st, fr):
    o = e["op"]
    a = e["a"]
    at_ = e.get("at", [""] * len(a))
    out = []
    if o in ("()", "[]"):
        for (s1, l) in g.lv(a[0], st, fr):
            for (s2, vs) in g.evs(a[1:], s1, fr):
                if len(vs) == 2:
                    s = mk("C", vs[0], vs[1])
                elif len(vs) == 1:
                    v = g.read(s2, l)
                    s = mk("C", vs[0], ZERO) if vec(v) else mk("C", ZERO, vs[0])
                else:
                    return None
                out.append((s2, mk("ref", select(g.resolve(s2, l), s))))
        return out
    if o == "=":
        for (s1, x) in g.ev(a[1], st, fr):
            for (s2, l) in g.lv(a[0], s1, fr):
                s2 = s2.copy()
                g.write(s2, l, x if ismat(x) else tm.lam(rows(x), cols(x), lambda i, j: cell(x, i, j)))
                out.append((s2, mk("ref", l)))
        return out
    if o in ("+", "+="):
        for (s1, y) in g.ev(a[1], st, fr):
            for (s2, l) in g.lv(a[0], s1, fr):
                x = g.read(s2, l)
                r = elementwise(padd, x, y, at_[1])
                if o == "+=":
                    s2 = s2.copy()
                    g.write(s2, l, r)
                    out.append((s2, mk("ref", l)))
                else:
                    out.append((s2, r))
        return out
    if o in ("==", "!="):
        for (s1, x) in g.ev(a[0], st, fr):
            for (s2, y) in g.ev(a[1], s1, fr):
                r = equal(stl, x, y)
                out.append((s2, r if o == "==" else tm.bnot(r)))
        return out
    return None


def equal(stl, x, y):
    if x is y:
        return TRUE
    d = tm.band(tm.numeq(rows(x), rows(y)), tm.numeq(cols(x), cols(y)))
    return tm.band(d, tm.bnot(tm.ex(tm.lam(rows(x), cols(x), lambda i, j: tm.bnot(celleq(cell(x, i, j), cell(y, i, j)))))))


def celleq(u, v):
    if u.op == "rec" and v.op == "rec":
        return tm.band(tm.numeq(tm.getf(u, "first"), tm.getf(v, "first")), beq(tm.getf(u, "second"), tm.getf(v, "second")))
    return tm.veq(u, v)


def beq(x, y):
    if x is y:
        return TRUE
    return tm.bor(tm.band(x, y), tm.band(tm.bnot(x), tm.bnot(y)))


def compare_min(x, y, strict_less):
    """(min coefficient) < y, respectively y < (min coefficient)"""
    v = x.a[0]
    if strict_less:
        return tm.ex(tm.lam(rows(v), cols(v), lambda i, j: lexless(cell(v, i, j), y)))
    return tm.bnot(tm.ex(tm.lam(rows(v), cols(v), lambda i, j: tm.bnot(lexless(y, cell(v, i, j))))))


def construct(stl, e, st, fr):
    g = stl.g
    a = e["a"]
    out = []
    if not a:
        return [(st, tm.lam(ZERO, ZERO, lambda i, j: undef()))]
    if len(a) == 1:
        return [(s, x if ismat(x) else tm.lam(rows(x), cols(x), lambda i, j: cell(x, i, j))) for (s, x) in g.ev(a[0], st, fr)]
    if len(a) == 2:
        for (s, vs) in g.evs(a, st, fr):
            out.append((s, tm.lam(vs[0], vs[1], lambda i, j: undef())))
        return out
    return None


# ------------------------------------------------------------------ loops that write one row, column or cell per round
def mpaths(v, path=()):
    """matrices inside a value: [(field path, matrix)]"""
    if v.op == "mlam":
        yield path, v
    elif v.op == "rec":
        for k, w in v.a[1]:
            if isinstance(w, T):
                yield from mpaths(w, path + (k,))
    elif v.op == "updf":
        while v.op == "updf":
            yield from mpaths(v.a[2], path + (v.a[1],))
            v = v.a[0]


def getp(v, path):
    for f in path:
        v = tm.getf(v, f)
    return v


def setp(v, path, x):
    if not path:
        return x
    return tm.setf(v, path[0], setp(tm.getf(v, path[0]), path[1:], x))


def index(v):
    if v is not None and v.op == "iter":
        v = v.a[1]
    return v if v is not None and tm.isnumeric(v) else None


def setindex(v, x):
    return mk("iter", v.a[0], x, *v.a[2:]) if v.op == "iter" else x


class Acc:
    def __init__(self, root, path, idx, lo, step, base, leaves):
        self.root, self.path, self.idx, self.lo, self.step, self.base, self.leaves = root, path, idx, lo, step, base, leaves
        self.mark = mk("accmark", root, path)

    def at(self, i):
        """the matrix when the index has reached i"""
        lo, step, base = self.lo, self.step, self.base

        def f(r, c):
            h = cell(base, r, c)
            out = {}
            for fld, ls in self.leaves.items():
                v = tm.getf(h, fld) if fld else h
                for (k, g, x) in reversed(ls):
                    k, g, x = (tm.subst(z, {PR: r, PC: c}) for z in (k, g, x))
                    rng = tm.band(ge(k, lo), tm.lt(k, i)) if step > 0 else tm.band(tm.le(k, lo), tm.lt(i, k))
                    v = tm.ite(tm.band(rng, g), x, v)
                out[fld] = v
            return out[""] if "" in out else tm.rec("pair", out)
        return tm.lam(rows(base), cols(base), f)


PR, PC = mk("sym", "%PR", ty="nat"), mk("sym", "%PC", ty="nat")


def accelerate(eng, key, st0, backs, once):
    """guess the matrix after any number of rounds from one generic round: each round writes cells that determine its index"""
    if not backs or any(b.mem.get(r) is None for b in backs for r in st0.mem if r.op != "var"):
        return []
    changed = []
    for r in backs[0].mem:
        if r.op == "var" and r not in st0.mem:
            continue
        h = st0.mem.get(r)
        if h is None:
            h = eng.init_val(r)
        if h.op == "alias":
            continue
        for (path, m) in mpaths(backs[0].mem[r]):
            if getp(h, path) is not m:
                changed.append((r, path))
    for b in backs[1:]:
        for r in b.mem:
            if r.op == "var" and r not in st0.mem:
                continue
            h = st0.mem.get(r) if r in st0.mem else eng.init_val(r)
            if h.op == "alias":
                continue
            for (path, m) in mpaths(b.mem[r]):
                if getp(h, path) is not m and (r, path) not in changed:
                    changed.append((r, path))
    if not changed:
        return []
    out = []
    for r, v0 in st0.mem.items():
        lo = index(v0)
        if lo is None or not tm.is_int(lo):
            continue
        steps = {tm.sub(index(b.mem.get(r)), lo) if index(b.mem.get(r)) is not None else None for b in backs}
        if len(steps) != 1:
            continue
        d = steps.pop()
        if d is None or not tm.is_num(d) or abs(d.a[0]) != 1:
            continue
        step = int(d.a[0])
        kk = mk("sym", ("%acc", key), ty="nat" if eng.holds(st0, tm.le(ZERO, lo)) and step > 0 else "int")
        s = st0.copy()
        s.mem[r] = setindex(v0, kk)
        ss = eng.assume(s, tm.le(lo, kk) if step > 0 else tm.le(kk, lo))
        if len(ss) != 1:
            continue
        s = ss[0]
        bs, exits = once(s)
        if not bs or any(index(b.mem.get(r)) is not tm.add(kk, num(step)) for b in bs):
            continue
        for (root, path) in changed:
            base = getp(st0.mem[root] if root in st0.mem else eng.init_val(root), path)
            if base.op not in ("mlam", "mclose", "field", "init", "phi", "cell"):
                continue
            ms = [getp(b.mem[root] if root in b.mem else eng.init_val(root), path) for b in bs]
            if any(rows(m) is not rows(base) or cols(m) is not cols(base) for m in ms):
                continue
            h = cell(base, PR, PC)
            val = None
            for b, m in reversed(list(zip(bs, ms))):
                c = tm.band(*[x for x in b.facts if x not in s.facts and x.op != "forall" and any(y is kk for y in tm.subterms(x))
                              or x not in s.facts and x.op != "forall" and len(bs) > 1])
                v = cell(m, PR, PC)
                val = v if val is None else tm.ite(c, v, val)
            leaves = {}
            ok = True
            flds = ["first", "second"] if h.op == "rec" else [""]
            for f in flds:
                ls = []
                if not walk(tm.getf(val, f) if f else val, tm.getf(h, f) if f else h, (), kk, ls):
                    ok = False
                    break
                leaves[f] = ls
            if ok:
                out.append(Acc(root, path, r, lo, step, base, leaves))
        if out:
            break
    return out


def walk(t, h, path, kk, out):
    if t is h:
        return True
    if t.op == "ite":
        c = t.a[0]
        return walk(t.a[1], h, path + (c,), kk, out) and walk(t.a[2], h, path + (tm.bnot(c),), kk, out)
    lits = []
    for c in path:
        lits.extend(c.a if c.op == "and" else (c,))
    for c in lits:
        if c.op != "eq0":
            continue
        k0, it = tm.lin(c.a[0])
        if it.get(kk) in (1, -1) and not any(x is kk for t2 in it if t2 is not kk for x in tm.subterms(t2)):
            sol = tm.sub(kk, tm.mul(num(1 / it[kk]), c.a[0]))
            if not any(x is PR or x is PC for x in tm.subterms(sol)):
                continue
            g = tm.subst(tm.band(*[l for l in lits if l is not c]), {kk: sol})
            out.append((sol, g, tm.subst(t, {kk: sol})))
            return True
    return False


def mark(eng, acc, h, b):
    """states with the matrices hidden that follow their guess, and the guesses that hold"""
    h, b = h.copy(), b.copy()
    good = []
    for a in acc:
        if a.idx not in b.mem or a.idx not in h.mem:
            continue
        for z in (h, b):
            if a.root not in z.mem:
                z.mem[a.root] = eng.init_val(a.root)
        bm = getp(b.mem[a.root], a.path)
        w = a.at(index(b.mem[a.idx]))
        d = difference(eng, b, bm, w)
        if d is None:
            good.append(a)
            h.mem[a.root] = setp(h.mem[a.root] if a.root in h.mem else eng.init_val(a.root), a.path, a.mark)
            b.mem[a.root] = setp(b.mem[a.root], a.path, a.mark)
        elif getattr(eng, "debug_acc", False):
            print("acceleration fails:", d)
    return good, h, b


def unmark(acc, st):
    for a in acc:
        st.mem[a.root] = tm.subst(st.mem[a.root], {a.mark: a.at(index(st.mem[a.idx]))})
    return st
