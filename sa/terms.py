"""Hash-consed terms (the value domain) and the zone (difference bound) domain."""
from fractions import Fraction


class T:
    __slots__ = ("op", "a", "h", "ty", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h


_tab = {}


def mk(op, *a, ty=None):
    k = (op, a, ty)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.ty = ty
        t.h = len(_tab)
        _tab[k] = t
    return t


TRUE = mk("true")
FALSE = mk("false")
NULL = mk("null")
VOID = mk("void")


# ------------------------------------------------------------------ numbers
def num(c, ty=None):
    return mk("aff", Fraction(c), ())


def is_num(t):
    return t.op == "aff" and not t.a[1]


def numval(t):
    return t.a[0] if t.op == "aff" and not t.a[1] else None


def lin(t):
    """linear form: (constant, {term: coefficient})"""
    if t.op == "aff":
        return t.a[0], dict(t.a[1])
    return Fraction(0), {t: Fraction(1)}


def unlin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("aff", Fraction(c), tuple(sorted(d.items(), key=lambda kv: (kv[0].h, kv[0].op))))


def add(x, y, sy=1):
    c1, d1 = lin(x)
    c2, d2 = lin(y)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + sy * v
    return unlin(c1 + sy * c2, d1)


def sub(x, y):
    return add(x, y, -1)


def neg(x):
    return sub(num(0), x)


def mul(x, y):
    if is_num(x):
        c, d = lin(y)
        k = x.a[0]
        return unlin(c * k, {t: v * k for t, v in d.items()})
    if is_num(y):
        return mul(y, x)
    if x.h > y.h:
        x, y = y, x
    return mk("mul", x, y, ty="real" if "real" in (x.ty, y.ty) else "int")


def is_int(t):
    if t.op == "aff":
        return t.a[0].denominator == 1 and all(v.denominator == 1 and is_int(k) for k, v in t.a[1])
    return t.ty in ("int", "nat")


# ------------------------------------------------------------------ booleans
def b(v):
    return TRUE if v else FALSE


def b2ibool(x, f):
    """comparison of a value that depends on one promoted boolean"""
    if x.op == "b2i":
        c, k, t = Fraction(0), Fraction(1), x
    elif x.op == "aff" and len(x.a[1]) == 1 and x.a[1][0][0].op == "b2i":
        c, (t, k) = x.a[0], x.a[1][0]
    else:
        return None
    r0, r1 = f(c), f(c + k)
    if r0 == r1:
        return b(r0)
    return t.a[0] if r1 else bnot(t.a[0])


def lt0(x):
    r = b2ibool(x, lambda v: v < 0)
    if r is not None:
        return r
    if is_num(x):
        return b(x.a[0] < 0)
    if is_int(x):
        return le0(add(x, num(1)))
    return mk("lt0", x)


def le0(x):
    r = b2ibool(x, lambda v: v <= 0)
    if r is not None:
        return r
    if is_num(x):
        return b(x.a[0] <= 0)
    return mk("le0", x)


def eq0(x):
    if is_num(x):
        return b(x.a[0] == 0)
    r = b2ibool(x, lambda v: v == 0)
    if r is not None:
        return r
    n = neg(x)
    # canonical sign
    c, d = lin(x)
    if c == 0 and len(d) == 2 and all(t.op == "b2i" for t in d) and set(d.values()) == {1, -1}:
        u, v = sorted(d, key=lambda t: (t.h, t.op))
        return eq(u.a[0], v.a[0])
    k = sorted(d.items(), key=lambda kv: (kv[0].h, kv[0].op))[0]
    if k[1] < 0:
        x = n
    return mk("eq0", x)


def lt(x, y):
    return lt0(sub(x, y))


def le(x, y):
    return le0(sub(x, y))


def numeq(x, y):
    return eq0(sub(x, y))


DISTINCT = ("ref", "enum", "str", "null", "lam")


def eq(x, y):
    """equality of two non-numeric values"""
    if x is y:
        return TRUE
    if x.op in ("true", "false") or y.op in ("true", "false"):
        if x.op in ("true", "false") and y.op in ("true", "false"):
            return FALSE
        if x is TRUE:
            return y
        if y is TRUE:
            return x
        return bnot(y if x is FALSE else x)
    if x.op == "enum" and y.op == "enum":
        return FALSE
    if x.op == "str" and y.op == "str":
        return FALSE
    if x.op == "null" and y.op == "ref" or y.op == "null" and x.op == "ref":
        return FALSE
    if x.op == "rec" and y.op == "rec" and x.a[0] == y.a[0]:
        fx, fy = dict(x.a[1]), dict(y.a[1])
        if set(fx) == set(fy):
            return band(*[veq(fx[k], fy[k]) for k in fx])
    if (y.h, y.op) < (x.h, x.op):
        x, y = y, x
    return mk("eq", x, y)


NUMTY = ("int", "real", "nat")


def isnumeric(t):
    return t.op == "aff" or t.ty in NUMTY


def veq(x, y):
    if isnumeric(x) and isnumeric(y):
        return numeq(x, y)
    return eq(x, y)


def bnot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.a[0]
    if x.op == "lt0":
        return le0(neg(x.a[0]))
    if x.op == "le0":
        return lt0(neg(x.a[0]))
    if x.op == "and":
        return bor(*[bnot(y) for y in x.a])
    if x.op == "or":
        return band(*[bnot(y) for y in x.a])
    return mk("not", x)


def band(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.a if x.op == "and" else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    s = set(out)
    for y in out:
        if bnot_lit(y) in s:
            return FALSE
    return mk("and", *sorted(out, key=lambda t: (t.h, t.op)))


def bnot_lit(y):
    if y.op in ("and", "or"):
        return None
    return bnot(y)


def bor(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.a if x.op == "or" else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    s = set(out)
    for y in out:
        if bnot_lit(y) in s:
            return TRUE
    return mk("or", *sorted(out, key=lambda t: (t.h, t.op)))


# ------------------------------------------------------------------ records
def rec(cls, fields):
    return mk("rec", cls, tuple(sorted(fields.items())))


FTYPES = {}      # fixed types of the fields of some values: (op, field) -> type


def getf(t, f, ty=None):
    if t.op == "ite":
        return ite(t.a[0], getf(t.a[1], f, ty), getf(t.a[2], f, ty))
    ty = FTYPES.get((t.op, f), ty)
    if t.op == "rec":
        for k, v in t.a[1]:
            if k == f:
                return v
        return mk("field", t, f, ty=ty)
    if t.op == "updf":
        if t.a[1] == f:
            return t.a[2]
        return getf(t.a[0], f, ty)
    return mk("field", t, f, ty=ty)


def isboolean(x):
    return x.op in ("true", "false", "not", "and", "or", "lt0", "le0", "eq0", "eq", "has", "ex") or x.ty == "bool"


def ite(c, x, y):
    """conditional value; records are distributed to their fields"""
    if c is TRUE or x is y:
        return x
    if c is FALSE:
        return y
    if x.op == "rec" and y.op == "rec" and x.a[0] == y.a[0]:
        fx, fy = dict(x.a[1]), dict(y.a[1])
        if set(fx) == set(fy):
            return rec(x.a[0], {k: ite(c, fx[k], fy[k]) for k in fx})
    if x is TRUE and y is FALSE:
        return c
    if x is FALSE and y is TRUE:
        return bnot(c)
    if isboolean(x) and isboolean(y):
        ty = "bool"
    elif isnumeric(x) and isnumeric(y):
        ty = "int" if is_int(x) and is_int(y) else "real"
    else:
        ty = None
    if y.op == "ite" and y.a[0] is c:
        y = y.a[2]
    if x.op == "ite" and x.a[0] is c:
        x = x.a[1]
    return mk("ite", c, x, y, ty=ty)


_hasite = {}


def hasite(t):
    """does a conditional value occur outside of bound contexts?"""
    r = _hasite.get(t)
    if r is None:
        if t.op == "ite":
            r = True
        elif t.op in ("mlam", "forall", "tab"):
            r = False
        else:
            r = any(_hasite_arg(x) for x in t.a)
        _hasite[t] = r
    return r


def _hasite_arg(x):
    if isinstance(x, T):
        return hasite(x)
    if isinstance(x, tuple):
        return any(_hasite_arg(y) for y in x)
    return False


# ------------------------------------------------------------------ matrices
# mlam(rows, cols, body, d) is the matrix with body[%r<d> := i, %c<d> := j] in cell (i, j); d exceeds
# the depth of every matrix in the body, so binders never clash.
_depth = {}


def depth(t):
    r = _depth.get(t)
    if r is None:
        r = t.a[3] if t.op == "mlam" else max([0] + [_depth_arg(x) for x in t.a])
        _depth[t] = r
    return r


def _depth_arg(x):
    if isinstance(x, T):
        return depth(x)
    if isinstance(x, tuple):
        return max([0] + [_depth_arg(y) for y in x])
    return 0


def bvars(d):
    return mk("sym", "%%r%d" % d, ty="nat"), mk("sym", "%%c%d" % d, ty="nat")


_level = [0]


def lam(rows, cols, f):
    """the rows x cols matrix of f(i, j)"""
    _level[0] += 1
    n = _level[0]
    r, c = mk("sym", "%%R%d" % n, ty="nat"), mk("sym", "%%C%d" % n, ty="nat")
    try:
        body = f(r, c)
    finally:
        _level[0] -= 1
    d = 1 + depth(body)
    R, C = bvars(d)
    return mk("mlam", rows, cols, subst(body, {r: R, c: C}), d)


def mrows(v):
    if v.op == "mlam":
        return v.a[0]
    if v.op in ("mclose", "t3"):
        return mrows(v.a[0])
    return mk("mdim", v, ty="nat")


def mcols(v):
    if v.op == "mlam":
        return v.a[1]
    if v.op in ("mclose", "t3"):
        return mcols(v.a[0])
    return mk("mdim", v, ty="nat")


# entries of a closed matrix are read as those before closing (only where all that follows is adding constraints
# and closing again)
THROUGH_CLOSURE = [False]


def cellof(v, i, j):
    if THROUGH_CLOSURE[0] and v.op == "mclose" and v.a[1] == "all":
        return cellof(v.a[0], i, j)
    if v.op == "mlam":
        R, C = bvars(v.a[3])
        return subst(v.a[2], {R: i, C: j})
    x = mk("cell", v, i, j)
    return rec("pair", {"first": getf(x, "first"), "second": getf(x, "second")})


FTYPES[("cell", "first")] = "real"
FTYPES[("cell", "second")] = "bool"


def setf(t, f, v):
    if t.op == "ite":
        return ite(t.a[0], setf(t.a[1], f, v), setf(t.a[2], f, v))
    if t.op == "rec":
        d = dict(t.a[1])
        d[f] = v
        return rec(t.a[0], d)
    # updf chain kept canonical: outermost sorted by field name, no duplicates
    ups = {f: v}
    base = t
    while base.op == "updf":
        ups.setdefault(base.a[1], base.a[2])
        base = base.a[0]
    for k in sorted(ups):
        w = ups[k]
        if w.op == "field" and w.a[0] is base and w.a[1] == k:
            continue
        base_ = base
        t2 = mk("updf", base_, k, w)
        base = t2
    return base


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            _push(y, st)


def subterms_open(t):
    """subterms outside of binders"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op in ("mlam", "forall", "tab"):
            continue
        for y in x.a:
            _push(y, st)


def literals(c):
    """the parts of a condition below its connectives"""
    if c.op in ("and", "or"):
        for x in c.a:
            yield from literals(x)
    elif c.op == "not":
        yield from literals(c.a[0])
    else:
        yield c


def _push(y, st):
    if isinstance(y, T):
        st.append(y)
    elif isinstance(y, tuple):
        for z in y:
            _push(z, st)


_submemo = {}


def subst(t, m):
    """simultaneous replacement of whole subterms by the mapping m"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        if not x.a:
            memo[x] = x
            return x
        if x.op == "mlam":
            ro, co = go(x.a[0]), go(x.a[1])
            R, C = bvars(x.a[3])
            r = lam(ro, co, lambda i, j: go(subst(x.a[2], {R: i, C: j})))
            memo[x] = r
            return r
        na = tuple(go(y) for y in x.a)
        if na == x.a:
            r = x
        else:
            r = rebuild(x, na)
        memo[x] = r
        return r

    return go(t)


def rebuild(x, na):
    op = x.op
    if op == "aff":
        acc = num(na[0])
        for (k, v) in na[1]:
            acc = add(acc, mul(num(v), k))
        return acc
    if op == "lt0":
        return lt0(na[0])
    if op == "le0":
        return le0(na[0])
    if op == "eq0":
        return eq0(na[0])
    if op == "eq":
        return veq(na[0], na[1])
    if op == "not":
        return bnot(na[0])
    if op == "and":
        return band(*na)
    if op == "or":
        return bor(*na)
    if op == "field":
        return getf(na[0], na[1], ty=x.ty)
    if op == "rec":
        return rec(na[0], dict(na[1]))
    if op == "updf":
        return setf(na[0], na[1], na[2])
    if op == "mul":
        return mul(na[0], na[1])
    h = REBUILD.get(op)
    if h:
        return h(x, na)
    return mk(op, *na, ty=x.ty)


def b2i(v):
    if v is TRUE:
        return num(1)
    if v is FALSE:
        return num(0)
    return mk("b2i", v, ty="nat")


REBUILD = {"b2i": lambda x, na: b2i(na[0]),
           "ite": lambda x, na: ite(*na),
           "cell": lambda x, na: cellof(*na) if na[0].op == "mlam" else mk("cell", *na),
           "mdim": lambda x, na: mrows(na[0]),
           "ex": lambda x, na: ex(na[0])}


def ex(m):
    """some cell of the boolean matrix m holds"""
    if m.op == "mlam":
        if m.a[2] is FALSE or m.a[0] is num(0) or m.a[1] is num(0):
            return FALSE
    return mk("ex", m, ty="bool")


def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth == 0:
        return "…"
    d = depth - 1
    op = t.op
    if op == "aff":
        c, ts = t.a
        parts = []
        for k, v in ts:
            parts.append(("" if v == 1 else "-" if v == -1 else str(v) + "*") + show(k, d))
        if c != 0 or not parts:
            parts.append(str(c))
        return "+".join(parts).replace("+-", "-")
    if op in ("true", "false", "null", "void"):
        return op
    if op == "lt0":
        return "(%s<0)" % show(t.a[0], d)
    if op == "le0":
        return "(%s<=0)" % show(t.a[0], d)
    if op == "eq0":
        return "(%s==0)" % show(t.a[0], d)
    if op == "eq":
        return "(%s==%s)" % (show(t.a[0], d), show(t.a[1], d))
    if op == "not":
        return "!" + show(t.a[0], d)
    if op == "and":
        return "(" + " && ".join(show(x, d) for x in t.a) + ")"
    if op == "or":
        return "(" + " || ".join(show(x, d) for x in t.a) + ")"
    if op == "sym":
        return str(t.a[0])
    if op == "field":
        return show(t.a[0], d) + "." + t.a[1]
    if op == "rec":
        return "{" + ",".join("%s:%s" % (k, show(v, d)) for k, v in t.a[1]) + "}"
    if op == "enum":
        return t.a[0].split("::")[-1]
    if op == "str":
        return repr(t.a[0])
    if op == "elem":
        return "%s[%s]" % (show(t.a[0], d), show(t.a[1], d))
    if op == "loc":
        return "&" + show(t.a[0], d) + "".join("." + show(p, d) for p in t.a[1])
    if op == "var":
        return str(t.a[2])
    if op == "phi":
        return "φ" + str(t.a[1])
    return op + "(" + ",".join(show(x, d) for x in t.a) + ")"


# ------------------------------------------------------------------ zones
class DBM:
    """Difference constraints u - v <= c (or < c) between numeric terms; None is
    the constant zero.  Persistent (copy on write), kept transitively closed."""
    __slots__ = ("m", "bot")

    def __init__(self, m=None, bot=False):
        self.m = m if m is not None else {}
        self.bot = bot

    def get(self, u, v):
        if u is v:
            return (Fraction(0), False)
        r = self.m.get((u, v))
        w = implicit(u, v)
        if r is None:
            return w
        if w is None:
            return r
        return tighter(r, w)

    def nodes(self):
        s = set()
        for u, v in self.m:
            s.add(u)
            s.add(v)
        return s

    def add(self, u, v, c, strict):
        """returns a new DBM with u - v <= c"""
        if self.bot:
            return self
        if u is v:
            if c < 0 or (c == 0 and strict):
                return DBM({}, True)
            return self
        bd = (Fraction(c), strict)
        cur = self.get(u, v)
        if cur is not None and leq(cur, bd):
            return self
        m = dict(self.m)
        ns = self.nodes()
        ns.add(u)
        ns.add(v)
        ns.add(None)
        # close with the new edge
        ins = []
        outs = []
        for x in ns:
            w = DBM.get(self, x, u)
            if w is not None:
                ins.append((x, w))
            w = DBM.get(self, v, x)
            if w is not None:
                outs.append((x, w))
        bot = False
        for x, w1 in ins:
            for y, w2 in outs:
                n = (w1[0] + bd[0] + w2[0], w1[1] or bd[1] or w2[1])
                if x is y:
                    if n[0] < 0 or (n[0] == 0 and n[1]):
                        bot = True
                    continue
                o = m.get((x, y))
                if o is None or not leq(o, n):
                    m[(x, y)] = n
        if bot:
            return DBM({}, True)
        return DBM(m)


def implicit(u, v):
    """facts every term satisfies: unsigned terms are non-negative"""
    if u is None and v is not None and v.ty == "nat":
        return (Fraction(0), False)
    if v is None and u is not None and u.op == "b2i":
        return (Fraction(1), False)
    if v is None and u is not None and u.op == "vidx" and u.a[0] in NALT:
        return (Fraction(NALT[u.a[0]] - 1), False)
    return None


NALT = {}       # variant value -> number of alternatives, once its type has been seen


def leq(a, b):
    """bound a at least as tight as b"""
    return a[0] < b[0] or (a[0] == b[0] and (a[1] or not b[1]))


def tighter(a, b):
    return a if leq(a, b) else b
