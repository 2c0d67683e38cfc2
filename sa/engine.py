"""Abstract interpreter over the extracted program.

Domain: hash-consed symbolic values (Herbrand terms with an affine normal form),
a zone (difference bound) domain over the numeric terms, a set of literal facts,
and ghost state owned by the property monitors.  Branches are partitioned, loops
are solved by fixpoint iteration: at a loop head two states are joined by
anti-unification (equal pairs of differing values share one fresh symbol, so that
"x == y" invariants survive) and the zone domain is widened.  Repository
functions and lambdas are inlined; library calls are modelled in stl.py; anything
unknown becomes an uninterpreted function of its inputs.
"""
from fractions import Fraction
from . import terms as tm
from .terms import mk, num, TRUE, FALSE, NULL, VOID, T
from .ir import AnalysisBroken
from . import eig


class TooComplex(Exception):
    pass


def vty(t):
    """value type class of a printed C++ type"""
    if t is None:
        return None
    t = t.replace("const ", "").replace("volatile ", "").strip()
    if t == "bool":
        return "bool"
    if t in ("char", "int", "long", "short", "signed char", "long long", "wchar_t"):
        return "int"
    if t.startswith("unsigned ") or t in ("unsigned",):
        return "nat"
    if t in ("double", "float", "long double"):
        return "real"
    return None


class Frame:
    __slots__ = ("ctx", "this", "cap", "fn", "depth", "env")

    def __init__(self, ctx, this, cap, fn, depth):
        self.ctx = ctx
        self.this = this
        self.cap = cap
        self.fn = fn
        self.depth = depth


class St:
    __slots__ = ("mem", "facts", "dbm", "ghost", "path", "dec")

    def __init__(self, mem=None, facts=None, dbm=None, ghost=None, path=(), dec=None):
        self.mem = mem or {}
        self.facts = facts or frozenset()
        self.dbm = dbm or tm.DBM()
        self.ghost = ghost or {}
        self.path = path
        self.dec = dec          # decisions taken: (earlier, (condition, truth))

    def copy(self):
        return St(dict(self.mem), self.facts, self.dbm, dict(self.ghost), self.path, self.dec)

    def note(self, s):
        self.path = (self.path, s)

    def trace(self, n=12):
        out = []
        p = self.path
        while p and len(out) < n:
            out.append(p[1])
            p = p[0]
        return list(reversed(out))


def F(n):
    return mk("F", n)


def I(i):
    return mk("I", i)


def M(k):
    return mk("M", k)


def loc(root, *path):
    return mk("loc", root, tuple(path))


def ext(l, *sel):
    return mk("loc", l.a[0], l.a[1] + tuple(sel))


EMPTY = mk("seq")


def size(v):
    if v.op == "seq":
        n = num(0)
        for p in v.a:
            if p.op == "one":
                n = tm.add(n, num(1))
            elif p.op == "sub":
                n = tm.add(n, tm.sub(p.a[2], p.a[1]))
            elif p.op == "tab":
                n = tm.add(n, tm.sub(p.a[3], p.a[2]))
            elif p.op == "fill":
                n = tm.add(n, p.a[1])
            else:
                n = tm.add(n, mk("size", p, ty="nat"))
        return n
    if v.op == "str":
        return num(len(v.a[0].encode()))
    if v.op in ("upd", "mapd", "sorted", "reversed"):
        return size(v.a[0])
    if v.op == "fillv":
        return v.a[1]
    if v.op == "mempty":
        return num(0)
    if v.op == "iteredseq":
        return size(v.a[0])
    return mk("size", v, ty="nat")


def parts(v):
    if v.op == "seq":
        return list(v.a)
    if v.op == "str":
        return [mk("one", num(c)) for c in v.a[0].encode()]
    if v.op == "fillv":
        return [mk("fill", v.a[0], v.a[1])]
    return [mk("sub", v, num(0), size(v))]


# A tabulated segment tab(hole, body, lo, hi) holds body[hole := i] for lo <= i < hi.
def hole_depth(t):
    d = 0
    for x in tm.subterms(t):
        if x.op == "hole":
            d = max(d, x.a[0])
    return d


def tab_at(p, i):
    return tm.subst(p.a[1], {p.a[0]: i})


def mktab(h, body, lo, hi):
    """segment in normal form (plain subranges and constant runs are special cases)"""
    if lo is hi:
        return None
    if body.op == "elem" and body.a[1] is h and not any(x is h for x in tm.subterms(body.a[0])):
        return mk("sub", body.a[0], lo, hi)
    if not any(x is h for x in tm.subterms(body)):
        n = tm.sub(hi, lo)
        return mk("one", body) if n is num(1) else mk("fill", body, n)
    if tm.sub(hi, lo) is num(1):
        return mk("one", tm.subst(body, {h: lo}))
    return mk("tab", h, body, lo, hi)


def tabulate(f, lo, hi, depth=1):
    """sequence of f(i) for lo <= i < hi"""
    h = mk("hole", depth, ty="nat")
    return mkseq([x for x in [mktab(h, f(h), lo, hi)] if x is not None])


def mkseq(ps):
    out = []
    for p in ps:
        if p.op == "sub" and p.a[1] is p.a[2]:
            continue
        if p.op == "tab" and p.a[2] is p.a[3]:
            continue
        if p.op == "fill" and p.a[1] is num(0):
            continue
        if p.op == "fill" and p.a[1] is num(1):
            p = mk("one", p.a[0])
        # one(elem(c,i)) is a unit subrange
        if p.op == "one" and p.a[0].op == "elem" and p.a[0].a[0].op != "upd":
            p = mk("sub", p.a[0].a[0], p.a[0].a[1], tm.add(p.a[0].a[1], num(1)))
        if out:
            q = glue(out[-1], p)
            if q is not None:
                out[-1] = q
                continue
        out.append(p)
    if len(out) == 1:
        p = out[0]
        if p.op == "sub" and p.a[1] is num(0) and p.a[2] is size(p.a[0]):
            return p.a[0]
    return mk("seq", *out)


def glue(q, p, eqn=None):
    """two neighbouring segments as one, if they continue each other"""
    is_ = eqn or (lambda x, y: x is y)
    if q.op == "sub" and p.op == "sub" and q.a[0] is p.a[0] and is_(q.a[2], p.a[1]):
        return mk("sub", q.a[0], q.a[1], p.a[2])
    if q.op == "tab":
        if p.op == "tab" and q.a[1] is p.a[1] and is_(q.a[3], p.a[2]):
            return mk("tab", q.a[0], q.a[1], q.a[2], p.a[3])
        x = unit(p)
        if x is not None and tab_at(q, q.a[3]) is x:
            return mk("tab", q.a[0], q.a[1], q.a[2], tm.add(q.a[3], num(1)))
    if p.op == "tab":
        x = unit(q)
        if x is not None:
            lo = tm.sub(p.a[2], num(1))
            if tab_at(p, lo) is x:
                return mk("tab", p.a[0], p.a[1], lo, p.a[3])
    if q.op == "fill" and (p.op == "one" or p.op == "fill") and q.a[0] is p.a[0]:
        return mk("fill", q.a[0], tm.add(q.a[1], p.a[1] if p.op == "fill" else num(1)))
    if q.op == "one" and p.op == "fill" and q.a[0] is p.a[0]:
        return mk("fill", q.a[0], tm.add(p.a[1], num(1)))
    return None


def unit(p):
    """the value of a one-element segment"""
    if p.op == "one":
        return p.a[0]
    if p.op == "sub" and tm.sub(p.a[2], p.a[1]) is num(1):
        return mk("elem", p.a[0], p.a[1])
    return None


def concat(v, w):
    return mkseq(parts(v) + parts(w))


def append(v, x):
    return mkseq(parts(v) + [mk("one", x)])


tm.REBUILD["seq"] = lambda x, na: mkseq(na)
tm.REBUILD["size"] = lambda x, na: size(na[0])


def composite(st):
    """there are equations between more than two unknowns"""
    return any(f.op == "eq0" and f.a[0].op == "aff" and len(f.a[0].a[1]) > 2 for f in st.facts)


def by_equations(eng, s, c):
    """the known equations put together give c"""
    rows = []

    def reduce(k, d):
        d = dict(d)
        for (x, k0, d0) in rows:
            q = d.pop(x, None)
            if q:
                k += q * k0
                for y, m in d0.items():
                    d[y] = d.get(y, 0) + q * m
                    if not d[y]:
                        del d[y]
        return k, d
    for f in s.facts:
        if f.op == "eq0":
            k, d = reduce(*tm.lin(f.a[0]))
            if d:
                x = min(d, key=lambda t: t.h)
                q = d.pop(x)
                rows.append((x, -k / q, {y: -m / q for y, m in d.items()}))
    k, d = reduce(*tm.lin(c.a[0]))
    # rows reduced by earlier rows only: repeat until nothing is left to replace
    for _ in rows:
        k2, d2 = reduce(k, d)
        if d2 == d:
            break
        k, d = k2, d2
    if d:
        u = eng.ubl(s.dbm, k, d)
        if c.op == "eq0":
            w = eng.ubl(s.dbm, -k, {x: -m for x, m in d.items()})
            return u is not None and w is not None and u[0] <= 0 and w[0] <= 0
        return u is not None and (u[0] < 0 or u[0] == 0 and (c.op == "le0" or u[1]))
    return k == 0 if c.op == "eq0" else k < 0 or k == 0 and c.op == "le0"


class Engine:
    MAXDEPTH = 14
    MAXSTATES = 3000

    warm = False

    def __init__(self, prog, prims=None, monitor=None, keep=None):
        self.hints = {}
        self.prog = prog
        self.prims = prims or {}
        self.monitor = monitor
        self.nstates = 0
        self.maxwork = 400000
        self.inlined = set()
        self.calls_seen = {}
        self.opaque = {}
        self.loops = 0
        from . import stl
        self.stl = stl.Stl(self)
        self.loop_conts = {}
        self.loop_allocs = {}
        self.alloc_log = []

    # ------------------------------------------------------------ memory
    def init_val(self, root, ty=None):
        return mk("init", root, ty=ty)

    def resolve(self, st, l):
        """follow reference aliases at the root"""
        n = 0
        while True:
            v = st.mem.get(l.a[0])
            if v is not None and v.op == "alias":
                l = mk("loc", v.a[0].a[0], v.a[0].a[1] + l.a[1])
                n += 1
                if n > 50:
                    raise TooComplex("alias cycle")
                continue
            return l

    def read(self, st, l, ty=None):
        l = self.resolve(st, l)
        root, path = l.a
        v = st.mem.get(root)
        if v is None:
            v = self.init_val(root, ty if not path else None)
        n = len(path)
        for k, s in enumerate(path):
            last = k == n - 1
            # the value type of a map entry is fixed at the access to its "second"
            if s.op == "P" and k == n - 2 and path[k + 1] is F("second"):
                last = True
            v = self.proj(st, v, s, ty if last else None)
        return v

    def proj(self, st, v, s, ty=None):
        if v.op == "ite":
            if s.op == "F":
                return tm.getf(v, s.a[0], ty)
            return tm.ite(v.a[0], self.proj(st, v.a[1], s, ty), self.proj(st, v.a[2], s, ty))
        if s.op == "F":
            return tm.getf(v, s.a[0], ty)
        if s.op in eig.SELECT:
            return eig.proj(v, s)
        if s.op == "I":
            return self.elem(st, v, s.a[0], ty)
        if s.op == "M":
            return self.mget(st, v, s.a[0], ty)
        if s.op == "P":
            # element at an ordinal position of an associative container
            return self.assoc_at(st, v, s.a[0], ty)
        if s.op == "O":
            if v.op == "some":
                return v.a[0]
            return mk("optval", v, ty=ty)
        if s.op == "V":
            if v.op == "vrec":
                return v.a[1]
            return mk("vget", s.a[0], v, ty=ty)
        if s.op == "KEY":
            return s.a[0]
        return mk("proj", v, s, ty=ty)

    def elem(self, st, v, i, ty=None):
        if v.op == "str" and tm.is_num(i):
            bs = v.a[0].encode()
            k = int(tm.numval(i))
            if 0 <= k < len(bs):
                return num(bs[k])
        if v.op == "upd":
            r = self.simp(st, tm.veq(v.a[1], i))
            if r is True:
                return v.a[2]
            if r is False:
                return self.elem(st, v.a[0], i, ty)
            return mk("elem", v, i, ty=ty)
        if v.op == "seq":
            off = num(0)
            for p in v.a:
                if p.op == "one":
                    nx = tm.add(off, num(1))
                    if self.simp(st, tm.numeq(off, i)) is True:
                        return p.a[0]
                elif p.op == "sub":
                    nx = tm.add(off, tm.sub(p.a[2], p.a[1]))
                    if self.simp(st, tm.lt(i, nx)) is True and self.simp(st, tm.le(off, i)) is True:
                        return self.elem(st, p.a[0], tm.add(p.a[1], tm.sub(i, off)), ty)
                elif p.op == "tab":
                    nx = tm.add(off, tm.sub(p.a[3], p.a[2]))
                    if self.simp(st, tm.lt(i, nx)) is True and self.simp(st, tm.le(off, i)) is True:
                        return tab_at(p, tm.add(p.a[2], tm.sub(i, off)))
                elif p.op == "fill":
                    nx = tm.add(off, p.a[1])
                    if self.simp(st, tm.lt(i, nx)) is True and self.simp(st, tm.le(off, i)) is True:
                        return p.a[0]
                else:
                    break
                off = nx
            return mk("elem", v, i, ty=ty)
        if v.op == "fillv":
            return v.a[0]
        if v.op == "mapd":
            # elementwise image: function applied to element (see stl.transform)
            return mk("elem", v, i, ty=ty)
        return mk("elem", v, i, ty=ty)

    total = ()
    lazymap = False     # map[key] adds a default entry without telling whether there was one

    def has(self, st, m, k):
        if m.op == "mempty" or m is EMPTY:
            return FALSE
        if m.op == "seq":
            out = []
            for p in m.a:
                if p.op == "one":
                    out.append(tm.veq(p.a[0], k))
                elif p.op == "sub":
                    out.append(mk("has", p, k))
            return tm.bor(*out)
        if m.op in ("mput", "mdef"):
            c = tm.veq(m.a[1], k)
            r = self.simp(st, c)
            if r is True:
                return TRUE
            if r is False:
                return self.has(st, m.a[0], k)
            return tm.bor(c, self.has(st, m.a[0], k))
        if m.op == "merase":
            c = tm.veq(m.a[1], k)
            r = self.simp(st, c)
            if r is True:
                return FALSE
            if r is False:
                return self.has(st, m.a[0], k)
            return tm.band(tm.bnot(c), self.has(st, m.a[0], k))
        if k.op == "key" and k.a[0] is m or self.total and self.is_total(m):
            return TRUE
        return mk("has", m, k)

    def is_total(self, m):
        """this map is taken to have an entry for every key that is looked up"""
        if m.op == "init":
            return m.a[0] in self.total
        return m.op == "phi" and any(str(m.a[1]).startswith(rootname(r)) for r in self.total)

    def mget(self, st, m, k, ty=None):
        if m.op == "mput":
            r = self.simp(st, tm.veq(m.a[1], k))
            if r is True:
                return m.a[2]
            if r is False:
                return self.mget(st, m.a[0], k, ty)
            return mk("mget", m, k, ty=ty)
        if m.op == "merase":
            r = self.simp(st, tm.veq(m.a[1], k))
            if r is False:
                return self.mget(st, m.a[0], k, ty)
        return mk("mget", m, k, ty=ty)

    def keyat(self, st, c, pos):
        """the key at a position: assigning to a key that is there moves nothing"""
        while c.op == "mput" and (c.a[1].op == "key" and c.a[1].a[0] is c.a[0] or self.simp(st, self.has(st, c.a[0], c.a[1])) is True):
            c = c.a[0]
        return mk("key", c, pos)

    def assoc_at(self, st, v, pos, ty=None):
        """pair (or set key) at a position; find-positions know their key"""
        if pos.op == "fpos" or pos.op == "inspos":
            k = pos.a[-1]
        else:
            k = self.keyat(st, v, pos)
        if pos.op == "inspos" or pos.op == "fpos" or True:
            return tm.rec("pair", {"first": k, "second": self.mget(st, v, k, ty)})

    def write(self, st, l, val):
        l = self.resolve(st, l)
        root, path = l.a
        if self.monitor is not None and hasattr(self.monitor, "on_write"):
            self.monitor.on_write(self, st, l, val)
        old = st.mem.get(root)
        if old is None:
            old = self.init_val(root)
        st.mem[root] = self.upd(st, old, path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        s = path[0]
        rest = path[1:]
        if s.op == "P":
            # write through an associative position
            pos = s.a[0]
            k = pos.a[-1] if pos.op in ("fpos", "inspos") else self.keyat(st, v, pos)
            if rest and rest[0].op == "F" and rest[0].a[0] == "second":
                return self.upd(st, v, (M(k),) + rest[1:], val)
            return mk("updp", v, pos, val)
        if rest:
            sub = self.upd(st, self.proj(st, v, s), rest, val)
        else:
            sub = val
        if s.op == "F":
            return tm.setf(v, s.a[0], sub)
        if s.op in eig.SELECT:
            return eig.upd(v, s, sub)
        if s.op == "I":
            return self.upd_elem(st, v, s.a[0], sub)
        if s.op == "M":
            return self.mput(st, v, s.a[0], sub)
        if s.op == "O":
            return mk("some", sub)
        if s.op == "V":
            return mk("vrec", s.a[0], sub)
        return mk("updx", v, s, sub)

    def mput(self, st, m, k, v):
        if m.op == "mput":
            r = self.simp(st, tm.veq(m.a[1], k))
            if r is True:
                return mk("mput", m.a[0], k, v)
        if m.op == "mdef" and self.simp(st, tm.veq(m.a[1], k)) is True:
            return mk("mput", m.a[0], k, v)
        if v.op == "mget" and v.a[0] is m and v.a[1] is k:
            return m
        return mk("mput", m, k, v)

    def upd_elem(self, st, v, i, x):
        if v.op == "str":
            v = mkseq(parts(v))
        if v.op == "seq":
            off = num(0)
            ps = list(v.a)
            for n, p in enumerate(ps):
                if p.op == "one":
                    if self.simp(st, tm.numeq(off, i)) is True:
                        ps[n] = mk("one", x)
                        return mkseq(ps)
                    off = tm.add(off, num(1))
                elif p.op == "sub":
                    nx = tm.add(off, tm.sub(p.a[2], p.a[1]))
                    if self.simp(st, tm.lt(i, nx)) is True and self.simp(st, tm.le(off, i)) is True:
                        a = tm.add(p.a[1], tm.sub(i, off))
                        ps[n:n + 1] = [mk("sub", p.a[0], p.a[1], a), mk("one", x), mk("sub", p.a[0], tm.add(a, num(1)), p.a[2])]
                        return mkseq(ps)
                    off = nx
                elif p.op == "tab":
                    nx = tm.add(off, tm.sub(p.a[3], p.a[2]))
                    if self.simp(st, tm.lt(i, nx)) is True and self.simp(st, tm.le(off, i)) is True:
                        a = tm.add(p.a[2], tm.sub(i, off))
                        ps[n:n + 1] = [z for z in (mktab(p.a[0], p.a[1], p.a[2], a), mk("one", x),
                                                   mktab(p.a[0], p.a[1], tm.add(a, num(1)), p.a[3])) if z is not None]
                        return mkseq(ps)
                    off = nx
                elif p.op == "fill":
                    nx = tm.add(off, p.a[1])
                    if self.simp(st, tm.lt(i, nx)) is True and self.simp(st, tm.le(off, i)) is True:
                        a = tm.sub(i, off)
                        ps[n:n + 1] = [mk("fill", p.a[0], a), mk("one", x),
                                       mk("fill", p.a[0], tm.sub(tm.sub(p.a[1], a), num(1)))]
                        return mkseq(ps)
                    off = nx
                else:
                    break
        if v.op == "upd" and self.simp(st, tm.veq(v.a[1], i)) is True:
            return self.upd_elem(st, v.a[0], i, x)
        if x.op == "elem" and x.a[0] is v and x.a[1] is i:
            return v
        if v.op not in ("seq", "upd", "fillv", "mapd") and tm.isnumeric(i) and self.simp(st, tm.lt(i, size(v))) is True and \
                self.simp(st, tm.le(num(0), i)) is True:
            return mkseq([mk("sub", v, num(0), i), mk("one", x), mk("sub", v, tm.add(i, num(1)), size(v))])
        return mk("upd", v, i, x)

    # ------------------------------------------------------------ logic
    def ub(self, st, x):
        """upper bound (c, strict) of the affine value x, or None"""
        return self.ubd(st.dbm, x)

    def ubd(self, dbm, x):
        c, d = tm.lin(x)
        return self.ubl(dbm, c, d)

    def ubl(self, dbm, c, d):
        if not d:
            return (c, False)
        items = list(d.items())
        if len(items) == 1:
            t, k = items[0]
            if k > 0:
                r = dbm.get(t, None)
            else:
                r = dbm.get(None, t)
            if r is None:
                return None
            return (r[0] * abs(k) + c, r[1])
        if len(items) == 2 and {items[0][1], items[1][1]} == {1, -1}:
            u = [t for t, k in items if k == 1][0]
            v = [t for t, k in items if k == -1][0]
            r = dbm.get(u, v)
            if r is not None:
                return (r[0] + c, r[1])
            r1, r2 = dbm.get(u, None), dbm.get(None, v)
            if r1 is None or r2 is None:
                return None
            return (r1[0] + r2[0] + c, r1[1] or r2[1])
        uv = posneg(d)
        if uv is not None:
            r0 = dbm.get(*uv)
            if r0 is not None:
                return (r0[0] + c, r0[1])
        nd, sg, sc = linform(d)
        r0 = dbm.get(nd, None) if sg > 0 else dbm.get(None, nd)
        if r0 is not None:
            return (r0[0] * sc + c, r0[1])
        # pair up and sum interval bounds
        tot = c
        strict = False
        pos = [(t, k) for t, k in items if k > 0]
        ngs = [(t, -k) for t, k in items if k < 0]
        used = set()
        rest = []
        for t, k in pos:
            best = None
            for t2, k2 in ngs:
                if t2 in used or k2 != k:
                    continue
                r = dbm.get(t, t2)
                if r is not None and (best is None or tm.leq(r, best[0])):
                    best = (r, t2, k)
            if best:
                used.add(best[1])
                tot += best[0][0] * k
                strict = strict or best[0][1]
            else:
                rest.append((t, k))
        for t, k in rest:
            r = dbm.get(t, None)
            if r is None:
                return None
            tot += r[0] * k
            strict = strict or r[1]
        for t, k in ngs:
            if t in used:
                continue
            r = dbm.get(None, t)
            if r is None:
                return None
            tot += r[0] * k
            strict = strict or r[1]
        return (tot, strict)

    def simp(self, st, t):
        """True / False / None (unknown)"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        op = t.op
        if op == "not":
            r = self.simp(st, t.a[0])
            return None if r is None else (not r)
        if op == "and":
            un = False
            for x in t.a:
                r = self.simp(st, x)
                if r is False:
                    return False
                if r is None:
                    un = True
            return None if un else True
        if op == "or":
            un = False
            for x in t.a:
                r = self.simp(st, x)
                if r is True:
                    return True
                if r is None:
                    un = True
            return None if un else False
        if op in ("lt0", "le0", "eq0", "eq") and tm.hasite(t):
            t2 = self.res(st, t)
            if t2 is not t:
                return self.simp(st, t2)
        if op in ("lt0", "le0", "eq0"):
            x = t.a[0]
            if t in st.facts:
                return True
            if tm.bnot(t) in st.facts:
                return False
            hi = self.ub(st, x)
            lo = self.ub(st, tm.neg(x))
            if op == "lt0":
                if hi is not None and (hi[0] < 0 or (hi[0] == 0 and hi[1])):
                    return True
                if lo is not None and lo[0] <= 0:
                    return False
                if hi is not None and hi[0] == 0 and tm.bnot(tm.eq0(x)) in st.facts:
                    return True
                return None
            if op == "le0":
                if hi is not None and hi[0] <= 0:
                    return True
                if lo is not None and (lo[0] < 0 or (lo[0] == 0 and lo[1])):
                    return False
                if lo is not None and lo[0] == 0 and tm.bnot(tm.eq0(x)) in st.facts:
                    return False
                return None
            if hi is not None and lo is not None and hi[0] == 0 and lo[0] == 0 and not hi[1] and not lo[1]:
                return True
            c, items = tm.lin(x)
            if c == 0 and len(items) == 2:
                ks = list(items.items())
                if ks[0][1] == -ks[1][1] and ks[0][0].op == ks[1][0].op and ks[0][0].a and self.same(st, ks[0][0], ks[1][0]):
                    return True
            if hi is not None and (hi[0] < 0 or (hi[0] == 0 and hi[1])):
                return False
            if lo is not None and (lo[0] < 0 or (lo[0] == 0 and lo[1])):
                return False
            return None
        if t in st.facts:
            return True
        if op == "ite":
            c = self.simp(st, t.a[0])
            if c is not None:
                return self.simp(st, t.a[1] if c else t.a[2])
            r1 = self.simp(st, t.a[1])
            if r1 is not None and r1 == self.simp(st, t.a[2]):
                return r1
        if mk("not", t) in st.facts:
            return False
        if op == "eq":
            x, y = t.a
            if x.op == y.op and x.a and self.same(st, x, y):
                return True
            if y.op in ("enum", "str", "null", "ref") or x.op in ("enum", "str", "null", "ref"):
                # x == c1 excludes x == c2
                for f in st.facts:
                    if f.op == "eq":
                        for (u, v) in ((x, y), (y, x)):
                            for (p, q) in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                                if u is p and v.op in ("enum", "str") and q.op == v.op and q is not v:
                                    return False
                                if u is p and {v.op, q.op} == {"null", "ref"}:
                                    return False
        if op == "has":
            # facts about equal keys are not chased; membership by iteration is
            pass
        return None

    def res(self, st, t):
        """t with every conditional value resolved whose condition is decided here"""
        memo = {}

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, T) or not tm.hasite(x):
                return x
            r = memo.get(x)
            if r is not None:
                return r
            if x.op == "ite":
                c = self.simp(st, x.a[0])
                if c is not None:
                    r = go(x.a[1] if c else x.a[2])
                else:
                    r = tm.ite(cond(x.a[0]), go(x.a[1]), go(x.a[2]))
            else:
                na = tuple(go(y) for y in x.a)
                r = x if na == x.a else tm.rebuild(x, na)
            memo[x] = r
            return r

        def cond(c):
            if c.op in ("and", "or"):
                return (tm.band if c.op == "and" else tm.bor)(*[cond(x) for x in c.a])
            if c.op == "not":
                return tm.bnot(cond(c.a[0]))
            r = self.simp(st, c)
            if r is not None:
                return TRUE if r else FALSE
            return go(c)
        return go(t)

    def pick(self, t, only=None):
        """condition of an innermost conditional value in t (not itself conditional)"""
        if only is not None:
            for x in tm.subterms_open(t):
                if x.op == "ite" and not tm.hasite(x.a[0]):
                    for y in tm.literals(x.a[0]):
                        if only(y):
                            return y
            return None
        for x in tm.subterms_open(t):
            if x.op == "ite" and not tm.hasite(x.a[0]):
                return x.a[0]
        for x in tm.subterms_open(t):
            if x.op == "ite":
                return x.a[0]
        return None

    def splits(self, st, ts, limit=400, only=None):
        """[(state, values)]: st split until no conditional value (with such a condition) is left in ts"""
        out = []
        work = [(st, tuple(ts))]
        n = 0
        while work:
            s, vs = work.pop()
            vs = tuple(self.res(s, v) for v in vs)
            c = None
            for v in vs:
                if tm.hasite(v):
                    c = self.pick(v, only and (lambda y: only(y) and self.simp(s, y) is None))
                    if c is not None:
                        break
            if c is None:
                out.append((s, vs))
                continue
            n += 1
            if n > limit:
                raise TooComplex("too many cases")
            for truth in (True, False):
                for s2 in self.assume(s.copy(), c, truth):
                    work.append((s2, vs))
        return out

    def norm(self, st, v):
        """sequence normal form using what is known about the bounds"""
        if v.op != "seq":
            return v
        eqn = lambda a, b: a is b or self.same_num(st, a, b)
        out = []
        for p in v.a:
            if p.op == "sub" and eqn(p.a[1], p.a[2]):
                continue
            if p.op == "fill" and eqn(p.a[1], num(0)):
                continue
            if p.op == "tab" and eqn(p.a[2], p.a[3]):
                continue
            if out:
                q = glue(out[-1], p, eqn)
                if q is not None:
                    out[-1] = q
                    continue
            out.append(p)
        if len(out) == 1 and out[0].op == "sub":
            p = out[0]
            if eqn(p.a[1], num(0)) and eqn(p.a[2], size(p.a[0])):
                return self.norm(st, p.a[0])
        return mkseq(out)

    def same_num(self, st, x, y):
        d = tm.sub(x, y)
        if tm.is_num(d):
            return d.a[0] == 0
        hi, lo = self.ub(st, d), self.ub(st, tm.neg(d))
        if hi is not None and lo is not None and hi[0] <= 0 and lo[0] <= 0 or tm.eq0(d) in st.facts:
            return True
        return composite(st) and by_equations(self, st, tm.eq0(d))

    def same(self, st, x, y, depth=0):
        """provably equal (structural congruence modulo the numeric domain)"""
        if x is y:
            return True
        if depth > 12:
            return False
        if x.op == "seq" or y.op == "seq":
            x, y = self.norm(st, x), self.norm(st, y)
            if x is y:
                return True
            if x.op != y.op:
                # a container known to be empty
                for p, q in ((x, y), (y, x)):
                    if p is EMPTY and self.same_num(st, size(q), num(0)):
                        return True
        if tm.isnumeric(x) and tm.isnumeric(y):
            d = tm.sub(x, y)
            if tm.is_num(d):
                return d.a[0] == 0
            hi, lo = self.ub(st, d), self.ub(st, tm.neg(d))
            if hi is not None and lo is not None and hi[0] <= 0 and lo[0] <= 0:
                return True
            if tm.eq0(d) in st.facts or composite(st) and by_equations(self, st, tm.eq0(d)):
                return True
            if x.op == "aff" or y.op == "aff":
                c, items = tm.lin(d)
                ks = list(items.items())
                if c == 0 and len(ks) == 2 and ks[0][1] == -ks[1][1]:
                    return self.same(st, ks[0][0], ks[1][0], depth + 1)
                return False
        elif tm.eq(x, y) in st.facts:
            return True
        if x.op == "mlam" or y.op == "mlam":
            return eig.same(self, st, x, y, depth)
        if x.op == "ex" and y.op == "ex":
            return eig.same(self, st, x.a[0], y.a[0], depth)
        if x.op == "ite" or y.op == "ite":
            if depth > 8:
                return False
            return all(self.same(s, a, b, depth + 1) for (s, (a, b)) in self.splits(st, (x, y), 60))
        if x.op == "mclose" and y.op == "mclose":
            return eig.same_close(self, st, x, y, depth)
        if x.op != y.op or len(x.a) != len(y.a):
            return False
        if not x.a:
            return False
        for a, b in zip(x.a, y.a):
            if not self.same_arg(st, a, b, depth):
                return False
        return True

    def same_arg(self, st, a, b, depth):
        if isinstance(a, T) and isinstance(b, T):
            return self.same(st, a, b, depth + 1)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(self.same_arg(st, p, q, depth) for p, q in zip(a, b))
        return a == b

    def assume(self, st, t, truth=True):
        """states in which t has the given truth value (list, maybe empty)"""
        if not truth:
            t = tm.bnot(t)
        r = self.simp(st, t)
        if r is True:
            return [st]
        if r is False:
            return []
        op = t.op
        if op not in ("and", "or", "ite") and tm.hasite(t) and not (op == "not" and t.a[0].op == "ite"):
            t = self.res(st, t)
            c = self.pick(t)
            if c is None:
                return self.assume(st, t)
            out = []
            for truth in (True, False):
                for s in self.assume(st.copy(), c, truth):
                    out.extend(self.assume(s, t))
            return out
        if op == "and":
            sts = [st]
            for x in t.a:
                sts = [s2 for s in sts for s2 in self.assume(s, x)]
            return sts
        if op == "or":
            out = []
            rest = st
            for k, x in enumerate(t.a):
                out.extend(self.assume(rest.copy(), x))
                nx = self.assume(rest.copy(), x, False)
                if not nx:
                    break
                if len(nx) > 1:
                    # give up disjointness
                    rest = rest
                else:
                    rest = nx[0]
            return out
        if op == "not" and t.a[0].op == "ite":
            t = mk("ite", t.a[0].a[0], tm.bnot(t.a[0].a[1]), tm.bnot(t.a[0].a[2]))
            op = "ite"
        if op == "ite":
            out = []
            for s in self.assume(st.copy(), t.a[0]):
                out.extend(self.assume(s, t.a[1]))
            for s in self.assume(st.copy(), t.a[0], False):
                out.extend(self.assume(s, t.a[2]))
            return out
        st = st.copy()
        if op in ("lt0", "le0", "eq0"):
            x = t.a[0]
            ok = self.constrain(st, x, op)
            if not ok:
                return []
            st.facts = st.facts | {t}
            self.told(st, t)
            return [st]
        if op == "not" and t.a[0].op == "eq0":
            st.facts = st.facts | {t}
            self.told(st, t)
            # integer tightening
            x = t.a[0].a[0]
            for y in (x, tm.neg(x)):
                hi = self.ub(st, y)
                if hi is not None and hi[0] == 0 and not hi[1]:
                    if not self.constrain(st, y, "lt0"):
                        return []
            return [st]
        st.facts = st.facts | {t}
        self.told(st, t)
        return [st]

    def told(self, st, t):
        if self.monitor is not None and hasattr(self.monitor, "on_fact"):
            self.monitor.on_fact(self, st, t)

    def constrain(self, st, x, op):
        if op == "eq0":
            return self.constrain(st, x, "le0") and self.constrain(st, tm.neg(x), "le0")
        strict = op == "lt0"
        c, d = tm.lin(x)
        items = list(d.items())
        isint = tm.is_int(x)
        if strict and isint:
            c += 1
            strict = False
        if len(items) == 1:
            t, k = items[0]
            bd = -c / abs(k)
            if isint and abs(k) != 1:
                import math
                bd = Fraction(math.floor(bd))
            if k > 0:
                st.dbm = st.dbm.add(t, None, bd, strict)
            else:
                st.dbm = st.dbm.add(None, t, bd, strict)
        elif len(items) == 2 and {items[0][1], items[1][1]} == {1, -1}:
            u = [t for t, k in items if k == 1][0]
            v = [t for t, k in items if k == -1][0]
            st.dbm = st.dbm.add(u, v, -c, strict)
        elif posneg(d) is not None:
            u, v = posneg(d)
            st.dbm = st.dbm.add(u, v, -c, strict)
            for x in (u, v):
                if x.op == "aff" and x not in (t for t, k in items):
                    link_sum(st, x)
        else:
            nd, sg, sc = linform(d)
            if sg > 0:
                st.dbm = st.dbm.add(nd, None, -c / sc, strict)
            else:
                st.dbm = st.dbm.add(None, nd, -c / sc, strict)
        if st.dbm.bot:
            return False
        # disequalities
        for f in st.facts:
            if f.op == "not" and f.a[0].op == "eq0":
                y = f.a[0].a[0]
                h, l = self.ub(st, y), self.ub(st, tm.neg(y))
                if h is not None and l is not None and h[0] == 0 and l[0] == 0 and not h[1] and not l[1]:
                    return False
        return True

    # ------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        """list of (state, kind, value); kind: n(ormal) r(eturn) b(reak) c(ontinue) t(hrow)"""
        if s is None:
            return [(st, "n", None)]
        self.nstates += 1
        if self.nstates > self.maxwork:
            raise TooComplex("analysis budget exceeded")
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            return [(st, "n", None)]
        return m(s, st, fr)

    def s_Block(self, s, st, fr):
        cur = [st]
        out = []
        for x in s["b"]:
            if x is None:
                continue
            nxt = []
            for c in cur:
                for (s2, kind, v) in self.exec(x, c, fr):
                    if kind == "n":
                        nxt.append(s2)
                    else:
                        out.append((s2, kind, v))
            cur = nxt
            if len(cur) > 6:
                cur = self.dedupe(cur)
            if len(cur) + len(out) > self.MAXSTATES:
                raise TooComplex("too many paths in %s" % fr.fn.fid)
            if not cur:
                break
        return [(c, "n", None) for c in cur] + out

    def dedupe(self, sts):
        seen = {}
        out = []
        for s in sts:
            key = (frozenset(s.mem.items()), s.facts, frozenset(s.dbm.m.items()), frozenset(s.ghost.items()))
            if key in seen:
                continue
            seen[key] = 1
            out.append(s)
        return out

    def s_Nop(self, s, st, fr):
        return [(st, "n", None)]

    def s_Log(self, s, st, fr):
        out = [st]
        for e in s.get("a", []):
            out = [s2 for c in out for (s2, _) in self.ev(e, c, fr)]
        return [(c, "n", None) for c in out]

    def s_Expr(self, s, st, fr):
        e = s["e"]
        if e["k"] == "Assert":
            return [(c, "n", None) for c in self.do_assert(e, st, fr)]
        if e["k"] == "Throw":
            out = []
            for (s2, v) in (self.ev(e["e"], st, fr) if e.get("e") else [(st, None)]):
                out.append((s2, "t", v))
            return out
        return [(c, "n" if v is not THROW else "t", None) for (c, v) in self.ev(e, st, fr)]

    def do_assert(self, e, st, fr):
        # asserted conditions are taken as facts only where they do not mutate
        if getattr(self, "trust_asserts", True) is None:
            return [st]
        if getattr(self, "trust_asserts", True):
            return [c for (c, b) in self.cond(e["e"], st, fr) if b]
        return [c for (c, _) in self.ev(e["e"], st, fr)]

    def var_root(self, vid, fr, name="?"):
        return mk("var", vid, fr.ctx, name)

    def var_loc(self, vid, fr, name="?"):
        l = fr.cap.get(vid)
        if l is not None:
            return l
        return loc(mk("var", vid, fr.ctx, name))

    def s_Decl(self, s, st, fr):
        cur = [st]
        for v in s["v"]:
            cur = [s3 for c in cur for s3 in self.declare(v, c, fr)]
        return [(c, "n" if not c.ghost.get("#thrown") else "t", None) for c in cur]

    def constant_init(self, v, st, fr):
        """a constant that is the same whichever call initialises it"""
        if v.get("init") is None:
            return True
        out = self.ev(v["init"], st.copy(), fr, want=v["t"])
        return len(out) == 1 and not any(x.op in ("init", "phi", "call", "retval", "app") for x in tm.subterms(out[0][1]))

    def declare(self, v, st, fr):
        root = mk("var", v["id"], fr.ctx, v["n"])
        if v.get("static"):
            # a function-local static keeps its value across calls
            root = mk("static", v["id"], v["n"])
            fr.cap = dict(fr.cap)
            fr.cap[v["id"]] = loc(root)
            if root in st.mem:
                return self.bind_decomp(v, st, fr)
            if not v.get("ref") and not (v.get("fixed") and self.constant_init(v, st, fr)):
                # what earlier calls left there
                s2 = st.copy()
                s2.mem[root] = mk("init", root, ty=vty(v["t"]))
                if self.monitor is not None and hasattr(self.monitor, "on_decl"):
                    self.monitor.on_decl(self, s2, v, root, fr)
                return self.bind_decomp(v, s2, fr)
        out = []
        init = v.get("init")
        if v.get("ref"):
            for (s2, l) in self.lv(init, st, fr):
                s2 = s2.copy()
                l = self.resolve(s2, l)
                if l.a[0] is root:
                    out.append(s2)
                    continue
                s2.mem[root] = mk("alias", l)
                out.append(s2)
        elif init is None:
            s2 = st.copy()
            s2.mem[root] = self.default_value(v["t"], root)
            out.append(s2)
        else:
            for (s2, val) in self.ev(init, st, fr, want=v["t"]):
                s2 = s2.copy()
                s2.mem[root] = self.coerce(val, v["t"])
                out.append(s2)
        res = []
        for s2 in out:
            if self.monitor is not None and hasattr(self.monitor, "on_decl"):
                self.monitor.on_decl(self, s2, v, root, fr)
            res.extend(self.bind_decomp(v, s2, fr))
        return res

    def bind_decomp(self, v, st, fr):
        bs = v.get("binds")
        if not bs:
            return [st]
        base = loc(mk("var", v["id"], fr.ctx, v["n"]))
        for k, bnd in enumerate(bs):
            f = bnd.get("f") or ("first" if k == 0 else "second")
            if not bnd.get("f") and "tuple" in v["t"]:
                f = str(k)
            sel = F(f)
            if "std::array" in v["t"] or v["t"].endswith("]"):
                sel = I(num(k))
            for vid in (bnd["id"], bnd.get("hv")):
                if vid is not None:
                    st.mem[mk("var", vid, fr.ctx, bnd["n"])] = mk("alias", ext(base, sel))
        return [st]

    def default_value(self, t, root=None):
        return self.stl.default_value(t, root)

    def coerce(self, v, t):
        """conversion of a value when stored in a variable of type t"""
        k = vty(t)
        if k in ("int", "nat", "real"):
            if v is TRUE:
                return num(1)
            if v is FALSE:
                return num(0)
            if t in ("unsigned char",) and tm.is_num(v):
                return num(int(v.a[0]) % 256)
            if t in ("unsigned long", "unsigned int") and tm.is_num(v) and v.a[0] < 0:
                return v
        return v

    def branch(self, st, t, line=None, fr=None):
        """[(state, bool)]"""
        r = self.simp(st, t)
        if r is not None:
            return [(st, r)]
        out = []
        for truth in (True, False):
            for s2 in self.assume(st, t, truth):
                s2 = s2.copy() if s2 is st else s2
                s2.dec = (st.dec, (t, truth))
                if line is not None:
                    s2.note("%s: %s is %s" % (line, tm.show(t, 5), str(truth).lower()))
                out.append((s2, truth))
        return out

    def cond(self, e, st, fr):
        k = e["k"]
        if k == "Bin" and e["op"] in ("&&", "||"):
            out = []
            for (s2, b1) in self.cond(e["x"], st, fr):
                if e["op"] == "&&" and not b1:
                    out.append((s2, False))
                elif e["op"] == "||" and b1:
                    out.append((s2, True))
                else:
                    out.extend(self.cond(e["y"], s2, fr))
            return out
        if k == "Un" and e["op"] == "!":
            return [(s2, not b1) for (s2, b1) in self.cond(e["e"], st, fr)]
        if k == "Cast" and e["ck"] in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "UserDefinedConversion"):
            pass
        out = []
        for (s2, v) in self.ev(e, st, fr):
            t = self.truth(v, e)
            out.extend(self.branch(s2, t, fr.fn.where(e.get("l")), fr))
        return out

    def truth(self, v, e=None):
        if v.op in ("true", "false", "not", "and", "or", "lt0", "le0", "eq0", "eq", "has"):
            return v
        if v.op in ("ref",):
            return TRUE
        if v.op == "null":
            return FALSE
        if tm.is_num(v):
            return tm.b(v.a[0] != 0)
        if tm.isnumeric(v):
            return tm.bnot(tm.eq0(v))
        if v.op == "some":
            return TRUE
        if v.op == "none":
            return FALSE
        if v.ty == "opt":
            return mk("engaged", v, ty="bool")
        return v

    def s_If(self, s, st, fr):
        cur = [st]
        if s.get("init"):
            cur = [s2 for (s2, _, _) in self.exec(s["init"], st, fr)]
        if s.get("var"):
            cur = [s3 for c in cur for s3 in self.declare(s["var"], c, fr)]
        out = []
        for c in cur:
            for (s2, b1) in self.cond(s["c"], c, fr):
                if b1:
                    out.extend(self.exec(s["t"], s2, fr))
                else:
                    out.extend(self.exec(s.get("f"), s2, fr))
        return out

    def s_Return(self, s, st, fr):
        e = s.get("e")
        if e is None:
            return [(st, "r", VOID)]
        if fr.fn.ret.get("ref") and not fr.fn.void:
            return [(s2, "r", mk("ref", l)) for (s2, l) in self.lv(e, st, fr)]
        if e["k"] == "Throw":
            return [(s2, "t", v) for (s2, v) in self.ev(e["e"], st, fr)]
        rt = fr.fn.ret["t"]
        return [(s2, "r" if v is not THROW else "t", self.coerce(v, rt) if v is not THROW else v)
                for (s2, v) in self.ev(e, st, fr, want=rt)]

    def s_Break(self, s, st, fr):
        return [(st, "b", None)]

    def s_Continue(self, s, st, fr):
        return [(st, "c", None)]

    def s_Try(self, s, st, fr):
        out = []
        for (s2, k, v) in self.exec(s["b"], st, fr):
            if k == "t" and s["h"]:
                for h in s["h"]:
                    out.extend(self.exec(h, s2, fr))
            else:
                out.append((s2, k, v))
        return out

    def s_Case(self, s, st, fr):
        return self.exec(s["b"], st, fr)

    s_Default = s_Case

    def s_Switch(self, s, st, fr):
        items = s["b"]["b"] if s["b"]["k"] == "Block" else [s["b"]]
        # flatten nested case labels into (labels, stmt) sequence
        seq = []
        for it in items:
            labels = []
            while it is not None and it["k"] in ("Case", "Default"):
                labels.append(it["v"] if it["k"] == "Case" else "default")
                it = it["b"]
            seq.append((labels, it))
        out = []
        for (s2, v) in self.ev(s["c"], st, fr):
            # entry points
            entries = []
            rest = [s2]
            dflt = None
            for n, (labels, _) in enumerate(seq):
                for lb in labels:
                    if lb == "default":
                        dflt = n
                        continue
                    (_, cv), = self.ev(lb, s2, fr)
                    nrest = []
                    for r in rest:
                        t = tm.veq(v, cv)
                        for (r2, b1) in self.branch(r, t, fr.fn.where(s["l"]), fr):
                            if b1:
                                entries.append((r2, n))
                            else:
                                nrest.append(r2)
                    rest = nrest
            en = self.prog.enums.get(s.get("ct"))
            if en:
                vals = {x for x in en["vals"]}
                covered = {lb["v"] for labels, _ in seq for lb in labels if lb != "default" and lb["k"] == "Enum"}
                if vals <= covered:
                    rest = []
            if dflt is not None:
                entries.extend((r, dflt) for r in rest)
            else:
                out.extend((r, "n", None) for r in rest)
            for (e0, n) in entries:
                cur = [e0]
                for (_, body) in seq[n:]:
                    nxt = []
                    for c in cur:
                        for (s3, k, x) in self.exec(body, c, fr):
                            if k == "n":
                                nxt.append(s3)
                            elif k == "b":
                                out.append((s3, "n", None))
                            else:
                                out.append((s3, k, x))
                    cur = nxt
                out.extend((c, "n", None) for c in cur)
        return out

    # ------------------------------------------------------------ loops
    def loop(self, key, st0, cond, body, inc, fr, post_test=False, unroll=None):
        """generic loop.  cond(st)->[(st,bool)], body(st)->[(st,kind,val)], inc(st)->[st]"""
        self.loops += 1
        st0 = self.fresh_phis(st0, key)
        heads = {}

        def pkey(s):
            if self.monitor is not None and hasattr(self.monitor, "pkey"):
                return self.monitor.pkey(s)
            return s.ghost.get("q")

        def once(h):
            """one iteration from head state h: (backs, exits)"""
            mine = set()
            self.alloc_log.append(mine)
            try:
                return once_(h)
            finally:
                self.alloc_log.pop()
                self.loop_allocs.setdefault(key, set()).update(mine)

        def once_(h):
            backs, exits = [], []
            hs = self.monitor.on_head(self, h, key) if hasattr(self.monitor, "on_head") else [h]
            for (s2, b1) in ([x for h in hs for x in cond(h)] if not post_test else [(h, True) for h in hs]):
                if not b1:
                    exits.append((s2, "n", None))
                    continue
                for (s3, k, v) in body(s2):
                    if k in ("n", "c"):
                        for s4 in inc(s3):
                            if post_test:
                                for (s5, b5) in cond(s4):
                                    if b5:
                                        backs.append(s5)
                                    else:
                                        exits.append((s5, "n", None))
                            else:
                                backs.append(s4)
                    elif k == "b":
                        exits.append((s3, "n", None))
                    else:
                        exits.append((s3, k, v))
            return backs, exits

        # constant-trip loops are unrolled when their condition is decided
        cur = [st0]
        exits = []
        pending = [st0]
        if unroll is None:
            unroll = getattr(self, "unroll", 12)
        n = 0
        decided = True
        if unroll:
            pend = [st0]
            ex = []
            while pend and n <= unroll:
                nx = []
                for h in pend:
                    cs = cond(h) if not post_test else [(h, True)]
                    if len(cs) != 1 and not post_test:
                        decided = False
                        break
                    if post_test:
                        decided = False
                        break
                    s2, b1 = cs[0]
                    if self.prog_unknown_cond(h, s2, b1):
                        decided = False
                        break
                    if not b1:
                        ex.append((s2, "n", None))
                        continue
                    for (s3, k, v) in body(s2):
                        if k in ("n", "c"):
                            nx.extend(inc(s3))
                        elif k == "b":
                            ex.append((s3, "n", None))
                        else:
                            ex.append((s3, k, v))
                if not decided:
                    break
                pend = self.dedupe(nx)
                n += 1
            if decided and not pend:
                return ex
        mon = self.monitor
        if mon is not None and hasattr(mon, "on_enter"):
            st0 = mon.on_enter(self, st0, key) or st0
        first = {}

        def start(pk, s):
            first[pk] = s
            heads[pk] = [self.warmstart(s, key, pk) or s, 0]
        start(pkey(st0), st0)
        cache = {}
        work = [pkey(st0)]
        guard = 0
        acc = None
        while work:
            guard += 1
            if guard > 60:
                raise TooComplex("loop at %s does not stabilise" % (key,))
            pk = work.pop(0)
            h, it = heads[pk]
            backs, exits = once(h)
            if len(backs) > 1:
                backs = self.merge_backs(h, backs, pkey)
            if acc is None:
                acc = []
                if h is st0 and not (hasattr(mon, "no_acc") and mon.no_acc(self, st0, key)):
                    acc = eig.accelerate(self, key, st0, backs, once)
            cache[pk] = (h, exits, backs)
            for bst in backs:
                bst = self.decide_bools(bst)
                if mon is not None and hasattr(mon, "on_back"):
                    bst = mon.on_back(self, bst, key, h) or bst
                bk = pkey(bst)
                if bk not in heads:
                    # a new partition: introduce loop symbols right away
                    start(bk, bst)
                    if bk not in work:
                        work.append(bk)
                    continue
                h2, it2 = heads[bk]
                if acc:
                    acc, h3, b3 = eig.mark(self, acc, h2, bst)
                    j, changed = self.join(h3, b3, key + (bk,), it2)
                    j = eig.unmark(acc, j)
                else:
                    j, changed = self.join(h2, bst, key + (bk,), it2)
                if changed:
                    heads[bk] = [j, it2 + 1]
                    if bk not in work:
                        work.append(bk)
        out = []
        us = self.univ(key, st0, cache)
        if self.warm and not acc:
            for pk in cache:
                self.hints[key + (pk,)] = (first[pk], cache[pk][0])
        for pk in cache:
            h, exits, backs = cache[pk]
            for (s2, k, v) in exits:
                new = set()
                for (r, lo, body) in us:
                    hv = h.mem[r]
                    hi = hv.a[1] if hv.op == "iter" else hv
                    if hi is not lo:
                        new.add(mk("forall", lo, hi, body))
                if new:
                    s2 = s2.copy()
                    s2.facts = s2.facts | new
                if mon is not None and hasattr(mon, "on_exit"):
                    s2 = mon.on_exit(self, s2, key, k) or s2
                out.append((s2, k, v))
        return out

    def allocated(self, root):
        """objects created while a loop runs are its own"""
        for log in self.alloc_log:
            log.add(root)

    def warmstart(self, st, key, pk):
        """a head for this loop from the result of an earlier analysis of it; only an upper bound of st is returned"""
        key = key + (pk,)
        hint = self.hints.get(key) if self.warm else None
        if hint is None:
            return None
        e, h = hint
        if set(st.ghost) != set(e.ghost):
            return None
        ren, inst = {}, {}
        own = lambda u: u is not None and any(x.op == "phi" and x.a[0] == key for x in tm.subterms(u))

        def align2(a, x):
            if a is x or not isinstance(a, T) or not isinstance(x, T):
                return
            if a.op not in ("num", "aff", "seq"):
                ren.setdefault(a, x)
            if a.op == x.op and a.op != "aff":
                pairup(align2, a, x)

        def pairup(f, a, x):
            if a.op == "rec":
                fa, fx = dict(a.a[1]), dict(x.a[1])
                for k in fa:
                    if k in fx:
                        f(fa[k], fx[k])
            elif len(a.a) == len(x.a):
                for p, q in zip(a.a, x.a):
                    f(p, q)

        def match(b, x):
            if not isinstance(b, T) or not isinstance(x, T) or b is x:
                return
            if b.op == "phi" and b.a[0] == key:
                inst.setdefault(b, x)
            elif b.op == "aff" and len(b.a[1]) == 1 and b.a[1][0][1] == 1 and tm.isnumeric(x):
                match(b.a[1][0][0], tm.sub(x, num(b.a[0])))
            elif b.op == x.op:
                pairup(match, b, x)
        get = lambda s: [(("m", r), v) for r, v in s.mem.items()] + [(("g", g), v) for g, v in s.ghost.items() if isinstance(v, T)]
        ve, vh = dict(get(e)), dict(get(h))
        cur = get(st)
        for k, v in cur:
            if k in ve:
                align2(ve[k], v)
        tr = lambda t: tm.subst(t, ren) if t is not None and ren else t
        cand = st.copy()
        todo = []
        for k, v in cur:
            a, b = ve.get(k), vh.get(k)
            if a is None or b is None or a is b:
                continue
            n = tr(b)
            match(n, v)
            todo.append((n, v))
            (cand.mem if k[0] == "m" else cand.ghost)[k[1]] = n
        mine = {(tr(u), tr(v)): w for (u, v), w in h.dbm.m.items() if own(u) or own(v)}
        at = lambda t: tm.subst(t, inst) if t is not None and inst else t
        for n, v in todo:
            x = at(n)
            if x is not v and (own(x) or not self.same(st, x, v)):
                return None
        unary = {(tr(u), tr(v)): w for (u, v), w in h.dbm.m.items() if u is None or v is None}
        for (u, v), w in list(mine.items()):
            x = tm.sub(at(u) if u is not None else num(0), at(v) if v is not None else num(0))
            k = self.ubd(st.dbm, x)
            if k is None or not tm.leq(k, w):
                p, q = unary.get((u, None)), unary.get((None, v)) or tm.implicit(None, v)
                if u is not None and v is not None and p is not None and q is not None and p[0] + q[0] <= w[0]:
                    del mine[(u, v)]    # only a consequence of bounds that hold for the earlier entry state
                elif k is not None:
                    mine[(u, v)] = k
                else:
                    return None
        cand.dbm = tm.DBM({**cand.dbm.m, **mine})
        cand.facts = cand.facts | {f for f in map(tr, h.facts) if own(f) and self.simp(st, at(f)) is True}
        mon = self.monitor
        if mon is not None and hasattr(mon, "pkey") and mon.pkey(cand) != mon.pkey(st):
            return None
        return cand

    def merge_backs(self, h, backs, pkey):
        """states that a decision within the iteration separates, and that differ only in computed elements, become one"""
        def decs(s):
            out = []
            d = s.dec
            while d is not None and d is not h.dec:
                out.append(d[1])
                d = d[0]
            return list(reversed(out))
        cur = [(decs(s), s) for s in backs]
        done = False
        while not done:
            done = True
            for i in range(len(cur)):
                for j in range(i):
                    (d1, a), (d2, b) = cur[j], cur[i]
                    if not d1 or len(d1) != len(d2) or d1[:-1] != d2[:-1] or d1[-1][0] is not d2[-1][0] or d1[-1][1] == d2[-1][1] or pkey(a) != pkey(b):
                        continue
                    m = merge_states(d1[-1][0], a if d1[-1][1] else b, b if d1[-1][1] else a)
                    if m is not None:
                        cur[j] = (d1[:-1], m)
                        del cur[i]
                        done = False
                        break
                if not done:
                    break
        return [s for (_, s) in cur]

    def fresh_phis(self, st, key, held=None):
        """symbols left by an earlier run of the same loop must not be confused with the ones of this run;
        held: values the caller keeps besides those in the state, renewed in the list returned with the state"""
        n = len(key)
        old = set()
        for v in list(held or []) + list(st.mem.values()) + [g for g in st.ghost.values() if isinstance(g, T)] + list(st.facts) + [u for u in st.dbm.nodes() if u is not None]:
            for x in tm.subterms(v):
                if x.op == "phi" and x.a[0][:n] == key:
                    old.add(x)
        if not old:
            return st if held is None else (st, held)
        ren = {x: mk("phi", ("old",) + x.a[0], x.a[1], ty=x.ty) for x in old}
        st = st.copy()
        st.mem = {tm.subst(r, ren): tm.subst(v, ren) for r, v in st.mem.items()}
        st.ghost = {g: tm.subst(v, ren) if isinstance(v, T) else v for g, v in st.ghost.items()}
        st.facts = frozenset(tm.subst(f, ren) for f in st.facts)
        f = lambda u: tm.subst(u, ren) if u is not None else None
        st.dbm = tm.DBM({(f(u), f(v)): w for (u, v), w in st.dbm.m.items()})
        return st if held is None else (st, [tm.subst(v, ren) for v in held])

    def decide_bools(self, st):
        """replace boolean values whose truth is known by the constants"""
        ch = {}
        for r, v in st.mem.items():
            if v.op not in ("true", "false", "alias") and self.isbool(v):
                k = self.simp(st, v)
                if k is not None:
                    ch[r] = TRUE if k else FALSE
        if not ch:
            return st
        st = st.copy()
        st.mem.update(ch)
        return st

    def prog_unknown_cond(self, h, s2, b1):
        return False

    def univ(self, key, st0, cache):
        """facts every completed iteration establishes for its own index, as a statement about all earlier indices.
        Returns [(root, lo, body over the hole)]"""
        def index(v):
            if v is not None and v.op == "iter":
                v = v.a[1]
            return v if v is not None and tm.isnumeric(v) else None
        pairs = [(h, b) for (h, exits, backs) in cache.values() for b in backs]
        if not pairs:
            return []
        out = []
        for r, v0 in st0.mem.items():
            lo = index(v0)
            if lo is None or not tm.is_int(lo):
                continue
            ok = all(index(h.mem.get(r)) is not None and index(b.mem.get(r)) is tm.add(index(h.mem[r]), num(1)) for (h, b) in pairs)
            if not ok:
                continue
            inner = any(f.op == "forall" and f not in h.facts for (h, b) in pairs for f in b.facts)
            K = mk("sym", "%k2" if inner else "%k", ty="nat")
            deep = mk("sym", "%k2", ty="nat")
            dis, consts = [], []
            for (h, b) in pairs:
                iv = index(h.mem[r])
                if iv.op != "phi":
                    consts.append((iv, b))
                    continue
                lits = set()
                fixed = self.symbols(h)
                for f in b.facts:
                    if f in h.facts:
                        continue
                    sub = list(tm.subterms(f))
                    if any(x.op == "phi" and x is not iv and x.a[0][:len(key)] == key and x in fixed for x in sub) or \
                            any(x is K or x is deep for x in sub):
                        continue
                    # what loops inside the iteration have come to is different for every iteration
                    own = {x: mk("at", x, K, ty=x.ty) for x in sub if x.op == "phi" and x is not iv and x not in fixed}
                    if own and f.op == "forall" and any(x in own for x in tm.subterms(f.a[2])):
                        continue
                    own[iv] = K
                    lits.add(tm.subst(f, own))
                lits = frozenset(lits)
                if not any(d <= lits for d in dis):
                    dis = [d for d in dis if not lits <= d] + [lits]
            if not dis or len(dis) > 12 or not all(dis) or not any(x is K for d in dis for f in d for x in tm.subterms(f)):
                continue
            body = tm.bor(*[tm.band(*sorted(d, key=lambda t: t.h)) for d in sorted(dis, key=lambda d: sorted(t.h for t in d))])
            if all(self.holds(b, tm.subst(body, {K: c})) for (c, b) in consts):
                out.append((r, lo, body))
        return out

    def holds(self, st, c):
        return self.simp(st, c) is True or not self.assume(st, c, False)

    def symbols(self, st):
        """loop symbols of a state"""
        seen = {x for v in list(st.mem.values()) + [g for g in st.ghost.values() if isinstance(g, T)] + list(st.facts) for x in tm.subterms(v) if x.op == "phi"}
        for (u, v) in st.dbm.m:
            for w in (u, v):
                if w is not None:
                    seen |= {x for x in tm.subterms(w) if x.op == "phi"}
        return seen

    def foralls(self, st):
        return [f for f in st.facts if f.op == "forall"]

    def inst(self, st, k, ty=None):
        """states with every universally quantified fact instantiated at index k"""
        shallow, deep = mk("sym", "%k", ty="nat"), mk("sym", "%k2", ty="nat")
        cur = [st]
        for f in self.foralls(st):
            lo, hi, body = f.a
            K = deep if any(x is deep for x in tm.subterms(body)) else shallow
            nx = []
            for s in cur:
                if self.simp(s, tm.band(tm.le(lo, k), tm.lt(k, hi))) is True:
                    nx.extend(self.assume(s, tm.subst(body, {K: k})))
                else:
                    nx.append(s)
            cur = nx
        return cur

    def loop_phis(self, st, key):
        seen = set()
        for v in list(st.mem.values()) + [g for g in st.ghost.values() if isinstance(g, T)]:
            for x in tm.subterms(v):
                if x.op == "phi" and x.a[0] == key:
                    seen.add(x)
        return sorted(seen, key=lambda t: str(t.a[1]))

    def join(self, H, B, key, it):
        """least-ish upper bound of head H and back-edge state B; returns (state, changed)"""
        phis_H = self.loop_phis(H, key)
        ren = {p: mk("phi", key, "%s'" % p.a[1], ty=p.ty) for p in phis_H}
        classes = {}
        raw = {}
        used = set()

        def sb(v):
            return tm.subst(v, ren) if ren else v

        def pname(path):
            n = path
            while n in used:
                n = n + "+"
            return n

        def bound(path, h, b, depth):
            return J(path, h, b, depth + 1)

        def own(t):
            """depends on the state of this loop"""
            new = self.loop_allocs.get(key[:-1], ())
            return any(x.op == "phi" and x.a[0] == key or x.op == "unk" or x.op == "heap" and x in new for x in tm.subterms(t))

        def seqjoin(path, h, b, depth):
            """element-wise filled sequences: untouched parts and parts already computed, split at one moving index"""
            if not isseq(h) or not isseq(b):
                return None
            hp, bp = segs(h), segs(b)
            # same layout, moving bounds
            if len(hp) == len(bp) and any(p.op == "tab" or p.op == "fill" for p in hp) and \
                    all(p.op == q.op and (p is q or p.op in ("sub", "fill") and p.a[0] is q.a[0] or p.op == "tab" and p.a[1] is q.a[1])
                        for p, q in zip(hp, bp)):
                out = []
                nm = lambda x, d: x.a[1] if x.op == "phi" and x.a[0] == key else path + d
                mv = {}
                for n, (p, q) in enumerate(zip(hp, bp)):
                    if p.op == "tab" and p is not q:
                        mv[n] = (bound(nm(p.a[2], ".lo"), p.a[2], q.a[2], depth), bound(nm(p.a[3], ".hi"), p.a[3], q.a[3], depth))
                for n, (p, q) in enumerate(zip(hp, bp)):
                    if p is q:
                        out.append(p)
                    elif p.op == "tab":
                        out.append(mk("tab", p.a[0], p.a[1], *mv[n]))
                    elif p.op == "sub":
                        out.append(mk("sub", p.a[0], bound(path + ".lo", p.a[1], q.a[1], depth), bound(path + ".hi", p.a[2], q.a[2], depth)))
                    elif n - 1 in mv and tm.add(p.a[1], hp[n - 1].a[3]) is tm.add(q.a[1], bp[n - 1].a[3]):
                        out.append(mk("fill", p.a[0], tm.sub(tm.add(p.a[1], hp[n - 1].a[3]), mv[n - 1][1])))
                    elif n + 1 in mv and tm.sub(p.a[1], hp[n + 1].a[2]) is tm.sub(q.a[1], bp[n + 1].a[2]):
                        out.append(mk("fill", p.a[0], tm.add(tm.sub(p.a[1], hp[n + 1].a[2]), mv[n + 1][0])))
                    else:
                        out.append(mk("fill", p.a[0], bound(path + ".n", p.a[1], q.a[1], depth)))
                return mkseq(out)
            if it > 1 or getattr(self, "notab", False):
                return None
            al = align(hp, bp) or ([], hp, bp, [])
            pre, ph, pb, post = al
            # the first element did not tell its index from a constant: the second one does
            if it == 1 and pre and pre[-1].op == "tab" and pre[-1].a[3].op == "phi" and pb and pb[0].op == "one" and (len(pb) == 1 or pb[0].a[0] is not None and len(ph) == 1):
                hl, body, lo, m = pre[-1].a
                v = tm.subst(pb[0].a[0], {m: hl})
                if v is not body and tm.subst(v, {hl: lo}) is tm.subst(body, {hl: lo}) and not own(v) and J(path + ".at" if ph else path + ".hi", m, tm.add(m, num(1)), depth + 1) is m:
                    return mkseq(pre[:-1] + [mk("tab", hl, v, lo, m)] + ph + post)
            # growth by one computed element
            if not ph and len(pb) == 1 and pb[0].op == "one" and not post:
                g = generalise(pb[0].a[0], None, self.loop_conts.get(key[:-1], ()), moving)
                if g is not None and not own(g[1]):
                    hl, body, a = g
                    return mkseq(pre + [mk("tab", hl, body, a, J(path + ".hi", a, tm.add(a, num(1)), depth + 1))] + post)
                if g is None and not own(pb[0].a[0]) and tm.isnumeric(pb[0].a[0]) is False:
                    return None
            # one element of an untouched part replaced, from the front or from the back
            if len(ph) == 1 and len(pb) == 2 and ph[0].op in ("sub", "fill", "tab"):
                for (one, rest, front) in ((pb[0], pb[1], True), (pb[1], pb[0], False)):
                    if one.op != "one" and unit(one) is None:
                        continue
                    v = unit(one)
                    p = ph[0]
                    n = size(mkseq([p]))
                    if p.op == "fill":
                        g = generalise(v, None, self.loop_conts.get(key[:-1], ()), moving)
                        base = g[2] if g else num(0)
                        if not front:
                            base = tm.sub(base, tm.sub(n, num(1)))
                        seg = lambda lo, hi: mk("fill", p.a[0], tm.sub(hi, lo))
                        if not (rest.op in ("fill", "one") and rest.a[0] is p.a[0]):
                            continue
                    elif p.op == "sub":
                        if not (rest.op == "sub" and rest.a[0] is p.a[0]):
                            continue
                        base = p.a[1]
                        at = base if front else tm.sub(p.a[2], num(1))
                        g = generalise(v, at, {p.a[0]} | set(self.loop_conts.get(key[:-1], ())))
                        seg = lambda lo, hi: mk("sub", p.a[0], lo, hi)
                    else:
                        continue
                    hl, body, a = g if g else (mk("hole", 1, ty="nat"), v, base if front else tm.add(base, tm.sub(n, num(1))))
                    if own(body):
                        continue
                    end = tm.add(base, n)
                    tb = lambda lo, hi: [z for z in [mktab(hl, body, lo, hi)] if z is not None]
                    if front:
                        m = J(path + ".at", a, tm.add(a, num(1)), depth + 1)
                        return mkseq(pre + tb(base, m) + [seg(m, end)] + post)
                    m = J(path + ".at", end, tm.sub(end, num(1)), depth + 1)
                    return mkseq(pre + [seg(base, m)] + tb(m, end) + post)
            return None

        def J(path, h, b, depth=0):
            b0 = b
            if h is b and not (ren and any(x in ren for x in tm.subterms(h))):
                return h
            if depth < 6:
                if h.op == "rec" and b.op == "rec" and h.a[0] == b.a[0]:
                    fh, fb = dict(h.a[1]), dict(b.a[1])
                    if set(fh) == set(fb):
                        return tm.rec(h.a[0], {k: J(path + "." + k, fh[k], fb[k], depth + 1) for k in fh})
                if h.op == "updf" or b.op == "updf":
                    uh, ub_ = {}, {}
                    xh, xb = h, b
                    while xh.op == "updf":
                        uh.setdefault(xh.a[1], xh.a[2]); xh = xh.a[0]
                    while xb.op == "updf":
                        ub_.setdefault(xb.a[1], xb.a[2]); xb = xb.a[0]
                    if xh is xb and xh.op != "rec":
                        r = xh
                        for f in sorted(set(uh) | set(ub_)):
                            tyf = (uh.get(f) or ub_.get(f)).ty
                            vh = uh.get(f) or tm.getf(xh, f, self.guess_ty(uh.get(f) or ub_.get(f)))
                            vb = ub_.get(f) or tm.getf(xb, f, self.guess_ty(uh.get(f) or ub_.get(f)))
                            r = tm.setf(r, f, J(path + "." + f, vh, vb, depth + 1))
                        return r
                if h.op == "iter" and b.op == "iter" and h.a[0] is b.a[0]:
                    return mk("iter", h.a[0], J(path + ".pos", h.a[1], b.a[1], depth + 1), *(h.a[2:] if h.a[2:] == b.a[2:] else ()))
                # sequences that are growing subranges of one container
                sh, sb_ = subform(h, b), subform(b, h)
                if sh and sb_ and sh[0] is sb_[0]:
                    return mkseq([mk("sub", sh[0], J(path + ".lo", sh[1], sb_[1], depth + 1),
                                     J(path + ".hi", sh[2], sb_[2], depth + 1))])
                r = seqjoin(path, h, b, depth)
                if r is not None:
                    return r
                if h.op == "seq" and b.op == "seq":
                    al = align(list(h.a), list(b.a))
                    if al is not None:
                        pre, ph, pb, post = al
                        sh, sb_ = subform(mkseq(ph), mkseq(pb)), subform(mkseq(pb), mkseq(ph))
                        if sh and sb_ and sh[0] is sb_[0] and (ph or it == 0) and \
                                not any(q.op == "sub" and q.a[0] is sh[0] for q in pre + post):
                            return mkseq(pre + [mk("sub", sh[0], J(path + ".lo", sh[1], sb_[1], depth + 1),
                                                   J(path + ".hi", sh[2], sb_[2], depth + 1))] + post)
            b = sb(b)
            if (eig.ismat(h) or eig.ismat(b)) and not path.endswith("'m"):
                # matrices of one size: the entries are unknown, the size is not
                n, w = eig.rows(h), eig.cols(h)
                if n is eig.rows(b) and w is eig.cols(b) and not own(n) and not own(w):
                    p = J(path + "'m", h, b, 9)
                    return tm.lam(n, w, lambda i, j: eig.cell(p, i, j))
            ck = (h, b)
            if ck in classes:
                return classes[ck][0]
            ty = None
            if tm.isnumeric(h) and tm.isnumeric(b):
                # a constant offset from a value already generalised
                for (p, h2, b2) in list(classes.values()):
                    if p.ty and tm.isnumeric(h2):
                        dlt = tm.sub(h, h2)
                        if dlt is tm.sub(b, b2) and (tm.is_num(dlt) or len(tm.lin(dlt)[1]) == 1 and not own(dlt)):
                            return tm.add(p, dlt)
                ty = "real" if (not tm.is_int(h) or not tm.is_int(b)) else "int"
            n = path
            p = mk("phi", key, n, ty=ty)
            if p in used:
                n = n + "+%d" % len(used)
                p = mk("phi", key, n, ty=ty)
            used.add(p)
            classes[ck] = (p, h, b)
            raw[p] = b0
            return p

        moving = set()
        for root, h in H.mem.items():
            b = B.mem.get(root)
            if b is not None and b is not h:
                if h.op == "iter" and b.op == "iter":
                    h, b = h.a[1], b.a[1]
                if tm.isnumeric(h) and tm.isnumeric(b) and tm.sub(b, h) is num(1):
                    moving.add(h)
        new = H.copy()
        for root in list(H.mem):
            h = H.mem[root]
            b = B.mem.get(root)
            if b is None:
                b = self.init_val(root, h.ty)
            new.mem[root] = J(rootname(root), h, b)
        for root in B.mem:
            if root not in H.mem and root.op != "var":
                h = self.init_val(root, B.mem[root].ty)
                if any(x.op == "phi" and x.a[0] == key for x in tm.subterms(root)):
                    continue
                new.mem[root] = J(rootname(root), h, B.mem[root])
        for g in sorted(set(H.ghost) | set(B.ghost)):
            h, b = H.ghost.get(g), B.ghost.get(g)
            if isinstance(h, T) and isinstance(b, T):
                new.ghost[g] = J("ghost:" + g, h, b)
            elif h == b:
                new.ghost[g] = h
            elif isinstance(h, frozenset) and isinstance(b, frozenset):
                new.ghost[g] = h | b if g.startswith("may:") else h & b
            elif h is None or b is None:
                new.ghost[g] = None if not isinstance(h, frozenset) and not isinstance(b, frozenset) else (h or b if g.startswith("may:") else frozenset())
            else:
                new.ghost[g] = None
        # numeric relations
        Bd = B.dbm
        if ren:
            Bd = tm.DBM({((tm.subst(u, ren) if u is not None else None), (tm.subst(v, ren) if v is not None else None)): w
                         for (u, v), w in B.dbm.m.items()})
        nums = []
        for (p, h, b) in classes.values():
            if p.ty:
                nums.append((p, h, b))
            else:
                sh, sbb = size(h), size(b)
                if sh is not mk("size", h, ty="nat") or sbb is not mk("size", b, ty="nat"):
                    nums.append((mk("size", p, ty="nat"), sh, sbb))
        outer = set()
        for n_ in list(H.dbm.nodes()) + list(Bd.nodes()):
            if n_ is not None and not any(x.op == "phi" and x.a[0] == key for x in tm.subterms(n_)):
                outer.add(n_)
        for (p, h, b) in nums:
            for x in (h, b):
                for t in tm.lin(x)[1]:
                    if not any(y.op == "phi" and y.a[0] == key for y in tm.subterms(t)):
                        outer.add(t)
        d = {}
        had = set(phis_H)

        def fresh(u):
            """a quantity that did not exist at the head before"""
            return u is not None and any(x.op == "phi" and x.a[0] == key and x not in had for x in tm.subterms(u))

        def put(u, v, b1, b2):
            w = b2 if tm.leq(b1, b2) else b1
            if it >= 2 and not (fresh(u) or fresh(v)):
                o = H.dbm.get(u, v)
                if o is None or not tm.leq(w, o):
                    return
                w = o
            d[(u, v)] = w
        for (u, v), b1 in H.dbm.m.items():
            if (u is None or u in outer) and (v is None or v in outer):
                b2 = self.ubd(Bd, tm.sub(u if u is not None else num(0), v if v is not None else num(0)))
                if b2 is not None:
                    put(u, v, b1, b2)

        def diff(x, y):
            dd = dict(x[1])
            for k, w in y[1].items():
                n_ = dd.get(k, 0) - w
                if n_:
                    dd[k] = n_
                else:
                    dd.pop(k, None)
            return x[0] - y[0], dd
        L = lambda x: tm.lin(x) if x is not None else (0, {})
        lo = [(n_, L(n_), L(n_)) for n_ in outer] + [(None, (0, {}), (0, {}))]
        ln = [(p, L(h), L(b)) for (p, h, b) in nums]
        for n_, (u, hu, bu) in enumerate(ln):
            for (v, hv, bv) in ln[:n_] + ln[n_ + 1:] + lo:
                if u is v:
                    continue
                b1 = self.ubl(H.dbm, *diff(hu, hv))
                if b1 is not None:
                    b2 = self.ubl(Bd, *diff(bu, bv))
                    if b2 is not None:
                        put(u, v, b1, b2)
            for (v, hv, bv) in lo:
                if u is v:
                    continue
                b1 = self.ubl(H.dbm, *diff(hv, hu))
                if b1 is not None:
                    b2 = self.ubl(Bd, *diff(bv, bu))
                    if b2 is not None:
                        put(v, u, b1, b2)
        new.dbm = tm.DBM(d)
        # facts
        gen = {b: p for (p, h, b) in classes.values() if b.a and not tm.is_num(b) and b.op not in ("seq", "str", "enum", "true", "false")}
        back = {p: h for (p, h, b) in classes.values()}
        fs = set()
        for f in B.facts:
            f2 = tm.subst(f, ren) if ren else f
            if f2 in H.facts and not any(x.op == "phi" and x.a[0] == key for x in tm.subterms(f2)):
                fs.add(f2)
                continue
            g = tm.subst(f2, gen)
            if any(x.op == "phi" and x.a[0] == key and str(x.a[1]).endswith("'") for x in tm.subterms(g)):
                continue
            hh = tm.subst(g, back)
            if self.simp(H, hh) is True or g in H.facts:
                fs.add(g)
        # the size of a sequence, when it is a compound expression the relations above cannot carry
        for (p, h, b) in classes.values():
            if p.ty:
                continue
            sp = mk("size", p, ty="nat")
            cand = [f for f in H.facts if f.op == "eq0" and sp in tm.lin(f.a[0])[1]] if h is p else [tm.numeq(sp, size(h))]
            for f in cand:
                g = tm.subst(f, {p: h})
                if f.op == "eq0" and len(tm.lin(f.a[0])[1]) > 2 and not any(x.op == "phi" and x.a[0] == key and x is not p for x in tm.subterms(f)) and \
                        self.simp(H, g) is True and self.simp(B, tm.subst(f, {p: raw[p]})) is True:
                    fs.add(f)
        if it >= 2:
            fs &= H.facts
        new.facts = frozenset(fs)
        changed = not (new.mem == H.mem and new.ghost == H.ghost and new.facts == H.facts and same_dbm(new.dbm, H.dbm))
        return new, changed

    def guess_ty(self, v):
        return v.ty if v.op != "aff" else ("int" if tm.is_int(v) else "real")

    def s_While(self, s, st, fr):
        key = ("L", s["l"][0], s["l"][1], fr.ctx)

        def cond(x):
            if s.get("var"):
                return [y for z in self.declare(s["var"], x, fr) for y in self.cond(s["c"], z, fr)]
            return self.cond(s["c"], x, fr)
        return self.loop(key, st, cond, lambda x: self.exec(s["b"], x, fr), lambda x: [x], fr)

    def s_Do(self, s, st, fr):
        key = ("L", s["l"][0], s["l"][1], fr.ctx)
        return self.loop(key, st, lambda x: self.cond(s["c"], x, fr), lambda x: self.exec(s["b"], x, fr), lambda x: [x],
                         fr, post_test=True)

    def s_For(self, s, st, fr):
        key = ("L", s["l"][0], s["l"][1], fr.ctx)
        out = []
        for (s1, k1, v1) in self.exec(s.get("i"), st, fr):
            if k1 != "n":
                out.append((s1, k1, v1))
                continue
            out.extend(self.loop(
                key, s1,
                (lambda x: self.cond(s["c"], x, fr)) if s.get("c") else (lambda x: [(x, True)]),
                lambda x: self.exec(s["b"], x, fr),
                (lambda x: [y for (y, _) in self.ev(s["n"], x, fr)]) if s.get("n") else (lambda x: [x]), fr))
        return out

    def s_RFor(self, s, st, fr):
        out = []
        pre = [st]
        if s.get("i"):
            pre = [x for (x, _, _) in self.exec(s["i"], st, fr)]
        for p in pre:
            for (s1, cl) in self.lv(s["r"], p, fr):
                out.extend(self.foreach(s, s1, fr, cl, s["rt"],
                                        lambda x, el: self.bind_loopvar(s["v"], x, fr, el),
                                        lambda x: self.exec(s["b"], x, fr)))
        return out

    def foreach(self, s, st, fr, cl, ct, bind, body, lo=None, hi=None, tag=""):
        """iterate an index over the container at location cl"""
        key = ("R", s["l"][0], s["l"][1], tag, fr.ctx)
        st, held = self.fresh_phis(st, key, [cl] + [x for x in (lo, hi) if x is not None])
        cl = held.pop(0)
        lo = held.pop(0) if lo is not None else None
        hi = held.pop(0) if hi is not None else None
        iv = loc(mk("var", "#i%d:%d%s" % (s["l"][0], s["l"][1], tag), fr.ctx, "#i%d" % s["l"][0]))
        st = st.copy()
        st.mem[iv.a[0]] = lo if lo is not None else num(0)
        kind = self.stl.kind(ct)
        self.loop_conts[key] = {self.read(st, cl)}

        def cond(x):
            i = self.read(x, iv)
            c = self.read(x, cl)
            n = hi if hi is not None else size(c)
            return self.branch(x, tm.lt(i, n))

        def bd(x):
            i = self.read(x, iv)
            el = self.stl.elem_loc(x, cl, kind, i)
            out = []
            for y in bind(x, el):
                out.extend(body(y))
            return out

        def inc(x):
            x = x.copy()
            x.mem[iv.a[0]] = tm.add(x.mem[iv.a[0]], num(1))
            return [x]
        return self.loop(key, st, cond, bd, inc, fr)

    def bind_loopvar(self, v, st, fr, el):
        root = mk("var", v["id"], fr.ctx, v["n"])
        st = st.copy()
        if v.get("ref"):
            st.mem[root] = mk("alias", self.resolve(st, el))
        else:
            st.mem[root] = self.read(st, el, vty(v["t"]))
        if self.monitor is not None and hasattr(self.monitor, "on_iter"):
            self.monitor.on_iter(self, st, v, root, el, fr)
        return self.bind_decomp(v, st, fr)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr, want=None):
        """rvalue: list of (state, value)"""
        if e is None:
            return [(st, VOID)]
        self.nstates += 1
        if self.nstates > self.maxwork:
            raise TooComplex("analysis budget exceeded")
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return [(st, mk("unk", e["k"], e.get("c"), tuple(e["l"]), fr.ctx, ty=vty(e.get("t"))))]
        return m(e, st, fr)

    def evs(self, es, st, fr):
        outs = [(st, ())]
        for e in es:
            outs = [(s2, vs + (v,)) for (s1, vs) in outs for (s2, v) in self.ev(e, s1, fr)]
        return outs

    def e_Int(self, e, st, fr):
        return [(st, num(int(e["v"])))]

    def e_Float(self, e, st, fr):
        return [(st, num(Fraction(e["v"])))]

    def e_Bool(self, e, st, fr):
        return [(st, TRUE if e["v"] else FALSE)]

    def e_Char(self, e, st, fr):
        return [(st, num(e["v"]))]

    def e_Str(self, e, st, fr):
        return [(st, mk("str", e["v"]))]

    def e_Null(self, e, st, fr):
        return [(st, NULL)]

    def e_ZeroInit(self, e, st, fr):
        k = vty(e["t"])
        if k == "bool":
            return [(st, FALSE)]
        if k:
            return [(st, num(0))]
        if e["t"].endswith("*"):
            return [(st, NULL)]
        return [(st, self.default_value(e["t"]))]

    def e_Enum(self, e, st, fr):
        return [(st, mk("enum", e["v"]))]

    def e_This(self, e, st, fr):
        return [(st, mk("ref", fr.this))]

    def e_FnRef(self, e, st, fr):
        return [(st, mk("fn", e["fid"], e["fn"]))]

    def e_Lambda(self, e, st, fr):
        caps = []
        for c in e["caps"]:
            if c.get("this"):
                caps.append(("this", mk("ref", fr.this)))
            elif c.get("init"):
                (s2, v), = self.ev(c["init"], st, fr)[:1]
                caps.append((c["id"], "val", v, c["n"]))
            elif c.get("ref"):
                caps.append((c["id"], "ref", self.resolve(st, self.var_loc(c["id"], fr, c["n"]))))
            else:
                l = self.var_loc(c["id"], fr, c["n"])
                caps.append((c["id"], "val", self.read(st, l), c["n"]))
        # non-captured outer references (globals, constants) need nothing
        thisl = fr.this
        return [(st, mk("lam", tuple(e["fids"]), e["cls"], tuple(mk("cap", *c) for c in caps),
                        thisl if thisl is not None else VOID))]

    def e_Var(self, e, st, fr):
        if e.get("kind") == "global":
            if e["id"] in fr.cap:
                return [(st, self.read(st, fr.cap[e["id"]], vty(e["t"])))]
            if "cv" in e:
                return [(st, num(e["cv"]))]
            if e.get("q", "").endswith("::npos"):
                return [(st, mk("sym", "npos", ty="nat"))]
            return [(st, self.read(st, loc(mk("global", e.get("q", e["n"]))), vty(e["t"])))]
        if e.get("kind") == "static" and e["id"] not in fr.cap:
            return [(st, self.read(st, loc(mk("static", e["id"], e["n"])), vty(e["t"])))]
        l = self.var_loc(e["id"], fr, e["n"])
        return [(st, self.read(st, l, vty(e["t"])))]

    def e_Member(self, e, st, fr):
        out = []
        for (s2, l) in self.lv(e, st, fr):
            out.append((s2, self.read(s2, l, vty(e["t"]))))
        return out

    def e_Index(self, e, st, fr):
        return [(s2, self.read(s2, l, vty(e["t"]))) for (s2, l) in self.lv(e, st, fr)]

    def e_Cond(self, e, st, fr):
        out = []
        for (s2, b1) in self.cond(e["c"], st, fr):
            out.extend(self.ev(e["x"] if b1 else e["y"], s2, fr))
        return out

    def e_Assert(self, e, st, fr):
        return [(c, VOID) for c in self.do_assert(e, st, fr)]

    def e_Throw(self, e, st, fr):
        return [(s2, THROW) for (s2, v) in (self.ev(e["e"], st, fr) if e.get("e") else [(st, None)])]

    def e_Cast(self, e, st, fr):
        out = []
        ck = e["ck"]
        for (s2, v) in self.ev(e["e"], st, fr):
            if v is THROW:
                out.append((s2, v))
                continue
            if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast"):
                if v.op in ("true", "false") or self.isbool(v):
                    v = self.b2i(s2, v)
                if ck == "IntegralCast":
                    if tm.is_num(v) and e["t"] == "unsigned char":
                        v = num(int(v.a[0]) % 256)
                elif ck == "IntegralToFloating" and not tm.is_num(v):
                    pass
                out.append((s2, v))
            elif ck == "FloatingToIntegral":
                if tm.is_num(v):
                    import math
                    out.append((s2, num(math.trunc(v.a[0]))))
                elif tm.is_int(v):
                    out.append((s2, v))
                else:
                    out.append((s2, mk("trunc", v, ty="int")))
            elif ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
                out.append((s2, self.truth_cast(v)))
            elif ck == "NullToPointer":
                out.append((s2, NULL))
            else:
                out.append((s2, v))
        return out

    def truth_cast(self, v):
        if self.isbool(v):
            return v
        if v is NULL:
            return FALSE
        if v.op == "ref":
            return TRUE
        if v.ty == "opt":
            return mk("engaged", v, ty="bool")
        if tm.isnumeric(v):
            return tm.bnot(tm.eq0(v))
        return tm.bnot(tm.eq(v, NULL))

    def isbool(self, v):
        return v.op in ("true", "false", "not", "and", "or", "lt0", "le0", "eq0", "eq", "has", "ex") or v.ty == "bool"

    def b2i(self, st, v):
        r = self.simp(st, v)
        if r is not None:
            return num(1 if r else 0)
        return mk("b2i", v, ty="nat")

    def e_Un(self, e, st, fr):
        op = e["op"]
        if op == "!":
            return [(s2, FALSE if b1 else TRUE) for (s2, b1) in self.cond(e["e"], st, fr)] if self.effectful(e["e"]) else \
                [(s2, tm.bnot(self.truth(v))) for (s2, v) in self.ev(e["e"], st, fr)]
        if op == "&":
            return [(s2, mk("ref", self.resolve(s2, l))) for (s2, l) in self.lv(e["e"], st, fr)]
        if op == "*":
            return [(s2, self.read(s2, l, vty(e["t"]))) for (s2, l) in self.lv(e, st, fr)]
        if op in ("++", "--"):
            out = []
            for (s2, l) in self.lv(e["e"], st, fr):
                s2 = s2.copy()
                old = self.read(s2, l, vty(e["t"]))
                if old.op == "iter":
                    new = mk("iter", old.a[0], tm.add(old.a[1], num(1 if op == "++" else -1)))
                else:
                    new = self.coerce(tm.add(old, num(1 if op == "++" else -1)), e["t"])
                self.write(s2, l, new)
                out.append((s2, old if e.get("post") else new))
            return out
        out = []
        for (s2, v) in self.ev(e["e"], st, fr):
            if op == "-":
                out.append((s2, tm.neg(v)))
            elif op == "+":
                out.append((s2, v))
            else:
                out.append((s2, mk("un", op, v, ty=vty(e["t"]))))
        return out

    def effectful(self, e):
        return e["k"] == "Bin" and e["op"] in ("&&", "||")

    def e_Bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            out = []
            for (s2, b1) in self.cond(e["x"], st, fr):
                if op == "&&" and not b1:
                    out.append((s2, FALSE))
                elif op == "||" and b1:
                    out.append((s2, TRUE))
                else:
                    out.extend((s3, self.truth(v)) for (s3, v) in self.ev(e["y"], s2, fr))
            return out
        if op == ",":
            out = []
            for (s2, _) in self.ev(e["x"], st, fr):
                out.extend(self.ev(e["y"], s2, fr))
            return out
        out = []
        for (s1, x) in self.ev(e["x"], st, fr):
            for (s2, y) in self.ev(e["y"], s1, fr):
                if x is THROW or y is THROW:
                    out.append((s2, THROW))
                    continue
                out.append((s2, self.binop(s2, op, x, y, e)))
        return out

    def binop(self, st, op, x, y, e):
        t = e.get("xt") or e.get("t")
        if op in ("==", "!="):
            r = self.equal(st, x, y)
            return r if op == "==" else tm.bnot(r)
        if op in ("<", "<=", ">", ">="):
            if self.isbool(x):
                x = self.b2i(st, x)
            if self.isbool(y):
                y = self.b2i(st, y)
            if x.op == "iter" and y.op == "iter":
                x, y = x.a[1], y.a[1]
            if op == "<":
                return tm.lt(x, y)
            if op == "<=":
                return tm.le(x, y)
            if op == ">":
                return tm.lt(y, x)
            return tm.le(y, x)
        if op in ("+", "-", "*") and not e.get("t", "").endswith("*"):
            if self.isbool(x):
                x = self.b2i(st, x)
            if self.isbool(y):
                y = self.b2i(st, y)
            if op == "+":
                return tm.add(x, y)
            if op == "-":
                return tm.sub(x, y)
            return tm.mul(x, y)
        if op == "/" and tm.is_num(y) and y.a[0] != 0 and vty(e["t"]) == "real":
            return tm.mul(num(1 / y.a[0]), x)
        if op == "/" and tm.is_num(y) and tm.is_num(x) and y.a[0] != 0:
            import math
            return num(math.trunc(x.a[0] / y.a[0]))
        if op == "%" and tm.is_num(y) and tm.is_num(x) and y.a[0] != 0:
            return num(int(x.a[0]) % int(y.a[0]))
        ub = [z.a[0] if z.op == "b2i" else TRUE if z is num(1) else FALSE if z is num(0) else z if self.isbool(z) else None for z in (x, y)]
        if op in ("&", "|", "^") and None not in ub:
            bx, by = ub
            r = tm.band(bx, by) if op == "&" else tm.bor(bx, by) if op == "|" else tm.bnot(self.equal(st, bx, by))
            return r if vty(e.get("t")) == "bool" else self.b2i(st, r)
        if self.isbool(x) and self.isbool(y):
            if op == "&":
                return tm.band(x, y)
            if op == "|":
                return tm.bor(x, y)
            if op == "^":
                return tm.bor(tm.band(x, tm.bnot(y)), tm.band(tm.bnot(x), y))
        return mk("bin", op, x, y, ty=vty(e["t"]))

    def equal(self, st, x, y):
        bx, by = self.isbool(x), self.isbool(y)
        if bx or by:
            if tm.isnumeric(x) or tm.isnumeric(y):
                if bx:
                    x = self.b2i(st, x)
                if by:
                    y = self.b2i(st, y)
                return tm.veq(x, y)
            rx, ry = self.simp(st, x), self.simp(st, y)
            if rx is not None:
                return y if rx else tm.bnot(y)
            if ry is not None:
                return x if ry else tm.bnot(x)
            if x is y:
                return TRUE
            if x is tm.bnot(y):
                return FALSE
            return tm.eq(x, y) if x.op != "not" and y.op != "not" else \
                (tm.eq(x.a[0], y.a[0]) if x.op == y.op else tm.bnot(tm.eq(x.a[0] if x.op == "not" else x, y.a[0] if y.op == "not" else y)))
        if x.op == "iter" and y.op == "iter":
            return self.stl.iter_eq(st, x, y)
        if x.op == "b2i" or y.op == "b2i":
            # booleans compared after promotion
            u = [z.a[0] if z.op == "b2i" else TRUE if z is num(1) else FALSE if z is num(0) else None for z in (x, y)]
            if None not in u:
                return self.equal(st, u[0], u[1])
        return tm.veq(x, y)

    def e_Assign(self, e, st, fr):
        op = e["op"]
        out = []
        if op == "=":
            for (s1, v) in self.ev(e["y"], st, fr, want=e["t"]):
                if v is THROW:
                    out.append((s1, v))
                    continue
                for (s2, l) in self.lv(e["x"], s1, fr):
                    s2 = s2.copy()
                    v2 = self.coerce(v, e["t"])
                    self.write(s2, l, v2)
                    out.append((s2, v2))
            return out
        for (s1, v) in self.ev(e["y"], st, fr):
            for (s2, l) in self.lv(e["x"], s1, fr):
                s2 = s2.copy()
                old = self.read(s2, l, vty(e["t"]))
                new = self.binop(s2, op[:-1], old, v, {"t": e["t"], "xt": e["t"]})
                new = self.coerce(new, e["t"])
                self.write(s2, l, new)
                out.append((s2, new))
        return out

    def e_InitList(self, e, st, fr):
        t = e["t"]
        scalar = vty(t) and not t.endswith("]")
        out = []
        for (s2, vs) in self.evs(e["a"], st, fr):
            if "fields" in e and not self.stl.kind(t):
                d = {}
                for k, f in enumerate(e["fields"]):
                    d[f] = vs[k] if k < len(vs) else num(0)
                out.append((s2, tm.rec(t, d)))
            elif scalar and len(vs) == 1:
                out.append((s2, vs[0]))
            elif scalar and not vs:
                out.append((s2, num(0) if vty(t) != "bool" else FALSE))
            elif t.endswith("*") and not vs:
                out.append((s2, NULL))
            elif t.endswith("*") and len(vs) == 1:
                out.append((s2, vs[0]))
            elif len(vs) == 1 and self.stl.plain_base(t):
                out.append((s2, vs[0]))
            else:
                out.append((s2, mkseq([mk("one", v) for v in vs])))
        return out

    def e_New(self, e, st, fr):
        return self.stl.construct(e, st, fr)

    def e_HeapNew(self, e, st, fr):
        out = []
        for (s2, v) in (self.ev(e["e"], st, fr) if e.get("e") else [(st, self.default_value(e["t"]))]):
            s2 = s2.copy()
            root = mk("heap", "new", tuple(e["l"]), fr.ctx)
            self.allocated(root)
            s2.mem[root] = v
            out.append((s2, mk("ref", loc(root))))
        return out

    def e_Op(self, e, st, fr):
        return self.call(e, st, fr)

    def e_MCall(self, e, st, fr):
        return self.call(e, st, fr)

    def e_Call(self, e, st, fr):
        return self.call(e, st, fr)

    # ------------------------------------------------------------ lvalues
    def deref(self, st, p):
        """location a pointer value points to"""
        if p.op == "ref":
            return p.a[0]
        if p.op == "iter":
            return self.stl.iter_deref(st, p)
        return loc(mk("obj", p))

    def lv(self, e, st, fr):
        k = e["k"]
        if k == "Var":
            if e.get("kind") == "global" and e["id"] not in fr.cap:
                return [(st, loc(mk("global", e.get("q", e["n"]))))]
            if e.get("kind") == "static" and e["id"] not in fr.cap:
                return [(st, loc(mk("static", e["id"], e["n"])))]
            return [(st, self.resolve(st, self.var_loc(e["id"], fr, e["n"])))]
        if k == "Member":
            out = []
            if e["arrow"]:
                for (s2, p) in self.ev(e["b"], st, fr):
                    out.append((s2, ext(self.deref(s2, p), F(e["f"]))))
            else:
                for (s2, l) in self.lv(e["b"], st, fr):
                    out.append((s2, ext(l, F(e["f"]))))
            return out
        if k == "Un" and e["op"] == "*":
            return [(s2, self.deref(s2, p)) for (s2, p) in self.ev(e["e"], st, fr)]
        if k == "Un" and e["op"] in ("++", "--") and not e.get("post"):
            out = []
            for (s2, v) in self.ev(e, st, fr):
                for (s3, l) in self.lv(e["e"], s2, fr)[:1]:
                    out.append((s3, l))
            return out
        if k == "Index":
            out = []
            for (s1, l) in self.lv(e["b"], st, fr):
                for (s2, i) in self.ev(e["i"], s1, fr):
                    out.append((s2, ext(l, I(i))))
            return out
        if k == "Cond":
            out = []
            for (s2, b1) in self.cond(e["c"], st, fr):
                out.extend(self.lv(e["x"] if b1 else e["y"], s2, fr))
            return out
        if k == "Assign":
            out = []
            for (s2, v) in self.ev(e, st, fr):
                out.extend(self.lv(e["x"], s2, fr))
            return out
        if k == "Cast":
            return self.lv(e["e"], st, fr)
        if k in ("Op", "MCall", "Call"):
            r = self.call(e, st, fr, want_loc=True)
            out = []
            for (s2, v) in r:
                if v.op == "ref" and (e.get("lv") or not e.get("t", "").endswith("*") and "shared_ptr" not in e.get("t", "") and "unique_ptr" not in e.get("t", "")):
                    out.append((s2, v.a[0]))
                else:
                    out.append(self.temp(s2, v, e, fr))
            return out
        # temporaries
        return [self.temp(s2, v, e, fr) for (s2, v) in self.ev(e, st, fr)]

    def temp(self, st, v, e, fr):
        root = mk("var", "#t%d:%d%s%s" % (e["l"][0], e["l"][1], e["k"], e.get("m", e.get("op", ""))), fr.ctx, "tmp")
        st = st.copy()
        st.mem[root] = v
        return (st, loc(root))

    # ------------------------------------------------------------ calls
    def call(self, e, st, fr, want_loc=False):
        """returns [(state, value)]; functions returning references give ref(loc) when want_loc, else the value"""
        k = e["k"]
        fn = e.get("fn")
        # callable objects: operator() on a lambda value, or call through a variable
        if k == "Op" and e["op"] == "()" and not (fn in self.prims):
            out = []
            for (s1, f) in self.ev(e["a"][0], st, fr):
                if f.op == "lam":
                    cands = f.a[0]
                    fid = e["fid"] if e.get("fid") in cands else cands[0]
                    fobj = self.prog.funcs.get(fid)
                    for (s2, args) in self.eval_args(e["a"][1:], e.get("pm", []), s1, fr):
                        out.extend(self.fin(r, fobj, e, want_loc, s2) for r in self.invoke_lam(f, fobj, args, s2, fr, e))
                else:
                    out.extend(self.invoke_generic(e, s1, fr, want_loc))
            return out
        if fn is None:
            out = []
            for (s1, f) in self.ev(e.get("cal"), st, fr):
                for (s2, args) in self.eval_args(e["a"], [0] * len(e["a"]), s1, fr):
                    out.append((s2, mk("apply", f, *[self.argval(s2, a) for a in args], ty=vty(e.get("t")))))
            return out
        return self.invoke_generic(e, st, fr, want_loc)

    def fin(self, r, fobj, e, want_loc, st):
        s2, v = r
        if v.op == "ref" and fobj is not None and fobj.ret.get("ref") and not want_loc:
            return (s2, self.read(s2, v.a[0], vty(e.get("t"))))
        return (s2, v)

    def eval_args(self, es, pm, st, fr):
        """arguments: reference parameters become ref(loc), values otherwise"""
        outs = [(st, ())]
        for n, a in enumerate(es):
            md = pm[n] if n < len(pm) else 0
            nxt = []
            for (s1, vs) in outs:
                if md in (1, 2, 3) and a is not None and self.is_lvalue(a):
                    nxt.extend((s2, vs + (mk("byref", self.resolve(s2, l)),)) for (s2, l) in self.lv(a, s1, fr))
                else:
                    nxt.extend((s2, vs + (v,)) for (s2, v) in self.ev(a, s1, fr))
            outs = nxt
        return outs

    def is_lvalue(self, a):
        k = a["k"]
        if k in ("Var", "Member", "Index"):
            return True
        if k == "Un" and a["op"] in ("*",):
            return True
        if k in ("MCall", "Call", "Op"):
            return True
        if k == "Cond":
            return self.is_lvalue(a["x"]) and self.is_lvalue(a["y"])
        if k == "Cast":
            return self.is_lvalue(a["e"]) and a["ck"] in ("DerivedToBase",)
        return False

    def argval(self, st, a, ty=None):
        if a.op == "byref":
            return self.read(st, a.a[0], ty)
        return a

    def invoke_generic(self, e, st, fr, want_loc):
        fn, fid = e.get("fn"), e.get("fid")
        k = e["k"]
        self.calls_seen[fn] = self.calls_seen.get(fn, 0) + 1
        # model hooks first
        h = self.prims.get(fn)
        if h is None and e.get("repo"):
            h = self.prims.get(fid)
        is_method = k == "MCall" or (k == "Op" and e.get("method"))
        if e.get("repo") or h is not None:
            out = []
            if is_method:
                objs = self.obj_locs(e, st, fr)
                argexprs = e["a"][1:] if k == "Op" else e["a"]
            else:
                objs = [(st, None)]
                argexprs = e["a"]
            for (s1, ol) in objs:
                for (s2, args) in self.eval_args(argexprs, e.get("pm", []), s1, fr):
                    if any(a is THROW for a in args):
                        out.append((s2, THROW))
                        continue
                    if h is not None:
                        r = h(self, s2, ol, args, e, fr)
                        if r is not None:
                            for (s3, v) in r:
                                if v.op == "ref" and not want_loc and not e.get("t", "").endswith("*"):
                                    v = self.read(s3, v.a[0], vty(e.get("t")))
                                out.append((s3, v))
                            continue
                    f = self.target(e, ol, s2)
                    if f is None or f.body is None:
                        if f is not None and f.raw.get("defaulted"):
                            out.extend(self.defaulted(f, ol, args, s2, e))
                            continue
                        out.extend(self.opaque_call(e, s2, ol, args, want_loc, fr))
                        continue
                    if f is not None and ol is not None and args and f.name.endswith("operator=") and \
                            (f.raw.get("defaulted") or f.raw.get("implicit")):
                        # compiler-generated assignment copies the whole value
                        out.extend(self.fin(r, f, e, want_loc, s2) for r in self.defaulted(f, ol, args, s2, e))
                        continue
                    for r in self.invoke(f, ol, args, s2, fr, e):
                        out.append(self.fin(r, f, e, want_loc, s2))
            return out
        return self.stl.call(e, st, fr, want_loc)

    def obj_locs(self, e, st, fr):
        if e["k"] == "Op":
            return self.lv(e["a"][0], st, fr)
        o = e["o"]
        if e.get("arrow"):
            out = []
            for (s2, p) in self.ev(o, st, fr):
                out.append((s2, self.deref(s2, p)))
            return out
        return self.lv(o, st, fr)

    def target(self, e, ol, st):
        f = self.prog.funcs.get(e["fid"])
        if e.get("virtual") and not e.get("qual"):
            ov = self.prog.overriders.get(e["fid"], [])
            if f is None or ov:
                # dynamic type known from the object's provenance?
                d = self.dyn_class(ol, st)
                if d:
                    for c in [e["fid"]] + ov:
                        g = self.prog.funcs.get(c)
                        if g and g.cls == d:
                            return g
                if f is None or ov:
                    return None
        return f

    def dyn_class(self, ol, st):
        if ol is None:
            return None
        l = self.resolve(st, ol)
        if not l.a[1]:
            v = st.mem.get(l.a[0])
            if v is not None and v.op == "rec":
                return v.a[0]
            if l.a[0].op in ("obj",) and l.a[0].a[0].op == "newptr":
                return l.a[0].a[0].a[0]
        return None

    def defaulted(self, f, ol, args, st, e):
        st = st.copy()
        if f.name.endswith("operator=") and ol is not None:
            self.write(st, ol, self.argval(st, args[0]))
            return [(st, mk("ref", ol))]
        return [(st, VOID)]

    def opaque_call(self, e, st, ol, args, want_loc, fr):
        """uninterpreted: result and every mutable input become functions of the inputs"""
        st = st.copy()
        fn = e.get("fn") or "?"
        self.opaque[fn] = self.opaque.get(fn, 0) + 1
        if ol is None and fn.startswith("std::") and any(a.op in ("iter", "riter", "inserter", "finserter", "sinserter") for a in args):
            raise TooComplex("%s is not modelled" % fn)
        vals = tuple(self.argval(st, a) for a in args)
        ov = self.read(st, ol) if ol is not None else VOID
        key = (e.get("fid") or fn).replace("learnta::", "")
        if ol is not None and not e.get("const") and not e.get("static"):
            self.write(st, ol, mk("mod", key, ov, *vals))
        pm = e.get("pm", [])
        for n, a in enumerate(args):
            if a.op == "byref" and n < len(pm) and pm[n] == 2:
                self.write(st, a.a[0], mk("modarg", key, num(n), ov, *vals))
        return [(st, mk("res", key, ov, *vals, ty=vty(e.get("t"))))]

    def invoke_lam(self, f, fobj, args, st, fr, e):
        if fobj is None or fobj.body is None:
            return [(st, mk("apply", f, *[self.argval(st, a) for a in args], ty=vty(e.get("t") if e else None)))]
        cap = {}
        st = st.copy()
        this = f.a[3] if f.a[3] is not VOID else None
        ctx = self.newctx(fr, e, fobj)
        for c in f.a[2]:
            if c.a[0] == "this":
                continue
            if c.a[1] == "ref":
                cap[c.a[0]] = c.a[2]
            else:
                root = mk("var", c.a[0], ctx, c.a[3])
                st.mem[root] = c.a[2]
                cap[c.a[0]] = loc(root)
        return self.invoke(fobj, this, args, st, fr, e, cap=cap)

    def newctx(self, fr, e, f):
        site = tuple(e["l"]) if e else (0, 0)
        return mk("ctx", fr.ctx, site, e.get("k", "") if e else "", f.fid)

    def invoke(self, f, ol, args, st, fr, e, cap=None):
        """inline a repository function; [(state, value)]"""
        if fr.depth > self.MAXDEPTH or self.recursing(fr, f):
            return self.opaque_call({"fn": f.name, "fid": f.fid, "const": f.const, "t": f.ret["t"],
                                     "pm": [p.get("ref", 0) and (1 if p.get("const") else 2) for p in f.params]},
                                    st, ol, args, False, fr)
        self.inlined.add(f.fid)
        ctx = self.newctx(fr, e, f)
        nf = Frame(ctx, ol, cap or {}, f, fr.depth + 1)
        st = st.copy()
        for n, p in enumerate(f.params):
            root = mk("var", p["id"], ctx, p["n"])
            if n >= len(args):
                st.mem[root] = self.default_value(p["t"], root)
                continue
            a = args[n]
            if a.op == "byref":
                if p.get("ref"):
                    l = self.resolve(st, a.a[0])
                    if l.a[0] is root:
                        raise TooComplex("self alias")
                    st.mem[root] = mk("alias", l)
                else:
                    st.mem[root] = self.coerce(self.read(st, a.a[0], vty(p["t"])), p["t"])
            else:
                st.mem[root] = self.coerce(a, p["t"])
        outs = []
        if f.inits is not None and f.name.endswith("<ctor>"):
            cur = self.run_inits(f, st, nf)
        else:
            cur = [st]
        for c in cur:
            for (s2, k, v) in self.exec(f.body, c, nf):
                if k == "r":
                    outs.append((s2, v))
                elif k == "n":
                    outs.append((s2, VOID))
                elif k == "t":
                    outs.append((s2, THROW))
        # drop the callee's variables (their addresses do not escape by construction)
        res = []
        for (s2, v) in outs:
            keep = set()
            if isinstance(v, T):
                keep = {x for x in tm.subterms(v) if x.op == "var"}
            dead = [r for r in s2.mem if r.op == "var" and r.a[1] is ctx and r not in keep]
            if dead and not self.escapes(s2, ctx):
                s2 = s2.copy()
                for r in dead:
                    del s2.mem[r]
            res.append((s2, v))
        if len(res) > 8:
            seen = {}
            r2 = []
            for (s2, v) in res:
                key = (v, frozenset(s2.mem.items()), s2.facts, frozenset(s2.dbm.m.items()), frozenset(s2.ghost.items()))
                if key not in seen:
                    seen[key] = 1
                    r2.append((s2, v))
            res = r2
        return res

    def escapes(self, st, ctx):
        return False

    def recursing(self, fr, f):
        n = 0
        c = fr.ctx
        while c is not None and c.op == "ctx":
            if c.a[3] == f.fid:
                n += 1
            c = c.a[0]
        return n >= 1 and not f.lam or n >= 2

    def run_inits(self, f, st, nf):
        cur = [st]
        obj = nf.this
        for i in f.inits:
            nxt = []
            for c in cur:
                if i.get("f"):
                    e = i["e"]
                    if e is None:
                        nxt.append(c)
                        continue
                    for (s2, v) in self.ev(e, c, nf):
                        s2 = s2.copy()
                        self.write(s2, ext(obj, F(i["f"])), self.coerce(v, i["ft"]))
                        nxt.append(s2)
                elif i.get("deleg"):
                    for (s2, v) in self.ev(i["e"], c, nf):
                        s2 = s2.copy()
                        self.write(s2, obj, v)
                        nxt.append(s2)
                else:
                    if i.get("e") and i["e"]["k"] == "New" and i["e"].get("repo"):
                        for (s2, v) in self.ev(i["e"], c, nf):
                            s2 = s2.copy()
                            if v.op == "rec":
                                for k, w in v.a[1]:
                                    self.write(s2, ext(obj, F(k)), w)
                            nxt.append(s2)
                    else:
                        nxt.append(c)
            cur = nxt
        return cur

    # ------------------------------------------------------------ entry
    def run(self, f, this=None, args=None, st=None, ghost=None):
        """analyse function f from an unconstrained state; [(state, kind, value)]"""
        st = st or St(ghost=ghost)
        ctx = mk("ctx", None, ("entry",), "", f.fid)
        if this is None and f.cls and not f.static and not f.lam:
            this = loc(mk("this", f.cls))
        fr = Frame(ctx, this, {}, f, 0)
        st = st.copy()
        for n, p in enumerate(f.params):
            root = mk("var", p["id"], ctx, p["n"])
            if args and n < len(args) and args[n] is not None:
                st.mem[root] = args[n]
            elif p.get("ref"):
                st.mem[root] = mk("alias", loc(mk("argobj", n, p["n"])))
            else:
                st.mem[root] = mk("init", mk("argobj", n, p["n"]), ty=vty(p["t"]))
        out = []
        cur = [st]
        if f.name.endswith("<ctor>"):
            cur = self.run_inits(f, st, fr)
        for c in cur:
            for (s2, k, v) in self.exec(f.body, c, fr):
                out.append((s2, "r" if k == "n" else k, v if k != "n" else VOID))
        return out


THROW = mk("throw")


def same_dbm(a, b):
    ks = set(a.m) | set(b.m)
    for (u, v) in ks:
        if a.get(u, v) != b.get(u, v):
            return False
    return True


def isseq(v):
    return v.op in ("seq", "field", "init", "elem", "fillv")


def segs(v):
    return list(v.a) if v.op == "seq" else parts(v)


def link_sum(st, x):
    """a sum of two terms differs from either by the other"""
    ts = [t for t, k in x.a[1]]
    if len(ts) != 2:
        return
    for t, o in (ts, ts[::-1]):
        h, l = st.dbm.get(t, None), st.dbm.get(None, t)
        if h is not None:
            st.dbm = st.dbm.add(x, o, *h)
        if l is not None:
            st.dbm = st.dbm.add(o, x, *l)
    # two sums with a common term differ by what the other terms differ by
    for y in list(st.dbm.nodes()):
        if y is None or y is x or y.op != "aff" or len(y.a[1]) != 2 or any(k != 1 for t, k in y.a[1]) or any(k != 1 for t, k in x.a[1]):
            continue
        us = [t for t, k in y.a[1]]
        for t, o in (ts, ts[::-1]):
            if t in us:
                u = us[1 - us.index(t)]
                h, l = st.dbm.get(o, u), st.dbm.get(u, o)
                if h is not None:
                    st.dbm = st.dbm.add(x, y, *h)
                if l is not None:
                    st.dbm = st.dbm.add(y, x, *l)


def posneg(d):
    """a form with unit coefficients as the difference of two nodes"""
    pos = {t: k for t, k in d.items() if k == 1}
    neg = {t: 1 for t, k in d.items() if k == -1}
    if not pos or not neg or len(pos) + len(neg) != len(d):
        return None
    nd = lambda p: next(iter(p)) if len(p) == 1 else linform(p)[0]
    return nd(pos), nd(neg)


def linform(d):
    """linear form as (node, sign, positive scale): form = sign * scale * node"""
    items = sorted(d.items(), key=lambda p: p[0].h)
    k0 = items[0][1]
    sg = 1 if k0 > 0 else -1
    sc = abs(k0)
    return mk("aff", Fraction(0), tuple((t, Fraction(k) / (sg * sc)) for t, k in items)), sg, sc


def merge_value(c, x, y, inside=False):
    if x is y:
        return x
    if x.op == "rec" and y.op == "rec" and x.a[0] == y.a[0] and not inside:
        fx, fy = dict(x.a[1]), dict(y.a[1])
        if set(fx) != set(fy):
            return None
        out = {}
        for k in fx:
            out[k] = merge_value(c, fx[k], fy[k])
            if out[k] is None:
                return None
        return tm.rec(x.a[0], out)
    if x.op == "seq" and y.op == "seq" and len(x.a) == len(y.a):
        out = []
        for p, q in zip(x.a, y.a):
            if p is q:
                out.append(p)
            elif p.op == "one" and q.op == "one":
                out.append(mk("one", tm.ite(c, p.a[0], q.a[0])))
            else:
                return None
        return mkseq(out)
    # one element replaced on one side only
    for (u, v, flip) in ((x, y, False), (y, x, True)):
        if u.op == "seq" and (v.op in ("field", "init", "elem") or v.op == "seq"):
            out, vs = [], list(v.a) if v.op == "seq" else parts(v)
            if len(u.a) <= len(vs):
                continue
            us = list(u.a)
            vn = []
            j = 0
            ok = True
            while us and ok:
                p = us.pop(0)
                q = vs[0] if vs else None
                if q is p:
                    vs.pop(0)
                    vn.append(p)
                elif p.op == "one" and q is not None and q.op == "sub":
                    vs.pop(0)
                    vn.append(mk("one", mk("elem", q.a[0], q.a[1])))
                    vs.insert(0, mk("sub", q.a[0], tm.add(q.a[1], num(1)), q.a[2]))
                elif p.op == "sub" and q is not None and q.op == "sub" and p.a[0] is q.a[0] and p.a[1] is q.a[1]:
                    vs.pop(0)
                    vn.append(p)
                    vs.insert(0, mk("sub", q.a[0], p.a[2], q.a[2]))
                elif p.op == "sub" and q is not None and q.op == "sub" and q.a[1] is q.a[2]:
                    vs.pop(0)
                    us.insert(0, p)
                else:
                    ok = False
            if not ok or any(not (q.op == "sub" and q.a[1] is q.a[2]) for q in vs):
                continue
            z = mk("seq", *vn)
            return merge_value(c, u, z) if not flip else merge_value(c, z, u)
    return None


def merge_states(c, a, b):
    """one state for the two outcomes of a decision, if they differ in computed elements only"""
    if a.ghost != b.ghost or set(a.mem) != set(b.mem):
        return None
    mem = {}
    for r in a.mem:
        v = merge_value(c, a.mem[r], b.mem[r])
        if v is None:
            return None
        mem[r] = v
    d = {}
    for (u, v) in a.dbm.m:
        w1, w2 = a.dbm.get(u, v), b.dbm.get(u, v)
        if w1 is not None and w2 is not None:
            d[(u, v)] = w2 if tm.leq(w1, w2) else w1
    return St(mem, a.facts & b.facts, tm.DBM(d), dict(a.ghost), a.path, a.dec[0] if a.dec else None)


def generalise(v, at=None, prefer=(), moving=()):
    """(hole, body, index) such that v = body[hole := index], read off the element indices in v"""
    idx = {}
    for x in tm.subterms(v):
        if x.op == "elem" and tm.isnumeric(x.a[1]) and not any(y.op == "hole" for y in tm.subterms(x.a[1])):
            idx.setdefault(x.a[1], []).append(x)
    if not idx:
        return None
    if at is not None:
        if at not in idx:
            return None
        a = at
    else:
        if moving and any(i in moving for i in idx):
            idx = {i: xs for i, xs in idx.items() if i in moving}
        sy = [i for i in idx if not tm.is_num(i)]
        a = sorted(sy, key=lambda t: t.h)[0] if sy else sorted(idx, key=lambda t: t.a[0])[0]
    h = mk("hole", hole_depth(v) + 1, ty="nat")
    m = {}
    if tm.is_num(a) and prefer:
        # a constant index that is the loop index and one that merely has the same value look alike
        own = {i: [x for x in xs if x.a[0] in prefer] for i, xs in idx.items()}
        if own.get(a):
            idx = {i: xs for i, xs in own.items() if xs}
    for i, xs in idx.items():
        d = tm.sub(i, a)
        if tm.is_num(d):
            for x in xs:
                m[x] = mk("elem", x.a[0], tm.add(h, d), ty=x.ty)
    if not tm.is_num(a) and a.op == "phi":
        m[a] = h
    body = tm.subst(v, m)
    if not any(x is h for x in tm.subterms(body)):
        return None
    return h, body, a


def align(x, y):
    """common prefix and suffix of two part lists: (prefix, rest of x, rest of y, suffix)"""
    n = 0
    while n < len(x) and n < len(y) and x[n] is y[n]:
        n += 1
    m = 0
    while m < len(x) - n and m < len(y) - n and x[-1 - m] is y[-1 - m]:
        m += 1
    if n + m == 0:
        return None
    return x[:n], x[n:len(x) - m], y[n:len(y) - m], x[len(x) - m:]


def subform(v, other):
    """view v as a subrange (container, lo, hi), guided by the other side"""
    if v.op == "seq" and len(v.a) == 1:
        p = v.a[0]
        if p.op == "sub":
            return p.a
        if p.op == "one" and p.a[0].op == "elem":
            c, i = p.a[0].a[0], p.a[0].a[1]
            return (c, i, tm.add(i, num(1)))
    if v is EMPTY:
        o = subform(other, v) if other is not EMPTY else None
        if o:
            return (o[0], o[1], o[1])
    if v.op in ("field", "init", "elem") and other.op == "seq" and len(other.a) == 1 and other.a[0].op == "sub" and other.a[0].a[0] is v:
        return (v, num(0), size(v))
    return None


def rootname(r):
    if r.op == "var":
        return "%s@%x" % (r.a[2], r.h & 0xffff) if False else "%s#%s" % (r.a[2], r.a[0])
    return tm.show(r, 3)
