"""Models of the standard library (and the few boost/Eigen pieces) LearnTA uses."""
import math
import re
from fractions import Fraction
from . import terms as tm
from .terms import mk, num, TRUE, FALSE, NULL, VOID, T
from . import engine as en
from . import eig

SEQ = ("std::vector", "std::deque", "std::list", "std::basic_string", "std::array", "std::initializer_list",
       "std::queue", "std::stack", "std::__cxx11::basic_string")
MAP = ("std::unordered_map", "std::map", "boost::unordered::unordered_map")
SET = ("std::unordered_set", "std::set", "boost::unordered::unordered_set")
PTR = ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr", "std::__shared_ptr_access",
       "std::__weak_ptr")
MEMPTY = mk("mempty")
NONE = mk("none")
K = mk("sym", "%k", ty="nat")
INF = mk("sym", "+inf", ty="real")


def bare(t):
    if t is None:
        return ""
    t = t.strip()
    while t.startswith("const "):
        t = t[6:]
    t = t.rstrip("& ")
    if t.endswith(" const"):
        t = t[:-6]
    return t


def head(t):
    t = bare(t)
    i = t.find("<")
    return t if i < 0 else t[:i]


def targs(t):
    t = bare(t)
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:t.rfind(">")]:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def isiter(t):
    h = head(t)
    return "iterator" in h or h.startswith("std::_Deque_iterator") or h.startswith("std::_List_") or "_Node_iterator" in h or "_Node_const_iterator" in h


def elemty(t):
    a = targs(t)
    return a[0] if a else ("char" if "basic_string" in (t or "") else None)


VALFNS = ("std::move", "std::forward", "std::make_move_iterator", "std::as_const", "std::cref", "std::ref", "boost::move", "boost::forward",
          "std::exchange")


PURE = tuple("std::" + x for x in ("inner_product", "count", "binary_search", "lower_bound", "upper_bound", "search", "mismatch", "adjacent_find",
                                   "includes", "is_sorted", "lexicographical_compare", "distance", "next", "prev", "reduce", "make_reverse_iterator"))


class Stl:
    def __init__(self, eng):
        self.g = eng

    # -------------------------------------------------------- types
    def kind(self, t):
        h = head(t)
        if h in SEQ or bare(t).endswith("]"):
            return "seq"
        if h in MAP:
            return "map"
        if h in SET:
            return "set"
        b = self.plain_base(t)
        return self.kind(b) if b else None

    def plain_base(self, t):
        """the only base of a class without data of its own"""
        r = self.g.prog.records.get(bare(t))
        if r is not None and len(r.get("bases") or []) == 1 and not r.get("fields"):
            return r["bases"][0]
        return None

    def default_value(self, t, root=None):
        t = bare(t)
        k = en.vty(t)
        if k:
            if root is not None:
                return mk("init", root, ty=k)
            return FALSE if k == "bool" else num(0)
        if t.endswith("*"):
            return NULL if root is None else mk("init", root)
        h = head(t)
        if h in PTR:
            return NULL
        if h == "std::optional":
            return NONE
        if h == "std::array" or t.endswith("]"):
            return mk("init", root) if root is not None else mk("dflt", t)
        kd = self.kind(t)
        if kd == "seq":
            return en.EMPTY
        if kd:
            return MEMPTY
        if h == "std::pair":
            a = targs(t)
            return self.pair(self.default_value(a[0]), self.default_value(a[1]))
        if h == "std::variant":
            return mk("vrec", num(0), self.default_value(targs(t)[0]))
        if h in self.g.prog.enums:
            return mk("init", root) if root is not None else mk("dflt", t)
        r = self.g.prog.records.get(t)
        if r is not None:
            # implicit default construction through the member initialisers, when known
            return mk("dflt", t)
        return mk("dflt", t)

    def pair(self, x, y):
        return tm.rec("pair", {"first": x, "second": y})

    def ispair(self, t):
        return head(t) == "std::pair"

    # -------------------------------------------------------- positions
    def elem_loc(self, st, cl, kind, i):
        if kind == "map":
            return en.ext(cl, mk("P", i))
        if kind == "set":
            c = self.g.read(st, cl)
            k = i.a[-1] if i.op in ("fpos", "inspos") else self.g.keyat(st, c, i)
            return en.ext(cl, mk("KEY", k))
        return en.ext(cl, en.I(i))

    def iter_deref(self, st, it):
        cl, pos = it.a[0], it.a[1]
        kind = it.a[2] if len(it.a) > 2 else "seq"
        return self.elem_loc(st, cl, kind, pos)

    def it(self, cl, pos, kind="seq"):
        return mk("iter", cl, pos, kind)

    def iter_eq(self, st, x, y):
        px, py = x.a[1], y.a[1]
        if px is py:
            return TRUE
        for (p, q) in ((px, py), (py, px)):
            if p.op == "fpos":
                if q.op == "endpos":
                    return tm.bnot(self.g.has(st, p.a[0], p.a[1]))
                if q.op == "fpos":
                    return tm.veq(p.a[1], q.a[1])
            if p.op == "endpos" and tm.isnumeric(q):
                return tm.numeq(q, en.size(p.a[0]))
            if p.op == "inspos" and q.op == "endpos":
                return FALSE
        if tm.isnumeric(px) and tm.isnumeric(py):
            return tm.numeq(px, py)
        return tm.eq(px, py)

    # -------------------------------------------------------- entry
    def call(self, e, st, fr, want_loc=False):
        k = e["k"]
        r = None
        if (e.get("fn") or "").startswith("Eigen::"):
            r = eig.call(self, e, st, fr, want_loc)
            if r is None:
                raise en.TooComplex("matrix operation %s" % e.get("fn"))
        elif k == "Op":
            r = self.op(e, st, fr, want_loc)
        elif k == "MCall":
            r = self.mcall(e, st, fr, want_loc)
        else:
            r = self.free(e, st, fr, want_loc)
        if r is None:
            r = self.unknown(e, st, fr, want_loc)
        isp = e.get("t", "").endswith("*") or self.isptr(e.get("t"))
        if isp and e.get("lv") and not (e.get("fn") or "") in VALFNS:
            # a reference to a pointer
            isp = False
        if not want_loc and not isp:
            out = []
            for (s2, v) in r:
                if v.op == "ref" and not (k == "Op" and e["op"] == "->"):
                    v = self.g.read(s2, v.a[0], en.vty(bare(e.get("t"))))
                out.append((s2, v))
            r = out
        return r

    def isptr(self, t):
        return head(t) in PTR

    def unknown(self, e, st, fr, want_loc):
        g = self.g
        out = []
        if e["k"] == "MCall":
            for (s1, ol) in g.obj_locs(e, st, fr):
                for (s2, args) in g.eval_args(e["a"], e.get("pm", []), s1, fr):
                    out.extend(g.opaque_call(e, s2, ol, args, want_loc, fr))
        elif e["k"] == "Op" and e.get("method"):
            for (s1, ol) in g.obj_locs(e, st, fr):
                for (s2, args) in g.eval_args(e["a"][1:], e.get("pm", []), s1, fr):
                    out.extend(g.opaque_call(e, s2, ol, args, want_loc, fr))
        else:
            fn = e.get("fn") or ""
            for (s2, args) in g.eval_args(e["a"], e.get("pm", []), st, fr):
                if fn.startswith("std::") and fn not in PURE and any(g.argval(s2, a).op in ("iter", "inserter", "finserter") for a in args):
                    raise en.TooComplex("unknown algorithm %s" % fn)
                out.extend(g.opaque_call(e, s2, None, args, want_loc, fr))
        return out

    # -------------------------------------------------------- operators
    def op(self, e, st, fr, want_loc):
        g = self.g
        op = e["op"]
        at = e.get("at", [""] * len(e["a"]))
        t0 = at[0]
        h0 = head(t0)
        a = e["a"]
        if op in ("==", "!=", "<", "<=", ">", ">="):
            out = []
            for (s1, x) in g.ev(a[0], st, fr):
                for (s2, y) in g.ev(a[1], s1, fr):
                    out.append((s2, self.compare(s2, op, x, y, t0, at[1])))
            return out
        if op in ("*", "->"):
            if isiter(t0):
                return [(s2, mk("ref", g.resolve(s2, self.iter_loc(s2, p)))) for (s2, p) in g.ev(a[0], st, fr)]
            if h0 == "std::optional":
                return [(s2, mk("ref", en.ext(l, mk("O")))) for (s2, l) in g.lv(a[0], st, fr)]
            if op == "->":
                return g.ev(a[0], st, fr)
            return [(s2, mk("ref", g.deref(s2, p))) for (s2, p) in g.ev(a[0], st, fr)]
        if op == "[]":
            kd = self.kind(t0)
            out = []
            for (s1, l) in g.lv(a[0], st, fr):
                for (s2, i) in g.ev(a[1], s1, fr):
                    if kd == "map":
                        out.extend(self.map_index(s2, l, i, t0))
                    else:
                        self.bound(s2, l, i, e, fr)
                        out.append((s2, mk("ref", en.ext(l, en.I(i)))))
            return out
        if op == "=":
            out = []
            for (s1, v) in g.ev(a[1], st, fr):
                for (s2, l) in g.lv(a[0], s1, fr):
                    s2 = s2.copy()
                    g.write(s2, l, self.convert(s2, v, at[1], t0))
                    out.append((s2, mk("ref", l)))
            return out
        if op in ("++", "--") and isiter(t0):
            out = []
            for (s1, l) in g.lv(a[0], st, fr):
                s2 = s1.copy()
                p = g.read(s2, l)
                n = self.advance(p, num(1 if op == "++" else -1))
                g.write(s2, l, n)
                out.append((s2, p if len(a) > 1 else (mk("ref", l) if want_loc else n)))
            return out
        if op in ("+", "-", "+=", "-="):
            if isiter(t0):
                out = []
                for (s1, x) in g.ev(a[0], st, fr):
                    for (s2, y) in g.ev(a[1], s1, fr):
                        if y.op == "iter":
                            out.append((s2, tm.sub(self.npos(x), self.npos(y))))
                        else:
                            v = self.advance(x, y if op[0] == "+" else tm.neg(y))
                            if len(op) == 2:
                                (s3, l), = g.lv(a[0], s2, fr)[:1]
                                s2 = s3.copy()
                                g.write(s2, l, v)
                            out.append((s2, v))
                return out
            if "basic_string" in t0 or "basic_string" in at[-1]:
                out = []
                for (s1, x) in g.ev(a[0], st, fr):
                    for (s2, y) in g.ev(a[1], s1, fr):
                        v = en.concat(self.asstr(x, t0), self.asstr(y, at[1]))
                        if op == "+=":
                            (s3, l), = g.lv(a[0], s2, fr)[:1]
                            s2 = s3.copy()
                            g.write(s2, l, v)
                            v = mk("ref", l)
                        out.append((s2, v))
                return out
        if op == "<<" and ("ostream" in t0 or "stringstream" in t0):
            out = []
            for (s1, l) in g.lv(a[0], st, fr):
                for (s2, v) in g.ev(a[1], s1, fr):
                    s2 = s2.copy()
                    if v.op == "fn":
                        v = mk("str", "\n")
                    g.write(s2, l, mk("out", g.read(s2, l), v))
                    out.append((s2, mk("ref", l)))
            return out
        return None

    def asstr(self, v, t):
        if en.vty(bare(t)) == "int" and v.op != "seq":
            return en.mkseq([mk("one", v)])
        return v

    def npos(self, it):
        p = it.a[1]
        if p.op == "endpos":
            return en.size(p.a[0])
        return p

    def advance(self, it, n):
        if it.op != "iter":
            return mk("bin", "+", it, n)
        p = self.npos(it)
        if not tm.isnumeric(p):
            return mk("iter", it.a[0], mk("adv", p, n), *it.a[2:])
        return mk("iter", it.a[0], tm.add(p, n), *it.a[2:])

    def iter_loc(self, st, p):
        if p.op == "iter":
            return self.iter_deref(st, p)
        return self.g.deref(st, p)

    def bound(self, st, l, i, e, fr):
        m = self.g.monitor
        if m is not None and hasattr(m, "on_index"):
            m.on_index(self.g, st, l, i, e, fr)

    def map_index(self, st, l, k, t):
        g = self.g
        m = g.read(st, l)
        out = []
        if g.lazymap:
            a = targs(t)
            d = self.default_value(a[1] if len(a) > 1 else "")
            h = g.has(st, m, k)
            if d is en.EMPTY and h not in (TRUE, FALSE) and g.simp(st, h) is None:
                s2 = st.copy()
                g.write(s2, l, mk("mdef", m, k, d))
                return [(s2, mk("ref", en.ext(l, en.M(k))))]
        for (s2, b) in g.branch(st, g.has(st, m, k)):
            if not b:
                s2 = s2.copy()
                a = targs(t)
                g.write(s2, l, g.mput(s2, m, k, self.default_value(a[1] if len(a) > 1 else "")))
            out.append((s2, mk("ref", en.ext(l, en.M(k)))))
        return out

    def compare(self, st, op, x, y, tx, ty_):
        g = self.g
        if op in ("==", "!="):
            if isiter(tx) and x.op == "iter" and y.op == "iter":
                r = self.iter_eq(st, x, y)
            else:
                r = self.equal(st, x, y, tx)
            return r if op == "==" else tm.bnot(r)
        if op == ">":
            return self.less(st, y, x, tx)
        if op == "<":
            return self.less(st, x, y, tx)
        if op == "<=":
            return tm.bnot(self.less(st, y, x, tx))
        return tm.bnot(self.less(st, x, y, tx))

    def split(self, st, x, t):
        """components of a pair value"""
        a = targs(t)
        f = tm.getf(x, "first", en.vty(a[0]) if a else None)
        s = tm.getf(x, "second", en.vty(a[1]) if len(a) > 1 else None)
        return f, s

    def equal(self, st, x, y, t=None):
        g = self.g
        if x is y:
            return TRUE
        if self.ispair(t) or x.op == "rec" and x.a[0] == "pair" or y.op == "rec" and y.a[0] == "pair":
            a = targs(t) + ["", ""]
            (f1, s1), (f2, s2) = self.split(st, x, t), self.split(st, y, t)
            return tm.band(self.equal(st, f1, f2, a[0]), self.equal(st, s1, s2, a[1]))
        if head(t) == "std::optional":
            if y is NONE or x is NONE:
                v = x if y is NONE else y
                return tm.b(v is NONE) if v.op in ("none", "some") else tm.bnot(mk("engaged", v, ty="bool"))
        if isiter(t) and x.op == "iter" and y.op == "iter":
            return self.iter_eq(st, x, y)
        # empty sequence tests
        for (u, v) in ((x, y), (y, x)):
            if u is en.EMPTY or (u.op == "str" and u.a[0] == ""):
                return tm.eq0(en.size(v))
        return g.equal(st, x, y)

    def less(self, st, x, y, t):
        if x.op == "mincoeff":
            return eig.compare_min(x, y, True)
        if y.op == "mincoeff":
            return eig.compare_min(y, x, False)
        if self.ispair(t) or x.op == "rec" and x.a[0] == "pair":
            a = targs(t) + ["", ""]
            (f1, s1), (f2, s2) = self.split(st, x, t), self.split(st, y, t)
            l1 = self.less(st, f1, f2, a[0])
            g1 = self.less(st, f2, f1, a[0])
            return tm.bor(l1, tm.band(tm.bnot(l1), tm.bnot(g1), self.less(st, s1, s2, a[1])))
        g = self.g
        bx, by = g.isbool(x), g.isbool(y)
        if en.vty(bare(t)) == "bool" or bx or by:
            # false < true
            return tm.band(tm.bnot(x), y)
        if tm.isnumeric(x) and tm.isnumeric(y):
            return tm.lt(x, y)
        if isiter(t) and x.op == "iter" and y.op == "iter":
            return tm.lt(self.npos(x), self.npos(y))
        if x is y:
            return FALSE
        return mk("less", x, y, ty="bool")

    # -------------------------------------------------------- conversions
    def convert(self, st, v, tfrom, tto):
        h = head(tto)
        if h == "std::optional":
            if head(tfrom) == "std::optional":
                return v
            if v is NONE or "nullopt" in tfrom:
                return NONE
            return mk("some", v)
        if h == "std::variant":
            if head(tfrom) == "std::variant" or v.op == "vrec":
                return v
            for n, a in enumerate(targs(tto)):
                if bare(tfrom) == a:
                    return mk("vrec", num(n), v)
            for n, a in enumerate(targs(tto)):
                if en.vty(a) and en.vty(a) == en.vty(bare(tfrom)):
                    return mk("vrec", num(n), v)
            return mk("vconv", v)
        if h in MAP + SET and v.op == "seq":
            return self.from_list(st, v, tto)
        if h == "std::pair" and v.op == "seq" and len(v.a) == 2:
            return self.pair(v.a[0].a[0], v.a[1].a[0])
        return v

    def from_list(self, st, v, t):
        kd = self.kind(t)
        if kd == "seq":
            return v
        m = MEMPTY
        for p in en.parts(v):
            if p.op != "one":
                return mk("from_list", v)
            x = p.a[0]
            if kd == "set":
                m = self.g.mput(st, m, x, TRUE)
            else:
                m = self.g.mput(st, m, tm.getf(x, "first"), tm.getf(x, "second"))
        return m

    # -------------------------------------------------------- construction
    def construct(self, e, st, fr):
        g = self.g
        cls = e["cls"]
        a = e["a"]
        h = head(cls)
        if h == "Eigen::Matrix" or h.startswith("Eigen::"):
            if (e.get("copy") or e.get("move")) and a:
                return g.ev(a[0], st, fr)
            r = eig.construct(self, e, st, fr)
            return r if r is not None else self.opaque_new(e, st, fr)
        if (e.get("copy") or e.get("move")) and len(a) >= 1:
            if e.get("repo") and not e.get("implicit"):
                f = g.prog.funcs.get(e.get("fid"))
                if f is not None and f.body is not None:
                    return self.repo_ctor(e, f, st, fr)
            return g.ev(a[0], st, fr)
        if e.get("repo"):
            hd = g.prims.get(cls + "::<ctor>") or g.prims.get(e.get("fid"))
            f = g.prog.funcs.get(e.get("fid"))
            if hd is not None:
                out = []
                for (s2, args) in g.eval_args(a, e.get("pm", []), st, fr):
                    r = hd(g, s2, None, args, e, fr)
                    if r is None:
                        return self.repo_ctor(e, f, st, fr)
                    out.extend(r)
                return out
            if f is not None:
                return self.repo_ctor(e, f, st, fr)
            return self.opaque_new(e, st, fr)
        if h == "std::nullopt_t":
            return [(st, NONE)]
        if h in PTR:
            if not a:
                return [(st, NULL)]
            return [(s2, v) for (s2, v) in g.ev(a[0], st, fr)]
        if h == "std::optional":
            if not a:
                return [(st, NONE)]
            t0 = a[0].get("t") or a[0].get("cls") or ""
            return [(s2, self.convert(s2, v, t0, cls)) for (s2, v) in g.ev(a[0], st, fr)]
        if h == "std::variant" and a:
            t0 = a[0].get("t") or ""
            if a[0]["k"] == "Int":
                t0 = "int"
            return [(s2, self.convert(s2, v, t0, cls)) for (s2, v) in g.ev(a[0], st, fr)]
        if h == "std::pair":
            if not a:
                return [(st, self.default_value(cls))]
            if len(a) == 2:
                ta = targs(cls)
                out = []
                for (s1, x) in g.ev(a[0], st, fr):
                    for (s2, y) in g.ev(a[1], s1, fr):
                        out.append((s2, self.pair(self.coerce2(s2, x, a[0], ta[0]), self.coerce2(s2, y, a[1], ta[1]))))
                return out
            return g.ev(a[0], st, fr)
        if h == "std::tuple":
            out = []
            for (s2, vs) in g.evs(a, st, fr):
                out.append((s2, tm.rec("tuple", {str(n): v for n, v in enumerate(vs)})))
            return out
        if isiter(cls):
            if a:
                return g.ev(a[0], st, fr)
            return [(st, mk("iter0"))]
        kd = self.kind(cls)
        if kd:
            return self.container(e, cls, kd, st, fr)
        if h.startswith("std::allocator") or h.startswith("std::hash") or h.startswith("std::equal_to") or h.startswith("boost::hash"):
            return [(st, VOID)]
        return self.opaque_new(e, st, fr)

    def coerce2(self, st, v, e, t):
        if head(t) in ("std::optional", "std::variant"):
            return self.convert(st, v, e.get("t") or "", t)
        return self.g.coerce(v, t)

    def opaque_new(self, e, st, fr):
        g = self.g
        g.opaque[e["cls"]] = g.opaque.get(e["cls"], 0) + 1
        out = []
        for (s2, args) in g.eval_args(e["a"], e.get("pm", []), st, fr):
            out.append((s2, mk("new", e["cls"], *[g.argval(s2, x) for x in args])))
        return out

    def repo_ctor(self, e, f, st, fr):
        g = self.g
        cls = e["cls"]
        out = []
        if f is None or f.body is None and not (f.raw.get("inits") or f.raw.get("defaulted") or e.get("dflt")):
            return self.opaque_new(e, st, fr)
        for (s2, args) in g.eval_args(e["a"], e.get("pm", []), st, fr):
            root = mk("var", "#n%d:%d" % (e["l"][0], e["l"][1]), fr.ctx, "new")
            s2 = s2.copy()
            s2.mem[root] = self.blank(cls)
            l = en.loc(root)
            rs = g.invoke(f, l, args, s2, fr, e)
            for (s3, v) in rs:
                s3 = s3.copy()
                if v is en.THROW:
                    out.append((s3, v))
                    continue
                out.append((s3, s3.mem[root]))
                del s3.mem[root]
        return out

    def blank(self, cls):
        r = self.g.prog.records.get(cls)
        return tm.rec(cls, {})

    def container(self, e, cls, kd, st, fr):
        g = self.g
        a = [x for x in e["a"] if x is not None and not any(
            (x.get("cls") or x.get("t") or "").startswith(p) for p in ("std::allocator", "std::hash", "std::equal_to", "boost::hash"))]
        # drop the default bucket count of hash containers
        dflt = en.EMPTY if kd == "seq" else MEMPTY
        if not a:
            if head(cls) == "std::array":
                return [(st, mk("dflt", cls))]
            return [(st, dflt)]
        if e.get("sil") or (a[0]["k"] == "InitList") or (a[0]["k"] == "New" and "initializer_list" in a[0]["cls"]):
            return [(s2, self.from_list(s2, v, cls)) for (s2, v) in g.ev(a[0], st, fr)]
        t0 = a[0].get("t") or a[0].get("cls") or ""
        if len(a) >= 2 and (isiter(t0) or isiter(a[0].get("cls"))):
            out = []
            for (s1, x) in g.ev(a[0], st, fr):
                for (s2, y) in g.ev(a[1], s1, fr):
                    v = self.range(s2, x, y)
                    out.append((s2, self.to_kind(s2, v, kd)))
            return out
        if "basic_string" in cls and len(a) == 1 and a[0]["k"] in ("Str", "Cast", "Var"):
            return g.ev(a[0], st, fr)
        if len(a) >= 1 and kd == "seq":
            et = elemty(cls)
            out = []
            for (s2, vs) in g.evs(a[:2], st, fr):
                n = vs[0]
                if not tm.isnumeric(n):
                    out.append((s2, n))
                    continue
                x = vs[1] if len(vs) > 1 else self.default_value(et)
                out.append((s2, en.mkseq([mk("fill", x, n)])))
            return out
        if kd != "seq" and len(a) == 1:
            return [(st, MEMPTY)]
        return None or self.opaque_new(e, st, fr)

    def to_kind(self, st, v, kd):
        if kd == "seq":
            return v
        if v.op in ("mempty", "mput"):
            return v
        return self.from_list(st, v, "std::unordered_set<x>" if kd == "set" else "std::unordered_map<x,y>") if v.op == "seq" and all(p.op == "one" for p in v.a) else mk("toset" if kd == "set" else "tomap", v)

    def range(self, st, x, y):
        """the sequence of values between two iterators"""
        if x.op == "iter" and y.op == "iter":
            c = self.g.read(st, x.a[0])
            kind = x.a[2] if len(x.a) > 2 else "seq"
            if kind != "seq":
                if x.a[1] is num(0) and y.a[1].op == "endpos":
                    return c
                return mk("range", c, x.a[1], y.a[1])
            lo, hi = self.npos(x), self.npos(y)
            return self.slice(st, c, lo, hi)
        return mk("range", x, y)

    def slice(self, st, c, lo, hi):
        g = self.g
        if lo is num(0) and hi is en.size(c):
            return c
        if c.op in ("seq", "str"):
            out = []
            off = num(0)
            ok = True
            for p in en.parts(c):
                n = en.size(en.mkseq([p])) if p.op != "one" else num(1)
                nx = tm.add(off, n)
                if g.simp(st, tm.le(nx, lo)) is True:
                    pass
                elif g.simp(st, tm.le(hi, off)) is True:
                    pass
                elif g.simp(st, tm.le(lo, off)) is True and g.simp(st, tm.le(nx, hi)) is True:
                    out.append(p)
                elif p.op in ("sub", "tab", "fill"):
                    a = tm.sub(lo, off) if g.simp(st, tm.le(off, lo)) is True else (num(0) if g.simp(st, tm.le(lo, off)) is True else None)
                    b = tm.sub(hi, off) if g.simp(st, tm.le(hi, nx)) is True else (n if g.simp(st, tm.le(nx, hi)) is True else None)
                    if a is None or b is None:
                        ok = False
                        break
                    if p.op == "sub":
                        out.append(mk("sub", p.a[0], tm.add(p.a[1], a), tm.add(p.a[1], b)))
                    elif p.op == "tab":
                        out.extend(z for z in [en.mktab(p.a[0], p.a[1], tm.add(p.a[2], a), tm.add(p.a[2], b))] if z is not None)
                    else:
                        out.append(mk("fill", p.a[0], tm.sub(b, a)))
                else:
                    ok = False
                    break
                off = nx
            if ok:
                return en.mkseq(out)
        return en.mkseq([mk("sub", c, lo, hi)])

    # -------------------------------------------------------- member calls
    def mcall(self, e, st, fr, want_loc):
        g = self.g
        m = e["m"]
        t = e["ot"]
        kd = self.kind(t)
        h = head(t)
        fn = e.get("fn") or ""
        base = head(fn.rsplit("::", 1)[0])
        if base in PTR or h in PTR:
            if m == "get" or m == "lock":
                return g.ev(e["o"], st, fr) if not e.get("arrow") else None
            if m == "<conv>":
                return [(s2, g.truth_cast(v)) for (s2, v) in g.ev(e["o"], st, fr)]
            if m == "reset":
                out = []
                for (s1, l) in g.obj_locs(e, st, fr):
                    for (s2, vs) in g.evs(e["a"], s1, fr):
                        s2 = s2.copy()
                        g.write(s2, l, vs[0] if vs else NULL)
                        out.append((s2, VOID))
                return out
            if m == "operator=":
                return self.assign_method(e, st, fr)
        if h == "std::optional":
            if m in ("has_value", "<conv>"):
                out = []
                for (s2, l) in g.obj_locs(e, st, fr):
                    v = g.read(s2, l)
                    out.append((s2, TRUE if v.op == "some" else FALSE if v is NONE else mk("engaged", v, ty="bool")))
                return out
            if m == "value":
                return [(s2, mk("ref", en.ext(l, mk("O")))) for (s2, l) in g.obj_locs(e, st, fr)]
            if m == "reset":
                out = []
                for (s2, l) in g.obj_locs(e, st, fr):
                    s2 = s2.copy()
                    g.write(s2, l, NONE)
                    out.append((s2, VOID))
                return out
        if h == "std::variant":
            if m == "index":
                out = []
                for (s2, l) in g.obj_locs(e, st, fr):
                    v = g.read(s2, l)
                    out.append((s2, self.vidx(v, e.get("ot") or "")))
                return out
        if m == "operator=":
            return self.assign_method(e, st, fr)
        if not kd:
            return None
        out = []
        for (s1, l) in g.obj_locs(e, st, fr):
            l = g.resolve(s1, l)
            # arguments by reference stay references where possible
            for (s2, vs) in self.margs(e, s1, fr):
                r = self.cont(e, m, kd, t, l, vs, s2, fr, want_loc)
                if r is None:
                    return None
                out.extend(r)
        return out

    def margs(self, e, st, fr):
        return self.g.evs(e["a"], st, fr)

    def assign_method(self, e, st, fr):
        g = self.g
        out = []
        for (s1, v) in g.ev(e["a"][0], st, fr):
            for (s2, l) in g.obj_locs(e, s1, fr):
                s2 = s2.copy()
                g.write(s2, l, self.convert(s2, v, e["a"][0].get("t", ""), e["ot"]))
                out.append((s2, mk("ref", l)))
        return out

    def cont(self, e, m, kd, t, l, vs, st, fr, want_loc):
        g = self.g
        c = g.read(st, l)
        R = lambda s, v: [(s, v)]
        if m in ("size", "length"):
            return R(st, en.size(c))
        if m == "empty":
            return R(st, tm.eq0(en.size(c)))
        if m in ("reserve", "shrink_to_fit", "rehash"):
            return R(st, VOID)
        if m in ("begin", "cbegin"):
            return R(st, self.it(l, num(0), kd))
        if m in ("end", "cend"):
            return R(st, self.it(l, en.size(c) if kd == "seq" else mk("endpos", c), kd))
        if m in ("rbegin", "crbegin", "rend", "crend"):
            return R(st, mk("riter", l, num(0) if "begin" in m else en.size(c)))
        if m == "clear":
            s2 = st.copy()
            g.write(s2, l, en.EMPTY if kd == "seq" else MEMPTY)
            return R(s2, VOID)
        if m == "swap":
            out = []
            for (s2, l2) in g.lv(e["a"][0], st, fr):
                s2 = s2.copy()
                x, y = g.read(s2, l), g.read(s2, l2)
                g.write(s2, l, y)
                g.write(s2, l2, x)
                out.append((s2, VOID))
            return out
        if kd == "seq":
            return self.seqm(e, m, t, l, c, vs, st, fr)
        # associative
        ta = targs(t)
        if m == "at":
            if g.monitor is not None and hasattr(g.monitor, "on_at"):
                g.monitor.on_at(g, st, l, vs[0], e, fr)
            return R(st, mk("ref", en.ext(l, en.M(vs[0]))))
        if m == "find":
            return R(st, self.it(l, mk("fpos", c, vs[0]), kd))
        if m == "count" or m == "contains":
            r = g.has(st, c, vs[0])
            return R(st, r if m == "contains" else g.b2i(st, r))
        if m in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            if len(vs) == 2 and vs[0].op == "iter" and vs[1].op == "iter":
                s2 = st.copy()
                g.write(s2, l, mk("munion", c, self.range(st, vs[0], vs[1])))
                return R(s2, VOID)
            if kd == "set":
                if len(vs) != 1:
                    if not (m == "emplace" and len(vs) == 2 and self.ispair(targs(t)[0])):
                        return None
                    vs = [self.pair(*vs)]
                k, v = vs[0], TRUE
            elif len(vs) == 2:
                k, v = vs
            else:
                k, v = tm.getf(vs[0], "first"), tm.getf(vs[0], "second")
            out = []
            for (s2, b) in g.branch(st, g.has(st, c, k)):
                it = self.it(l, mk("inspos", k), kd)
                if not b or m == "insert_or_assign":
                    s2 = s2.copy()
                    g.write(s2, l, g.mput(s2, c, k, v))
                out.append((s2, self.pair(it, FALSE if b else TRUE)))
            return out
        if m == "erase":
            x = vs[0]
            s2 = st.copy()
            if len(vs) == 2:
                g.write(s2, l, mk("erase_range", c, x.a[1] if x.op == "iter" else x, vs[1].a[1] if vs[1].op == "iter" else vs[1]))
                return R(s2, VOID)
            if x.op == "iter":
                p = x.a[1]
                k = p.a[-1] if p.op in ("fpos", "inspos") else g.keyat(st, c, p)
                g.write(s2, l, mk("merase", c, k))
                # position of the element that followed the erased one
                return R(s2, self.it(l, mk("nextpos", c, p) if not tm.isnumeric(p) else p, kd))
            g.write(s2, l, mk("merase", c, x))
            return R(s2, mk("b2i", g.has(st, c, x), ty="nat"))
        return None

    def seqm(self, e, m, t, l, c, vs, st, fr):
        g = self.g
        R = lambda s, v: [(s, v)]
        et = elemty(t)
        h = head(t)
        w = lambda v, r=VOID: self.wr(st, l, v, r)
        if m in ("at",):
            self.bound(st, l, vs[0], e, fr)
            return R(st, mk("ref", en.ext(l, en.I(vs[0]))))
        if m == "front" or m == "top" and h != "std::stack":
            return R(st, mk("ref", en.ext(l, en.I(num(0)))))
        if m == "back" or m == "top":
            return R(st, mk("ref", en.ext(l, en.I(tm.sub(en.size(c), num(1))))))
        if m in ("push_back", "push") or (m in ("emplace_back", "emplace")):
            if m.startswith("emplace") and h in ("std::vector", "std::deque", "std::list") and m == "emplace":
                return None
            out = []
            for (s2, x) in self.build(e, et, vs, st, fr):
                out.extend(self.wr(s2, l, en.append(c, x), mk("ref", en.ext(l, en.I(en.size(c))))))
            return out
        if m in ("push_front", "emplace_front"):
            out = []
            for (s2, x) in self.build(e, et, vs, st, fr):
                out.extend(self.wr(s2, l, en.mkseq([mk("one", x)] + en.parts(c)), mk("ref", en.ext(l, en.I(num(0))))))
            return out
        if m == "pop_back" or m == "pop" and h == "std::stack":
            return w(self.slice(st, c, num(0), tm.sub(en.size(c), num(1))))
        if m in ("pop_front", "pop"):
            return w(self.slice(st, c, num(1), en.size(c)))
        if m == "resize":
            n = vs[0]
            x = vs[1] if len(vs) > 1 else self.default_value(et)
            out = []
            for (s2, b) in g.branch(st, tm.le(en.size(c), n)):
                if b:
                    v = en.mkseq(en.parts(c) + [mk("fill", x, tm.sub(n, en.size(c)))])
                else:
                    v = self.slice(s2, c, num(0), n)
                out.extend(self.wr(s2, l, v, VOID))
            return out
        if m == "assign":
            if len(vs) == 2 and vs[0].op == "iter":
                return w(self.range(st, vs[0], vs[1]))
            return w(en.mkseq([mk("fill", vs[1], vs[0])]))
        if m == "insert":
            p = vs[0]
            if p.op == "iter":
                pos = self.npos(p)
                if len(vs) == 3 and vs[1].op == "iter":
                    ins = self.range(st, vs[1], vs[2])
                elif len(vs) == 3:
                    ins = en.mkseq([mk("fill", vs[2], vs[1])])
                else:
                    ins = en.mkseq([mk("one", vs[1])])
                v = en.mkseq(en.parts(self.slice(st, c, num(0), pos)) + en.parts(ins) + en.parts(self.slice(st, c, pos, en.size(c))))
                return w(v, self.it(l, pos))
            return None
        if m == "erase":
            if "basic_string" in t and vs and tm.isnumeric(vs[0]):
                return None
            if len(vs) == 1 and vs[0].op == "iter":
                p = self.npos(vs[0])
                v = en.mkseq(en.parts(self.slice(st, c, num(0), p)) + en.parts(self.slice(st, c, tm.add(p, num(1)), en.size(c))))
                return w(v, self.it(l, p))
            if len(vs) == 2 and vs[0].op == "iter":
                p, q = vs[0].a[1], vs[1].a[1]
                if p.op == "rmpos":
                    return w(p.a[0], self.it(l, en.size(p.a[0])))
                p, q = self.npos(vs[0]), self.npos(vs[1])
                v = en.mkseq(en.parts(self.slice(st, c, num(0), p)) + en.parts(self.slice(st, c, q, en.size(c))))
                return w(v, self.it(l, p))
            return None
        if m == "substr":
            lo = vs[0] if vs else num(0)
            n = vs[1] if len(vs) > 1 and not (vs[1].op == "sym" and vs[1].a[0] == "npos") else None
            if n is None or (tm.is_num(n) and n.a[0] > 1 << 40):
                return R(st, self.slice(st, c, lo, en.size(c)))
            out = []
            hi = tm.add(lo, n)
            for (s2, b) in g.branch(st, tm.le(hi, en.size(c))):
                out.append((s2, self.slice(s2, c, lo, hi if b else en.size(c))))
            return out
        if m in ("data", "c_str"):
            return R(st, c)
        if m in ("append",):
            if len(vs) == 2 and vs[0].op == "iter":
                return w(en.concat(c, self.range(st, vs[0], vs[1])), mk("ref", l))
            if len(vs) == 1 and not tm.isnumeric(vs[0]):
                return w(en.concat(c, vs[0]), mk("ref", l))
            return None
        if m == "compare" and len(vs) == 1:
            return R(st, mk("strcmp", c, vs[0], ty="int"))
        if m == "fill":
            return None
        return None

    def build(self, e, et, vs, st, fr):
        """the element constructed by (em)place/push with these argument values"""
        g = self.g
        m = e["m"]
        if m.startswith("push") or (len(vs) == 1 and not g.prog.records.get(et)):
            v = vs[0] if vs else self.default_value(et)
            a0 = e["a"][0] if e["a"] else {}
            t0 = a0.get("t") or a0.get("cls") or ""
            if head(et) in ("std::optional", "std::variant"):
                v = self.convert(st, v, t0, et)
            return [(st, g.coerce(v, et))]
        h = head(et)
        if h == "std::pair" and len(vs) == 2:
            ta = targs(et)
            return [(st, self.pair(self.coerce2(st, vs[0], e["a"][0], ta[0]), self.coerce2(st, vs[1], e["a"][1], ta[1])))]
        if h == "std::tuple":
            return [(st, tm.rec("tuple", {str(n): v for n, v in enumerate(vs)}))]
        if not vs:
            return [(st, self.default_value(et))]
        if self.kind(et) == "seq":
            if len(vs) == 1:
                return [(st, vs[0])]
            if vs[0].op == "iter":
                return [(st, self.range(st, vs[0], vs[1]))]
            if tm.isnumeric(vs[0]):
                return [(st, en.mkseq([mk("fill", vs[1], vs[0])]))]
        if et in g.prog.records:
            return self.ctor_by_types(e, et, vs, [a.get("t") or a.get("cls") or "" for a in e["a"]], st, fr)
        return [(st, mk("new", et, *vs))]

    def ctor_by_types(self, e, et, vs, ts, st, fr):
        """constructor selected from argument types (emplace, make_shared, make_unique)"""
        g = self.g
        if len(vs) == 1 and bare(ts[0]) == bare(et):
            return [(st, vs[0])]
        h = g.prims.get(et + "::<ctor>")
        if h is not None:
            r = h(g, st, None, vs, e, fr)
            if r is not None:
                return r
        cands = [f for f in g.prog.by_name.get(et + "::<ctor>", []) if (f.body is not None or f.inits)]
        def minp(f):
            return len([p for p in f.params if not p.get("dflt")])
        c2 = [f for f in cands if len(f.params) == len(vs)]
        c2 = [f for f in c2 if not (len(vs) == 1 and bare(f.params[0]["t"]) == bare(et))] or c2
        if len(c2) > 1:
            exact = [f for f in c2 if all(bare(p["t"]) == bare(t) for p, t in zip(f.params, ts))]
            if len(exact) == 1:
                c2 = exact
            else:
                near = [f for f in c2 if all(head(p["t"]) == head(t) or en.vty(bare(p["t"])) and en.vty(bare(t)) or not t
                                             for p, t in zip(f.params, ts))]
                # a const-ref and an rvalue overload behave alike
                if near:
                    sig = {tuple(bare(p["t"]) for p in f.params) for f in near}
                    if len(sig) == 1:
                        c2 = [sorted(near, key=lambda f: (sum(1 for p in f.params if p.get("ref") == 2), f.fid))[0]]
                    else:
                        c2 = near
        if len(c2) >= 1 and (len(c2) == 1 or len({tuple(bare(p["t"]) for p in f.params) for f in c2}) == 1):
            f = c2[0]
            root = mk("var", "#n%d:%d" % (e["l"][0], e["l"][1]), fr.ctx, "new")
            s2 = st.copy()
            s2.mem[root] = self.blank(et)
            out = []
            for (s3, v) in g.invoke(f, en.loc(root), list(vs), s2, fr, dict(e, k=e["k"] + "N")):
                s3 = s3.copy()
                if v is en.THROW:
                    out.append((s3, v))
                    continue
                val = s3.mem.pop(root)
                out.append((s3, val))
            return out
        r = g.prog.records.get(et)
        if r is not None and not cands and len(r.get("fields", [])) == len(vs):
            return [(st, tm.rec(et, {f["n"] if isinstance(f, dict) else f: v for f, v in zip(r["fields"], vs)}))]
        g.opaque[et] = g.opaque.get(et, 0) + 1
        return [(st, mk("new", et, *vs))]

    def wr(self, st, l, v, r):
        s2 = st.copy()
        self.g.write(s2, l, v)
        return [(s2, r)]

    # -------------------------------------------------------- free functions
    def free(self, e, st, fr, want_loc):
        fn = (e.get("fn") or "").replace("std::", "").replace("boost::", "")
        m = getattr(self, "f_" + fn.replace("::", "_").replace("<", "_").replace(">", ""), None)
        if m is not None and not fn.startswith("foreach"):
            return m(e, st, fr, want_loc)
        if fn.startswith("numeric_limits"):
            ty_, nm = fn[15:].split(">::")
            return [(st, self.limit(ty_, nm))]
        return None

    def limit(self, t, nm):
        if nm == "infinity":
            return INF
        if t == "double":
            return mk("sym", "DBL_" + nm, ty="real")
        w = {"int": (-2 ** 31, 2 ** 31 - 1), "unsigned char": (0, 255), "char": (-128, 127), "unsigned long": (0, 2 ** 64 - 1),
             "unsigned int": (0, 2 ** 32 - 1), "long": (-2 ** 63, 2 ** 63 - 1)}.get(t)
        if w:
            return num(w[1] if nm == "max" else w[0])
        return mk("sym", "%s_%s" % (t, nm), ty=en.vty(t))

    def f_move(self, e, st, fr, wl):
        if len(e["a"]) == 3:
            return self.f_copy(e, st, fr, wl)
        if wl and self.g.is_lvalue(e["a"][0]):
            return [(s2, mk("ref", l)) for (s2, l) in self.g.lv(e["a"][0], st, fr)]
        return self.g.ev(e["a"][0], st, fr)

    f_forward = f_move
    f_make_move_iterator = f_move
    f_as_const = f_move
    f_cref = f_move
    f_ref = f_move

    def f_make_pair(self, e, st, fr, wl):
        ta = targs(e["t"])
        return [(s2, self.pair(self.g.coerce(vs[0], ta[0]), self.g.coerce(vs[1], ta[1]))) for (s2, vs) in self.g.evs(e["a"], st, fr)]

    def f_make_tuple(self, e, st, fr, wl):
        return [(s2, tm.rec("tuple", {str(n): v for n, v in enumerate(vs)})) for (s2, vs) in self.g.evs(e["a"], st, fr)]

    def f_make_optional(self, e, st, fr, wl):
        t = (targs(e["t"]) or [""])[0]
        out = []
        for (s2, vs) in self.g.evs(e["a"], st, fr):
            if len(vs) == 1 and en.vty(t):
                out.append((s2, mk("some", self.g.coerce(vs[0], t))))
            elif t in self.g.prog.records:
                ts = [a.get("t") or a.get("cls") or "" for a in e["a"]]
                out.extend((s3, mk("some", v) if v is not en.THROW else v) for (s3, v) in self.ctor_by_types(e, t, vs, ts, s2, fr))
            elif len(vs) == 1:
                out.append((s2, mk("some", vs[0])))
            else:
                out.append((s2, mk("some", mk("new", t, *vs))))
        return out

    def f_get(self, e, st, fr, wl):
        g = self.g
        a = e["a"][0]
        t = a.get("t") or a.get("cls") or ""
        idx = e["ta"][0]
        h = head(t)
        out = []
        for (s2, l) in g.lv(a, st, fr):
            if h == "std::variant":
                ta = targs(t)
                n = ta.index(idx) if idx in ta else int(re.sub(r"\D", "", idx) or 0)
                out.append((s2, mk("ref", en.ext(l, mk("V", num(n))))))
            elif h == "std::pair":
                out.append((s2, mk("ref", en.ext(l, en.F("first" if idx.startswith("0") else "second")))))
            elif h == "std::array":
                out.append((s2, mk("ref", en.ext(l, en.I(num(int(re.sub(r"\D", "", idx))))))))
            else:
                out.append((s2, mk("ref", en.ext(l, en.F(re.sub(r"\D", "", idx))))))
        return out

    def vidx(self, v, t):
        n = len(targs(t))
        if v.op == "vrec":
            return v.a[0]
        if n > 1:
            tm.NALT[v] = n
        return mk("vidx", v, ty="nat")

    def f_holds_alternative(self, e, st, fr, wl):
        a = e["a"][0]
        ta = targs(a.get("t") or a.get("cls") or "")
        idx = e["ta"][0]
        n = num(ta.index(idx) if idx in ta else 0)
        out = []
        for (s2, v) in self.g.ev(a, st, fr):
            out.append((s2, tm.veq(self.vidx(v, a.get("t") or a.get("cls") or ""), n)))
        return out

    def f_get_if(self, e, st, fr, wl):
        a = e["a"][0]
        t = bare(a.get("t") or "")
        ta = targs(t[:-1] if t.endswith("*") else t)
        idx = e["ta"][0]
        n = num(ta.index(idx) if idx in ta else int(re.sub(r"\D", "", idx) or 0))
        g = self.g
        out = []
        for (s2, p) in g.ev(a, st, fr):
            l = g.deref(s2, p)
            v = g.read(s2, l)
            c = tm.veq(self.vidx(v, t[:-1] if t.endswith("*") else t), n)
            for (s3, b) in g.branch(s2, c):
                out.append((s3, mk("ref", en.ext(l, mk("V", n))) if b else tm.NULL))
        return out

    def heap(self, e, v, st, fr):
        g = self.g
        root = mk("heap", "new", tuple(e["l"]), fr.ctx)
        g.allocated(root)
        st = st.copy()
        if root in st.mem:
            old = mk("heapold", "new", tuple(e["l"]), fr.ctx)
            self.age(st, root, old)
            v = tm.subst(v, {root: old})
        st.mem[root] = v
        return [(st, mk("ref", en.loc(root)))]

    def age(self, st, root, old):
        """recency abstraction: the previous object of this site joins the summary"""
        m = {root: old}
        val = st.mem.pop(root)
        for r in list(st.mem):
            st.mem[r] = tm.subst(st.mem[r], m)
        val = tm.subst(val, m)
        if old in st.mem and st.mem[old] is not val:
            st.mem[old] = mk("summary", old)
        else:
            st.mem[old] = val
        st.facts = frozenset(tm.subst(f, m) for f in st.facts)
        for k, v in list(st.ghost.items()):
            if isinstance(v, T):
                st.ghost[k] = tm.subst(v, m)

    def f_make_shared(self, e, st, fr, wl):
        g = self.g
        t = targs(e["t"])[0]
        out = []
        for (s1, vs) in g.evs(e["a"], st, fr):
            ts = [a.get("t") or a.get("cls") or "" for a in e["a"]]
            if t in g.prog.records:
                if vs and len(vs) == 1 and bare(ts[0]) == bare(t):
                    rs = [(s1, vs[0])]
                elif not vs:
                    rs = self.ctor_by_types(e, t, vs, ts, s1, fr)
                else:
                    rs = self.ctor_by_types(e, t, vs, ts, s1, fr)
            else:
                rs = [(s1, vs[0] if vs else self.default_value(t))]
            for (s2, v) in rs:
                out.extend(self.heap(e, v, s2, fr))
        return out

    f_make_unique = f_make_shared

    def f_min(self, e, st, fr, wl):
        return self.minmax(e, st, fr, True)

    def f_max(self, e, st, fr, wl):
        return self.minmax(e, st, fr, False)

    f_fmin = f_min
    f_fmax = f_max

    def minmax(self, e, st, fr, mn):
        g = self.g
        out = []
        a = e["a"]
        t = a[0].get("t") or e["t"]
        if len(a) == 1:
            for (s1, v) in g.ev(a[0], st, fr):
                xs = [p.a[0] for p in en.parts(v)] if v.op == "seq" else None
                if not xs:
                    return None
                cur = [(s1, xs[0])]
                for x in xs[1:]:
                    nx = []
                    for (s2, y) in cur:
                        c = self.less(s2, x, y, e["t"]) if mn else self.less(s2, y, x, e["t"])
                        for (s3, b) in g.branch(s2, c):
                            nx.append((s3, x if b else y))
                    cur = nx
                out.extend(cur)
            return out
        if len(a) != 2:
            return None
        for (s1, x) in g.ev(a[0], st, fr):
            for (s2, y) in g.ev(a[1], s1, fr):
                # std::min(a,b) = b<a ? b : a ; std::max(a,b) = a<b ? b : a
                c = self.less(s2, y, x, e["t"]) if mn else self.less(s2, x, y, e["t"])
                for (s3, b) in g.branch(s2, c, fr.fn.where(e["l"])):
                    out.append((s3, y if b else x))
        return out

    def f_floor(self, e, st, fr, wl):
        return [(s2, self.floor(vs[0])) for (s2, vs) in self.g.evs(e["a"], st, fr)]

    def floor(self, v):
        if tm.is_num(v):
            return num(math.floor(v.a[0]))
        if tm.is_int(v):
            return v
        return mk("floor", v, ty="int")

    def f_ceil(self, e, st, fr, wl):
        out = []
        for (s2, vs) in self.g.evs(e["a"], st, fr):
            v = vs[0]
            out.append((s2, num(math.ceil(v.a[0])) if tm.is_num(v) else v if tm.is_int(v) else mk("ceil", v, ty="int")))
        return out

    def f_fabs(self, e, st, fr, wl):
        return self.absv(e, st, fr)

    def f_abs(self, e, st, fr, wl):
        return self.absv(e, st, fr)

    def absv(self, e, st, fr):
        out = []
        for (s2, vs) in self.g.evs(e["a"], st, fr):
            for (s3, b) in self.g.branch(s2, tm.lt0(vs[0])):
                out.append((s3, tm.neg(vs[0]) if b else vs[0]))
        return out

    def f_isfinite(self, e, st, fr, wl):
        return [(s2, mk("finite", vs[0], ty="bool")) for (s2, vs) in self.g.evs(e["a"], st, fr)]

    def f_abort(self, e, st, fr, wl):
        return [(st, en.THROW)]

    def f_swap(self, e, st, fr, wl):
        g = self.g
        out = []
        for (s1, l1) in g.lv(e["a"][0], st, fr):
            for (s2, l2) in g.lv(e["a"][1], s1, fr):
                s2 = s2.copy()
                x, y = g.read(s2, l1), g.read(s2, l2)
                g.write(s2, l1, y)
                g.write(s2, l2, x)
                out.append((s2, VOID))
        return out

    def f_next(self, e, st, fr, wl):
        out = []
        for (s2, vs) in self.g.evs(e["a"], st, fr):
            out.append((s2, self.advance(vs[0], vs[1] if len(vs) > 1 else num(1))))
        return out

    def f_prev(self, e, st, fr, wl):
        out = []
        for (s2, vs) in self.g.evs(e["a"], st, fr):
            out.append((s2, self.advance(vs[0], tm.neg(vs[1]) if len(vs) > 1 else num(-1))))
        return out

    def f_distance(self, e, st, fr, wl):
        out = []
        for (s2, vs) in self.g.evs(e["a"], st, fr):
            if vs[0].op == "iter" and vs[1].op == "iter" and tm.isnumeric(self.npos(vs[0])):
                out.append((s2, tm.sub(self.npos(vs[1]), self.npos(vs[0]))))
            else:
                out.append((s2, mk("distance", *vs, ty="int")))
        return out

    def f_begin(self, e, st, fr, wl):
        t = e["a"][0].get("t")
        return [(s2, self.it(l, num(0), self.kind(t) or "seq")) for (s2, l) in self.g.lv(e["a"][0], st, fr)]

    def f_end(self, e, st, fr, wl):
        t = e["a"][0].get("t")
        kd = self.kind(t) or "seq"
        out = []
        for (s2, l) in self.g.lv(e["a"][0], st, fr):
            c = self.g.read(s2, l)
            out.append((s2, self.it(l, en.size(c) if kd == "seq" else mk("endpos", c), kd)))
        return out

    f_cbegin = f_begin
    f_cend = f_end

    def f_size(self, e, st, fr, wl):
        return [(s2, en.size(v)) for (s2, v) in self.g.ev(e["a"][0], st, fr)]

    def f_back_inserter(self, e, st, fr, wl):
        return [(s2, mk("inserter", self.g.resolve(s2, l))) for (s2, l) in self.g.lv(e["a"][0], st, fr)]

    def f_front_inserter(self, e, st, fr, wl):
        return [(s2, mk("finserter", self.g.resolve(s2, l))) for (s2, l) in self.g.lv(e["a"][0], st, fr)]

    def f_inserter(self, e, st, fr, wl):
        return [(s2, mk("sinserter", self.g.resolve(s2, l))) for (s2, l) in self.g.lv(e["a"][0], st, fr)]

    # ---- callables
    def callf(self, f, args, st, fr, e):
        """call a functional object with byref/value arguments"""
        g = self.g
        if f.op == "lam":
            fobj = g.prog.funcs.get(f.a[0][0])
            if len(f.a[0]) > 1:
                # generic lambda: choose the instantiation named by the call site order
                cands = [g.prog.funcs[x] for x in f.a[0] if x in g.prog.funcs and len(g.prog.funcs[x].params) == len(args)]
                fobj = cands[0] if cands else fobj
            rs = g.invoke_lam(f, fobj, args, st, fr, e)
            out = []
            for (s2, v) in rs:
                if v.op == "ref" and fobj is not None and fobj.ret.get("ref"):
                    v = g.read(s2, v.a[0], en.vty(fobj.ret["t"]))
                out.append((s2, v))
            return out
        if f.op == "fn":
            fobj = g.prog.funcs.get(f.a[0])
            h = None if fobj is None else g.prims.get(fobj.name) or g.prims.get(f.a[0])
            if h is not None:
                own = fobj.cls and not fobj.static
                if not own or args[0].op == "byref":
                    r = h(g, st, args[0].a[0] if own else None, list(args[1:] if own else args), e, fr)
                    if r is not None:
                        return [(s2, g.read(s2, v.a[0], en.vty(fobj.ret["t"])) if v.op == "ref" and fobj.ret.get("ref") else v) for (s2, v) in r]
            if fobj is not None and fobj.body is not None:
                if fobj.cls and not fobj.static:
                    ol = args[0].a[0] if args[0].op == "byref" else None
                    if ol is None:
                        root = mk("var", "#mf", fr.ctx, "tmp")
                        st = st.copy()
                        st.mem[root] = args[0]
                        ol = en.loc(root)
                    rs = g.invoke(fobj, ol, args[1:], st, fr, e)
                else:
                    rs = g.invoke(fobj, None, args, st, fr, e)
                out = []
                for (s2, v) in rs:
                    if v.op == "ref" and fobj.ret.get("ref"):
                        v = g.read(s2, v.a[0], en.vty(fobj.ret["t"]))
                    out.append((s2, v))
                return out
        return [(st, mk("apply", f, *[g.argval(st, a) for a in args]))]

    def f_mem_fn(self, e, st, fr, wl):
        return [(s2, vs[0].a[0].a[0] if vs[0].op == "ref" and vs[0].a[0].op == "fn" else vs[0]) for (s2, vs) in self.g.evs(e["a"], st, fr)]

    def args(self, e, st, fr, tag):
        """the arguments of an algorithm that is followed as a loop"""
        return [self.g.fresh_phis(s, ("R", e["l"][0], e["l"][1], tag, fr.ctx), list(vs)) for (s, vs) in self.g.evs(e["a"], st, fr)]

    def itloop(self, e, st, fr, x, y, body, tag):
        """loop an index over [x,y): body(state, byref elem, idx) -> [(state,kind,val)]"""
        g = self.g
        if x.op != "iter" or y.op != "iter":
            return None
        kind = x.a[2] if len(x.a) > 2 else "seq"
        cl = x.a[0]
        lo = self.npos(x)
        c = g.read(st, cl)
        hi = self.npos(y)
        if not tm.isnumeric(lo) or not tm.isnumeric(hi):
            return None
        if kind == "seq" and hi is en.size(c):
            hi = None       # up to the end: the size is that of the container, which must not change meanwhile
        s = {"l": e["l"]}
        ct = {"seq": "std::vector<x>", "map": "std::map<x,y>", "set": "std::set<x>"}[kind]

        box = {}

        def bind(s1, el):
            box["el"] = el
            return [s1]
        return g.foreach(s, st, fr, cl, ct, bind, lambda s1: body(s1, mk("byref", g.resolve(s1, box["el"]))), lo=lo, hi=hi, tag=tag)

    def quant(self, e, st, fr, stop, found, rest, tag):
        g = self.g
        out = []
        for (s1, vs) in self.args(e, st, fr, tag):
            x, y, f = vs

            def body(s2, el):
                r = []
                for (s3, v) in self.callf(f, [el], s2, fr, e):
                    for (s4, b) in g.branch(s3, g.truth(v), fr.fn.where(e["l"])):
                        r.append((s4, "b" if b == stop else "n", None))
                return r
            # distinguish break from exhaustion with a ghost
            def body2(s2, el):
                r = []
                for (s3, k, v) in body(s2, el):
                    if k == "b":
                        r.append((s3, "r", found))
                    else:
                        r.append((s3, k, v))
                return r
            rs = self.itloop(e, s1, fr, x, y, body2, tag)
            if rs is None:
                return None
            for (s2, k, v) in rs:
                out.append((s2, v if k == "r" else rest))
        return out

    def f_all_of(self, e, st, fr, wl):
        return self.quant(e, st, fr, False, FALSE, TRUE, "all")

    def f_any_of(self, e, st, fr, wl):
        return self.quant(e, st, fr, True, TRUE, FALSE, "any")

    def f_none_of(self, e, st, fr, wl):
        return self.quant(e, st, fr, True, FALSE, TRUE, "none")

    def find(self, e, st, fr, test, tag):
        """test(state, elem, args) -> [(state, bool)] ; returns iterators"""
        g = self.g
        out = []
        for (s1, vs) in self.args(e, st, fr, tag):
            x, y = vs[0], vs[1]

            def body(s2, el):
                r = []
                for (s3, b) in test(s2, el, vs):
                    r.append((s3, "r", self.pos_of(s3, el)) if b else (s3, "n", None))
                return r
            rs = self.itloop(e, s1, fr, x, y, body, tag)
            if rs is None:
                return None
            for (s2, k, v) in rs:
                out.append((s2, v if k == "r" else y))
        return out

    def pos_of(self, st, el):
        l = el.a[0]
        sel = l.a[1][-1]
        base = mk("loc", l.a[0], l.a[1][:-1])
        if sel.op == "I":
            return self.it(base, sel.a[0])
        if sel.op == "P":
            return self.it(base, sel.a[0], "map")
        return self.it(base, mk("fpos", self.g.read(st, base), sel.a[0]), "set")

    def f_find_if(self, e, st, fr, wl):
        g = self.g

        def test(s2, el, vs):
            return [x for (s3, v) in self.callf(vs[2], [el], s2, fr, e) for x in g.branch(s3, g.truth(v), fr.fn.where(e["l"]))]
        return self.find(e, st, fr, test, "findif")

    def f_find_if_not(self, e, st, fr, wl):
        g = self.g

        def test(s2, el, vs):
            return [(s4, not b) for (s3, v) in self.callf(vs[2], [el], s2, fr, e) for (s4, b) in g.branch(s3, g.truth(v))]
        return self.find(e, st, fr, test, "findifnot")

    def f_find(self, e, st, fr, wl):
        g = self.g

        def test(s2, el, vs):
            v = g.read(s2, el.a[0], vs[2].ty if vs[2].op != "aff" else "int")
            return g.branch(s2, self.equal(s2, v, vs[2]), fr.fn.where(e["l"]))
        return self.find(e, st, fr, test, "find")

    def f_for_each(self, e, st, fr, wl):
        out = []
        for (s1, vs) in self.args(e, st, fr, "foreach"):
            rs = self.itloop(e, s1, fr, vs[0], vs[1], lambda s2, el: [(s3, "n", None) for (s3, _) in self.callf(vs[2], [el], s2, fr, e)], "foreach")
            if rs is None:
                return None
            out.extend((s2, vs[2]) for (s2, k, v) in rs)
        return out

    def emit(self, st, o, v, fr):
        """write one value through an output iterator; returns (state, next iterator)"""
        g = self.g
        st = st.copy()
        if o.op == "inserter":
            g.write(st, o.a[0], en.append(g.read(st, o.a[0]), v))
            return st, o
        if o.op == "iter":
            g.write(st, self.iter_deref(st, o), v)
            return st, self.advance(o, num(1))
        if o.op == "finserter":
            c = g.read(st, o.a[0])
            g.write(st, o.a[0], en.mkseq([mk("one", v)] + en.parts(c)))
            return st, o
        if o.op == "sinserter":
            c = g.read(st, o.a[0])
            g.write(st, o.a[0], g.mput(st, c, v, TRUE))
            return st, o
        raise en.TooComplex("output iterator %s" % o.op)

    def f_transform(self, e, st, fr, wl):
        g = self.g
        if len(e["a"]) not in (4, 5):
            return None
        out = []
        for (s1, vs) in self.args(e, st, fr, "transform"):
            x, y, o, f = vs[0], vs[1], vs[-2], vs[-1]
            z = vs[2] if len(vs) == 5 else None
            if z is not None and (z.op != "iter" or any(len(v.a) > 2 and v.a[2] != "seq" for v in (x, z))):
                return None
            oroot = mk("var", "#o%d:%d" % (e["l"][0], e["l"][1]), fr.ctx, "out")
            s1 = s1.copy()
            s1.mem[oroot] = o

            def body(s2, el):
                r = []
                for (s3, v) in self.callf(f, [el] if z is None else [el, self.partner(s2, el, self.npos(x), z)], s2, fr, e):
                    oi = s3.mem[oroot]
                    s4, oi2 = self.emit(s3, oi, v, fr)
                    s4.mem[oroot] = oi2
                    r.append((s4, "n", None))
                return r
            rs = self.itloop(e, s1, fr, x, y, body, "transform")
            if rs is None:
                return None
            for (s2, k, v) in rs:
                oi = s2.mem[oroot]
                s2 = s2.copy()
                del s2.mem[oroot]
                out.append((s2, oi))
        return out

    def f_copy(self, e, st, fr, wl):
        g = self.g
        out = []
        for (s1, vs) in g.evs(e["a"], st, fr):
            x, y, o = vs
            v = self.range(s1, x, y)
            s2 = s1.copy()
            if o.op == "inserter":
                g.write(s2, o.a[0], en.concat(g.read(s2, o.a[0]), v))
                out.append((s2, o))
            elif o.op == "iter" and tm.isnumeric(self.npos(o)):
                c = g.read(s2, o.a[0])
                p = self.npos(o)
                q = tm.add(p, en.size(v))
                g.write(s2, o.a[0], en.mkseq(en.parts(self.slice(s2, c, num(0), p)) + en.parts(v) + en.parts(self.slice(s2, c, q, en.size(c)))))
                out.append((s2, self.it(o.a[0], q)))
            else:
                return None
        return out

    def pred_term(self, st, f, c, fr, e, ety=None):
        """the predicate as a boolean term over the generic element of c"""
        g = self.g
        root = mk("var", "#pk", fr.ctx, "pk")
        s = st.copy()
        s.mem[root] = mk("elemvar", ty=ety)
        old = getattr(g, "trust_asserts", True)
        g.trust_asserts = None if old is None else False
        try:
            rs = self.callf(f, [mk("byref", en.loc(root))], s, fr, e)
        finally:
            g.trust_asserts = old
        out = []
        for (s2, v) in rs:
            for (s3, b) in g.branch(s2, g.truth(v)):
                if b:
                    out.append(tm.band(*[x for x in s3.facts if x not in st.facts]))
        return tm.bor(*out)

    def cmp_term(self, st, f, fr, e, ety=None):
        """the comparator as a boolean term over two generic elements"""
        g = self.g
        a, b = mk("elemvar", "a", ty=ety), mk("elemvar", "b", ty=ety)
        if f is None:
            return None
        s = st.copy()
        ls = []
        for n, v in (("a", a), ("b", b)):
            root = mk("var", "#cmp" + n, fr.ctx, "cmp")
            s.mem[root] = v
            ls.append(mk("byref", en.loc(root)))
        old = getattr(g, "trust_asserts", True)
        g.trust_asserts = None if old is None else False
        try:
            rs = self.callf(f, ls, s, fr, e)
        finally:
            g.trust_asserts = old
        out = []
        for (s2, v) in rs:
            for (s3, r) in g.branch(s2, g.truth(v)):
                if r:
                    out.append(tm.band(*[x for x in s3.facts if x not in st.facts]))
        return tm.bor(*out)

    def extremum(self, e, st, fr, kind):
        """std::min_element / std::max_element: the position of an extreme element under the comparator"""
        g = self.g
        out = []
        for (s1, vs) in g.evs(e["a"], st, fr):
            x, y = vs[0], vs[1]
            if x.op != "iter" or y.op != "iter":
                return None
            c = self.range(s1, x, y)
            t = "std::pair<double, bool>"
            if len(vs) > 2:
                cmp = self.cmp_term(s1, vs[2], fr, e)
            else:
                cmp = self.less(s1, mk("elemvar", "a"), mk("elemvar", "b"), t) if "pair<double" in str(e.get("ta") or e.get("fid") or "") else mk("natural")
            k = mk("argx", kind, c, cmp, ty="nat")
            for (s2, b) in g.branch(s1, tm.eq0(en.size(c))):
                if b:
                    out.append((s2, y))
                else:
                    for s3 in g.assume(s2, tm.lt(k, en.size(c))):
                        out.append((s3, self.advance(x, k)))
        return out

    def f_min_element(self, e, st, fr, wl):
        return self.extremum(e, st, fr, "min")

    def f_max_element(self, e, st, fr, wl):
        return self.extremum(e, st, fr, "max")

    def f_remove_if(self, e, st, fr, wl):
        return self.remove(e, st, fr, True)

    def f_copy_if(self, e, st, fr, wl):
        g = self.g
        out = []
        if getattr(g, "copyloop", False):
            # element by element: the predicate may be of interest itself
            for (s1, vs) in self.args(e, st, fr, "copyif"):
                if vs[2].op != "inserter":
                    return None

                def body(s2, el):
                    r = []
                    for (s3, v) in self.callf(vs[3], [el], s2, fr, e):
                        for (s4, b) in g.branch(s3, g.truth(v)):
                            r.append((self.emit(s4, vs[2], g.argval(s4, el), fr)[0] if b else s4, "n", None))
                    return r
                rs = self.itloop(e, s1, fr, vs[0], vs[1], body, "copyif")
                if rs is None:
                    return None
                out.extend((s2, vs[2]) for (s2, k, v) in rs)
            return out
        for (s1, vs) in g.evs(e["a"], st, fr):
            x, y, o, f = vs
            c = self.range(s1, x, y)
            p = self.pred_term(s1, f, c, fr, e)
            s2 = s1.copy()
            v = mk("filter", c, p)
            if o.op != "inserter":
                return None
            g.write(s2, o.a[0], en.concat(g.read(s2, o.a[0]), en.mkseq([v])))
            out.append((s2, o))
        return out

    def remove(self, e, st, fr, byp):
        g = self.g
        out = []
        for (s1, vs) in g.evs(e["a"], st, fr):
            x, y, f = vs
            if x.op != "iter":
                return None
            cl = x.a[0]
            c = g.read(s1, cl)
            lo, hi = self.npos(x), self.npos(y)
            r = self.range(s1, x, y)
            if byp:
                p = tm.bnot(self.pred_term(s1, f, r, fr, e))
            else:
                p = tm.bnot(tm.veq(mk("elemvar", ty=f.ty), f))
            kept = en.mkseq(en.parts(self.slice(s1, c, num(0), lo)) + [mk("filter", r, p)] + en.parts(self.slice(s1, c, hi, en.size(c))))
            s2 = s1.copy()
            out.append((s2, mk("iter", cl, mk("rmpos", kept), "seq")))
        return out

    def f_remove(self, e, st, fr, wl):
        return self.remove(e, st, fr, False)

    def f_unique(self, e, st, fr, wl):
        g = self.g
        out = []
        for (s1, vs) in g.evs(e["a"], st, fr):
            if vs[0].op != "iter" or vs[0].a[1] is not num(0):
                return None
            c = g.read(s1, vs[0].a[0])
            out.append((s1, mk("iter", vs[0].a[0], mk("rmpos", en.mkseq([mk("uniq", c)])), "seq")))
        return out

    def f_reverse(self, e, st, fr, wl):
        g = self.g
        out = []
        for (s1, vs) in g.evs(e["a"], st, fr):
            if vs[0].op != "iter" or vs[1].op != "iter" or vs[0].a[0] is not vs[1].a[0]:
                return None
            s2 = s1.copy()
            cl = vs[0].a[0]
            c = g.read(s2, cl)
            lo, hi = self.npos(vs[0]), self.npos(vs[1])
            if not tm.isnumeric(lo) or not tm.isnumeric(hi):
                return None
            new = en.tabulate(lambda i: g.elem(s2, c, tm.sub(tm.sub(tm.add(lo, hi), num(1)), i)), lo, hi)
            g.write(s2, cl, en.mkseq(en.parts(self.slice(s2, c, num(0), lo)) + en.parts(new) + en.parts(self.slice(s2, c, hi, en.size(c)))))
            out.append((s2, VOID))
        return out

    def f_accumulate(self, e, st, fr, wl):
        """a fold: a loop over the range with a variable"""
        g = self.g
        out = []
        t = en.vty(e.get("t"))
        for (s1, vs) in self.args(e, st, fr, "accumulate"):
            if vs[0].op != "iter" or len(vs) == 3 and not tm.isnumeric(vs[2]):
                return None
            root = mk("var", "#acc%d:%d" % (e["l"][0], e["l"][1]), fr.ctx, "acc")
            s1 = s1.copy()
            s1.mem[root] = g.coerce(vs[2], e.get("t"))

            def body(s2, el):
                r = []
                for (s3, v) in ([(s2, tm.add(s2.mem[root], g.argval(s2, el)))] if len(vs) == 3 else self.callf(vs[3], [s2.mem[root], el], s2, fr, e)):
                    s3 = s3.copy()
                    g.write(s3, en.loc(root), g.coerce(v, e.get("t")))
                    r.append((s3, "n", None))
                return r
            rs = self.itloop(e, s1, fr, vs[0], vs[1], body, "accumulate")
            if rs is None:
                return None
            for (s2, k, v) in rs:
                s2 = s2.copy()
                x = s2.mem.pop(root)
                out.append((s2, x))
        return out

    def f_count_if(self, e, st, fr, wl):
        g = self.g
        out = []
        for (s1, vs) in self.args(e, st, fr, "count_if"):
            if vs[0].op != "iter":
                return None
            root = mk("var", "#cnt%d:%d" % (e["l"][0], e["l"][1]), fr.ctx, "count")
            s1 = s1.copy()
            s1.mem[root] = num(0)

            def body(s2, el):
                r = []
                for (s3, v) in self.callf(vs[2], [el], s2, fr, e):
                    for (s4, b) in g.branch(s3, g.truth(v)):
                        if b:
                            s4 = s4.copy()
                            g.write(s4, en.loc(root), tm.add(s4.mem[root], num(1)))
                        r.append((s4, "n", None))
                return r
            rs = self.itloop(e, s1, fr, vs[0], vs[1], body, "count_if")
            if rs is None:
                return None
            for (s2, k, v) in rs:
                s2 = s2.copy()
                x = s2.mem.pop(root)
                out.append((s2, x))
        return out

    def f_sort(self, e, st, fr, wl):
        g = self.g
        out = []
        for (s1, vs) in g.evs(e["a"], st, fr):
            if vs[0].op != "iter" or vs[0].a[1] is not num(0):
                return None
            s2 = s1.copy()
            c = g.read(s2, vs[0].a[0])
            g.write(s2, vs[0].a[0], mk("sorted", c))
            out.append((s2, VOID))
        return out

    def f_fill(self, e, st, fr, wl):
        g = self.g
        out = []
        for (s1, vs) in g.evs(e["a"], st, fr):
            if vs[0].op != "iter" or vs[1].op != "iter":
                return None
            s2 = s1.copy()
            cl = vs[0].a[0]
            c = g.read(s2, cl)
            lo, hi = self.npos(vs[0]), self.npos(vs[1])
            g.write(s2, cl, en.mkseq(en.parts(self.slice(s2, c, num(0), lo)) + [mk("fill", vs[2], tm.sub(hi, lo))] +
                                     en.parts(self.slice(s2, c, hi, en.size(c)))))
            out.append((s2, VOID))
        return out

    def partner(self, st, el, lo, z):
        """the element of the range starting at z at the position el has in the range starting at lo"""
        sel = el.a[0].a[1][-1]
        if sel.op != "I":
            return None
        return mk("byref", self.g.resolve(st, self.iter_loc(st, self.advance(z, tm.sub(sel.a[0], lo)))))

    def f_equal(self, e, st, fr, wl):
        g = self.g
        out = []
        for (s1, vs) in self.args(e, st, fr, "equal"):
            pred = vs[-1] if vs[-1].op in ("lam", "fn") else None
            its = vs[:-1] if pred is not None else vs
            if len(its) not in (3, 4) or any(v.op != "iter" for v in its):
                return None
            n = tm.sub(self.npos(its[1]), self.npos(its[0]))
            if len(its) == 3:
                its = list(its) + [self.advance(its[2], n)]
            if pred is None:
                a, b = self.range(s1, its[0], its[1]), self.range(s1, its[2], its[3])
                out.append((s1, self.equal(s1, a, b)))
                continue
            if any(len(v.a) > 2 and v.a[2] != "seq" for v in its):
                return None
            lo = self.npos(its[0])

            def body(s2, el):
                r = []
                for (s3, v) in self.callf(pred, [el, self.partner(s2, el, lo, its[2])], s2, fr, e):
                    for (s4, b) in g.branch(s3, g.truth(v), fr.fn.where(e["l"])):
                        r.append((s4, "n", None) if b else (s4, "r", FALSE))
                return r
            for (s2, same) in g.branch(s1, tm.numeq(n, tm.sub(self.npos(its[3]), self.npos(its[2]))), fr.fn.where(e["l"])):
                if not same:
                    out.append((s2, FALSE))
                    continue
                rs = self.itloop(e, s2, fr, its[0], its[1], body, "equal")
                if rs is None:
                    return None
                out.extend((s3, v if k == "r" else TRUE) for (s3, k, v) in rs)
        return out
