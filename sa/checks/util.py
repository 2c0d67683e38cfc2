"""Helpers shared by the property checks."""
from ..core import *
from ..stl import NONE


class Mon:
    pass


def this_init(f):
    return mk("init", mk("this", f.cls))


def arg(f, n):
    p = f.params[n]
    return mk("init", mk("argobj", n, p["n"]), ty=None if p.get("ref") else en.vty(p["t"]))


def argv(f, n):
    """value of argument n (scalars of reference parameters are typed on reading)"""
    p = f.params[n]
    return mk("init", mk("argobj", n, p["n"]), ty=en.vty(p["t"]))


def fld(v, *fs, ty=None):
    for k, f in enumerate(fs):
        v = tm.getf(v, f, ty if k == len(fs) - 1 else None)
    return v


def this_loc(f, *fs):
    return loc(mk("this", f.cls), *[F(x) for x in fs])


def implied(eng, s, c):
    """c holds in every concrete state of s"""
    if eng.simp(s, c) is True:
        return True
    if not eng.assume(s, c, False):
        return True
    return c.op in ("eq0", "le0", "lt0") and en.by_equations(eng, s, c)


def eqv(eng, s, x, y):
    """two truth values agree in every concrete state of s"""
    if veqb(eng, s, x, y):
        return True
    for a in (True, False):
        for s2 in eng.assume(s, x, a):
            if eng.assume(s2, y, not a):
                return False
    return True


def veqb(eng, s, x, y):
    if x is y:
        return True
    a, b = eng.simp(s, x), eng.simp(s, y)
    return a is not None and a == b


def sameval(eng, s, x, y):
    """equal values, by structure or because the numeric domain forces it"""
    if eng.same(s, x, y):
        return True
    if eng.isbool(x) or eng.isbool(y):
        return eqv(eng, s, eng.truth(x), eng.truth(y))
    if tm.isnumeric(x) and tm.isnumeric(y):
        return implied(eng, s, tm.numeq(x, y))
    if x.op == "rec" and y.op == "rec":
        fx, fy = dict(x.a[1]), dict(y.a[1])
        return set(fx) == set(fy) and all(sameval(eng, s, fx[k], fy[k]) for k in fx)
    return False


def deref(eng, s, v, ty=None):
    return eng.read(s, v.a[0], ty) if v.op == "ref" else v


def objptr(ol):
    """pointer value an object location was reached through"""
    if ol.a[0].op == "obj" and not ol.a[1]:
        return ol.a[0].a[0]
    return ol


def cases(eng, s, *conds):
    """split s on every condition"""
    out = [s]
    for c in conds:
        out = [z for y in out for z in (eng.assume(y, c) + eng.assume(y, c, False))]
    return out


def enum(*names):
    return [mk("enum", n) for n in names]


def split_enum(eng, s, v, names):
    out = []
    for n in names:
        for s2 in eng.assume(s, tm.eq(v, mk("enum", n))):
            out.append((n.split("::")[-1], s2))
    return out
