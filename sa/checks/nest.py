"""Loop nests that produce one thing for every combination of elements.

A Rule says: for all positions (i1 .. in) below the given numbers of elements and satisfying
the condition, the function produces a given thing.  Two passes over the abstract execution
decide it.  The first looks at everything that is produced and requires that some rule asks
for it at the positions of the loops running at that moment; it also records in which loops
each rule is served.  The second follows these loops: an iteration must serve the rule (or
run the next inner loop to its end) unless the condition is false there or there is nothing
to iterate over, and a loop must not end before its position has reached the number of
elements.  How positions are represented in the program (index, iterator, range) and in which
order the loops of different rules come does not matter."""
from itertools import permutations
from .util import *


RESET = "reset"


class Rule:
    def __init__(self, name, levels, event, want, cond=None, what="", fixed=False):
        self.fixed = fixed            # the loops are nested in the order of the levels
        self.name, self.levels, self.event, self.want, self.what = name, levels, event, want, what
        self.cond = cond or (lambda eng, st, ix: TRUE)


class Nest(Mon):
    def __init__(self, rules, serve=None, open_ok=False):
        self.rules = rules
        self.serve = serve          # rule name -> (keys of its loops, permutation)
        self.seen = {}              # first pass: the same, as observed
        self.bad = []               # (rule names, message, state, line)
        self.odd = []
        self.served = set()

    # ---- positions
    def stack(self, st):
        return st.ghost.get("stk") or ()

    def positions(self, st):
        return [st.ghost["p:%d" % i] for i in range(len(self.stack(st)))]

    def pkey(self, s):
        return (s.ghost.get("stk"), s.ghost.get("fl"))

    def on_enter(self, eng, st, key):
        st = st.copy()
        g = st.ghost
        stk = self.stack(st) + (lkey(key),)
        g["stk"] = stk
        g["p:%d" % (len(stk) - 1)] = num(0)
        self.clear(g, lkey(key), st)
        return st

    def clear(self, g, key, st):
        if self.serve is None:
            return
        fl = g.get("fl") or frozenset()
        for r in self.rules:
            ks = self.serve.get(r.name)
            if ks and key in ks[0]:
                n = ks[0].index(key) + 1
                fl = frozenset(x for x in fl if not (x[0] == r.name and x[1] >= n))
        g["fl"] = fl

    def on_back(self, eng, st, key, head):
        st = st.copy()
        g = st.ghost
        k = lkey(key)
        stk = self.stack(st)
        d = stk.index(k)
        if self.serve is not None:
            for r in self.rules:
                ks = self.serve.get(r.name)
                if ks and k in ks[0] and stk[:len(ks[0])][:d + 1] == ks[0][:d + 1]:
                    self.iteration(eng, st, r, ks, d)
            self.clear(g, k, st)
        g["p:%d" % d] = tm.add(g["p:%d" % d], num(1))
        for t in self.invariant(eng, st):
            if not implied(eng, st, t):
                self.bad.append((None, "the lists do not grow or stay as the loop requires: %s" % tm.show(t, 5), st))
                break
        return st

    # ---- what holds whenever an iteration starts: supposed at the head, verified at the end of every iteration
    def invariant(self, eng, st):
        return []

    def on_head(self, eng, st, key):
        sts = [st]
        for t in self.invariant(eng, st):
            sts = [z for s in sts for z in eng.assume(s, t)]
        return sts

    def iteration(self, eng, st, r, ks, d):
        """one iteration of loop number d of the rule ends"""
        n = len(ks[0])
        if (r.name, d + 1) in (st.ghost.get("fl") or ()):
            return
        ix = [st.ghost["p:%d" % i] for i in range(d + 1)]
        if d + 1 == n:
            full = order(ix, ks[1])
            for z in inrange(eng, st, r, full):
                for z2 in eng.assume(z, r.cond(eng, z, full)):
                    self.bad.append((r.name, "%s: nothing for element %s" % (r.what, where(ix)), z2))
                    return
            return
        if ks[1] != tuple(range(n)):
            self.odd.append("%s: the loops are nested in another order" % r.what)
            return
        for (z, c) in r.levels[d + 1](eng, st, ix):
            if not implied(eng, z, tm.numeq(c, num(0))) and not self.never(eng, z, r, ix):
                self.bad.append((r.name, "%s: the elements below %s are not all visited" % (r.what, where(ix)), z))
                return

    def never(self, eng, st, r, ix):
        """the condition is false whatever the remaining positions are"""
        full = list(ix) + [mk("sym", "%%N%d" % i, ty="nat") for i in range(len(r.levels) - len(ix))]
        return all(not eng.assume(z, r.cond(eng, z, full)) for z in inrange(eng, st, r, full, len(ix)))

    def on_exit(self, eng, st, key, kind):
        k = lkey(key)
        st = st.copy()
        g = st.ghost
        stk = self.stack(st)
        if k not in stk:
            return st
        d = stk.index(k)
        if self.serve is not None and kind == "n":
            for r in self.rules:
                ks = self.serve.get(r.name)
                if ks and d < len(ks[0]) and stk[:d + 1] == ks[0][:d + 1]:
                    ix = order([g["p:%d" % i] for i in range(d + 1)], ks[1]) if d + 1 == len(ks[0]) else [g["p:%d" % i] for i in range(d + 1)]
                    lv = ks[1][d] if ks[1][d] < len(r.levels) else d
                    pos = g["p:%d" % d]
                    if all(implied(eng, z, tm.le(c, pos)) for (z, c) in r.levels[lv](eng, st, ix[:lv])):
                        g["fl"] = (g.get("fl") or frozenset()) | {(r.name, d)}
        for i in range(d, len(stk)):
            g.pop("p:%d" % i, None)
        g["stk"] = stk[:d]
        return st

    # ---- what is produced
    def on_write(self, eng, st, l, v):
        hit = False
        msgs = []
        stk, pos = self.stack(st), self.positions(st)
        for r in self.rules:
            pay = r.event(eng, st, l, v)
            if pay is None:
                continue
            if pay is RESET:
                fl = st.ghost.get("fl") or frozenset()
                if stk:
                    self.bad.append((r.name, "%s: what was produced is changed or discarded" % r.what, st))
                elif any(x[0] == r.name for x in fl):
                    st.ghost["fl"] = frozenset(x for x in fl if x[0] != r.name)
                continue
            hit = True
            if len(r.levels) != len(stk):
                msgs.append((0, None, "in %d loops instead of %d" % (len(stk), len(r.levels))))
                continue
            for pm in ([tuple(range(len(stk)))] if r.fixed else permutations(range(len(stk)))):
                ix = order(pos, pm)
                m = None
                for z in inrange(eng, st, r, ix):
                    m = r.want(eng, z, ix, pay)
                    if m is not None:
                        break
                if m is None and getattr(self, "strict", False) and not within(eng, st, r, ix):
                    m = "for positions %s beyond the last element" % where(ix)
                if m is None:
                    if self.seen.setdefault(r.name, (stk, pm)) != (stk, pm):
                        self.odd.append("%s is served in different loops" % r.what)
                    if self.serve is not None:
                        fl = st.ghost.get("fl") or frozenset()
                        st.ghost["fl"] = fl | {(r.name, len(stk))}
                    return
                msgs.append((1 if pm == tuple(range(len(stk))) else 0, r.name, "%s: %s" % (r.what, m)))
        if hit:
            msgs.sort(key=lambda m: -m[0])
            if self.serve is None:
                self.bad.append((msgs[0][1], msgs[0][2], st))


def lkey(key):
    return str(key[:3]) + str(hash(key) % 100000)


def where(ix):
    return "(" + ", ".join(tm.show(i) for i in ix) + ")"


def order(ix, pm):
    out = [None] * len(ix)
    for i, p in enumerate(pm):
        if p < len(ix):
            out[p] = ix[i]
    return [x if x is not None else ix[n] for n, x in enumerate(out)]


def inrange(eng, st, r, ix, lo=0):
    """states in which the positions are below the numbers of elements"""
    sts = [st]
    for k in range(len(ix)):
        nx = []
        for s in sts:
            for (z, c) in r.levels[k](eng, s, ix[:k]):
                nx.extend(eng.assume(z, tm.lt(ix[k], c)))
        sts = nx
    return sts


def within(eng, st, r, ix):
    """the positions are those of elements"""
    sts = [st]
    for k in range(len(ix)):
        nx = []
        for s in sts:
            for (z, c) in r.levels[k](eng, s, ix[:k]):
                if not implied(eng, z, tm.lt(ix[k], c)):
                    return False
                nx.extend(eng.assume(z, tm.lt(ix[k], c)))
        sts = nx
    return True


def check_nest(cx, f, rules, mkeng, st=None, at_end=None, rule="produced", strict=True, nest=Nest, due=None, args=None):
    """decide the rules on one function; at_end(eng, s, k, v) sees the final states.
    strict: a position not known to be that of an element is reported"""
    mon = nest(rules)
    mon.strict = strict
    eng = mkeng(mon)
    ends = cx.run(eng, f, st=st.copy() if st else None, **({"args": args} if args else {}))
    unk = [s for (n, m, s) in mon.bad]
    for (n, m, s) in mon.bad[:6]:
        cx.ob(rule, f.where(), False, m, s.trace(), n or "")
    rules = [r for r in rules if r.name in mon.seen or not getattr(r, "optional", lambda: False)()]
    for r in rules:
        if r.name not in mon.seen and not mon.bad:
            cx.ob(rule, f.where(), False, "%s: never" % r.what, (), r.name)
    if mon.bad:
        return ends
    if mon.odd:
        raise TooComplex(mon.odd[0])
    if len(mon.seen) != len(rules):
        return ends
    mon2 = nest(rules, serve=mon.seen)
    eng = mkeng(mon2)
    ends = cx.run(eng, f, st=st.copy() if st else None, **({"args": args} if args else {}))
    if mon2.odd and not mon2.bad:
        raise TooComplex(mon2.odd[0])
    for r in rules:
        b = [x for x in mon2.bad if x[0] == r.name]
        cx.ob(rule, f.where(), not b, b[0][1] if b else "", b[0][2].trace() if b else (), r.name)
        for (s, k, v) in ends:
            if k == "t" or due and not due(eng, s, v):
                continue
            ok = (r.name, 0) in (s.ghost.get("fl") or ()) or r.levels and all(implied(eng, z, tm.numeq(c, num(0))) for (z, c) in r.levels[0](eng, s, []))
            cx.ob(rule, f.where(), ok or b, "%s: not for all elements" % r.what, s.trace(), r.name)
    if at_end:
        for (s, k, v) in ends:
            at_end(eng, s, k, v)
    return ends


def seq_is(eng, s, got, parts):
    """got is the concatenation of the images of the parts: (container, image of an element) pairs; message or None"""
    off = num(0)
    total = num(0)
    for (c, f) in parts:
        total = tm.add(total, en.size(c))
    if not implied(eng, s, tm.numeq(en.size(got), total)):
        return "%s elements instead of %s" % (tm.show(en.size(got)), tm.show(total))
    for n, (c, f) in enumerate(parts):
        K = mk("sym", "%%K%d" % n, ty="nat")
        for z in eng.assume(s, tm.lt(K, en.size(c))):
            a = eng.elem(z, got, tm.add(off, K))
            w = f(eng.elem(z, c, K))
            for (z2, (x, y)) in eng.splits(z, (a, w)):
                if not sameval(eng, z2, x, y):
                    return "element %s of part %d is %s instead of %s" % (tm.show(K), n + 1, tm.show(x, 5), tm.show(y, 5))
        off = tm.add(off, en.size(c))
    return None
