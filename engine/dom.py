"""Numeric domain: affine expressions over symbols, interval bounds, and a small set of linear facts
(each fact is an affine expression known to be >= 0)."""
import itertools
from math import gcd

INF = float("inf")
_sym = itertools.count(1)


def newsym():
    return next(_sym)


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        s = "".join(" %+d*s%d" % (k, v) for v, k in self.t)
        return "(%d%s)" % (self.c, s)

    def is_const(self):
        return not self.t

    def syms(self):
        return [s for s, _ in self.t]

    def coef(self, s):
        for v, k in self.t:
            if v == s:
                return k
        return 0


def const(c):
    return Lin(c)


def sym(s):
    return Lin(0, ((s, 1),))


def add(a, b, k=1):
    if not b.t:
        return Lin(a.c + k * b.c, a.t)
    d = dict(a.t)
    for s, v in b.t:
        n = d.get(s, 0) + k * v
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return Lin(a.c + k * b.c, tuple(sorted(d.items())))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 0:
        return Lin(0)
    return Lin(a.c * k, tuple((s, v * k) for s, v in a.t))


def addc(a, c):
    return Lin(a.c + c, a.t)


def subst(a, m):
    """m: sym -> Lin"""
    r = Lin(a.c)
    for s, v in a.t:
        e = m.get(s)
        r = add(r, e if e is not None else sym(s), v)
    return r


class Num:
    """bounds + facts. Copied on fork."""
    __slots__ = ("bnd", "facts")

    def __init__(self, bnd=None, facts=None):
        self.bnd = bnd if bnd is not None else {}
        self.facts = facts if facts is not None else {}

    def copy(self):
        return Num(dict(self.bnd), dict(self.facts))

    def fresh(self, lo=-INF, hi=INF):
        s = newsym()
        self.bnd[s] = (lo, hi)
        return sym(s)

    def b(self, s):
        return self.bnd.get(s, (-INF, INF))

    def ival(self, e):
        lo = hi = e.c
        for s, k in e.t:
            l, h = self.b(s)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    def prove(self, e, depth=4, used=frozenset()):
        """e >= 0 ?"""
        lo = e.c
        bad = []
        for s, k in e.t:
            l, h = self.b(s)
            v = k * l if k > 0 else k * h
            if v < 0:
                bad.append((v, s, k))
            lo += v
        if lo >= 0:
            return True
        if depth == 0 or not bad:
            return False
        bad.sort(key=lambda x: x[0])
        for _, s, k in bad[:3]:
            for f in self.facts:
                if f in used:
                    continue
                fk = 0
                for v, c in f.t:
                    if v == s:
                        fk = c
                        break
                if fk == 0 or (fk > 0) != (k > 0):
                    continue
                a, b = abs(fk), abs(k)
                g = gcd(a, b)
                e2 = add(scale(e, a // g), f, -(b // g))
                if self.prove(e2, depth - 1, used | {f}):
                    return True
        return False

    def lower(self, e):
        """a provable lower bound of e (maybe -inf)"""
        lo, hi = self.ival(e)
        best = lo
        # try to improve using single and double fact elimination
        cands = set()
        for f in self.facts:
            if any(e.coef(s) for s, _ in f.t):
                for s, fk in f.t:
                    k = e.coef(s)
                    if k and (k > 0) == (fk > 0) and k % fk == 0:
                        e2 = add(e, f, -(k // fk))
                        l2 = self.ival(e2)[0]
                        if l2 > best:
                            best = l2
                        for g in self.facts:
                            if g is f:
                                continue
                            for s2, gk in g.t:
                                k2 = e2.coef(s2)
                                if k2 and (k2 > 0) == (gk > 0) and k2 % gk == 0:
                                    l3 = self.ival(add(e2, g, -(k2 // gk)))[0]
                                    if l3 > best:
                                        best = l3
        return best

    def upper(self, e):
        return -self.lower(scale(e, -1))

    def assume(self, e):
        """add fact e >= 0. returns False if it is certainly contradictory."""
        if not e.t:
            return e.c >= 0
        # normalise by gcd
        g = 0
        for _, k in e.t:
            g = gcd(g, abs(k))
        if g > 1:
            e = Lin(e.c // g, tuple((s, k // g) for s, k in e.t))
        lo, hi = self.ival(e)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if self.prove(addc(scale(e, -1), -1)):
            return False
        if len(e.t) == 1:
            s, k = e.t[0]
            l, h = self.b(s)
            if k > 0:
                nl = -(e.c // k) if e.c % k == 0 else -(e.c // k)
                # k*s + c >= 0  => s >= ceil(-c/k)
                nl = -((e.c) // k)
                l = max(l, nl)
            else:
                # s <= floor(c/-k)
                h = min(h, e.c // (-k))
            if l > h:
                return False
            self.bnd[s] = (l, h)
            return True
        self.facts[e] = True
        # one round of bound propagation from this fact
        for s, k in e.t:
            l, h = self.b(s)
            rest_hi = hi - (k * h if k > 0 else k * l) if not (hi == INF) else INF
            if hi == INF:
                # recompute rest without s
                rest_hi = e.c
                for s2, k2 in e.t:
                    if s2 == s:
                        continue
                    l2, h2 = self.b(s2)
                    rest_hi += k2 * h2 if k2 > 0 else k2 * l2
            if rest_hi == INF or rest_hi != rest_hi:
                continue
            # k*s >= -rest_hi
            if k > 0:
                nl = -(rest_hi // k)
                if nl > l:
                    l = nl
            else:
                nh = rest_hi // (-k)
                if nh < h:
                    h = nh
            if l > h:
                return False
            self.bnd[s] = (l, h)
        return True

    def assume_eq(self, e):
        return self.assume(e) and self.assume(scale(e, -1))

    def assume_ne(self, e):
        if not e.t:
            return e.c != 0
        if self.prove(e):
            return self.assume(addc(e, -1))
        m = scale(e, -1)
        if self.prove(m):
            return self.assume(addc(m, -1))
        return True

    def decide(self, kind, e):
        """kind ge0/eq0/ne0 -> True/False/None"""
        if kind == "ge0":
            if self.prove(e):
                return True
            if self.prove(addc(scale(e, -1), -1)):
                return False
            return None
        lo, hi = self.ival(e)
        r = None
        if lo == hi == 0:
            r = True
        elif lo > 0 or hi < 0:
            r = False
        elif self.prove(addc(e, -1)) or self.prove(addc(scale(e, -1), -1)):
            r = False
        elif self.prove(e) and self.prove(scale(e, -1)):
            r = True
        if r is None:
            return None
        return r if kind == "eq0" else (not r)

    def project(self, live):
        """drop symbols not in live; facts between live symbols through a dead one are kept (bounded)."""
        dead = set()
        for f in self.facts:
            for s, _ in f.t:
                if s not in live:
                    dead.add(s)
        for d in dead:
            pos, neg, rest = [], [], {}
            for f in self.facts:
                k = f.coef(d)
                if k > 0:
                    pos.append((f, k))
                elif k < 0:
                    neg.append((f, -k))
                else:
                    rest[f] = True
            l, h = self.b(d)
            if l != -INF:
                pos.append((Lin(-l, ((d, 1),)), 1))
            if h != INF:
                neg.append((Lin(h, ((d, -1),)), 1))
            wide = len(pos) * len(neg) > 16
            if len(pos) * len(neg) <= 16 or len(pos) + len(neg) <= 40:
                for f, a in pos:
                    for g, b in neg:
                        if wide and len(f.t) > 1 and len(g.t) > 1:
                            # too many pairs: only those with a bound
                            continue
                        q = gcd(a, b)
                        n = add(scale(f, b // q), g, a // q)
                        if n.t and n.coef(d) == 0:
                            if self.ival(n)[0] < 0:
                                rest[n] = True
            self.facts = rest
        if len(self.facts) > 60:
            keep = sorted(self.facts, key=lambda f: len(f.t))[:60]
            self.facts = {f: True for f in keep}
        for s in list(self.bnd):
            if s not in live:
                del self.bnd[s]
