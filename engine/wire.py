"""Field layout of encoders and decoders, compared with the aligned-PER layout, by abstract interpretation
of the public library functions on one cell of (position in the octet, constraint class, value class) at a time."""
import codec
import interp
import models
from dom import const, sym, add, sub, scale, addc, Lin
from codec import I64MIN, U64MAX

I128MAX = (1 << 127) - 1
MAXOFF = 1 << 50


class Lay:
    """expected fields from position 8k + c on"""

    def __init__(self, c):
        self.c = c          # None: unknown (after contents of symbolic length)
        self.f = []         # ("k", width, Lin) | ("raw", Lin length)

    def bits(self, w, v):
        if w:
            self.f.append(("k", w, v if isinstance(v, Lin) else const(v)))
            if self.c is not None:
                self.c += w

    def align(self):
        p = -self.c % 8
        if p:
            self.f.append(("pad", p, const(0)))
            self.c += p

    def raw(self, n):
        self.f.append(("raw", n))
        self.c = None

    def norm(self):
        out = []
        for x in self.f:
            if x[0] == "raw":
                out.append(("raw", x[1]))
            else:
                out.append(("k", x[1], x[2]))
        return coalesce(out)

    def width(self):
        w = const(0)
        for x in self.f:
            w = add(w, x[1] if x[0] == "raw" else const(x[1]))
        return w


def coalesce(fs):
    out = []
    for x in fs:
        if x[0] == "k" and out and out[-1][0] == "k":
            out[-1] = ("k", out[-1][1] + x[1], add(scale(out[-1][2], 1 << x[1]), x[2]))
        else:
            out.append(x)
    return out


BITCLASSES = [(1, 1, 0), (2, 2, 1), (3, 4, 2), (5, 8, 3), (9, 16, 4), (17, 32, 5), (33, 64, 6), (65, 128, 7), (129, 255, 8)]


def lenbits(n):
    """field of a length constrained to 1..n (n < 256)"""
    return (n - 1).bit_length()


def con_cells():
    """classes of (range, offset) of a constrained whole number"""
    out = [("b",) + c for c in BITCLASSES]
    out += [("256",), ("64k",)]
    for N in range(3, 10):
        for n in range(0, N + 1):
            out.append(("big", N, n))
    return out


def range_offset(st, cell, most):
    """(range, offset) of the cell, the range at most `most`"""
    n = st.num
    k = cell[0]
    if k == "b":
        R = const(cell[1]) if cell[1] == cell[2] else n.fresh(cell[1], cell[2])
        D = const(0) if cell[2] == 1 else n.fresh(0, cell[2] - 1)
    elif k == "256":
        R, D = const(256), n.fresh(0, 255)
    elif k == "64k":
        R = n.fresh(257, 65536)
        D = n.fresh(0, 65535)
    else:
        N, m = cell[1], cell[2]
        R = addc(n.fresh(256 ** (N - 1), min(256 ** N - 1, most - 1)), 1)
        D = const(0) if m == 0 else n.fresh(256 ** (m - 1), 256 ** m - 1)
    n.assume(addc(sub(R, D), -1))
    return R, D


def con_setup(st, cell, lo=I64MIN, hi=U64MAX):
    """(lb, ub, offset) of a constrained number in the cell; hi bounds the upper bound"""
    n = st.num
    R, D = range_offset(st, cell, hi - lo + 1)
    L = n.fresh(lo, hi)
    U = addc(add(L, R), -1)
    n.assume(sub(const(hi), U))
    return L, U, D


def con_layout(lay, cell, D):
    k = cell[0]
    if k == "b":
        lay.bits(cell[3], D)
    elif k == "256":
        lay.align()
        lay.bits(8, D)
    elif k == "64k":
        lay.align()
        lay.bits(16, D)
    else:
        N, m = cell[1], max(1, cell[2])
        lay.bits(lenbits(N), m - 1)
        lay.align()
        lay.bits(8 * m, D)


def int_cells():
    out = [("con",) + (c,) for c in con_cells()]
    out += [("semi", n) for n in range(0, 17)]
    out += [("unc", s, n) for n in range(1, 17) for s in ("+", "-")]
    out += [("uncub", s, n) for n in range(1, 10) for s in ("+", "-")]
    return out


def int_setup(st, cell):
    """(lb, ub, value, layout function)"""
    n = st.num
    if cell[0] == "con":
        L, U, D = con_setup(st, cell[1])
        return L, U, add(L, D), lambda lay: con_layout(lay, cell[1], D)
    if cell[0] == "semi":
        m = cell[1]
        D = const(0) if m == 0 else n.fresh(256 ** (m - 1), min(256 ** m - 1, I128MAX))
        L = n.fresh(I64MIN, U64MAX)
        V = add(L, D)
        n.assume(sub(const(I128MAX), V))

        def f(lay):
            lay.align()
            lay.bits(8, max(1, m))
            lay.bits(8 * max(1, m), D)
        return L, None, V, f
    s, m = cell[1], cell[2]
    lo = 0 if m == 1 else 1 << (8 * (m - 1) - 1)
    hi = (1 << (8 * m - 1)) - 1
    if s == "+":
        V = n.fresh(lo, hi)
        F = V
    else:
        V = n.fresh(-hi - 1, -lo - (1 if m > 1 else 1))
        F = addc(V, 1 << (8 * m))
    U = None
    if cell[0] == "uncub":
        U = n.fresh(max(I64MIN, n.ival(V)[0]), U64MAX)
        n.assume(sub(U, V))

    def g(lay):
        lay.align()
        lay.bits(8, m)
        lay.bits(8 * m, F)
    return None, U, V, g


# ---------------------------------------------------------------- running

def by_name(P, name, side):
    c = [f for f in (codec.encode_entries(P) if side == "encode" else codec.decode_entries(P)) if f.path.split("::")[-1] == name]
    if len(c) != 1:
        raise codec.Anchor("public function %s" % name)
    return c[0]


def opt_arg(P, fn, i, e):
    ty = fn.locals[i + 1]
    if codec.optty(P, ty):
        return codec.none(ty) if e is None else codec.some(ty, ("i", e))
    return ("i", e)


class Run:
    """one function on one cell"""

    def __init__(self, P, fn, r):
        models.SEGS.clear()
        models.ALIAS8.clear()
        models.BITSRC.clear()
        models.LOADED.clear()
        self.P, self.fn, self.r = P, fn, r
        self.panics = []
        self.I = codec.new_interp(P, self.obl, track=True)
        self.st = interp.St()
        self.k = self.st.num.fresh(0, MAXOFF)
        self.pos0 = addc(scale(self.k, 8), r)
        self.adt = P.types[fn.locals[1]]["to"]

    def obl(self, kind, detail, ok, fn, sp, stack, st):
        if not ok:
            self.panics.append((kind, detail, codec.short(fn.path), sp))

    # encoder -------------------------------------------------------
    def encoder(self, mkargs):
        I, P, st = self.I, self.P, self.st
        self.u0 = interp.uid()
        st.ghost["pos0"] = self.pos0
        d = codec.mkdata(I, P, st, self.adt, ("seq", self.u0, const(0), self.pos0, None), st.num.fresh(0, 0))
        self.d = d
        args = mkargs(self, st)
        return I.run(self.fn, [d] + args, st)

    def appended(self, s1):
        """normalised fields appended in outcome state s1, or a message"""
        I, st = self.I, s1
        b, _ = codec.read_data(I, self.P, s1, self.d)
        if b[1] == self.u0:
            if not (st.num.prove(sub(b[3], self.pos0)) and st.num.prove(sub(self.pos0, b[3]))):
                return "the length of the data changed without known contents"
            return []
        g = models.SEGS.get(b[1])
        if g is None or not (b[2].is_const() and b[2].c == 0):
            return "what was written is not determined"
        out = []
        first = True
        for a, w, src in g:
            if first and src[0] == "raw" and src[1] == self.u0:
                first = False
                if not (st.num.prove(sub(w, self.pos0)) and st.num.prove(sub(self.pos0, w))):
                    return "data written before is not kept"
                continue
            first = False
            lo, hi = st.num.ival(w)
            if lo == hi:
                w = const(int(lo))
            if w.is_const() and w.c == 0:
                continue
            if src[0] == "raw":
                out.append(("raw", w, src))
                continue
            if not w.is_const():
                return "a field of undetermined width is written"
            if src[0] == "zero":
                out.append(("k", w.c, const(0)))
            elif src[0] == "bit":
                t = I.truth(st, src[1])
                if t is None:
                    v = src[1]
                    return "a bit of undetermined value is written"
                out.append(("k", w.c, const(1 if t else 0)))
            elif src[0] == "be":
                if not src[3].is_const():
                    return "a field of undetermined value is written"
                v = models.be_bits(I, st, src[1], src[2], src[3].c, w.c)
                if v is None:
                    return "a field of undetermined value is written"
                out.append(("k", w.c, v))
            else:
                return "contents of undetermined origin are written"
        return out

    # decoder -------------------------------------------------------
    def decoder(self, lay, mkargs, tail=True):
        I, P, st = self.I, self.P, self.st
        u = self.u = interp.uid()
        segs = [(const(0), self.pos0, ("raw", interp.uid(), const(0)))]
        p = self.pos0
        self.rawpos = []
        for x in lay.f:
            if x[0] == "raw":
                self.rawpos.append((p, x[1]))
                segs.append((p, x[1], ("raw", interp.uid(), const(0))))
                p = add(p, x[1])
            else:
                segs.append((p, const(x[1]), ("be", x[2], x[1], const(0)) if not x[2].is_const() or x[2].c else ("zero",)))
                p = addc(p, x[1])
        self.end = p
        T = st.num.fresh(0, MAXOFF) if tail else const(0)
        segs.append((p, T, ("raw", interp.uid(), const(0))))
        models.SEGS[u] = tuple(segs)
        ln = add(p, T)
        st.ghost["end"] = p
        st.ghost["len"] = ln
        for i, (a, n) in enumerate(self.rawpos):
            st.ghost["raw%d" % i] = a
        d = codec.mkdata(I, P, st, self.adt, ("seq", u, const(0), ln, None), self.pos0)
        self.d = d
        args = mkargs(self, st)
        return I.run(self.fn, [d] + args, st)


def eq(st, a, b):
    return st.num.prove(sub(a, b)) and st.num.prove(sub(b, a))


def show(fs):
    return " ".join("%d bits" % x[1] if x[0] == "k" else "contents" for x in fs)


def cmp_fields(st, got, want):
    """None or a message"""
    g = coalesce([x if x[0] == "k" else ("raw", x[1], x[2]) for x in got])
    w = coalesce(want)
    if [x[0] for x in g] != [x[0] for x in w]:
        return "writes [%s] where [%s] is prescribed" % (show(g), show(w))
    for a, b in zip(g, w):
        if a[0] == "k":
            if a[1] != b[1]:
                return "writes [%s] where [%s] is prescribed" % (show(g), show(w))
            if not eq(st, a[2], b[2]):
                return "writes other bits than prescribed in a field of %d bits" % a[1]
        elif not eq(st, a[1], b[1]):
            return "writes contents of another length than prescribed"
    return None


def result(I, s, v):
    """('ok', payload) | ('err',) | ('?',)"""
    if v[0] == "adt":
        return ("ok", v[3][0]) if v[2] == 0 and v[3] else (("ok", None) if v[2] == 0 else ("err",))
    return ("?",)


def as_pair(I, s, v):
    if v is not None and v[0] == "tup" and len(v[1]) == 2:
        return v[1]
    return None
