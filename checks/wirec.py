"""C03 - C06, C08: the integer, length and string encoders and decoders, cell by cell."""
import run
import mir
import codec
import time
import interp
import models
import wire
from dom import const, sub, add, addc, scale, sym
from wire import Run, Lay, eq, result, as_pair, cmp_fields
from decode import load, TRUST, ASSUME

_P = None
FALSE, TRUE = ("b", False), ("b", True)


def boolv(x):
    return TRUE if x else FALSE


def enc_int(cell, r, ext):
    """encode_integer on a permitted value"""
    P = _P
    fn = wire.by_name(P, "encode_integer", "encode")
    R = Run(P, fn, r)
    lb, ub, V, lf = wire.int_setup(R.st, cell)
    lay = Lay(r)
    if ext:
        lay.bits(1, 0)
    lf(lay)
    R.st.ghost.update({"V": V})
    outs = R.encoder(lambda q, st: [wire.opt_arg(P, fn, 1, lb), wire.opt_arg(P, fn, 2, ub), boolv(ext), ("i", V), FALSE])
    return judge_enc(R, outs, lay)


def judge_enc(R, outs, lay, rawcheck=None):
    bad = []
    for p in R.panics:
        bad.append("may panic: %s %s" % (p[0], p[2]))
    n = 0
    for v, s in outs:
        n += 1
        k = result(R.I, s, v)
        if k[0] == "err":
            bad.append("a permitted value may be refused")
            continue
        if k[0] == "?":
            bad.append("the outcome is not determined")
            continue
        got = R.appended(s)
        if isinstance(got, str):
            bad.append(got)
            continue
        m = cmp_fields(s, got, lay.norm())
        if m:
            bad.append(m)
        elif rawcheck:
            m = rawcheck(R, s, [x for x in got if x[0] == "raw"])
            if m:
                bad.append(m)
    if not n:
        bad.append("no outcome")
    return n, sorted(set(bad))


def dec_int(cell, r, ext):
    P = _P
    fn = wire.by_name(P, "decode_integer", "decode")
    R = Run(P, fn, r)
    lb, ub, V, lf = wire.int_setup(R.st, cell)
    lay = Lay(r)
    if ext:
        lay.bits(1, 0)
    lf(lay)
    R.st.ghost.update({"V": V})
    outs = R.decoder(lay, lambda q, st: [wire.opt_arg(P, fn, 1, lb), wire.opt_arg(P, fn, 2, ub), boolv(ext)])
    return judge_dec(R, outs, lambda s, v: pair_is(R, s, v, V, False))


def pair_is(R, s, v, V, flag):
    p = as_pair(R.I, s, v)
    if p is None or p[0][0] != "i":
        return "the decoded value is not determined"
    if not eq(s, p[0][1], V):
        return "the decoded value is not the value that was encoded"
    if R.I.truth(s, p[1]) is not flag:
        return "the extension flag is not the one encoded"
    return None


def judge_dec(R, outs, good, utf8=False):
    bad = []
    for p in R.panics:
        bad.append("may panic: %s %s" % (p[0], p[2]))
    n = 0
    for v, s in outs:
        n += 1
        k = result(R.I, s, v)
        if k[0] == "err":
            if not (utf8 and s.ghost.get("utf8") is True):
                bad.append("a permitted encoding may be refused")
            continue
        if k[0] == "?":
            bad.append("the outcome is not determined")
            continue
        m = good(s, k[1])
        if m:
            bad.append(m)
        b, o = codec.read_data(R.I, R.P, s, R.d)
        if o is None or not eq(s, o, R.end):
            bad.append("the cursor does not end where the encoding ends")
    if not n:
        bad.append("no outcome")
    return n, sorted(set(bad))


# ---------------------------------------------------------------- lengths and strings
STR = {"bit": ("encode_bitstring", "decode_bitstring", 1), "octet": ("encode_octetstring", "decode_octetstring", 8),
       "visible": ("encode_visible_string", "decode_visible_string", 8),
       "printable": ("encode_printable_string", "decode_printable_string", 8),
       "utf8": ("encode_utf8_string", "decode_utf8_string", 8)}
MAXN = 16383
SIZE = 65535


def n_classes(unit):
    k = 16 // unit
    return [(0, 0), (1, k), (k + 1, 127), (128, MAXN)]


def size_cells(unit):
    """(size constraint class, length class)"""
    out = []
    for c in wire.con_cells():
        if c[0] == "big":
            continue
        for nc in n_classes(unit):
            out.append((("con", c), nc))
    for lb in (False, True):
        for ub in (False, True):
            for nc in n_classes(unit):
                out.append((("open", lb, ub), nc))
    return out


def size_setup(st, cell):
    """(lb, ub, n, layout of the length) or None when the cell is empty"""
    n = st.num
    sc, (a, b) = cell
    if sc[0] == "con":
        # the length is the symbol, the lower bound follows from it and the offset
        R, D = wire.range_offset(st, sc[1], SIZE + 1)
        if R == const(1):
            ln = const(a) if a == b else n.fresh(a, b)
            return ln, ln, ln, lambda lay: None
        ln = const(a) if a == b else n.fresh(a, b)
        L = sub(ln, D)
        U = addc(add(L, R), -1)
        if not n.assume(L) or not n.assume(sub(const(SIZE), U)):
            return None
        return L, U, ln, lambda lay: wire.con_layout(lay, sc[1], D)
    ln = const(a) if a == b else n.fresh(a, b)
    lb = ub = None
    if sc[1]:
        lb = n.fresh(0, b)
        n.assume(sub(ln, lb))
    if sc[2]:
        ub = n.fresh(65536, codec.U64MAX)

    def f(lay):
        lay.align()
        if b < 128:
            lay.bits(8, ln)
        else:
            lay.bits(16, addc(ln, 0x8000))
    return lb, ub, ln, f


def contents(R, st, fn, i, n):
    """reference argument i of fn: n elements of unknown contents; remembers the content id"""
    R.cu = interp.uid()
    return ("ptr", R.I.newcell(st, ("seq", R.cu, const(0), n, None)), (), False)


def str_layout(R, cell, ext, unit, lf, n):
    lay = Lay(R.r)
    if ext:
        lay.bits(1, 0)
    lf(lay)
    if cell[1][1] == 0:
        return lay
    if cell[1][0] * unit > 16:
        lay.align()
    lay.raw(scale(n, unit))
    return lay


def enc_str(cell, r, ext, kind):
    P = _P
    ename, _, unit = STR[kind]
    fn = wire.by_name(P, ename, "encode")
    R = Run(P, fn, r)
    su = size_setup(R.st, cell)
    if su is None:
        return 0, []
    lb, ub, n, lf = su
    lay = str_layout(R, cell, ext, unit, lf, n)
    R.st.ghost["V"] = n
    outs = R.encoder(lambda q, st: [wire.opt_arg(P, fn, 1, lb), wire.opt_arg(P, fn, 2, ub), boolv(ext), contents(R, st, fn, 4, n), FALSE])

    def raw(R, s, raws):
        u = R.cu if unit == 1 else ("bits", R.cu)
        for x in raws:
            if x[2][1] != u or x[2][2] != const(0):
                return "the contents written are not the contents of the value"
    return judge_enc(R, outs, lay, raw)


def dec_str(cell, r, ext, kind):
    P = _P
    _, dname, unit = STR[kind]
    fn = wire.by_name(P, dname, "decode")
    R = Run(P, fn, r)
    su = size_setup(R.st, cell)
    if su is None:
        return 0, []
    lb, ub, n, lf = su
    lay = str_layout(R, cell, ext, unit, lf, n)
    R.st.ghost["V"] = n
    outs = R.decoder(lay, lambda q, st: [wire.opt_arg(P, fn, 1, lb), wire.opt_arg(P, fn, 2, ub), boolv(ext)])

    def good(s, v):
        if v is None or v[0] not in ("seq", "str"):
            if v is not None and v[0] == "top" and v[1] is not None:
                v = R.I.as_seq_val(s, v)
            else:
                return "the decoded contents are not determined"
        v = R.I.as_seq_val(s, v)
        if not eq(s, v[3], n):
            return "the decoded value has another length than the one encoded"
        if s.num.prove(scale(n, -1)):
            return None
        want = R.rawpos[0][0]
        if at_buffer(R, s, v[1], v[2], v[3], want, unit):
            return None
        return "the decoded contents are not the contents of the encoding"
    return judge_dec(R, outs, good, kind in ("visible", "printable", "utf8"))


def at_buffer(R, s, u, off, ln, want, unit):
    """the sequence (content u from off) is the part of the input buffer that starts at bit want"""
    if not off.is_const() or off.c:
        return u == R.u and unit == 1 and eq(s, off, want)
    if unit == 8:
        a = models.ALIAS8.get(u)
        if a is not None:
            if a[0] == R.u:
                return eq(s, a[1], want)
            return a[1] == const(0) and at_bits(R, s, a[0], want)
        g = models.SEGS.get(u)
        g = [x for x in g if not s.num.prove(scale(x[1], -1))] if g is not None else []
        return len(g) == 1 and g[0][2][0] == "raw" and g[0][2][2] == const(0) and at_buffer(R, s, g[0][2][1], const(0), ln, want, unit)
    return at_bits(R, s, u, want)


def at_bits(R, s, u, want):
    g = models.SEGS.get(u)
    if g is None:
        return False
    g = [x for x in g if not s.num.prove(scale(x[1], -1))]
    return len(g) == 1 and g[0][2][0] == "raw" and g[0][2][1] == R.u and eq(s, g[0][2][2], want)


def enc_len(cell, r, small):
    P = _P
    fn = wire.by_name(P, "encode_length_determinent", "encode")
    R = Run(P, fn, r)
    return len_common(R, fn, cell, r, small, True)


def dec_len(cell, r, small):
    P = _P
    fn = wire.by_name(P, "decode_length_determinent", "decode")
    R = Run(P, fn, r)
    return len_common(R, fn, cell, r, small, False)


def len_common(R, fn, cell, r, small, enc):
    P = _P
    lay = Lay(r)
    if small:
        a, b = cell[1]
        lb = ub = None
        n = const(a) if a == b else R.st.num.fresh(a, b)
        if b <= 64:
            lay.bits(1, 0)
            lay.bits(6, addc(n, -1))
        else:
            lay.bits(1, 1)
            lay.align()
            if b < 128:
                lay.bits(8, n)
            else:
                lay.bits(16, addc(n, 0x8000))
    else:
        su = size_setup(R.st, cell)
        if su is None:
            return 0, []
        lb, ub, n, lf = su
        lf(lay)
    R.st.ghost["V"] = n
    if enc:
        outs = R.encoder(lambda q, st: [wire.opt_arg(P, fn, 1, lb), wire.opt_arg(P, fn, 2, ub), boolv(small), ("i", n)])
        return judge_enc(R, outs, lay)
    outs = R.decoder(lay, lambda q, st: [wire.opt_arg(P, fn, 1, lb), wire.opt_arg(P, fn, 2, ub), boolv(small)])

    def good(s, v):
        if v is None or v[0] != "i" or not eq(s, v[1], n):
            return "the decoded length is not the one encoded"
    return judge_dec(R, outs, good)


SMALL = [(("small",), c) for c in ((1, 1), (2, 64), (65, 127), (128, MAXN))]


def enc_seq(cell, r, ext):
    P = _P
    fn = wire.by_name(P, "encode_sequence_header", "encode")
    R = Run(P, fn, r)
    n = const(0) if cell == 0 else R.st.num.fresh(1, 65536)
    lay = Lay(r)
    if ext:
        lay.bits(1, 0)
    if cell:
        lay.raw(n)
    outs = R.encoder(lambda q, st: [boolv(ext), contents(R, st, fn, 2, n), FALSE])

    def raw(R, s, raws):
        for x in raws:
            if x[2][1] != R.cu or x[2][2] != const(0):
                return "the presence bitmap written is not the one given"
    return judge_enc(R, outs, lay, raw)


def dec_seq(cell, r, ext):
    P = _P
    fn = wire.by_name(P, "decode_sequence_header", "decode")
    R = Run(P, fn, r)
    n = const(0) if cell == 0 else R.st.num.fresh(1, 65536)
    lay = Lay(r)
    if ext:
        lay.bits(1, 0)
    if cell:
        lay.raw(n)
    outs = R.decoder(lay, lambda q, st: [boolv(ext), ("i", n)])

    def good(s, v):
        p = as_pair(R.I, s, v)
        if p is None:
            return "the decoded header is not determined"
        b = R.I.as_seq_val(s, p[0])
        if not eq(s, b[3], n):
            return "the presence bitmap has another width than the one encoded"
        if cell and not at_buffer(R, s, b[1], b[2], b[3], R.rawpos[0][0], 1):
            return "the presence bitmap is not the one encoded"
        if R.I.truth(s, p[1]) is not False:
            return "the extension flag is not the one encoded"
    return judge_dec(R, outs, good)


def enc_bool(cell, r, ext):
    P = _P
    fn = wire.by_name(P, "encode_bool", "encode")
    R = Run(P, fn, r)
    lay = Lay(r)
    lay.bits(1, cell)
    return judge_enc(R, R.encoder(lambda q, st: [boolv(cell)]), lay)


def dec_bool(cell, r, ext):
    P = _P
    fn = wire.by_name(P, "decode_bool", "decode")
    R = Run(P, fn, r)
    lay = Lay(r)
    lay.bits(1, cell)
    outs = R.decoder(lay, lambda q, st: [])
    return judge_dec(R, outs, lambda s, v: None if v is not None and R.I.truth(s, v) is bool(cell) else "the decoded bit is not the one encoded")


def enc_idx(cell, r, ext, name):
    """choice index and enumerated"""
    P = _P
    fn = wire.by_name(P, "encode_" + name, "encode")
    R = Run(P, fn, r)
    lb, ub, D = wire.con_setup(R.st, cell)
    lay = Lay(r)
    if ext:
        lay.bits(1, 0)
    wire.con_layout(lay, cell, D)
    V = add(lb, D)
    R.st.ghost["V"] = V
    outs = R.encoder(lambda q, st: [wire.opt_arg(P, fn, 1, lb), wire.opt_arg(P, fn, 2, ub), boolv(ext), ("i", V), FALSE])
    return judge_enc(R, outs, lay)


def dec_idx(cell, r, ext, name):
    P = _P
    fn = wire.by_name(P, "decode_" + name, "decode")
    R = Run(P, fn, r)
    lb, ub, D = wire.con_setup(R.st, cell)
    lay = Lay(r)
    if ext:
        lay.bits(1, 0)
    wire.con_layout(lay, cell, D)
    V = add(lb, D)
    R.st.ghost["V"] = V
    outs = R.decoder(lay, lambda q, st: [wire.opt_arg(P, fn, 1, lb), wire.opt_arg(P, fn, 2, ub), boolv(ext)])
    return judge_dec(R, outs, lambda s, v: pair_is(R, s, v, V, False))


# ---------------------------------------------------------------- refusals
def all_err(R, outs, what, allow=0):
    bad = []
    for p in R.panics:
        bad.append("may panic: %s %s" % (p[0], p[2]))
    n = 0
    for v, s in outs:
        n += 1
        k = result(R.I, s, v)
        if k[0] != "err":
            bad.append("%s may be accepted" % what)
            continue
        got = R.appended(s)
        if isinstance(got, str):
            bad.append(got)
            continue
        w = 0
        for x in got:
            if x[0] != "k" or not (x[2].is_const() and x[2].c == 0):
                w = None
                break
            w += x[1]
        if w is None or w > allow:
            bad.append("%s is refused after a field has been written" % what)
    if not n:
        bad.append("no outcome")
    return n, sorted(set(bad))


def out_int(cell, r, ext, name):
    """value outside the bounds; cell = (has lb, has ub, 'below' | 'above')"""
    P = _P
    fn = wire.by_name(P, "encode_" + name, "encode")
    R = Run(P, fn, r)
    n = R.st.num
    hl, hu, side = cell
    lb = n.fresh(codec.I64MIN, codec.U64MAX) if hl else None
    ub = n.fresh(codec.I64MIN, codec.U64MAX) if hu else None
    if hl and hu:
        n.assume(sub(ub, lb))
    V = n.fresh(-(1 << 127), wire.I128MAX)
    n.assume(addc(sub(lb, V), -1) if side == "below" else addc(sub(V, ub), -1))
    outs = R.encoder(lambda q, st: [wire.opt_arg(P, fn, 1, lb), wire.opt_arg(P, fn, 2, ub), boolv(ext), ("i", V), FALSE])
    return all_err(R, outs, "a value outside its bounds", 8)


def out_size(cell, r, ext, kind):
    """string or length outside its size bounds"""
    P = _P
    hl, hu, side = cell
    if kind == "length":
        fn = wire.by_name(P, "encode_length_determinent", "encode")
    else:
        fn = wire.by_name(P, STR[kind][0], "encode")
    R = Run(P, fn, r)
    n = R.st.num
    lb = n.fresh(0, codec.U64MAX) if hl else None
    ub = n.fresh(0, codec.U64MAX) if hu else None
    if hl and hu:
        n.assume(sub(ub, lb))
    ln = n.fresh(0, 1 << 56)
    n.assume(addc(sub(lb, ln), -1) if side == "below" else addc(sub(ln, ub), -1))
    if kind == "length":
        outs = R.encoder(lambda q, st: [wire.opt_arg(P, fn, 1, lb), wire.opt_arg(P, fn, 2, ub), FALSE, ("i", ln)])
    else:
        outs = R.encoder(lambda q, st: [wire.opt_arg(P, fn, 1, lb), wire.opt_arg(P, fn, 2, ub), boolv(ext), contents(R, st, fn, 4, ln), FALSE])
    return all_err(R, outs, "a size outside its bounds", 8)


def refuse_ext(cell, r, ext, name):
    """extended = true"""
    P = _P
    fn = wire.by_name(P, name, "encode")
    R = Run(P, fn, r)

    def mk(q, st):
        args = codec.fresh_args(R.I, P, st, fn, R.d)
        if "lb" in codec.argix(fn) or fn.argc > 4:
            sized = codec.is_sized(fn)
            lo = 0 if sized else codec.I64MIN
            lb = st.num.fresh(lo, codec.U64MAX) if cell[0] else None
            ub = st.num.fresh(lo, codec.U64MAX) if cell[1] else None
            if cell[0] and cell[1]:
                st.num.assume(sub(ub, lb))
            args[1] = wire.opt_arg(P, fn, 1, lb)
            args[2] = wire.opt_arg(P, fn, 2, ub)
        args[-1] = TRUE
        return args[1:]
    outs = R.encoder(mk)
    return all_err(R, outs, "a value flagged as extended", 0)


def refuse_len(cell, r, ext, kind):
    """length of 16384 or more under a constraint that does not bound it below 65536"""
    P = _P
    fn = wire.by_name(P, "encode_length_determinent" if kind in ("length", "small") else STR[kind][0], "encode")
    R = Run(P, fn, r)
    n = R.st.num
    lb = n.fresh(0, codec.U64MAX) if cell[0] else None
    ub = n.fresh(65536, codec.U64MAX) if cell[1] else None
    if cell[0] and cell[1]:
        n.assume(sub(ub, lb))
    ln = n.fresh(MAXN + 1, 1 << 56)
    if kind in ("length", "small"):
        outs = R.encoder(lambda q, st: [wire.opt_arg(P, fn, 1, lb), wire.opt_arg(P, fn, 2, ub), boolv(kind == "small"), ("i", ln)])
    else:
        outs = R.encoder(lambda q, st: [wire.opt_arg(P, fn, 1, lb), wire.opt_arg(P, fn, 2, ub), boolv(ext), contents(R, st, fn, 4, ln), FALSE])
    bad = []
    k = 0
    for p in R.panics:
        bad.append("may panic: %s %s" % (p[0], p[2]))
    for v, s in outs:
        k += 1
        if result(R.I, s, v)[0] != "err":
            bad.append("a length that needs fragmentation may be accepted")
            continue
        got = R.appended(s)
        if isinstance(got, str):
            bad.append(got)
        elif any(x[0] != "k" for x in got) or sum(x[1] for x in got) > 9:
            bad.append("a length that needs fragmentation is refused after its contents have been written")
    return k, sorted(set(bad))


# ---------------------------------------------------------------- decoded values inside the bounds
def inside(cell, r, ext, name):
    """arbitrary data; cell: class of the range"""
    P = _P
    fn = wire.by_name(P, "decode_" + name, "decode")
    R = Run(P, fn, 0)
    I, st = R.I, R.st
    n = st.num
    R.pos0 = n.fresh(0, 1 << 60)
    lay = Lay(0)
    if ext:
        lay.bits(1, 0)
    sized = name in ("length_determinent", "bitstring", "octetstring", "visible_string", "printable_string", "utf8_string")
    lb, ub, _ = wire.con_setup(st, cell, *((0, SIZE) if sized else (codec.I64MIN, codec.U64MAX)))
    st.ghost["lb"], st.ghost["ub"] = lb, ub
    outs = R.decoder(lay, lambda q, st: [wire.opt_arg(P, fn, 1, lb), wire.opt_arg(P, fn, 2, ub), boolv(ext)])
    bad = []
    k = 0
    for v, s in outs:
        q = result(I, s, v)
        if q[0] == "err":
            continue
        k += 1
        if q[0] == "?" or q[1] is None:
            bad.append("the outcome is not determined")
            continue
        w = q[1]
        p = as_pair(I, s, w)
        if p is not None and not sized:
            w = p[0]
        if sized and name != "length_determinent":
            w = ("i", I.as_seq_val(s, w)[3])
        if w[0] != "i":
            bad.append("the decoded value is not determined")
            continue
        if not s.num.prove(sub(w[1], s.ghost["lb"])):
            bad.append("a value below the lower bound may be returned")
        if not s.num.prove(sub(s.ghost["ub"], w[1])):
            bad.append("a value above the upper bound may be returned")
    if not k:
        bad.append("no successful outcome")
    return k, sorted(set(bad))


# ---------------------------------------------------------------- padding
def pads(lay):
    return [i for i, x in enumerate(lay.f) if x[0] == "pad"]


def broken(lay, i, j):
    """the layout with bit j of the padding field i set, the bits before it clear, the bits after it unknown"""
    out = Lay(0)
    p = lay.f[i][1]
    out.f = lay.f[:i] + ([("k", j, const(0))] if j else []) + [("k", 1, const(1))] + ([("raw", const(p - j - 1))] if p - j - 1 else []) + lay.f[i + 1:]
    return out


def pad_int(cell, r, ext, name):
    P = _P
    fn = wire.by_name(P, "decode_" + name, "decode")
    return pad_common(fn, cell, r, ext, wire.int_setup if name == "integer" else lambda st, c: wire_idx(st, c[1]), 1)


def wire_idx(st, c):
    L, U, D = wire.con_setup(st, c)
    return L, U, add(L, D), lambda lay: wire.con_layout(lay, c, D)


def pad_str(cell, r, ext, kind):
    P = _P
    if kind == "length":
        fn = wire.by_name(P, "decode_length_determinent", "decode")
        return pad_common(fn, cell, r, False, size_setup, None)
    fn = wire.by_name(P, STR[kind][1], "decode")
    return pad_common(fn, cell, r, ext, size_setup, STR[kind][2])


def pad_common(fn, cell, r, ext, setup, unit):
    n, bad = 0, []
    todo = None
    while todo is None or todo:
        R = Run(_P, fn, r)
        su = setup(R.st, cell)
        if su is None:
            return 0, []
        lb, ub, V, lf = su
        if setup is size_setup and unit:
            lay = str_layout(R, cell, ext, unit, lf, V)
        else:
            lay = Lay(r)
            if ext:
                lay.bits(1, 0)
            lf(lay)
        if todo is None:
            todo = [(i, j) for i in pads(lay) for j in range(lay.f[i][1])]
            continue
        i, j = todo.pop()
        R.st.ghost["V"] = V
        outs = R.decoder(broken(lay, i, j), lambda q, st: [wire.opt_arg(_P, fn, 1, lb), wire.opt_arg(_P, fn, 2, ub), boolv(ext)])
        for v, s in outs:
            n += 1
            if result(R.I, s, v)[0] != "err":
                bad.append("padding that is not zero may be accepted")
    return n, sorted(set(bad))


def task(t):
    r = task1(t)
    if r[2]:
        # once more, following the first rounds of loops one by one
        interp.Interp.unroll, interp.Interp.deadline = True, time.time() + 20
        try:
            q = task1(t)
        finally:
            interp.Interp.unroll, interp.Interp.deadline = False, None
        if not q[2]:
            return q
    return r


def task1(t):
    f = globals()[t[0]]
    try:
        n, bad = f(*t[1:])
    except codec.Anchor as e:
        return t, 0, ["missing: %s" % e]
    except interp.Gap as e:
        return t, 0, ["outside the analysis: %s" % e]
    return t, n, bad


def positions(tier):
    return range(8)


def name_of(t):
    if t[0] in NAMES:
        return NAMES[t[0]]
    k = t[4] if len(t) > 4 else ""
    side = 1 if t[0].startswith("dec") or t[0].startswith("pad") or t[0] == "inside" else 0
    if k in STR:
        return STR[k][side]
    if k.startswith("encode_"):
        return k
    if k == "small":
        return "encode_length_determinent"
    return ("decode_" if side else "encode_") + k


def run_tasks(rep, w, tasks):
    global _P
    if _P is None:
        _P = load(w)
    res = run.pmap(task, tasks)
    for t, n, bad in res:
        name = name_of(t)
        rep.unit("cells (function, constraint class, value class, position in the octet)")
        rep.unit("abstract outcomes compared", n)
        if bad:
            for b in bad:
                rep.fail("%s:%s:%s" % (name, cellkey(t[1]), b), "%s: %s (cell %s, position %s, %s)" % (
                    name, b, t[1], t[2], "extensible" if t[3:] and t[3] else "not extensible"), name)
        else:
            rep.ok(n)


def cellkey(c):
    return "-".join(str(x) for x in (c[:2] if isinstance(c, tuple) else (c,))).replace(" ", "")


NAMES = dict(enc_int="encode_integer", dec_int="decode_integer", enc_len="encode_length_determinent", dec_len="decode_length_determinent",
             enc_seq="encode_sequence_header", dec_seq="decode_sequence_header", enc_bool="encode_bool", dec_bool="decode_bool")


class C03:
    LEVEL = "proof"

    @staticmethod
    def check(rep, w, tier):
        tasks = [(f, c, r, e) for f in ("enc_int", "dec_int") for c in wire.int_cells() for r in positions(tier) for e in (False, True)]
        rep.rule("on every cell the encoder appends exactly the fields of the aligned-PER table (widths, padding, values: offset from the lower bound), and the "
                 "decoder, given those fields followed by arbitrary data, succeeds with the value and stops at their end")
        run_tasks(rep, w, tasks)

C03.META = dict(what="Abstract interpretation of the public integer encoder and decoder with the contents of the bit buffer tracked as fields of affine expressions.",
                cmd="python3 check.py C03", trusted=TRUST + ["the layout table in engine/wire.py, written from X.691 clauses 11.5 to 11.8 and 13"],
                assumptions=["lengths of at most 2^50 octets precede the value", "values are within i128, bounds within 64 bits"])
C03.TECH = "abstract interpretation of MIR: field layout of encoder and decoder against the aligned-PER table"
C03.NOTE = "All ranges, values and bit positions by cells (range class x octet class x position mod 8); symbolic bounds and values inside a cell."


def pad_tasks(tier):
    ts = []
    for r in range(8):
        for e in (False, True):
            for c in (("con", ("256",)), ("con", ("64k",)), ("con", ("big", 3, 2)), ("con", ("big", 8, 1)), ("semi", 1), ("unc", "+", 2), ("unc", "-", 1)):
                ts.append(("pad_int", c, r, e, "integer"))
                if c[0] == "con":
                    ts += [("pad_int", c, r, e, "enumerated"), ("pad_int", c, r, e, "choice_idx")]
            for kind in STR:
                for nc in n_classes(STR[kind][2])[1:]:
                    for sc in (("con", ("b", 1, 1, 0)), ("con", ("b", 5, 8, 3)), ("con", ("256",)), ("con", ("64k",)), ("open", False, False)):
                        ts.append(("pad_str", (sc, nc), r, e, kind))
        for nc in n_classes(8)[1:]:
            ts.append(("pad_str", (("open", False, False), nc), r, False, "length"))
    return ts


class C04:
    LEVEL = "proof"

    @staticmethod
    def check(rep, w, tier):
        rs = positions(tier)
        tasks = []
        for kind in STR:
            for c in size_cells(STR[kind][2]):
                for r in rs:
                    for e in (False, True):
                        tasks.append(("enc_str", c, r, e, kind))
                        tasks.append(("dec_str", c, r, e, kind))
        for c in size_cells(8):
            for r in rs:
                tasks += [("enc_len", c, r, False), ("dec_len", c, r, False)]
        for c in SMALL:
            for r in rs:
                tasks += [("enc_len", c, r, True), ("dec_len", c, r, True)]
        for c in (0, 1):
            for r in rs:
                tasks += [(f, c, r, e) for f in ("enc_seq", "dec_seq") for e in (False, True)]
                tasks += [(f, c, r, False) for f in ("enc_bool", "dec_bool")]
        for c in wire.con_cells():
            for r in rs:
                tasks += [(f, c, r, e, nm) for f in ("enc_idx", "dec_idx") for e in (False, True) for nm in ("choice_idx", "enumerated")]
        rep.rule("on every cell the encoder appends exactly the prescribed fields (extension bit, length, padding, contents of the value, presence bitmap) and the "
                 "decoder, given them followed by arbitrary data, returns their contents and stops at their end")
        run_tasks(rep, w, tasks)


BSIDES = [(True, True, "below"), (True, True, "above"), (True, False, "below"), (False, True, "above")]


class C05:
    LEVEL = "proof"

    @staticmethod
    def check(rep, w, tier):
        rs = positions(tier)
        tasks = []
        for r in rs:
            for e in (False, True):
                for c in BSIDES:
                    tasks += [("out_int", c, r, e, nm) for nm in ("integer", "enumerated")]
                    tasks += [("out_size", c, r, e, k) for k in STR]
                    if not e:
                        tasks.append(("out_size", c, r, e, "length"))
                for c in BSIDES[:2]:
                    tasks.append(("out_int", c, r, e, "choice_idx"))
        rep.rule("with a value or size outside the bounds every outcome of the encoder is an error and nothing but a clear extension bit and padding has been appended")
        run_tasks(rep, w, tasks)


class C06:
    LEVEL = "proof"

    @staticmethod
    def check(rep, w, tier):
        tasks = []
        for c in wire.con_cells():
            if c[0] == "big" and c[2] != 1:
                continue
            for e in (False, True):
                tasks += [("inside", c, 0, e, nm) for nm in ("integer", "enumerated", "choice_idx")]
            if c[0] != "big":
                tasks += [("inside", c, 0, e, nm) for e in (False, True) for nm in ("bitstring", "octetstring", "visible_string", "printable_string", "utf8_string")]
                tasks.append(("inside", c, 0, False, "length_determinent"))
        rep.rule("for every data and every cell of bounds, each successful outcome not flagged as extended has lower bound <= value <= upper bound")
        run_tasks(rep, w, tasks)


def class_meta(c, pid, what, tech, note, assumptions):
    c.META = dict(what=what, cmd="python3 check.py " + pid, trusted=TRUST + ["the layout table in engine/wire.py, written from X.691"], assumptions=assumptions)
    c.TECH, c.NOTE = tech, note


class_meta(C04, "C04", "Abstract interpretation of the public string, length, header, index and boolean encoders and decoders with tracked buffer contents.",
           "abstract interpretation of MIR: layout of lengths, contents and headers on both sides",
           "Lengths below 16384 by cells; contents stay symbolic and are compared by provenance.",
           ["contents are aligned exactly when they exceed 16 bits, as the property states (X.691 aligns by the maximum size)"])
class_meta(C05, "C05", "Abstract interpretation of every public encode function with a symbolic value outside its symbolic bounds.",
           "abstract interpretation of MIR: refusal of out-of-range values", "All bounds and values at once, per position in the octet.",
           ["bounds within 64 bits, sizes not negative"])
class_meta(C06, "C06", "Abstract interpretation of every public decode function with both bounds on arbitrary data.",
           "abstract interpretation of MIR: range of decoded values", "Relational bounds (value against symbolic bounds) per range class.",
           ["bounds within 64 bits, sizes not negative; a size is constrained when its maximum is below 65536"])
