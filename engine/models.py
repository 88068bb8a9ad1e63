"""Models of the standard library / bitvec functions the analysed crates call.

A model takes (I, st, args, info) and returns a list of (value, state).  Functions without a model are
treated as opaque (fresh result, every &mut argument forgotten); the ones that can panic and have no model
are failing obligations (PANICKY)."""
import re
from dom import Lin, INF, const, sym, add, sub, scale, addc

BITSRC = {}      # content id -> (Lin value, width in bits): big-endian image of an integer
SEGS = {}        # content id -> ((start, width, source), ...): how the contents were put together
ALIAS8 = {}      # content id of octets -> (content id of bits, bit offset)
LOADED = {}      # symbol -> content id it was loaded from (whole, big endian)


def content_lins(u, out):
    """affine expressions mentioned by the description of content u"""
    b = BITSRC.get(u)
    if b is not None:
        out.append(b[0])
    for st_, w, src in SEGS.get(u, ()):
        out.append(st_)
        out.append(w)
        if src[0] == "be":
            out.append(src[1])
            out.append(src[3])
        elif src[0] == "raw":
            out.append(src[2])
            a = ALIAS8.get(src[1])
            if a is not None:
                out.append(a[1])
        elif src[0] == "bit" and src[1][0] == "c":
            out.append(src[1][2])
    a = ALIAS8.get(u)
    if a is not None:
        out.append(a[1])


def content_desc(u, cl, cu, cv):
    d = []
    b = BITSRC.get(u)
    if b is not None:
        d.append((cl(b[0]), b[1]))
    for st_, w, src in SEGS.get(u, ()):
        if src[0] == "be":
            x = ("be", cl(src[1]), src[2], cl(src[3]))
        elif src[0] == "raw":
            x = ("raw", cu(src[1]), cl(src[2]))
        elif src[0] == "bit":
            x = ("bit", cv(src[1]))
        else:
            x = src
        d.append((cl(st_), cl(w), x))
    a = ALIAS8.get(u)
    if a is not None:
        d.append((cu(a[0]), cl(a[1])))
    return tuple(d)


def segs_of(I, st, s):
    """description of the contents of the slice s, starting at 0"""
    if s[3].is_const() and s[3].c == 0:
        return ()
    if s[1] in BITSRC:
        v, w = BITSRC[s[1]]
        return ((const(0), s[3], ("be", v, w, s[2])),)
    g = SEGS.get(s[1])
    if g is not None and s[2].is_const() and s[2].c == 0:
        end = add(g[-1][0], g[-1][1]) if g else const(0)
        if sub(end, s[3]) == const(0):
            return g
    return ((const(0), s[3], ("raw", s[1], s[2])),)


def appended(I, st, s, n, segs):
    """sequence s extended by n elements whose contents are segs"""
    u = I_uid()
    if I.track:
        g = SEGS.get(s[1])
        if g is None:
            g = () if s[3].is_const() and s[3].c == 0 else ((const(0), s[3], ("raw", s[1], s[2])),)
        SEGS[u] = g + tuple((add(a, s[3]), w, x) for a, w, x in segs)
    return ("seq", u, const(0), add(s[3], n), s[4])


def read_bits(I, st, s, n):
    """value of the n (a number) bits at the start of slice s as an affine expression, when the contents are known"""
    if s[1] in BITSRC:
        v, w = BITSRC[s[1]]
        if s[2].is_const():
            return be_bits(I, st, v, w, s[2].c, n)
        return None
    g = SEGS.get(s[1])
    if g is None:
        return None
    val = const(0)
    pos = s[2]
    left = n
    for a, w, src in g:
        if left == 0:
            break
        d = sub(pos, a)
        if not d.is_const() or d.c < 0:
            continue
        if not w.is_const():
            return None
        if d.c >= w.c:
            continue
        k = min(left, w.c - d.c)
        if src[0] == "zero":
            x = const(0)
        elif src[0] == "be" and src[3].is_const():
            x = be_bits(I, st, src[1], src[2], src[3].c + d.c, k)
        elif src[0] == "bit":
            t = I.truth(st, src[1])
            if t is None:
                return None
            x = const(1 if t else 0)
        else:
            return None
        if x is None:
            return None
        val = add(scale(val, 1 << k), x)
        pos = addc(pos, k)
        left -= k
    return val if left == 0 else None


def be_bits(I, st, v, w, a, k):
    """bits a..a+k of the w bit big-endian image of v"""
    if a < 0 or k < 1 or a + k > w:
        return None
    lo, hi = st.num.ival(v)
    if lo < 0:
        if hi < 0 and lo >= -(1 << w):
            v = addc(v, 1 << w)
        else:
            return None
    elif hi >= 1 << w:
        return None
    sh = w - a - k
    x = v
    if sh:
        x = I.divmod(st, x, 1 << sh)[0]
    if a:
        x = I.divmod(st, x, 1 << k)[1]
    return x

# ------------------------------------------------------------------ names
_cache = {}


def _split_top(s, sep):
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c in "<([{":
            d += 1
        elif c in ")]}":
            d -= 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
        if d == 0 and s.startswith(sep, i):
            return s[:i], s[i + len(sep):]
        i += 1
    return None


def base(t):
    t = t.strip()
    pre = ""
    while t.startswith("&"):
        pre += "&"
        t = re.sub(r"^&('\w+ )?(mut )?", "", t).strip()
    if t.startswith("["):
        return pre + ("[;]" if ";" in t else "[]")
    if t.startswith("("):
        return pre + "()"
    if t.startswith("<") or t.startswith("impl "):
        return pre + "?"
    t = re.sub(r"^dyn ", "", t)
    t = t.split("<")[0].rstrip(":")
    return pre + t.split("::")[-1]


def simp(path):
    """(type base, trait base or None, method)"""
    r = _cache.get(path)
    if r is None:
        r = _cache[path] = _simp(path)
    return r


def _simp(path):
    # strip everything up to a top-level '<impl ...>' or leading '<'
    m = re.search(r"<impl ", path)
    if path.startswith("<"):
        # <X as Tr>::m
        d = 0
        for i, c in enumerate(path):
            if c == "<":
                d += 1
            elif c == ">" and path[i - 1] != "-":
                d -= 1
                if d == 0:
                    break
        inner, rest = path[1:i], path[i + 1:]
        meth = rest.split("::")[-1] if rest else ""
        sp = _split_top(inner, " as ")
        if sp:
            return base(sp[0]), base(sp[1]), meth
        return base(inner), None, meth
    if m:
        i0 = m.start()
        d = 0
        for i in range(i0, len(path)):
            c = path[i]
            if c == "<":
                d += 1
            elif c == ">" and path[i - 1] != "-":
                d -= 1
                if d == 0:
                    break
        inner, rest = path[i0 + 6:i], path[i + 1:]
        meth = rest.split("::")[-1] if rest else ""
        sp = _split_top(inner, " for ")
        if sp:
            return base(sp[1]), base(sp[0]), meth
        return base(inner), None, meth
    # plain path, drop ::<...> groups
    s = ""
    d = 0
    for i, c in enumerate(path):
        if c == "<":
            d += 1
        elif c == ">" and path[i - 1] != "-":
            d -= 1
        elif d == 0:
            s += c
    segs = [x for x in s.split("::") if x]
    if len(segs) == 1:
        return None, None, segs[0]
    return segs[-2], None, segs[-1]


# ------------------------------------------------------------------ helpers
def follow(I, st, v, n=6):
    """follow pointers to a non-pointer value (materialising references of known type)"""
    for _ in range(n):
        if v[0] == "ptr":
            w = I.get(st, v[1], v[2])
            if w[0] == "top" and w[1] is not None and I.T[w[1]]["k"] in ("ref",):
                I.deref(st, w, v[1], v[2])
                w = I.get(st, v[1], v[2])
            v = w
        elif v[0] == "top" and v[1] is not None and I.T[v[1]]["k"] in ("ref",):
            k, p = I.deref(st, v)
            v = ("ptr", k, p, False)
        else:
            break
    return v


def place_of(I, st, v, n=6):
    """pointer-ish value -> (key, path) of the final pointee place (the place that holds a non-pointer)"""
    for _ in range(n):
        if v[0] == "ptr":
            w = I.get(st, v[1], v[2])
            if w[0] == "top" and w[1] is not None and I.T[w[1]]["k"] in ("ref",):
                I.deref(st, w, v[1], v[2])
                w = I.get(st, v[1], v[2])
            if w[0] == "ptr":
                v = w
                continue
            return v[1], v[2]
        k, p = I.deref(st, v)
        v = ("ptr", k, p, False)
    return v[1], v[2]


def mk(ty, variant, *fs):
    return ("adt", ty, variant, tuple(fs))


def payload(I, ty, variant=1):
    """type of the payload of an Option (variant 1) / Result / ControlFlow type"""
    if ty is None:
        return None
    t = I.T[ty]
    if t["k"] != "adt" or len(t["variants"]) <= variant or not t["variants"][variant]["fields"]:
        return None
    return t["variants"][variant]["fields"][0][1]


def is_adt(I, ty, path):
    return ty is not None and I.T[ty]["k"] == "adt" and I.T[ty]["path"] == path


OPTION, RESULT = "core::option::Option", "core::result::Result"


def cases(I, st, v, ty=None):
    """split an enum value: [(variant, fields, state)]"""
    if v[0] == "adt":
        return [(v[2], v[3], st)]
    t = v[1] if v[0] == "top" and v[1] is not None else ty
    if t is None or I.T[t]["k"] != "adt" or not I.T[t]["variants"]:
        return None
    out = []
    n = len(I.T[t]["variants"])
    for i in range(n):
        if any(I.T[f]["k"] == "never" for _, f in I.T[t]["variants"][i]["fields"]):
            continue
        s = st.copy()
        m = I.materialize(s, ("top", t, 0), i)
        out.append((i, m[3], s))
    return out


def ref_cases(I, st, p):
    """split the enum behind a pointer, refining the pointee: [(variant, key, path, state)]"""
    key, path = place_of(I, st, p)
    v = I.get(st, key, path)
    if v[0] == "adt":
        return [(v[2], key, path, st)]
    if v[0] != "top" or v[1] is None or I.T[v[1]]["k"] != "adt" or not I.T[v[1]]["variants"]:
        return None
    out = []
    for i in range(len(I.T[v[1]]["variants"])):
        s = st.copy()
        I.put(s, key, path, I.materialize(s, v, i))
        out.append((i, key, path, s))
    return out


def require(I, st, info, kind, detail, cond):
    """obligation cond (a condition value); continue under cond"""
    ok = I.truth(st, cond) is True
    I.obl(kind, detail, ok, info["fn"], info["sp"], st)
    return I.assume(st, cond, True)


def ge(a, b):
    e = sub(a, b)
    if not e.t:
        return ("b", e.c >= 0)
    return ("c", "ge0", e)


def lin(I, st, v):
    if v[0] == "i":
        return v[1]
    w = follow(I, st, v)
    return w[1] if w[0] == "i" else None


def fresh_dst(I, st, info):
    return I.fresh(st, info["dty"]) if info["dty"] is not None else ("top", None, I_uid())


def I_uid():
    import interp
    return interp.uid()


def opaque(I, st, args, info):
    return I.opaque(st, args, info)


def pure(I, st, args, info):
    return [(fresh_dst(I, st, info), st)]


def refto(I, info):
    d = info["dty"]
    if d is not None and I.T[d]["k"] in ("ref", "ptr"):
        return I.T[d]["to"]
    return None


def run_closure_abs(I, st, clo, args, info, dty=None):
    """evaluate a closure zero or more times on arbitrary arguments: check its obligations, forget what it
    may have written"""
    s = st.copy()
    try:
        I.call_closure(s, clo, args, info, dty)
    finally:
        pass
    I.havoc(st, clo)
    return st


# ------------------------------------------------------------------ sequences
def m_len(I, st, args, info):
    s = I.seq_of(st, args[0])
    return [(("i", s[3]), st)]


def m_is_empty(I, st, args, info):
    s = I.seq_of(st, args[0])
    e = s[3]
    if not e.t:
        return [(("b", e.c == 0), st)]
    return [(("c", "eq0", e), st)]


def subseq(I, s, off, n):
    return ("seq", s[1], add(s[2], off), n, s[4])


def mkref_seq(I, st, s, mut=False):
    return ("ptr", I.newcell(st, s), (), mut)


def range_bounds(I, st, v, ln):
    """(start, end, inclusive_end) Lins of a range value, or None"""
    if v[0] == "ptr":
        v = follow(I, st, v)
    if v[0] == "adt":
        p = I.T[v[1]]["path"].split("::")[-1]
        fs = v[3]
        if p == "Range":
            a, b = lin(I, st, fs[0]), lin(I, st, fs[1])
        elif p == "RangeFrom":
            a, b = lin(I, st, fs[0]), ln
        elif p == "RangeTo":
            a, b = const(0), lin(I, st, fs[0])
        elif p == "RangeFull":
            a, b = const(0), ln
        elif p == "RangeInclusive":
            a, b = lin(I, st, fs[0]), lin(I, st, fs[1])
            b = addc(b, 1) if b is not None else None
        elif p == "RangeToInclusive":
            a, b = const(0), lin(I, st, fs[0])
            b = addc(b, 1) if b is not None else None
        else:
            return None
        if a is None or b is None:
            return None
        return a, b
    if v[0] == "top" and v[1] is not None and I.T[v[1]].get("path", "").endswith("RangeFull"):
        return const(0), ln
    return None


def arr_of(I, st, v):
    """the arr value behind a pointer, with its place, when the elements are tracked individually"""
    w = v
    for _ in range(5):
        if w[0] == "ptr":
            x = I.get(st, w[1], w[2])
            if x[0] == "arr":
                return w[1], w[2], x
            w = x
        else:
            return None
    return None


def m_index(I, st, args, info, mut=False):
    base_, idx = args
    ix = idx
    a = arr_of(I, st, base_)
    s = I.seq_of(st, base_)
    if ix[0] == "ptr":
        ix = follow(I, st, ix)
    if ix[0] == "i":
        e = ix[1]
        out = []
        for s1 in require(I, st, info, "index", "element index within length", ge(sub(s[3], e), const(1))):
            if a and e.is_const() and 0 <= e.c < len(a[2][1]):
                out.append((("ptr", a[0], a[1] + (("e", None, e.c),), mut), s1))
                continue
            ety = refto(I, info)
            if ety is None:
                ety = s[4]
            v = I.elem(s1, s, e, ety)
            if mut:
                k, p = place_of(I, s1, base_)
                I.put(s1, k, p, ("seq", I_uid(), const(0), s[3], s[4]))
            out.append((("ptr", I.newcell(s1, v), (), mut), s1))
        return out
    rb = range_bounds(I, st, ix, s[3])
    if rb is None:
        I.obl("slice", "range index with unknown range", False, info["fn"], info["sp"], st)
        n = st.num.fresh(0, INF)
        st.num.assume(sub(s[3], n))
        return [(mkref_seq(I, st, I.newseq(st, s[4], n), mut), st)]
    lo, hi = rb
    out = []
    isstr = refto(I, info) is not None and I.T[refto(I, info)]["k"] == "str"
    for s1 in require(I, st, info, "slice", "range start <= range end", ge(hi, lo)):
        for s2 in require(I, s1, info, "slice", "range end <= length", ge(s[3], hi)):
            if isstr and not I.char_boundary(s2, s, lo, hi):
                I.obl("strslice", "string slice at a character boundary", False, info["fn"], info["sp"], s2)
            if mut:
                k, p = place_of(I, s2, base_)
                I.put(s2, k, p, ("seq", I_uid(), const(0), s[3], s[4]))
            q = subseq(I, s, lo, sub(hi, lo))
            out.append((mkref_seq(I, s2, q, mut), s2))
    return out


def m_index_mut(I, st, args, info):
    return m_index(I, st, args, info, True)


def m_get(I, st, args, info, mut=False):
    s = I.seq_of(st, args[0])
    ix = follow(I, st, args[1])
    oty = info["dty"]
    ety = payload(I, oty)
    if ety is not None and I.T[ety]["k"] in ("ref", "ptr"):
        ety = I.T[ety]["to"]
    elif ety is not None and I.T[ety]["k"] == "adt" and "BitRef" in I.T[ety]["path"]:
        ety = I.booltype()
    if ix[0] == "i":
        c = ge(sub(s[3], ix[1]), const(1))
        out = []
        s2 = st.copy()
        for s1 in I.assume(st, c, True):
            a = arr_of(I, s1, args[0])
            if a and ix[1].is_const() and 0 <= ix[1].c < len(a[2][1]):
                out.append((mk(oty, 1, ("ptr", a[0], a[1] + (("e", None, ix[1].c),), mut)), s1))
                continue
            out.append((mk(oty, 1, ("ptr", I.newcell(s1, I.elem(s1, s, ix[1], ety)), (), mut)), s1))
        for s1 in I.assume(s2, c, False):
            out.append((mk(oty, 0), s1))
        return out
    rb = range_bounds(I, st, ix, s[3])
    if rb is None:
        return None
    lo, hi = rb
    out = []
    cond = ("and", ge(hi, lo), ge(s[3], hi))
    s0 = st.copy()
    for s1 in I.assume(st, cond, True):
        out.append((mk(oty, 1, mkref_seq(I, s1, subseq(I, s, lo, sub(hi, lo)), mut)), s1))
    for s1 in I.assume(s0, cond, False):
        out.append((mk(oty, 0), s1))
    return out


def m_first_last(which):
    def f(I, st, args, info):
        s = I.seq_of(st, args[0])
        oty = info["dty"]
        ety = payload(I, oty)
        ety = I.T[ety]["to"] if ety is not None and I.T[ety]["k"] == "ref" else s[4]
        c = ge(s[3], const(1))
        out = []
        s2 = st.copy()
        for s1 in I.assume(st, c, True):
            i = const(0) if which == "first" else addc(s[3], -1)
            out.append((mk(oty, 1, ("ptr", I.newcell(s1, I.elem(s1, s, i, ety)), (), False)), s1))
        for s1 in I.assume(s2, c, False):
            out.append((mk(oty, 0), s1))
        return out
    return f


def m_split_first(I, st, args, info):
    s = I.seq_of(st, args[0])
    oty = info["dty"]
    c = ge(s[3], const(1))
    out = []
    s2 = st.copy()
    _, _, meth = simp(info["callee"]["path"])
    for s1 in I.assume(st, c, True):
        if meth == "split_last":
            hd = ("ptr", I.newcell(s1, I.elem(s1, s, addc(s[3], -1), s[4])), (), False)
            tl = mkref_seq(I, s1, subseq(I, s, const(0), addc(s[3], -1)))
        else:
            hd = ("ptr", I.newcell(s1, I.elem(s1, s, const(0), s[4])), (), False)
            tl = mkref_seq(I, s1, subseq(I, s, const(1), addc(s[3], -1)))
        out.append((mk(oty, 1, ("tup", (hd, tl))), s1))
    for s1 in I.assume(s2, c, False):
        out.append((mk(oty, 0), s1))
    return out


def m_split_at(I, st, args, info):
    s = I.seq_of(st, args[0])
    m = lin(I, st, args[1])
    if m is None:
        return None
    out = []
    for s1 in require(I, st, info, "slice", "split_at within length", ge(s[3], m)):
        a = mkref_seq(I, s1, subseq(I, s, const(0), m))
        b = mkref_seq(I, s1, subseq(I, s, m, sub(s[3], m)))
        out.append((("tup", (a, b)), s1))
    return out


def setseq(I, st, p, s):
    k, pa = place_of(I, st, p)
    I.put(st, k, pa, s)


def m_push(I, st, args, info):
    s = I.seq_of(st, args[0])
    src = ("bit", args[1]) if args[1][0] in ("b", "bs", "c") else ("unk",)
    setseq(I, st, args[0], appended(I, st, s, const(1), ((const(0), const(1), src),)))
    return [(("tup", ()), st)]


def m_push_str(I, st, args, info):
    s, t = I.seq_of(st, args[0]), I.seq_of(st, args[1])
    setseq(I, st, args[0], ("seq", I_uid(), const(0), add(s[3], t[3]), s[4]))
    return [(("tup", ()), st)]


def m_push_char(I, st, args, info):
    s = I.seq_of(st, args[0])
    k = st.num.fresh(1, 4)
    setseq(I, st, args[0], ("seq", I_uid(), const(0), add(s[3], k), s[4]))
    return [(("tup", ()), st)]


def m_pop(I, st, args, info):
    s = I.seq_of(st, args[0])
    oty = info["dty"]
    c = ge(s[3], const(1))
    out = []
    s2 = st.copy()
    for s1 in I.assume(st, c, True):
        setseq(I, s1, args[0], ("seq", I_uid(), const(0), addc(s[3], -1), s[4]))
        out.append((mk(oty, 1, I.fresh(s1, payload(I, oty))), s1))
    for s1 in I.assume(s2, c, False):
        out.append((mk(oty, 0), s1))
    return out


def m_insert(I, st, args, info):
    s = I.seq_of(st, args[0])
    e = lin(I, st, args[1])
    if e is None:
        return None
    out = []
    for s1 in require(I, st, info, "index", "insert position within length", ge(s[3], e)):
        setseq(I, s1, args[0], ("seq", I_uid(), const(0), addc(s[3], 1), s[4]))
        out.append((("tup", ()), s1))
    return out


def m_remove(I, st, args, info):
    s = I.seq_of(st, args[0])
    e = lin(I, st, args[1])
    if e is None:
        return None
    out = []
    for s1 in require(I, st, info, "index", "remove position within length", ge(sub(s[3], e), const(1))):
        setseq(I, s1, args[0], ("seq", I_uid(), const(0), addc(s[3], -1), s[4]))
        out.append((I.fresh(s1, info["dty"]) if info["dty"] is not None else ("top", None, I_uid()), s1))
    return out


def m_clear(I, st, args, info):
    s = I.seq_of(st, args[0])
    setseq(I, st, args[0], ("seq", I_uid(), const(0), const(0), s[4]))
    return [(("tup", ()), st)]


def m_truncate(I, st, args, info):
    s = I.seq_of(st, args[0])
    e = lin(I, st, args[1])
    n = st.num.fresh(0, INF)
    st.num.assume(sub(s[3], n))
    if e is not None:
        st.num.assume(sub(e, n))
    setseq(I, st, args[0], ("seq", I_uid(), const(0), n, s[4]))
    return [(("tup", ()), st)]


def m_resize(I, st, args, info):
    s = I.seq_of(st, args[0])
    e = lin(I, st, args[1])
    if e is None:
        e = st.num.fresh(0, INF)
    d = sub(e, s[3])
    if I.track and st.num.prove(d):
        zero = len(args) > 2 and I.truth(st, args[2]) is False if args[2:] and args[2][0] in ("b", "bs", "c") else False
        setseq(I, st, args[0], appended(I, st, s, d, ((const(0), d, ("zero",) if zero else ("unk",)),)))
    else:
        setseq(I, st, args[0], ("seq", I_uid(), const(0), e, s[4]))
    return [(("tup", ()), st)]


def m_append(I, st, args, info):
    """Vec::append(&mut other)"""
    s, t = I.seq_of(st, args[0]), I.seq_of(st, args[1])
    I.on_read(st, info, t)
    setseq(I, st, args[0], appended(I, st, s, t[3], segs_of(I, st, t)))
    setseq(I, st, args[1], ("seq", I_uid(), const(0), const(0), t[4]))
    return [(("tup", ()), st)]


def seq_len_of_iterable(I, st, v):
    """(Lin number of items or None)"""
    w = v
    if w[0] == "iter":
        if w[4].endswith("?"):
            return None
        return sub(w[3], w[2])
    if w[0] == "adt" and I.T[w[1]]["path"].endswith("range::Range"):
        return None
    if w[0] == "adt" and is_adt(I, w[1], OPTION):
        return const(1) if w[2] == 1 else const(0)
    if w[0] in ("ptr", "seq", "arr", "str", "strref"):
        x = follow(I, st, w) if w[0] == "ptr" else w
        if x[0] == "iter":
            return seq_len_of_iterable(I, st, x)
        if x[0] in ("seq", "arr", "str"):
            return I.as_seq_val(st, x)[3]
        if x[0] == "top" and x[1] is not None and seqlike(I, x[1]):
            return I.seq_of(st, w)[3]
    if w[0] == "top" and w[1] is not None and seqlike(I, w[1]):
        return I.as_seq_val(st, w)[3]
    return None


def seqlike(I, ty):
    t = I.T[ty]
    if t["k"] in ("slice", "str", "array"):
        return True
    if t["k"] == "adt":
        return t["path"] in ("alloc::vec::Vec", "alloc::string::String", "bitvec::vec::BitVec", "bitvec::slice::BitSlice",
                             "alloc::collections::vec_deque::VecDeque")
    return False


def m_extend(I, st, args, info):
    w = follow(I, st, args[1])
    if is_lazy(w):
        i2 = dict(info)
        i2["dty"] = None
        res = [(s, w) for _, s in lazy_collect(I, st, [w], i2, w)]
        out = []
        for s, w in res:
            n = sub(w[3], w[2])
            if w[4].endswith("?"):
                n = s.num.fresh(0, MAXLEN)
                s.num.assume(sub(sub(w[3], w[2]), n))
            q = I.seq_of(s, args[0])
            setseq(I, s, args[0], appended(I, s, q, n, ((const(0), n, ("unk",)),)))
            I.on_append(s, info, args[0], q, args[1], n)
            out.append((("tup", ()), s))
        return out
    s = I.seq_of(st, args[0])
    n = seq_len_of_iterable(I, st, args[1])
    if n is None:
        n = st.num.fresh(0, MAXLEN)
    segs = ((const(0), n, ("unk",)),)
    w = args[1] if args[1][0] != "ptr" else follow(I, st, args[1])
    if w[0] in ("seq", "arr", "str") or (w[0] == "top" and w[1] is not None and seqlike(I, w[1])):
        q = I.seq_of(st, args[1])
        I.on_read(st, info, q)
        segs = segs_of(I, st, q)
    elif w[0] == "iter" and not w[4].endswith("?") and w[6] is not None and w[6][0] == "seq" and \
            w[4] in ("val", "ref") and w[2].is_const() and w[2].c == 0:
        I.on_read(st, info, w[6])
        segs = segs_of(I, st, w[6])
    setseq(I, st, args[0], appended(I, st, s, n, segs))
    I.on_append(st, info, args[0], s, args[1], n)
    return [(("tup", ()), st)]


MAXLEN = 1 << 60


def m_new_seq(I, st, args, info):
    ety = None
    if info["dty"] is not None and I.T[info["dty"]]["k"] == "adt" and I.T[info["dty"]]["args"] and \
            I.T[info["dty"]]["path"] == "alloc::vec::Vec":
        ety = I.T[info["dty"]]["args"][0]
    return [(("seq", I_uid(), const(0), const(0), ety), st)]


def m_same_seq(I, st, args, info):
    """a copy / view of the argument with the same contents (to_vec, to_bitvec, into_vec ...)"""
    s = I.seq_of(st, args[0])
    I.on_read(st, info, s)
    if I.copies_anew and not isinstance(s[1], tuple):
        s = ("seq", I_uid(), const(0), s[3], s[4])
    return [(s, st)]


def m_into_vec(I, st, args, info):
    """BitVec::into_vec / Vec::from(BitVec): the octets holding the bits"""
    s = I.seq_of(st, args[0])
    u = I_uid()
    ALIAS8[u] = (s[1], s[2])
    return [(("seq", u, const(0), I.ceil_div(st, s[3], 8), None), st)]


def m_view(I, st, args, info):
    """deref / as_slice / as_str / borrow: pointer to the same place"""
    v = args[0]
    if v[0] == "strref":
        return [(v, st)]
    k, p = place_of(I, st, v)
    w = I.get(st, k, p)
    if w[0] == "top" and w[1] is not None and seqlike(I, w[1]):
        I.seq_at(st, k, p)
    return [(("ptr", k, p, bool(v[3]) if v[0] == "ptr" else False), st)]


def m_deref(I, st, args, info):
    v = args[0]
    if v[0] == "strref":
        return [(v, st)]
    a0 = info["argtys"][0] if info["argtys"] else None
    to = I.T[a0]["to"] if a0 is not None and I.T[a0]["k"] == "ref" else None
    if to is not None and I.T[to]["k"] == "adt":
        p = I.T[to]["path"]
        if seqlike(I, to):
            return m_view(I, st, args, info)
        if p == "alloc::boxed::Box" or "BitRef" in p:
            w = I.get(st, v[1], v[2]) if v[0] == "ptr" else v
            if w[0] == "ptr":
                return [(w, st)]
            if v[0] == "ptr":
                k, pa = I.deref(st, w, v[1], v[2])
                return [(("ptr", k, pa, True), st)]
    return [(fresh_dst(I, st, info), st)]


def m_bits_of(I, st, args, info):
    """view_bits / as_bits / from_slice: bit view of octets or of an integer"""
    a0 = args[0]
    if "Lsb0" in str(info["callee"].get("full")):
        return None
    v = follow(I, st, a0)
    if v[0] == "i":
        aty = info["argtys"][0]
        t = I.T[aty]
        while t["k"] == "ref":
            t = I.T[t["to"]]
        w = t.get("bits", 64)
        u = I_uid()
        BITSRC[u] = (v[1], w)
        return [(mkref_seq(I, st, ("seq", u, const(0), const(w), None)), st)]
    aty = info["argtys"][0] if info["argtys"] else None
    t = I.T[aty] if aty is not None else None
    while t is not None and t["k"] == "ref":
        t = I.T[t["to"]]
    if t is not None and t["k"] in ("array", "slice") and I.T[t["to"]]["k"] in ("int", "uint") and I.T[t["to"]].get("bits", 8) != 8:
        return None
    s = I.seq_of(st, a0)
    u = ("bits", s[1])
    if v[0] == "arr" and v[1] and all(x[0] == "i" for x in v[1]):
        # octets written one by one
        e = const(0)
        for x in v[1]:
            e = add(scale(e, 256), x[1]) if e is not None and st.num.prove(x[1]) and st.num.prove(sub(const(255), x[1])) else None
        if e is not None:
            BITSRC[s[1]] = (e, 8 * len(v[1]))
    if s[1] in BITSRC:
        BITSRC[u] = BITSRC[s[1]]
    return [(mkref_seq(I, st, ("seq", u, scale(s[2], 8), scale(s[3], 8), None)), st)]


def m_to_be_bytes(I, st, args, info):
    v = args[0]
    t = I.T[info["argtys"][0]]
    w = t["bits"]
    u = I_uid()
    if v[0] == "i":
        BITSRC[u] = (v[1], w)
    ety = I.T[info["dty"]]["to"] if info["dty"] is not None and I.T[info["dty"]]["k"] == "array" else None
    return [(("seq", u, const(0), const(w // 8), ety), st)]


# ------------------------------------------------------------------ iterators
def mkiter(I, s_len, kind, ety, src=None, pos=None):
    return ("iter", I_uid(), pos if pos is not None else const(0), s_len, kind, ety, src)


def m_iter(kind):
    def f(I, st, args, info):
        v = args[0]
        w = follow(I, st, v)
        if w[0] == "iter":
            return [(w, st)]
        if w[0] == "adt" and is_adt(I, w[1], OPTION):
            return [(mkiter(I, const(1 if w[2] == 1 else 0), "val", None), st)]
        if w[0] == "adt" and I.T[w[1]]["path"].startswith("core::ops::range::"):
            return [(w, st)]
        k = kind
        if k == "auto":
            a0 = info["argtys"][0]
            t = I.T[a0] if a0 is not None else None
            k = "val"
            if t is not None and t["k"] == "ref":
                k = "mut" if t["mut"] else "ref"
            elif t is not None and t["k"] == "adt" and not seqlike(I, a0):
                if t["adt"] == "struct" and not any(x in t["path"] for x in ("Map", "Set", "BinaryHeap", "LinkedList")):
                    # into_iter of an iterator is itself
                    return [(w if w[0] != "ptr" else v, st)]
        if w[0] == "top" and (w[1] is None or not seqlike(I, w[1])):
            if w[1] is not None and I.T[w[1]]["k"] == "adt" and any(x in I.T[w[1]]["path"] for x in ("Map", "Set", "BinaryHeap", "LinkedList")):
                return [(mkiter(I, st.num.fresh(0, MAXLEN), "val", None), st)]
            return [(fresh_dst(I, st, info), st)]
        s = I.seq_of(st, v)
        if k == "mut" and v[0] == "ptr":
            setseq(I, st, v, ("seq", I_uid(), const(0), s[3], s[4]))
        return [(mkiter(I, s[3], k, s[4], s if k == "ref" else None), st)]
    return f


def item_type(I, info, kind_opt=True):
    return payload(I, info["dty"]) if info["dty"] is not None else None


def iter_item(I, st, it, ty):
    """value of the next item; ty = item type or None"""
    kind = it[4].rstrip("?")
    if kind == "enum":
        inner_ty = None
        if ty is not None and I.T[ty]["k"] == "tuple":
            inner_ty = I.T[ty]["fields"][1]
        return ("tup", (("i", it[2]), iter_item(I, st, it[6], inner_ty)))
    if kind == "copied":
        p = iter_item(I, st, it[6], None)
        if p[0] == "ptr":
            w = I.get(st, p[1], p[2])
            if not (w[0] == "top" and w[1] is None):
                return w
        return I.fresh(st, ty) if ty is not None else ("top", None, I_uid())
    if kind in ("ref", "mut"):
        ety = it[5]
        if ty is not None:
            if I.T[ty]["k"] == "ref":
                ety = I.T[ty]["to"]
            elif I.T[ty]["k"] == "adt" and "BitRef" in I.T[ty]["path"]:
                ety = I.booltype()
        if it[6] is not None and it[6][0] == "seq":
            v = I.elem(st, it[6], it[2], ety)
        else:
            v = I.fresh(st, ety) if ety is not None else ("top", None, I_uid())
        return ("ptr", I.newcell(st, v), (), kind == "mut")
    if kind == "sub" and it[6] is not None:
        # items are sub-slices of the length given by the template (exact or at most)
        t = it[6]
        n = t[3]
        if it[5] == "atmost":
            n = st.num.fresh(0, MAXLEN)
            st.num.assume(sub(t[3], n))
        if it[5] == "upto":
            n = st.num.fresh(1, MAXLEN)
            st.num.assume(sub(t[3], n))
        ety = t[4][4] if isinstance(t[4], tuple) else t[4]
        return mkref_seq(I, st, ("seq", I_uid(), const(0), n, ety))
    if ty is not None:
        return I.fresh(st, ty)
    if it[5] is not None and not isinstance(it[5], str):
        return I.fresh(st, it[5])
    return ("top", None, I_uid())


LAZY = ("map", "zip")


def is_lazy(it):
    """an iterator whose items are computed by running closures when it is advanced"""
    if it[0] != "iter":
        return False
    if it[4].rstrip("?") in LAZY:
        return True
    return it[4].rstrip("?") in ("enum", "copied") and it[6] is not None and is_lazy(it[6])


def in_frame(I, st, vals, f):
    """run f with the values kept alive in a frame of their own: f(keys) -> any; the frame is removed by drop_frame"""
    fid = next(I.fid)
    keys = [("L", fid, i) for i in range(len(vals))]
    for k, v in zip(keys, vals):
        st.mem[k] = v
    saved = I.frames
    I.frames = tuple(I.frames) + (fid,)
    try:
        return f(keys)
    finally:
        I.frames = saved


def next_item(I, st, it, ity, info):
    """advance an iterator value: [(item or None, iterator, state)]"""
    if it[0] == "adt":
        incl = I.T[it[1]]["path"].endswith("RangeInclusive")
        a, b = lin(I, st, it[3][0]), lin(I, st, it[3][1])
        if a is None or b is None:
            s2 = st.copy()
            return [(I.fresh(st, ity) if ity is not None else ("top", None, I_uid()), it, st), (None, it, s2)]
        # inclusive: exhausted flag folded into start = end + 1
        c = ge(b, a) if incl else ge(sub(b, a), const(1))
        out = []
        s2 = st.copy()
        for s1 in I.assume(st, c, True):
            out.append((("i", a), ("adt", it[1], 0, (("i", addc(a, 1)),) + it[3][1:]), s1))
        for s1 in I.assume(s2, c, False):
            out.append((None, it, s1))
        return out
    kind = it[4].rstrip("?")
    if is_lazy(it):
        out = []
        if kind == "zip":
            tys = I.T[ity]["fields"] if ity is not None and I.T[ity]["k"] == "tuple" else (None, None)
            for x, a, s1 in next_item(I, st, it[6][1][0], tys[0], info):
                if x is None:
                    out.append((None, it[:6] + (("tup", (a, it[6][1][1])),), s1))
                    continue
                for y, b, s2 in next_item(I, s1, it[6][1][1], tys[1], info):
                    n = it[:2] + (addc(it[2], 1),) + it[3:6] + (("tup", (a, b)),)
                    out.append((None, n, s2) if y is None else (("tup", (x, y)), n, s2))
            return out
        if kind == "map":
            src, clo = it[6][1]
            for x, a, s1 in next_item(I, st, src, clo_param_type(I, clo, st), info):
                if x is None:
                    out.append((None, it[:6] + (("tup", (a, clo)),), s1))
                    continue

                used = []

                def go(ks):
                    used.append(ks[0])
                    return I.call_closure(s1, clo_arg(s1, ks, 0), [x], info, None)
                for v, s2 in in_frame(I, s1, [clo], go):
                    c2 = s2.mem.pop(used[0], clo)
                    n = it[:2] + (addc(it[2], 1),) + it[3:6] + (("tup", (a, c2)),)
                    out.append((v, n, s2))
            return out
        inner = None
        if kind == "enum" and ity is not None and I.T[ity]["k"] == "tuple":
            inner = I.T[ity]["fields"][1]
        for x, a, s1 in next_item(I, st, it[6], inner, info):
            n = it[:2] + (addc(it[2], 1) if x is not None else it[2],) + it[3:6] + (a,)
            if x is None:
                out.append((None, n, s1))
            elif kind == "enum":
                out.append((("tup", (("i", it[2]), x)), n, s1))
            else:
                out.append((follow(I, s1, x), n, s1))
        return out
    left = sub(it[3], it[2])
    c = ge(left, const(1))
    out = []
    s2 = st.copy()
    for s1 in I.assume(st, c, True):
        item = iter_item(I, s1, it, ity)
        src = it[6]
        if kind in ("enum", "copied") and src is not None:
            src = src[:2] + (addc(src[2], 1),) + src[3:]
        out.append((item, ("iter", it[1], addc(it[2], 1), it[3], it[4], it[5], src), s1))
    for s1 in I.assume(s2, c, False):
        out.append((None, it, s1))
    if it[4].endswith("?") and out and out[0][0] is not None:
        # the number of items is only an upper bound
        out.append((None, ("iter", it[1], it[3], it[3], it[4], it[5], None), out[0][2].copy()))
    return out


RANGES = ("core::ops::range::Range", "core::ops::range::RangeInclusive")


def m_next(I, st, args, info):
    p = args[0]
    key, path = place_of(I, st, p)
    it = I.get(st, key, path)
    oty = info["dty"]
    if not (it[0] == "iter" or it[0] == "adt" and I.T[it[1]]["path"] in RANGES):
        ty = it[1] if it[0] == "top" else None
        if ty is not None and I.T[ty]["k"] == "adt" and I.T[ty]["path"] in RANGES:
            it = I.materialize(st, it, 0)
            I.put(st, key, path, it)
        elif ty is not None and I.T[ty]["k"] == "adt" and I.T[ty]["path"].split("::")[0] in ("core", "alloc", "std") and \
                not any(x in I.T[ty]["path"] for x in ("Cycle", "Repeat", "RangeFrom", "FromFn", "Successors")):
            it = mkiter(I, st.num.fresh(0, MAXLEN), "val?", None)
            I.put(st, key, path, it)
        else:
            I.havoc(st, p)
            return [(fresh_dst(I, st, info), st)]
    out = []
    for x, it2, s in next_item(I, st, it, payload(I, oty), info):
        I.put(s, key, path, it2)
        out.append((mk(oty, 0) if x is None else mk(oty, 1, x), s))
    return out


def abs_loop(I, st, info, it, extra, body, finish, ity=None):
    """An iterator consumer as a loop with a fixpoint: body(state, item, keys) -> [(again, value, state)];
    finish(state, keys) -> [(value, state)].  keys[0] holds the iterator, keys[1:] the extra values."""
    unroll = 14 if I.track and few(I, it) is not None else 0
    fn, fid = I.curfn, I.curfid

    def go(keys):
        tbl, outs = {}, {}
        work = [(0, st)]
        rounds = 0
        while work:
            n, s = work.pop(0)
            I.curfn, I.curfid = fn, fid
            rounds += 1
            rts = sorted(k for k in s.mem if k[0] == "L" and k[1] in I.frames)
            rts += [k for k in s.ghost.get("roots", ()) if k in s.mem]
            I.gc(s, rts)
            sk = (s.ghost.get("failed"), tuple((k, s.mem[k][2]) for k in keys[1:] if s.mem.get(k, UNITV)[0] == "adt"),
                  s.trace if not I.star_traces else None, n if n < unroll else None)
            if len(tbl) >= 24 and sk not in tbl:
                sk = next(iter(tbl))
            if sk not in tbl:
                tbl[sk] = [s, 0, set()]
            else:
                a = tbl[sk]
                I.stats["joins"] += 1
                j, ch = I.join(a[0], s, rts, a[1], a[2])
                if not ch:
                    continue
                a[1] += 1
                if a[1] > 40:
                    import interp
                    raise interp.Gap("no fixpoint of an iterator in %s" % info["fn"].path)
                s = j
                I.gc(s, sorted(k for k in s.mem if k[0] == "L" and k[1] in I.frames) + [k for k in s.ghost.get("roots", ()) if k in s.mem])
                a[0] = s
            s = s.copy()
            o = outs[sk] = []
            for x, it2, s1 in next_item(I, s, s.mem[keys[0]], ity, info):
                s1.mem[keys[0]] = it2
                if x is None:
                    o += finish(s1, keys)
                    continue
                for again, v, s2 in body(s1, x, keys):
                    if again:
                        work.append((n + 1, s2))
                    else:
                        o.append((v, s2))
        res = [r for o in outs.values() for r in o]
        its = [(s.mem.get(keys[0]), v, s) for v, s in res]
        for _, _, s in its:
            for k in keys:
                s.mem.pop(k, None)
        return its
    return in_frame(I, st, [it] + list(extra), go)


UNITV = ("tup", ())


def loop_iter(I, st, v):
    """the iterator value of a consumer's first argument, ranges kept as they are"""
    w = follow(I, st, v)
    if w[0] == "adt" and I.T[w[1]]["path"] in RANGES:
        return w
    return as_iter(I, st, v, True)


def write_back(I, arg, res):
    out = []
    for it, v, s in res:
        if arg[0] == "ptr" and it is not None:
            k, p = place_of(I, s, arg)
            if I.get(s, k, p)[0] in ("iter", "adt"):
                I.put(s, k, p, it)
        out.append((v, s))
    return out


def force(I, st, it, info=None):
    """a lazy iterator used in a way that is not modelled: its closures run any number of times"""
    i2 = info or I.lazyinfo
    src = it[6]
    if it[4].rstrip("?") == "map":
        src, clo = it[6][1]
        inner = as_iter_val(I, st, src)
        if is_lazy(inner):
            inner = force(I, st, inner, info)
        s = st.copy()
        if s.num.assume(addc(sub(inner[3], inner[2]), -1)):
            I.call_closure(s, clo, [some_item(I, s, inner, clo)], i2)
        I.havoc(st, clo)
    elif it[4].rstrip("?") == "zip":
        for x in it[6][1]:
            x = as_iter_val(I, st, x)
            if is_lazy(x):
                force(I, st, x, info)
    elif src is not None and src[0] == "iter":
        force(I, st, src, info)
        return mkiter(I, sub(it[3], it[2]), "val?" if it[4].endswith("?") else "val", None)
    return mkiter(I, sub(it[3], it[2]), "val?" if it[4].endswith("?") else "val", None)


def m_for_each(I, st, args, info):
    it = loop_iter(I, st, args[0])

    def body(s, x, ks):
        return [(True, None, s2) for _, s2 in I.call_closure(s, clo_arg(s, ks, 1), [x], info, None)]
    return write_back(I, args[0], abs_loop(I, st, info, it, [args[1]], body, lambda s, ks: [(UNITV, s)],
                                           clo_param_type(I, args[1], st)))


def clo_arg(st, ks, i):
    v = st.mem.get(ks[i])
    if v is not None and v[0] in ("ptr", "fn"):
        return v
    return ("ptr", ks[i], (), True)


def m_try_for_each(I, st, args, info):
    it = loop_iter(I, st, args[0])
    d = info["dty"]
    if d is None or I.T[d]["k"] != "adt":
        return m_fold(I, st, args, info)
    g, b = goodbad(I, d)

    def body(s, x, ks):
        out = []
        for v, s2 in I.call_closure(s, clo_arg(s, ks, 1), [x], info, None):
            for i, fs, s3 in cases(I, s2, v, d) or [(g, (UNITV,), s2), (b, None, s2.copy())]:
                if i == g:
                    out.append((True, None, s3))
                else:
                    out.append((False, mk(d, b, *fs) if fs is not None else I.materialize(s3, ("top", d, 0), b), s3))
        return out
    return write_back(I, args[0], abs_loop(I, st, info, it, [args[1]], body, lambda s, ks: [(mk(d, g, UNITV), s)],
                                           clo_param_type(I, args[1], st)))


def m_folds(I, st, args, info):
    meth = simp(info["callee"]["path"])[2]
    it = loop_iter(I, st, args[0])
    d = info["dty"]
    tr = meth == "try_fold"
    if tr and (d is None or I.T[d]["k"] != "adt"):
        return m_fold(I, st, args, info)
    if tr:
        g, b = goodbad(I, d)

    def body(s, x, ks):
        out = []
        for v, s2 in I.call_closure(s, clo_arg(s, ks, 2), [s.mem[ks[1]], x], info, None):
            if not tr:
                s2.mem[ks[1]] = v
                out.append((True, None, s2))
                continue
            for i, fs, s3 in cases(I, s2, v, d) or [(g, None, s2), (b, None, s2.copy())]:
                if fs is None:
                    fs = I.materialize(s3, ("top", d, 0), i)[3]
                if i == g:
                    s3.mem[ks[1]] = fs[0]
                    out.append((True, None, s3))
                else:
                    out.append((False, mk(d, b, *fs), s3))
        return out

    def finish(s, ks):
        v = s.mem[ks[1]]
        return [(mk(d, g, v) if tr else v, s)]
    return write_back(I, args[0], abs_loop(I, st, info, it, [args[1], args[2]], body, finish,
                                           clo_param_type(I, args[2], st, 2)))


def lazy_any_all(I, st, args, info, it):
    stop = simp(info["callee"]["path"])[2] == "any"

    def body(s, x, ks):
        out = []
        for v, s1 in I.call_closure(s, clo_arg(s, ks, 1), [x], info, None):
            s0 = s1.copy()
            for s2 in I.assume(s1, v, stop):
                out.append((False, ("b", stop), s2))
            for s2 in I.assume(s0, v, not stop):
                out.append((True, None, s2))
        return out
    return write_back(I, args[0], abs_loop(I, st, info, it, [args[1]], body, lambda s, ks: [(("b", not stop), s)],
                                           clo_param_type(I, args[1], st)))


def captures(I, st, clo):
    v = follow(I, st, clo)
    return v[0] == "clo" and bool(v[2])


def writes(I, st, clo):
    """the closure can change what it captured"""
    v = follow(I, st, clo)
    return v[0] == "clo" and any(x[0] == "ptr" and x[3] for x in v[2])


def lazy_collect(I, st, args, info, it):
    """collect / count / sum of an iterator with closures"""
    d = info["dty"]
    meth = simp(info["callee"]["path"])[2]
    n0 = None if it[4].endswith("?") else sub(it[3], it[2])
    wrap = None
    v = d
    if meth == "collect" and d is not None and (is_adt(I, d, RESULT) or is_adt(I, d, OPTION)):
        wrap = goodbad(I, d)
        v = payload(I, d, wrap[0])
    ety = None
    if v is not None and seqlike(I, v) and I.T[v]["path"] == "alloc::vec::Vec" and I.T[v]["args"]:
        ety = I.T[v]["args"][0]
    acc = ("seq", I_uid(), const(0), const(0), ety)

    def push(s, ks, x=None):
        a = s.mem[ks[1]]
        s.mem[ks[1]] = ("seq", a[1] if a[0] == "seq" else I_uid(), const(0), addc(a[3], 1), ety)
        return (True, None, s)

    def body(s, x, ks):
        if wrap is None:
            return [push(s, ks)]
        out = []
        for i, fs, s2 in cases(I, s, x) or [(wrap[0], None, s), (wrap[1], None, s.copy())]:
            if i == wrap[0]:
                out.append(push(s2, ks))
            else:
                out.append((False, mk(d, i, *fs) if fs is not None else I.materialize(s2, ("top", d, 0), i), s2))
        return out

    def finish(s, ks):
        a = s.mem[ks[1]]
        n = n0 if n0 is not None else a[3]
        if meth == "count":
            return [(("i", n), s)]
        if meth != "collect":
            return [(fresh_dst(I, s, info), s)]
        if v is not None and seqlike(I, v) and I.T[v]["path"].split("::")[-1] in ("Vec", "VecDeque", "BitVec"):
            r = ("seq", I_uid(), const(0), n, ety)
        else:
            r = I.fresh(s, v) if v is not None else ("top", None, I_uid())
        return [(mk(d, wrap[0], r) if wrap else r, s)]
    return [(v_, s) for _, v_, s in abs_loop(I, st, info, it, [acc], body, finish)]


def m_next_back(I, st, args, info):
    key, path = place_of(I, st, args[0])
    it = I.get(st, key, path)
    oty = info["dty"]
    if it[0] == "adt" and I.T[it[1]]["path"] == "core::ops::range::Range":
        a, b = lin(I, st, it[3][0]), lin(I, st, it[3][1])
        out = []
        s2 = st.copy()
        for s1 in I.assume(st, ge(sub(b, a), const(1)), True):
            I.put(s1, key, path, ("adt", it[1], 0, (("i", a), ("i", addc(b, -1)))))
            out.append((mk(oty, 1, ("i", addc(b, -1))), s1))
        for s1 in I.assume(s2, ge(sub(b, a), const(1)), False):
            out.append((mk(oty, 0), s1))
        return out
    if it[0] != "iter":
        return None
    c = ge(sub(it[3], it[2]), const(1))
    out = []
    s2 = st.copy()
    for s1 in I.assume(st, c, True):
        ity = payload(I, oty)
        v = I.fresh(s1, ity) if ity is not None else ("top", None, I_uid())
        I.put(s1, key, path, ("iter", it[1], it[2], addc(it[3], -1), "val" if it[4] != "enum" else "val", it[5], None))
        out.append((mk(oty, 1, v), s1))
    for s1 in I.assume(s2, c, False):
        out.append((mk(oty, 0), s1))
    return out


def as_iter(I, st, v, lazy=False):
    w = follow(I, st, v)
    it = as_iter_val(I, st, w, v)
    if not lazy and is_lazy(it):
        return force(I, st, it)
    return it


def as_iter_val(I, st, w, v=None):
    if w[0] == "iter":
        return w
    if w[0] == "adt" and I.T[w[1]]["path"] in RANGES:
        a, b = lin(I, st, w[3][0]), lin(I, st, w[3][1])
        if a is not None and b is not None:
            n = addc(sub(b, a), 1) if I.T[w[1]]["path"].endswith("Inclusive") else sub(b, a)
            if st.num.prove(n):
                return mkiter(I, n, "val", I.T[w[1]]["args"][0])
    if v is not None and (w[0] in ("seq", "arr") or (w[0] == "top" and w[1] is not None and seqlike(I, w[1]))):
        s = I.seq_of(st, v)
        return mkiter(I, s[3], "ref" if v[0] == "ptr" else "val", s[4], s)
    return mkiter(I, st.num.fresh(0, MAXLEN), "val?", None)


def m_enumerate(I, st, args, info):
    it = as_iter(I, st, args[0], True)
    if is_lazy(it):
        return [(("iter", I_uid(), const(0), sub(it[3], it[2]), "enum?" if it[4].endswith("?") else "enum", None, it), st)]
    if not (it[2].is_const() and it[2].c == 0) or it[4] == "val?":
        return [(mkiter(I, sub(it[3], it[2]), "enum?" if it[4].endswith("?") else "enum", None, it), st)]
    return [(mkiter(I, it[3], "enum", None, it), st)]


def m_copied(I, st, args, info):
    it = as_iter(I, st, args[0], True)
    if is_lazy(it):
        return [(("iter", I_uid(), it[2], it[3], "copied?" if it[4].endswith("?") else "copied", None, it), st)]
    if it[4].endswith("?"):
        return [(mkiter(I, sub(it[3], it[2]), "val?", None), st)]
    return [(("iter", I_uid(), it[2], it[3], "copied", None, it), st)]


def clo_param_type(I, clo, st, i=1):
    v = clo
    for _ in range(3):
        if v[0] == "ptr":
            v = I.get(st, v[1], v[2])
    if v[0] == "clo":
        fn = I.prog.fns.get(v[1])
        if fn is not None and fn.argc > i:
            return fn.locals[i + 1]
    if v[0] == "fn":
        fn = I.prog.fns.get(v[1])
        if fn is not None and fn.argc >= i:
            return fn.locals[i]
    return None


def some_item(I, st, it, clo, byref=False):
    ty = clo_param_type(I, clo, st)
    if byref:
        t2 = I.T[ty]["to"] if ty is not None and I.T[ty]["k"] == "ref" else None
        return ("ptr", I.newcell(st, iter_item_any(I, st, it, t2)), (), False)
    return iter_item_any(I, st, it, ty)


def iter_item_any(I, st, it, ty):
    """an arbitrary remaining item"""
    p = st.num.fresh(0, MAXLEN)
    st.num.assume(sub(p, it[2]))
    st.num.assume(addc(sub(it[3], p), -1))
    it2 = it[:2] + (p,) + it[3:]
    if it[4].startswith("enum") and it[6] is not None:
        it2 = it2[:6] + (it[6][:2] + (add(it[6][2], sub(p, it[2])),) + it[6][3:],)
    if it[4] == "copied" and it[6] is not None:
        it2 = it2[:6] + (it[6][:2] + (p,) + it[6][3:],)
    return iter_item(I, st, it2, ty)


def m_map(I, st, args, info):
    it = as_iter(I, st, args[0], True)
    if is_lazy(it) or captures(I, st, args[1]) and not (I.track and it[4] == "sub"):
        src = follow(I, st, args[0])
        if not (src[0] == "adt" and I.T[src[1]]["path"] in RANGES):
            src = it
        I.lazyinfo = info
        return [(("iter", I_uid(), const(0), sub(it[3], it[2]), "map?" if it[4].endswith("?") else "map", None,
                  ("tup", (src, follow(I, st, args[1])))), st)]
    s = st.copy()
    src = None
    if s.num.assume(addc(sub(it[3], it[2]), -1)):
        item = some_item(I, s, it, args[1])
        q = I.seq_of(s, item) if I.track and it[4] == "sub" and item[0] == "ptr" else None
        rs = I.call_closure(s, args[1], [item], info)
        if q is not None and it[5] in ("exact",) and rs:
            # every item is the big-endian value of one whole octet of the source
            if all(v[0] == "i" and len(v[1].t) == 1 and v[1].c == 0 and LOADED.get(v[1].t[0][0], (None,))[0] == q[1] and
                   q[3] == const(8) for v, _ in rs):
                u = I_uid()
                ALIAS8[u] = it[6][4][1:3]
                src = ("seq", u, const(0), sub(it[3], it[2]), None)
    I.havoc(st, args[1])
    return [(mkiter(I, sub(it[3], it[2]), "val?" if it[4].endswith("?") else "val", None, src), st)]


def m_filterlike(byref):
    def f(I, st, args, info):
        it = as_iter(I, st, args[0])
        s = st.copy()
        if s.num.assume(addc(sub(it[3], it[2]), -1)):
            I.call_closure(s, args[1], [some_item(I, s, it, args[1], byref)], info, None)
        I.havoc(st, args[1])
        return [(mkiter(I, sub(it[3], it[2]), "val?", None), st)]
    return f


def m_any_all(I, st, args, info):
    it = as_iter(I, st, args[0], True)
    if is_lazy(it) or writes(I, st, args[1]):
        return lazy_any_all(I, st, args, info, loop_iter(I, st, args[0]))
    src = it[6]
    left = sub(it[3], it[2])
    if src is not None and src[0] == "seq" and it[4] == "ref":
        I.on_read(st, info, ("seq", src[1], add(src[2], it[2]), left, src[4]))
        if left.is_const() and left.c <= 8 and it[2].is_const() and (src[1] in SEGS or src[1] in BITSRC):
            return unrolled_any_all(I, st, args, info, it, left.c)
    s = st.copy()
    if s.num.assume(addc(sub(it[3], it[2]), -1)):
        I.call_closure(s, args[1], [some_item(I, s, it, args[1])], info, None)
    I.havoc(st, args[1])
    if args[0][0] == "ptr" and args[0][3]:
        k, p = place_of(I, st, args[0])
        w = I.get(st, k, p)
        if w[0] == "iter":
            np = st.num.fresh(0, MAXLEN)
            st.num.assume(sub(np, w[2]))
            st.num.assume(sub(w[3], np))
            I.put(st, k, p, ("iter", w[1], np, w[3], "val?" if w[4].endswith("?") else "val", w[5], None))
    b = ("bs", I_uid(), True)
    I.on_anyall(st, info, it, args, b)
    return [(b, st)]


def unrolled_any_all(I, st, args, info, it, n):
    """any/all over a few items with known contents: item by item"""
    stop = simp(info["callee"]["path"])[2] == "any"
    out = []
    todo = [st]
    for i in range(n):
        nxt = []
        for s in todo:
            it2 = it[:2] + (addc(it[2], i),) + it[3:]
            ty = clo_param_type(I, args[1], s)
            for v, s1 in I.call_closure(s, args[1], [iter_item(I, s, it2, ty)], info, None):
                s0 = s1.copy()
                for s2 in I.assume(s1, v, stop):
                    out.append((("b", stop), s2))
                nxt += I.assume(s0, v, not stop)
        todo = nxt
    if args[0][0] == "ptr" and args[0][3]:
        for _, s in out:
            I.havoc(s, args[0])
        for s in todo:
            I.havoc(s, args[0])
    return out + [(("b", not stop), s) for s in todo]


def m_position(I, st, args, info):
    it = as_iter(I, st, args[0], True)
    li = loop_iter(I, st, args[0])
    if simp(info["callee"]["path"])[2] == "position" and (is_lazy(it) or writes(I, st, args[1]) or li[0] == "adt"):
        return loop_find(I, st, args, info, li, "position")
    it = as_iter(I, st, args[0])
    oty = info["dty"]
    src = it[6]
    # position of the first non-zero octet of the big-endian image of an integer
    if src is not None and src[0] == "seq" and src[1] in BITSRC and src[2].is_const() and src[2].c == 0:
        r = be_position(I, st, args, info, it, src, oty)
        if r is not None:
            return r
    s = st.copy()
    if s.num.assume(addc(sub(it[3], it[2]), -1)):
        I.call_closure(s, args[1], [some_item(I, s, it, args[1])], info, None)
    later = False
    if I.memo:
        # the first item is known: does the search pass over it?
        s = st.copy()
        if s.num.assume(addc(sub(it[3], it[2]), -1)):
            x = iter_item(I, s, it, clo_param_type(I, args[1], st))
            rs = I.call_closure(s, args[1], [x], info, None)
            later = bool(rs) and all(I.truth(s1, b) is False for b, s1 in rs)
    I.havoc(st, args[1])
    s2 = st.copy()
    out = [(mk(oty, 0), s2)]
    n = st.num.fresh(1 if later else 0, MAXLEN)
    if st.num.assume(addc(sub(sub(it[3], it[2]), n), -1)):
        out.append((mk(oty, 1, ("i", n)), st))
    return out


def be_position(I, st, args, info, it, src, oty):
    v, w = BITSRC[src[1]]
    nb = w // 8
    ety = it[5]
    clo = args[1]

    def test(lo, hi):
        s = st.copy()
        x = ("ptr", I.newcell(s, ("i", s.num.fresh(lo, hi))), (), False)
        rs = I.call_closure(s, clo, [x], info, None)
        r = {I.truth(s1, b) for b, s1 in rs}
        return r.pop() if len(r) == 1 else None
    zero, nz = test(0, 0), test(1, 255)
    if (zero, nz) != (False, True):
        return None
    out = []
    s0 = st.copy()
    for s1 in I.assume(s0, ("c", "eq0", v) if v.t else ("b", v.c == 0), True):
        out.append((mk(oty, 0), s1))
    for p in range(nb):
        lo, hi = 256 ** (nb - 1 - p), 256 ** (nb - p) - 1
        s1 = st.copy()
        for s2 in I.assume(s1, ("and", ge(v, const(lo)), ge(const(hi), v)), True):
            out.append((mk(oty, 1, I_(p)), s2))
    # negative values: first octet is non-zero
    for s2 in I.assume(st.copy(), ge(const(-1), v), True):
        out.append((mk(oty, 1, I_(0)), s2))
    return out


def I_(c):
    return ("i", const(c))


def m_collect(I, st, args, info):
    it = as_iter(I, st, args[0], True)
    if is_lazy(it):
        return lazy_collect(I, st, args, info, it)
    d = info["dty"]
    if d is not None and seqlike(I, d) and I.T[d]["path"].split("::")[-1] in ("Vec", "VecDeque", "BitVec"):
        n = sub(it[3], it[2])
        if it[4] == "val" and it[6] is not None and it[6][0] == "seq" and it[6][1] in ALIAS8 and it[2].is_const() and it[2].c == 0:
            return [(it[6][:3] + (n,) + it[6][4:], st)]
        if it[4].endswith("?"):
            m = st.num.fresh(0, MAXLEN)
            st.num.assume(sub(n, m))
            n = m
        ety = I.T[d]["args"][0] if I.T[d]["path"].endswith("Vec") and I.T[d]["args"] and "bitvec" not in I.T[d]["path"] else None
        return [(("seq", I_uid(), const(0), n, ety), st)]
    if d is not None and I.T[d].get("path") == "alloc::string::String" and it[0] == "iter" and not it[4].endswith("?") and it[5] is not None and I.T[it[5]]["k"] == "char":
        # every character takes one to four octets
        n = sub(it[3], it[2])
        m = st.num.fresh(0, MAXLEN)
        st.num.assume(sub(m, n))
        st.num.assume(sub(scale(n, 4), m))
        return [(("seq", I_uid(), const(0), m, None), st)]
    return [(fresh_dst(I, st, info), st)]


def m_bits_any(I, st, args, info):
    """BitSlice::any / all / not_any / not_all"""
    meth = simp(info["callee"]["path"])[2]
    s = I.seq_of(st, args[0])
    I.on_read(st, info, s)
    b = ("bs", I_uid(), True)
    v = None
    if I.track and s[3].is_const() and s[3].c <= 64:
        v = read_bits(I, st, s, s[3].c) if s[3].c else const(0)
    if v is not None:
        top = const((1 << s[3].c) - 1)
        if meth in ("any", "not_any"):
            b = ("c", "eq0" if meth == "not_any" else "ne0", v) if v.t else ("b", (v.c == 0) == (meth == "not_any"))
        else:
            e = sub(v, top)
            b = ("c", "eq0" if meth == "all" else "ne0", e) if e.t else ("b", (e.c == 0) == (meth == "all"))
    return [(b, st)]


def m_count(I, st, args, info):
    it = as_iter(I, st, args[0], True)
    if is_lazy(it):
        return lazy_collect(I, st, args, info, it)
    n = sub(it[3], it[2])
    if it[4].endswith("?"):
        m = st.num.fresh(0, MAXLEN)
        st.num.assume(sub(n, m))
        n = m
    if not st.num.prove(n):
        n = st.num.fresh(0, MAXLEN)
    return [(("i", n), st)]


def m_opt_of_iter(I, st, args, info):
    """min/max/last/find/nth/reduce ...: None or some item"""
    it = as_iter(I, st, args[0])
    for a in args[1:]:
        w = follow(I, st, a)
        if w[0] in ("clo", "fn"):
            I.havoc(st, w)
    oty = info["dty"]
    if oty is None or not is_adt(I, oty, OPTION):
        return [(fresh_dst(I, st, info), st)]
    meth = simp(info["callee"]["path"])[2]
    out = []
    exact = not it[4].endswith("?") and meth in ("min", "max", "last", "min_by_key", "max_by_key", "min_by", "max_by", "reduce")
    s2 = st.copy()
    if st.num.assume(addc(sub(it[3], it[2]), -1)):
        p = payload(I, oty)
        v = iter_item_any(I, st, it, p) if p is not None else ("top", None, I_uid())
        out.append((mk(oty, 1, v), st))
    if exact:
        for s1 in I.assume(s2, ge(sub(it[3], it[2]), const(1)), False):
            out.append((mk(oty, 0), s1))
    else:
        out.append((mk(oty, 0), s2))
    return out


def few(I, it):
    """number of items left, when it is a small constant"""
    if it[0] == "iter":
        n = sub(it[3], it[2]) if not it[4].endswith("?") else None
    else:
        a, b = lin(I, None, it[3][0]), lin(I, None, it[3][1])
        n = None
        if a is not None and b is not None:
            n = sub(b, a) if not I.T[it[1]]["path"].endswith("Inclusive") else addc(sub(b, a), 1)
    return max(n.c, 0) if n is not None and n.is_const() and n.c <= 12 else None


def U8(I):
    if I._u8 is None:
        for i, t in enumerate(I.T):
            if t["k"] == "int" and t["bits"] == 8 and not t["signed"]:
                I._u8 = i
                break
    return I._u8


def loop_find(I, st, args, info, it, meth):
    """find / find_map / position as a loop"""
    d = info["dty"]
    ity = clo_param_type(I, args[1], st)
    if meth == "find":
        ity = I.T[ity]["to"] if ity is not None and I.T[ity]["k"] == "ref" else None

    def body(s, x, ks):
        out = []
        n = s.mem[ks[2]]
        a = ("ptr", I.newcell(s, x), (), False) if meth == "find" else x
        for v, s1 in I.call_closure(s, clo_arg(s, ks, 1), [a], info, None):
            if meth == "find_map":
                for i, fs, s2 in cases(I, s1, v, d) or [(1, None, s1), (0, None, s1.copy())]:
                    if i == 0:
                        out.append((True, None, s2))
                    else:
                        out.append((False, mk(d, 1, *fs) if fs is not None else I.materialize(s2, ("top", d, 0), 1), s2))
                continue
            s0 = s1.copy()
            for s2 in I.assume(s1, v, True):
                out.append((False, mk(d, 1, n if meth == "position" else x), s2))
            for s2 in I.assume(s0, v, False):
                s2.mem[ks[2]] = ("i", addc(n[1], 1))
                out.append((True, None, s2))
        return out
    return write_back(I, args[0], abs_loop(I, st, info, it, [args[1], I_(0)], body, lambda s, ks: [(mk(d, 0), s)], ity))


def m_find(I, st, args, info):
    it = as_iter(I, st, args[0], True)
    meth = simp(info["callee"]["path"])[2]
    li = loop_iter(I, st, args[0])
    if is_lazy(it) or writes(I, st, args[1]) or I.track and few(I, li) is not None or li[0] == "adt":
        return loop_find(I, st, args, info, li, meth)
    it = as_iter(I, st, args[0])
    s = st.copy()
    if s.num.assume(addc(sub(it[3], it[2]), -1)):
        I.call_closure(s, args[1], [some_item(I, s, it, args[1], meth == "find")], info, None)
    return m_opt_of_iter(I, st, args, info)


def m_fold(I, st, args, info):
    for a in args:
        I.havoc(st, a)
    clo = args[-1]
    it = as_iter(I, st, args[0])
    s = st.copy()
    if s.num.assume(addc(sub(it[3], it[2]), -1)):
        w = clo
        for _ in range(3):
            if w[0] == "ptr":
                w = I.get(s, w[1], w[2])
        if w[0] == "clo" and w[1] in I.prog.fns:
            fn = I.prog.fns[w[1]]
            xs = []
            for i in range(1, fn.argc):
                ty = fn.locals[i + 1]
                xs.append(iter_item_any(I, s, it, ty) if i == fn.argc - 1 else I.fresh(s, ty))
            I.call_closure(s, clo, xs, info, None)
    I.havoc(st, clo)
    return [(fresh_dst(I, st, info), st)]


def m_count_any(I, st, args, info):
    it = as_iter(I, st, args[0], True)
    if is_lazy(it):
        return lazy_collect(I, st, args, info, it)
    return m_fold(I, st, args, info)


def m_zip(I, st, args, info):
    a = as_iter(I, st, args[0], True)
    b = as_iter(I, st, args[1], True)
    if I.precise_zip or is_lazy(a) or is_lazy(b):
        a2, b2 = loop_iter(I, st, args[0]), loop_iter(I, st, args[1])
        n = st.num.fresh(0, MAXLEN)
        st.num.assume(sub(sub(a[3], a[2]), n))
        st.num.assume(sub(sub(b[3], b[2]), n))
        return [(("iter", I_uid(), const(0), n, "zip?", None, ("tup", (a2, b2))), st)]
    n = st.num.fresh(0, MAXLEN)
    st.num.assume(sub(sub(a[3], a[2]), n))
    st.num.assume(sub(sub(b[3], b[2]), n))
    return [(mkiter(I, n, "val?", None), st)]


def m_inexact(I, st, args, info):
    """adaptors whose item count is at most that of the source (skip, take, peekable, rev ...)"""
    it = as_iter(I, st, args[0])
    meth = simp(info["callee"]["path"])[2]
    if meth in ("rev", "by_ref", "fuse", "peekable", "inspect"):
        return [(mkiter(I, sub(it[3], it[2]), "val?" if it[4].endswith("?") else "val", None), st)]
    return [(mkiter(I, sub(it[3], it[2]), "val?", None), st)]


def m_iter_unknown(I, st, args, info):
    for a in args:
        w = follow(I, st, a)
        if w[0] in ("clo", "fn"):
            n = 1
            ty = clo_param_type(I, a, st)
            s = st.copy()
            I.call_closure(s, a, [I.fresh(s, ty) if ty is not None else ("top", None, I_uid())], info, None)
        I.havoc(st, a)
    return [(mkiter(I, st.num.fresh(0, MAXLEN), "val?", None), st)]


def m_chunks(I, st, args, info):
    s = I.seq_of(st, args[0])
    e = lin(I, st, args[1])
    if e is None:
        return None
    meth = simp(info["callee"]["path"])[2]
    out = []
    for s1 in require(I, st, info, "arith", "chunk size is not zero", ge(e, const(1))):
        if e.is_const() and meth in ("chunks_exact", "rchunks_exact"):
            n = I.divmod(s1, s[3], e.c)[0]
        elif e.is_const() and meth in ("chunks", "rchunks"):
            n = I.ceil_div(s1, s[3], e.c)
        elif meth == "windows" and I.memo:
            # not positive when the slice is shorter than a window: the iterator is empty then
            n = addc(sub(s[3], e), 1)
        else:
            n = s1.num.fresh(0, MAXLEN)
            s1.num.assume(sub(s[3], n))
        upto = "upto" if meth in ("chunks", "rchunks") else "exact" if meth == "chunks_exact" else None
        if meth == "chunks" and e.is_const():
            r = I.divmod(s1, s[3], e.c)[1]
            if r.is_const() and r.c == 0 or s1.num.prove(scale(r, -1)):
                upto = "exact"
        I.on_read(s1, info, s)
        # the last component of the template remembers the source
        tmpl = ("seq", I_uid(), const(0), e, s if I.track else s[4])
        out.append((("iter", I_uid(), const(0), n, "sub", upto, tmpl), s1))
    return out


def m_str_iter(I, st, args, info):
    s = I.seq_of(st, args[0])
    n = st.num.fresh(0, MAXLEN)
    meth = simp(info["callee"]["path"])[2]
    if meth in ("chars", "bytes", "char_indices"):
        st.num.assume(sub(s[3], n))
        if meth == "bytes":
            n = s[3]
        elif s[3].is_const() and s[3].c == 0:
            n = const(0)
        else:
            # a non-empty string has at least one character
            if st.num.prove(addc(s[3], -1)):
                st.num.assume(addc(n, -1))
        return [(mkiter(I, n, "val", None), st)]
    if meth == "lines":
        # at most one line per octet, and at least one line in a non-empty string
        st.num.assume(sub(s[3], n))
        if st.num.prove(addc(s[3], -1)):
            st.num.assume(addc(n, -1))
        return [(mkiter(I, n, "val", None), st)]
    return [(mkiter(I, n, "val?", None), st)]


# ------------------------------------------------------------------ Option / Result
def m_is(which):
    """is_some/is_none/is_ok/is_err on &self"""
    def f(I, st, args, info):
        r = ref_cases(I, st, args[0])
        if r is None:
            return None
        want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[which]
        return [(("b", v == want), s) for v, k, p, s in r]
    return f


def m_unwrap(I, st, args, info, good=None):
    a0 = info["argtys"][0]
    if good is None:
        good = 1 if is_adt(I, a0, OPTION) else 0
    cs = cases(I, st, args[0], a0)
    if cs is None:
        I.obl("unwrap", "unwrap of an unknown value", False, info["fn"], info["sp"], st)
        return [(fresh_dst(I, st, info), st)]
    out = []
    name = I.T[a0]["path"].split("::")[-1] if a0 is not None else "?"
    bad = [c for c in cs if c[0] != good]
    I.obl("unwrap", "%s::%s on a failing value" % (name, simp(info["callee"]["path"])[2]), not bad, info["fn"], info["sp"], st)
    for v, fs, s in cs:
        if v == good:
            out.append((fs[0] if fs else ("tup", ()), s))
    return out


def m_unwrap_err(I, st, args, info):
    return m_unwrap(I, st, args, info, 1)


def goodbad(I, a0):
    return (1, 0) if is_adt(I, a0, OPTION) else (0, 1)


def m_unwrap_or(I, st, args, info):
    a0 = info["argtys"][0]
    g, b = goodbad(I, a0)
    cs = cases(I, st, args[0], a0)
    if cs is None:
        return None
    out = []
    I.on_default(st, info, args[0], cs, g)
    for v, fs, s in cs:
        if v == g:
            out.append((fs[0], s))
        elif len(args) > 1:
            w = args[1]
            if simp(info["callee"]["path"])[2] == "unwrap_or_else":
                out += I.call_closure(s, w, list(fs) if b == 1 else [], info, info["dty"])
            else:
                out.append((w, s))
        else:
            out.append((default_value(I, s, info["dty"]), s))
    return out


def default_value(I, st, ty):
    if ty is None:
        return ("top", None, I_uid())
    t = I.T[ty]
    if t["k"] == "int":
        return I_(0)
    if t["k"] == "bool":
        return ("b", False)
    if t["k"] == "tuple":
        return ("tup", tuple(default_value(I, st, f) for f in t["fields"]))
    if t["k"] == "adt" and t["path"] == OPTION:
        return mk(ty, 0)
    if t["k"] == "adt" and seqlike(I, ty):
        ety = t["args"][0] if t["path"] == "alloc::vec::Vec" else None
        return ("seq", I_uid(), const(0), const(0), ety)
    return I.fresh(st, ty)


def m_default(I, st, args, info):
    return [(default_value(I, st, info["dty"]), st)]


def m_map_enum(I, st, args, info):
    """Option/Result: map, and_then, map_err, ok_or, ok_or_else, ok, err, or_else, ..."""
    a0 = info["argtys"][0]
    opt = is_adt(I, a0, OPTION)
    g, b = (1, 0) if opt else (0, 1)
    cs = cases(I, st, args[0], a0)
    d = info["dty"]
    meth = simp(info["callee"]["path"])[2]
    if cs is None or d is None:
        return None
    dopt = is_adt(I, d, OPTION)
    dg, db = (1, 0) if dopt else (0, 1)
    out = []
    for v, fs, s in cs:
        good = v == g
        if meth == "map":
            if good:
                for r, s1 in I.call_closure(s, args[1], [fs[0]], info, payload(I, d, dg)):
                    out.append((mk(d, dg, r), s1))
            else:
                out.append((mk(d, db, *fs), s))
        elif meth == "map_err":
            if good:
                out.append((mk(d, dg, *fs), s))
            else:
                for r, s1 in I.call_closure(s, args[1], [fs[0]], info, payload(I, d, db)):
                    out.append((mk(d, db, r), s1))
        elif meth == "and_then":
            if good:
                out += I.call_closure(s, args[1], [fs[0]], info, d)
            else:
                out.append((mk(d, db, *fs), s))
        elif meth in ("ok_or", "ok_or_else"):
            if good:
                out.append((mk(d, 0, fs[0]), s))
            elif meth == "ok_or":
                out.append((mk(d, 1, args[1]), s))
            else:
                for r, s1 in I.call_closure(s, args[1], [], info, payload(I, d, 1)):
                    out.append((mk(d, 1, r), s1))
        elif meth == "ok":
            out.append((mk(d, 1, fs[0]) if good else mk(d, 0), s))
        elif meth == "err":
            out.append((mk(d, 0) if good else mk(d, 1, fs[0]), s))
        elif meth in ("or", "or_else"):
            if good:
                out.append((mk(d, dg, *fs), s))
            elif meth == "or":
                out.append((args[1], s))
            else:
                out += I.call_closure(s, args[1], list(fs), info, d)
        elif meth == "and":
            out.append((args[1], s) if good else (mk(d, db, *fs), s))
        elif meth == "filter":
            if good:
                s2 = s.copy()
                for r, s1 in I.call_closure(s, args[1], [("ptr", I.newcell(s, fs[0]), (), False)], info, None):
                    for s3 in I.assume(s1.copy(), r, True) if r[0] in BOOLISH else [s1.copy()]:
                        out.append((mk(d, 1, fs[0]), s3))
                    for s3 in I.assume(s1, r, False) if r[0] in BOOLISH else [s1]:
                        out.append((mk(d, 0), s3))
            else:
                out.append((mk(d, 0), s))
        elif meth in ("copied", "cloned"):
            if good:
                w = fs[0]
                if w[0] == "ptr":
                    w = I.get(s, w[1], w[2])
                    if w[0] == "top" and w[1] is None:
                        w = I.fresh(s, payload(I, d, dg))
                else:
                    w = I.fresh(s, payload(I, d, dg))
                out.append((mk(d, dg, w), s))
            else:
                out.append((mk(d, db, *fs), s))
        elif meth == "flatten":
            if good:
                out.append((fs[0], s))
            else:
                out.append((mk(d, db, *fs), s))
        else:
            return None
    return out


BOOLISH = ("b", "bs", "c", "and", "or", "ovf", "novf")


def m_map_or(I, st, args, info):
    a0 = info["argtys"][0]
    g, b = goodbad(I, a0)
    cs = cases(I, st, args[0], a0)
    if cs is None:
        return None
    meth = simp(info["callee"]["path"])[2]
    out = []
    for v, fs, s in cs:
        if v == g:
            out += I.call_closure(s, args[2], [fs[0]], info, info["dty"])
        elif meth == "map_or":
            out.append((args[1], s))
        else:
            out += I.call_closure(s, args[1], list(fs), info, info["dty"])
    return out


def m_is_and(I, st, args, info):
    """is_some_and / is_ok_and / is_none_or"""
    a0 = info["argtys"][0]
    g, b = goodbad(I, a0)
    cs = cases(I, st, args[0], a0)
    if cs is None:
        return None
    meth = simp(info["callee"]["path"])[2]
    out = []
    for v, fs, s in cs:
        if (v == g) == (meth != "is_err_and"):
            out += I.call_closure(s, args[1], [fs[0]], info, info["dty"])
        else:
            out.append((("b", meth == "is_none_or"), s))
    return out


def m_as_ref(mut):
    def f(I, st, args, info):
        d = info["dty"]
        r = ref_cases(I, st, args[0])
        if r is None or d is None:
            return None
        out = []
        ismut = args[0][0] == "ptr" and args[0][3]
        for v, k, p, s in r:
            cur = I.get(s, k, p)
            if cur[3]:
                fty = I.T[cur[1]]["variants"][v]["fields"][0][1]
                out.append((mk(d, v, ("ptr", k, p + (("d", v), ("f", 0, fty)), ismut)), s))
            else:
                out.append((mk(d, v), s))
        return out
    return f


def m_as_deref(I, st, args, info):
    d = info["dty"]
    r = ref_cases(I, st, args[0])
    if r is None or d is None:
        return None
    out = []
    for v, k, p, s in r:
        cur = I.get(s, k, p)
        if cur[3] and not (v == 1 and I.T[cur[1]]["path"] == RESULT):
            x = cur[3][0]
            if x[0] == "ptr" or x[0] == "strref":
                out.append((mk(d, v, x), s))
            else:
                fty = I.T[cur[1]]["variants"][v]["fields"][0][1]
                pl = payload(I, d, v)
                if x[0] == "top" and x[1] is not None and not seqlike(I, x[1]):
                    out.append((mk(d, v, I.fresh(s, pl)), s))
                else:
                    out.append((mk(d, v, ("ptr", k, p + (("d", v), ("f", 0, fty)), False)), s))
        else:
            out.append((mk(d, v, *cur[3]), s))
    return out


def m_take(I, st, args, info):
    key, path = place_of(I, st, args[0])
    v = I.get(st, key, path)
    if v[0] == "top" and v[1] is None:
        return None
    I.put(st, key, path, mk(v[1], 0))
    return [(v, st)]


def m_opt_replace(I, st, args, info):
    key, path = place_of(I, st, args[0])
    v = I.get(st, key, path)
    if v[0] not in ("adt", "top") or v[1] is None:
        return None
    I.put(st, key, path, mk(v[1], 1, args[1]))
    return [(v, st)]


def m_mem_replace(I, st, args, info):
    if args[0][0] != "ptr":
        return None
    v = I.get(st, args[0][1], args[0][2])
    I.put(st, args[0][1], args[0][2], args[1] if len(args) > 1 else default_value(I, st, info["dty"]))
    return [(v, st)]


def m_branch(I, st, args, info):
    """Try::branch"""
    a0 = info["argtys"][0]
    cs = cases(I, st, args[0], a0)
    d = info["dty"]
    if cs is None:
        return None
    g, b = goodbad(I, a0)
    out = []
    for v, fs, s in cs:
        if v == g:
            out.append((mk(d, 0, fs[0]), s))
        else:
            bty = payload(I, d, 1)
            bty2 = bty
            out.append((mk(d, 1, ("adt", bty2, b, tuple(fs))), s))
    return out


def m_from_residual(I, st, args, info):
    d = info["dty"]
    if is_adt(I, d, OPTION):
        return [(mk(d, 0), st)]
    if is_adt(I, d, RESULT):
        v = args[0]
        e = v[3][0] if v[0] == "adt" and v[3] else None
        ety = payload(I, d, 1)
        if e is None:
            e = I.fresh(st, ety)
        elif e[0] in ("adt", "top") and e[1] is not None and e[1] != ety:
            e = I.fresh(st, ety)
        return [(mk(d, 1, e), st)]
    return None


# ------------------------------------------------------------------ numbers
def int_width(I, info, i=0):
    t = I.T[info["argtys"][i]]
    return t["bits"], t["signed"]


def m_leading_zeros(I, st, args, info):
    w, sg = int_width(I, info)
    v = args[0]
    if v[0] != "i":
        return [(("i", st.num.fresh(0, w)), st)]
    lo, hi = st.num.lower(v[1]), st.num.upper(v[1])
    if lo != -INF and hi != INF and lo >= 0:
        a, b = w - int(hi).bit_length(), w - int(lo).bit_length()
        if a == b:
            return [(I_(a), st)]
        return [(("i", st.num.fresh(a, b)), st)]
    if hi < 0:
        return [(I_(0), st)]
    return [(("i", st.num.fresh(0, w)), st)]


def m_leading_ones(I, st, args, info):
    w, sg = int_width(I, info)
    v = args[0]
    if v[0] == "i" and sg:
        lo, hi = st.num.lower(v[1]), st.num.upper(v[1])
        if hi < 0 and lo != -INF:
            # leading ones of v == leading zeros of !v = -v-1
            a, b = w - int(-lo - 1).bit_length(), w - int(-hi - 1).bit_length()
            if a == b:
                return [(I_(a), st)]
            return [(("i", st.num.fresh(a, b)), st)]
        if lo >= 0:
            return [(I_(0), st)]
    return [(("i", st.num.fresh(0, w)), st)]


def m_bitcount(I, st, args, info):
    w, sg = int_width(I, info)
    return [(("i", st.num.fresh(0, w)), st)]


def m_checked(op):
    def f(I, st, args, info):
        a, b = lin(I, st, args[0]), lin(I, st, args[1])
        oty = info["dty"]
        if a is None or b is None:
            return None
        pt = payload(I, oty)
        lo, hi = I.intrange(pt)
        if op == "add":
            e = add(a, b)
        elif op == "sub":
            e = sub(a, b)
        elif op == "mul":
            if b.is_const():
                e = scale(a, b.c)
            elif a.is_const():
                e = scale(b, a.c)
            else:
                e = mul(st, a, b)
        else:
            return None
        c = ("and", ge(e, const(lo)), ge(const(hi), e))
        out = []
        s2 = st.copy()
        for s1 in I.assume(st, c, True):
            out.append((mk(oty, 1, ("i", e)), s1))
        for s1 in I.assume(s2, c, False):
            out.append((mk(oty, 0), s1))
        return out
    return f


def mul(st, x, y):
    xl, xh = st.num.ival(x)
    yl, yh = st.num.ival(y)
    c = []
    for p in (xl, xh):
        for q in (yl, yh):
            if (p in (INF, -INF) and q == 0) or (q in (INF, -INF) and p == 0):
                c.append(0)
            else:
                c.append(p * q)
    return st.num.fresh(min(c), max(c))


def m_checked_div(I, st, args, info):
    oty = info["dty"]
    b = lin(I, st, args[1])
    out = [(mk(oty, 1, I.fresh(st, payload(I, oty))), st.copy())]
    if b is None or not st.num.prove(addc(b, -1)):
        out.append((mk(oty, 0), st))
    return out


def m_saturating(op):
    def f(I, st, args, info):
        a, b = lin(I, st, args[0]), lin(I, st, args[1])
        if a is None or b is None:
            return None
        lo, hi = I.intrange(info["dty"])
        e = add(a, b) if op == "add" else sub(a, b)
        out = []
        for s1 in I.assume(st.copy(), ("and", ge(e, const(lo)), ge(const(hi), e)), True):
            out.append((("i", e), s1))
        for s1 in I.assume(st.copy(), ge(const(lo - 1), e), True):
            out.append((I_(lo), s1))
        for s1 in I.assume(st.copy(), ge(e, const(hi + 1)), True):
            out.append((I_(hi), s1))
        return out
    return f


def m_wrapping(op):
    def f(I, st, args, info):
        a, b = lin(I, st, args[0]), lin(I, st, args[1])
        if a is None or b is None:
            return None
        e = add(a, b) if op == "add" else sub(a, b)
        lo, hi = I.intrange(info["dty"])
        if st.num.prove(addc(e, -lo)) and st.num.prove(sub(const(hi), e)):
            return [(("i", e), st)]
        return [(I.fresh(st, info["dty"]), st)]
    return f


def m_overflowing(op):
    def f(I, st, args, info):
        a, b = lin(I, st, args[0]), lin(I, st, args[1])
        if a is None or b is None:
            return None
        ty = I.T[info["dty"]]["fields"][0]
        lo, hi = I.intrange(ty)
        e = add(a, b) if op == "add" else sub(a, b)
        ok = ("and", ge(e, const(lo)), ge(const(hi), e))
        out = []
        for s1 in I.assume(st.copy(), ok, True):
            out.append((("tup", (("i", e), ("b", False))), s1))
        for s1 in I.assume(st, ok, False):
            out.append((("tup", (I.fresh(s1, ty), ("b", True))), s1))
        return out
    return f


def m_abs(I, st, args, info):
    w, sg = int_width(I, info)
    a = lin(I, st, args[0])
    if a is None:
        return None
    lo = -(1 << (w - 1))
    meth = simp(info["callee"]["path"])[2]
    sts = [st]
    if meth == "abs":
        sts = require(I, st, info, "overflow", "abs of the minimum value", ge(a, const(lo + 1)))
    out = []
    for s in sts:
        s2 = s.copy()
        for s1 in I.assume(s, ge(a, const(0)), True):
            out.append((("i", a), s1))
        for s1 in I.assume(s2, ge(a, const(0)), False):
            out.append((("i", scale(a, -1)), s1))
    return out


def m_minmax(which):
    def f(I, st, args, info):
        a, b = lin(I, st, args[0]), lin(I, st, args[1])
        if a is None or b is None:
            return [(fresh_dst(I, st, info), st)]
        out = []
        s2 = st.copy()
        c = ge(a, b)
        for s1 in I.assume(st, c, True):
            out.append((("i", a if which == "max" else b), s1))
        for s1 in I.assume(s2, c, False):
            out.append((("i", b if which == "max" else a), s1))
        return out
    return f


def m_clamp(I, st, args, info):
    x, lo, hi = (lin(I, st, a) for a in args)
    if x is None or lo is None or hi is None:
        return None
    out = []
    for s in require(I, st, info, "panic", "clamp with min > max", ge(hi, lo)):
        for s1 in I.assume(s.copy(), ge(addc(lo, -1), x), True):
            out.append((("i", lo), s1))
        for s1 in I.assume(s.copy(), ge(x, addc(hi, 1)), True):
            out.append((("i", hi), s1))
        for s1 in I.assume(s.copy(), ("and", ge(x, lo), ge(hi, x)), True):
            out.append((("i", x), s1))
    return out


def m_next_multiple(I, st, args, info):
    a, b = lin(I, st, args[0]), lin(I, st, args[1])
    if a is None or b is None or not b.is_const() or b.c <= 0:
        return None
    d = b.c
    lo, hi = I.intrange(info["dty"])
    al, ah = st.num.ival(a)
    # q*d with a <= q*d <= a+d-1
    q = I.ceil_div(st, a, d)
    e = scale(q, d)
    return [(("i", e), s) for s in require(I, st, info, "overflow", "next_multiple_of overflows", ge(const(hi), e))]


def m_div_ceil(I, st, args, info):
    a, b = lin(I, st, args[0]), lin(I, st, args[1])
    if a is None or b is None or not b.is_const() or b.c <= 0:
        return None
    return [(("i", I.ceil_div(st, a, b.c)), st)]


def m_pow(I, st, args, info):
    a, b = lin(I, st, args[0]), lin(I, st, args[1])
    lo, hi = I.intrange(info["dty"])
    if a is not None and b is not None:
        al, ah = st.num.ival(a)
        bl, bh = st.num.ival(b)
        if al >= 0 and bh <= 512 and ah <= 1 << 20:
            top = int(ah) ** int(bh)
            I.obl("overflow", "pow overflow", top <= hi, info["fn"], info["sp"], st)
            return [(("i", st.num.fresh(int(al) ** int(bl) if al > 0 else 0, min(top, hi))), st)]
    I.obl("overflow", "pow overflow", False, info["fn"], info["sp"], st)
    return [(fresh_dst(I, st, info), st)]


def m_try_into(I, st, args, info):
    """TryInto / TryFrom between integers; anything else opaque"""
    v = args[0]
    d = info["dty"]
    if v[0] != "i" or d is None or not is_adt(I, d, RESULT):
        return None
    ty = payload(I, d, 0)
    if ty is None or I.T[ty]["k"] != "int":
        return None
    lo, hi = I.intrange(ty)
    c = ("and", ge(v[1], const(lo)), ge(const(hi), v[1]))
    out = []
    s2 = st.copy()
    for s1 in I.assume(st, c, True):
        out.append((mk(d, 0, v), s1))
    for s1 in I.assume(s2, c, False):
        out.append((mk(d, 1, I.fresh(s1, payload(I, d, 1))), s1))
    return out


def m_into(I, st, args, info):
    """Into/From: identity for equal types and lossless integers, otherwise opaque"""
    a0, d = info["argtys"][0], info["dty"]
    v = args[0]
    if d is None:
        return None
    if a0 == d:
        return [(v, st)]
    td = I.T[d]
    if td["k"] == "int":
        if v[0] == "i":
            return [(v, st)]
        if v[0] in BOOLISH:
            t = I.truth(st, v)
            return [(I_(int(t)) if t is not None else ("i", st.num.fresh(0, 1)), st)]
    if seqlike(I, d) and td["k"] == "adt":
        n = seq_len_of_iterable(I, st, v)
        p = td["path"].split("::")[-1]
        if n is not None and p in ("String",):
            s = I.seq_of(st, v)
            return [(s, st)]
        if n is not None and p == "Vec":
            # BitVec -> Vec<u8>: length in octets is not the length in bits
            w = follow(I, st, v)
            if a0 is not None and "bitvec" in I.T[a0].get("path", ""):
                q = I.ceil_div(st, n, 8)
                return [(("seq", I_uid(), const(0), q, td["args"][0]), st)]
            return [(("seq", I_uid(), const(0), n, td["args"][0] if td["args"] else None), st)]
        return [(fresh_dst(I, st, info), st)]
    if td["k"] == "adt" and td["path"] == OPTION and payload(I, d) == a0:
        return [(mk(d, 1, v), st)]
    if td["k"] == "adt" and td["path"] == "alloc::boxed::Box" and td["args"] and td["args"][0] == a0:
        return [(("ptr", I.newcell(st, v), (), True), st)]
    # a local From impl?
    return None


def m_contains_range(I, st, args, info):
    r = follow(I, st, args[0])
    x = lin(I, st, args[1])
    b = None
    if r[0] == "adt" and x is not None:
        p = I.T[r[1]]["path"].split("::")[-1]
        f = [lin(I, st, y) if y[0] == "i" or y[0] == "ptr" else None for y in r[3]]
        if p == "Range" and None not in f[:2]:
            b = ("and", ge(x, f[0]), ge(addc(f[1], -1), x))
        elif p == "RangeInclusive" and None not in f[:2]:
            b = ("and", ge(x, f[0]), ge(f[1], x))
        elif p == "RangeFrom" and f[0] is not None:
            b = ge(x, f[0])
        elif p == "RangeTo" and f[0] is not None:
            b = ge(addc(f[0], -1), x)
        elif p == "RangeToInclusive" and f[0] is not None:
            b = ge(f[0], x)
    if b is None:
        return [(("bs", I_uid(), True), st)]
    return [(b, st)]


def m_range_new(I, st, args, info):
    d = info["dty"]
    return [(("adt", d, 0, (args[0], args[1], ("b", False))), st)]


def m_eq(negate):
    def f(I, st, args, info):
        a, b = follow(I, st, args[0]), follow(I, st, args[1])
        op = "Ne" if negate else "Eq"
        if a[0] == "i" and b[0] == "i":
            return [(I.compare(st, op, a, b), st)]
        if a[0] in BOOLISH and b[0] in BOOLISH:
            return [(I.compare(st, op, a, b), st)]
        out = eq_vals(I, st, a, b, args)
        if out is None:
            return [(("bs", I_uid(), True), st)]
        import interp
        return [(interp.neg(v) if negate else v, s) for v, s in out]
    return f


def eq_vals(I, st, a, b, args):
    if a[0] in ("str", "strref") and b[0] in ("str", "strref"):
        return [(("b", a[1] == b[1]), st)]
    for x, y, px in ((a, b, args[0]), (b, a, args[1])):
        if x[0] in ("str", "strref") and y[0] == "seq":
            n = len(x[1].encode())
            u = ("bs", I_uid(), True)
            # equality implies equal length
            s2 = st.copy()
            out = []
            if s2.num.assume_eq(addc(y[3], -n)):
                out.append((("b", True), s2))
            out.append((("b", False), st))
            return out
    if a[0] == "seq" and b[0] == "seq":
        s2 = st.copy()
        out = [(("b", False), st)]
        if s2.num.assume_eq(sub(a[3], b[3])):
            out.append((("b", True), s2))
        return out
    enumish = lambda v: v[0] == "adt" and I.T[v[1]]["adt"] == "enum"
    if enumish(a) and enumish(b):
        if a[2] != b[2]:
            return [(("b", False), st)]
        if not a[3] and not b[3]:
            return [(("b", True), st)]
        return None
    for x, y, px in ((a, b, args[1]), (b, a, args[0])):
        # x known fieldless variant, y unknown of the same type
        if enumish(x) and y[0] == "top" and y[1] is not None and I.T[y[1]]["k"] == "adt" and I.T[y[1]]["adt"] == "enum":
            out = []
            if not x[3]:
                key, path = place_of(I, st, px)
                for i in range(len(I.T[y[1]]["variants"])):
                    if i == x[2]:
                        s2 = st.copy()
                        I.put(s2, key, path, I.materialize(s2, y, i))
                        out.append((("b", True), s2))
                out.append((("b", False), st))
                return out
    return None


def m_partial_ord(op):
    def f(I, st, args, info):
        a, b = follow(I, st, args[0]), follow(I, st, args[1])
        if a[0] == "i" and b[0] == "i":
            return [(I.compare(st, op, a, b), st)]
        return [(("bs", I_uid(), True), st)]
    return f


def m_arith(op):
    """arithmetic on references to integers"""
    def f(I, st, args, info):
        d = info["dty"]
        if d is None or I.T[d]["k"] != "int":
            return None
        x, y = lin(I, st, args[0]), lin(I, st, args[1])
        if x is None or y is None:
            return None
        if op in ("Add", "Sub", "Mul"):
            r = I.binop(st, info["fn"], op + "WithOverflow", ("i", x), ("i", y), d)[1]
            out = []
            for s in require(I, st, info, "overflow:" + op, "%s overflow" % op, neg_(r[1])):
                out.append((r[0], s))
            return out
        if op in ("Div", "Rem"):
            out = []
            for s in require(I, st, info, "div", "division by zero", ("c", "ne0", y) if y.t else ("b", y.c != 0)):
                out.append((I.binop(s, info["fn"], op, ("i", x), ("i", y), d), s))
            return out
        out = []
        for s in require(I, st, info, "overflow:" + op, "shift overflow", ("and", ge(y, const(0)), ge(const(I.T[d]["bits"] - 1), y))):
            out.append((I.binop(s, info["fn"], op, ("i", x), ("i", y), d), s))
        return out
    return f


def neg_(v):
    import interp
    return interp.neg(v)


def m_not(I, st, args, info):
    import interp
    v = follow(I, st, args[0])
    if v[0] in BOOLISH:
        return [(interp.neg(v), st)]
    return pure(I, st, args, info)


def m_clone(I, st, args, info):
    v = args[0]
    w = v
    if v[0] == "ptr":
        w = I.get(st, v[1], v[2])
    elif v[0] == "strref":
        return [(v, st)]
    d = info["dty"]
    if w[0] == "top" and w[1] is None and d is not None:
        return [(I.fresh(st, d), st)]
    if w[0] == "top" and v[0] != "ptr":
        return [(I.fresh(st, d) if d is not None else w, st)]
    if w[0] == "top" and seqlike_ty(I, w[1]):
        w = I.seq_at(st, v[1], v[2])
    return [(deep_copy(I, st, w, 0), st)]


def seqlike_ty(I, ty):
    return ty is not None and seqlike(I, ty)


def deep_copy(I, st, v, d):
    if d > 6:
        return v
    if v[0] == "adt":
        return ("adt", v[1], v[2], tuple(deep_copy(I, st, x, d + 1) for x in v[3]))
    if v[0] in ("tup", "arr"):
        return (v[0], tuple(deep_copy(I, st, x, d + 1) for x in v[1]))
    if v[0] == "ptr" and v[3] and not v[2]:
        w = st.mem.get(v[1])
        if w is not None and v[1][0] == "H":
            return ("ptr", I.newcell(st, deep_copy(I, st, w, d + 1)), (), v[3])
    return v


def m_box_new(I, st, args, info):
    return [(("ptr", I.newcell(st, args[0]), (), True), st)]


def m_to_string(I, st, args, info):
    w = follow(I, st, args[0])
    if w[0] in ("strref", "str"):
        return [(I.as_seq_val(st, ("str", w[1])), st)]
    if w[0] == "seq":
        return [(w, st)]
    if w[0] == "top" and w[1] is not None and I.T[w[1]]["k"] in ("str",) or (w[0] == "top" and w[1] is not None and I.T[w[1]].get("path") == "alloc::string::String"):
        return [(I.seq_of(st, args[0]), st)]
    t = I.T[w[1]] if w[0] == "top" and w[1] is not None else None
    n = st.num.fresh(0, MAXLEN)
    if w[0] == "i" or (t is not None and t["k"] in ("int", "char")):
        n = st.num.fresh(1, 40)
    return [(("seq", I_uid(), const(0), n, None), st)]


def m_new_string(I, st, args, info):
    return [(("seq", I_uid(), const(0), st.num.fresh(0, MAXLEN), None), st)]


def m_trim(I, st, args, info):
    s = I.seq_of(st, args[0])
    off, n = st.num.fresh(0, MAXLEN), st.num.fresh(0, MAXLEN)
    st.num.assume(sub(sub(s[3], off), n))
    return [(mkref_seq(I, st, ("seq", I_uid(), const(0), n, None)), st)]


def m_strip(I, st, args, info):
    s = I.seq_of(st, args[0])
    oty = info["dty"]
    s2 = st.copy()
    n = s2.num.fresh(0, MAXLEN)
    w = follow(I, s2, args[1])
    if w[0] in ("str", "strref"):
        k = len(w[1].encode())
        ok = s2.num.assume_eq(addc(sub(s[3], n), -k))
    else:
        ok = s2.num.assume(sub(s[3], n))
    out = [(mk(oty, 0), st)]
    if ok:
        out.append((mk(oty, 1, mkref_seq(I, s2, ("seq", I_uid(), const(0), n, None))), s2))
    return out


def m_starts_with(I, st, args, info):
    s = I.seq_of(st, args[0])
    w = follow(I, st, args[1])
    k = None
    if w[0] in ("str", "strref"):
        k = len(w[1].encode())
    elif w[0] == "i":
        k = 1
    elif w[0] in ("seq",):
        k = None
    if k is None:
        if w[0] == "clo":
            I.havoc(st, w)
        return [(("bs", I_uid(), True), st)]
    s2 = st.copy()
    out = [(("b", False), st)]
    if s2.num.assume(addc(s[3], -k)):
        out.append((("b", True), s2))
    return out


def m_panic(I, st, args, info):
    c = info["callee"]
    msg = None
    for a in args:
        w = follow(I, st, a)
        if w[0] in ("str", "strref"):
            msg = w[1]
    I.obl("panic", "%s%s" % (simp(c["path"])[2], "(%r)" % msg if msg else ""), False, info["fn"], info["sp"], st)
    return []


def m_exit(I, st, args, info):
    return []


def m_copy_from_slice(I, st, args, info):
    a, b = I.seq_of(st, args[0]), I.seq_of(st, args[1])
    e = sub(a[3], b[3])
    c = ("c", "eq0", e) if e.t else ("b", e.c == 0)
    out = []
    for s in require(I, st, info, "slice", "source and destination have the same length", c):
        setseq(I, s, args[0], ("seq", I_uid(), const(0), a[3], a[4]))
        out.append((("tup", ()), s))
    return out


def m_swap_with_bitslice(I, st, args, info):
    a, b = I.seq_of(st, args[0]), I.seq_of(st, args[1])
    e = sub(a[3], b[3])
    c = ("c", "eq0", e) if e.t else ("b", e.c == 0)
    out = []
    for s in require(I, st, info, "slice", "both slices have the same length", c):
        setseq(I, s, args[0], ("seq", I_uid(), const(0), a[3], a[4]))
        setseq(I, s, args[1], ("seq", I_uid(), const(0), b[3], b[4]))
        out.append((("tup", ()), s))
    return out


def split_set(I, s, e, v):
    """contents of s after bit e (a number) has been set to v"""
    if s[1] not in SEGS or not (s[2].is_const() and s[2].c == 0) or not e.is_const():
        return None
    out, done = [], False
    for a, w, src in SEGS[s[1]]:
        d = sub(e, a)
        if done or not d.is_const() or d.c < 0 or not w.is_const() or d.c >= w.c or src[0] == "unk":
            out.append((a, w, src))
            continue
        k = d.c

        def part(o, n):
            if src[0] == "be":
                return ("be", src[1], src[2], addc(src[3], o))
            if src[0] == "raw":
                return ("raw", src[1], addc(src[2], o))
            return src
        if k:
            out.append((a, const(k), part(0, k)))
        out.append((e, const(1), ("bit", v)))
        if w.c - k - 1:
            out.append((addc(e, 1), const(w.c - k - 1), part(k + 1, w.c - k - 1)))
        done = True
    return tuple(out) if done else None


def m_set_elem(I, st, args, info):
    """BitSlice::set(index, value)"""
    s = I.seq_of(st, args[0])
    e = lin(I, st, args[1])
    out = []
    g = split_set(I, s, e, args[2]) if I.track and e is not None and len(args) > 2 else None
    for s1 in require(I, st, info, "index", "bit index within length", ge(sub(s[3], e), const(1))):
        u = I_uid()
        if g is not None:
            SEGS[u] = g
        setseq(I, s1, args[0], ("seq", u, const(0), s[3], s[4]))
        out.append((("tup", ()), s1))
    return out


def m_swap(I, st, args, info):
    s = I.seq_of(st, args[0])
    out = [st]
    for a in args[1:3]:
        e = lin(I, st, a)
        nxt = []
        for s0 in out:
            nxt += require(I, s0, info, "index", "swap index within length", ge(sub(s[3], e), const(1))) if e is not None else [s0]
        out = nxt
    for s0 in out:
        setseq(I, s0, args[0], ("seq", I_uid(), const(0), s[3], s[4]))
    return [(("tup", ()), s0) for s0 in out]


def m_load(I, st, args, info):
    """BitField::load*: panics unless 1..=width bits; value fits the slice"""
    s = I.seq_of(st, args[0])
    d = info["dty"]
    t = I.T[d]
    w = t["bits"]
    out = []
    for s1 in require(I, st, info, "load", "1..=%d bits loaded into the integer" % w,
                      ("and", ge(s[3], const(1)), ge(const(w), s[3]))):
        lo, hi = s1.num.ival(s[3])
        ulo, uhi = 0, (1 << int(min(hi, w))) - 1
        if t["signed"]:
            ulo, uhi = I.intrange(d)
        I.on_read(s1, info, s)
        e = None
        meth = simp(info["callee"]["path"])[2]
        if meth == "load_be" and s[3].is_const():
            e = read_bits(I, s1, s, s[3].c)
            if e is not None and t["signed"]:
                e = None
        if e is None:
            e = s1.num.fresh(ulo, uhi)
            if meth == "load_be" and s[2].is_const() and s[2].c == 0 and not t["signed"]:
                LOADED[e.t[0][0]] = (s[1], s[3])
        I.on_load(s1, info, s, e)
        out.append((("i", e), s1))
    return out


def m_drain(I, st, args, info):
    s = I.seq_of(st, args[0])
    rb = range_bounds(I, st, args[1], s[3])
    if rb is None:
        I.obl("slice", "drain with unknown range", False, info["fn"], info["sp"], st)
        return [(mkiter(I, st.num.fresh(0, MAXLEN), "val?", None), st)]
    lo, hi = rb
    out = []
    for s1 in require(I, st, info, "slice", "drain range", ("and", ge(hi, lo), ge(s[3], hi))):
        setseq(I, s1, args[0], ("seq", I_uid(), const(0), sub(s[3], sub(hi, lo)), s[4]))
        out.append((mkiter(I, sub(hi, lo), "val", s[4]), s1))
    return out


def m_split_off(I, st, args, info):
    s = I.seq_of(st, args[0])
    e = lin(I, st, args[1])
    if e is None:
        return None
    out = []
    for s1 in require(I, st, info, "slice", "split_off position within length", ge(s[3], e)):
        setseq(I, s1, args[0], ("seq", I_uid(), const(0), e, s[4]))
        out.append((("seq", I_uid(), const(0), sub(s[3], e), s[4]), s1))
    return out


def m_retain(I, st, args, info):
    s = I.seq_of(st, args[0])
    ty = clo_param_type(I, args[1], st)
    s2 = st.copy()
    I.call_closure(s2, args[1], [I.fresh(s2, ty) if ty is not None else ("top", None, I_uid())], info, None)
    I.havoc(st, args[1])
    n = st.num.fresh(0, MAXLEN)
    st.num.assume(sub(s[3], n))
    setseq(I, st, args[0], ("seq", I_uid(), const(0), n, s[4]))
    return [(("tup", ()), st)]


def m_assume_vec(I, st, args, info):
    """vec![..]: Box<[T; N]> -> Vec<T>"""
    n = None
    a0 = info["argtys"][0]
    if a0 is not None:
        s = I.T[a0]["s"]
        m = re.search(r"; (\d+)\]", s)
        if m:
            n = const(int(m.group(1)))
    d = info["dty"]
    ety = I.T[d]["args"][0] if d is not None and I.T[d]["args"] else None
    if n is None:
        n = st.num.fresh(0, MAXLEN)
    return [(("seq", I_uid(), const(0), n, ety), st)]


def m_from_elem(I, st, args, info):
    n = lin(I, st, args[1])
    d = info["dty"]
    return [(("seq", I_uid(), const(0), n if n is not None else st.num.fresh(0, MAXLEN),
              I.T[d]["args"][0] if d is not None and I.T[d]["args"] else None), st)]


def m_bit_repeat(I, st, args, info):
    """BitVec::repeat(bit, n)"""
    n = lin(I, st, args[1])
    if n is None:
        n = st.num.fresh(0, MAXLEN)
    u = I_uid()
    if I.track:
        b = I.truth(st, args[0])
        SEGS[u] = ((const(0), n, ("zero",) if b is False else ("bit", args[0]) if n == const(1) else ("unk",)),)
    return [(("seq", u, const(0), n, None), st)]


def m_concat(I, st, args, info):
    return [(("seq", I_uid(), const(0), st.num.fresh(0, MAXLEN), None), st)]


def m_fn_call(I, st, args, info):
    """Fn::call / FnMut::call_mut / FnOnce::call_once"""
    tup = args[1]
    xs = list(tup[1]) if tup[0] == "tup" else None
    if xs is None:
        if tup[0] == "top" and tup[1] is not None and I.T[tup[1]]["k"] == "tuple":
            xs = [I.fresh(st, x) for x in I.T[tup[1]]["fields"]]
        else:
            return None
    return I.call_closure(st, args[0], xs, info, info["dty"])


def m_then(I, st, args, info):
    """bool::then / then_some"""
    d = info["dty"]
    meth = simp(info["callee"]["path"])[2]
    out = []
    s2 = st.copy()
    if args[0][0] not in BOOLISH:
        return None
    for s in I.assume(st, args[0], True):
        if meth == "then_some":
            out.append((mk(d, 1, args[1]), s))
        else:
            for v, s1 in I.call_closure(s, args[1], [], info, payload(I, d)):
                out.append((mk(d, 1, v), s1))
    for s in I.assume(s2, args[0], False):
        out.append((mk(d, 0), s))
    return out


def m_map_index(I, st, args, info):
    """HashMap/BTreeMap index: panics when the key is absent"""
    I.obl("mapindex", "map index with a key that may be absent", False, info["fn"], info["sp"], st)
    return pure(I, st, args, info)


def m_step_by(I, st, args, info):
    e = lin(I, st, args[1])
    it = as_iter(I, st, args[0])
    out = []
    for s in require(I, st, info, "panic", "step is not zero", ge(e, const(1)) if e is not None else ("bs", I_uid(), True)):
        out.append((mkiter(I, sub(it[3], it[2]), "val?", None), s))
    return out


def m_slice_split(I, st, args, info):
    """slice::split & co.: at least one item, every item is no longer than the slice"""
    s = I.seq_of(st, args[0])
    for a in args[1:]:
        x = st.copy()
        if x.num.assume(addc(s[3], -1)) and s[4] is not None:
            I.call_closure(x, a, [("ptr", I.newcell(x, I.elem(x, s, x.num.fresh(0, MAXLEN), s[4])), (), False)], info, None)
        I.havoc(st, a)
    n = st.num.fresh(1, MAXLEN)
    tmpl = ("seq", I_uid(), const(0), s[3], s[4])
    return [(("iter", I_uid(), const(0), n, "sub", "atmost", tmpl), st)]


def m_windows(I, st, args, info):
    return m_chunks(I, st, args, info)


def m_from_utf8(I, st, args, info):
    d = info["dty"]
    s = I.seq_of(st, args[0])
    s2 = st.copy()
    ok = payload(I, d, 0)
    c = ("seq", s[1], s[2], s[3], None)
    good = mkref_seq(I, st, c) if ok is not None and I.T[ok]["k"] == "ref" else c
    s2.ghost["utf8"] = True
    return [(mk(d, 0, good), st), (mk(d, 1, I.fresh(s2, payload(I, d, 1))), s2)]


def m_read_to_end(I, st, args, info):
    I.havoc(st, args[1])
    return [(fresh_dst(I, st, info), st)]


SEQT = {"Vec", "[]", "[;]", "String", "str", "BitVec", "BitSlice", "VecDeque", "BitArray"}

TABLE = {}


def T_(types, meths, f):
    for t in types:
        for m in meths:
            TABLE[(t, m)] = f


T_(SEQT, ["len"], m_len)
T_(SEQT, ["is_empty"], m_is_empty)
T_(SEQT, ["get"], m_get)
T_(SEQT, ["get_mut"], lambda I, st, a, i: m_get(I, st, a, i, True))
T_(SEQT, ["first"], m_first_last("first"))
T_(SEQT, ["last"], m_first_last("last"))
T_(SEQT, ["first_mut"], m_first_last("first"))
T_(SEQT, ["last_mut"], m_first_last("last"))
T_(SEQT, ["split_first", "split_last"], m_split_first)
T_(SEQT, ["split_at", "split_at_mut"], m_split_at)
T_(["Vec", "BitVec", "VecDeque"], ["push", "push_back"], m_push)
T_(["String"], ["push"], m_push_char)
T_(["String"], ["push_str"], m_push_str)
T_(["Vec", "BitVec", "String", "VecDeque"], ["pop", "pop_front", "pop_back"], m_pop)
T_(["Vec", "BitVec"], ["insert"], m_insert)
T_(["Vec", "BitVec", "String"], ["remove", "swap_remove"], m_remove)
T_(["Vec", "BitVec", "String", "VecDeque"], ["clear"], m_clear)
T_(["Vec", "BitVec"], ["truncate"], m_truncate)
T_(["Vec", "BitVec"], ["resize"], m_resize)
T_(["Vec", "BitVec"], ["append"], m_append)
T_(["Vec", "BitVec"], ["extend_from_slice", "extend_from_bitslice"], m_extend)
T_(["Vec", "String", "VecDeque"], ["drain"], m_drain)
T_(["Vec", "BitVec", "String"], ["split_off"], m_split_off)
T_(["Vec", "String"], ["retain"], m_retain)
T_(["Vec", "BitVec", "String"], ["new", "with_capacity"], m_new_seq)
T_(["Vec", "BitVec", "String"], ["reserve", "shrink_to_fit", "force_align", "reserve_exact"], lambda I, st, a, i: [(("tup", ()), st)])
T_(SEQT, ["to_vec", "to_bitvec", "to_owned", "into_string", "into_bytes", "to_string", "into_boxed_slice", "from_bitslice"], m_same_seq)
T_(SEQT, ["as_str", "as_slice", "as_mut_slice", "as_bytes", "as_bitslice", "as_mut_bitslice", "as_ref", "as_mut", "borrow"], m_view)
T_(["[]", "[;]"], ["iter"], m_iter("ref"))
T_(["BitSlice", "BitVec"], ["iter"], m_iter("ref"))
T_(SEQT, ["iter_mut"], m_iter("mut"))
T_(["[]", "[;]", "Vec"], ["split", "split_inclusive", "rsplit"], m_slice_split)
T_(SEQT, ["chunks", "chunks_exact", "windows", "rchunks", "rchunks_exact"], m_chunks)
T_(["str", "String"], ["chars", "bytes", "lines", "split_whitespace", "split", "char_indices", "rsplit", "splitn", "split_terminator", "matches"], m_str_iter)
T_(["str", "String"], ["trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches"], m_trim)
T_(["str", "String"], ["strip_prefix", "strip_suffix"], m_strip)
T_(["str", "String"], ["starts_with", "ends_with"], m_starts_with)
T_(["[]", "BitSlice"], ["copy_from_slice", "clone_from_slice", "copy_from_bitslice", "clone_from_bitslice"], m_copy_from_slice)
T_(["BitSlice"], ["swap_with_bitslice"], m_swap_with_bitslice)
T_(["[]"], ["swap_with_slice"], m_swap_with_bitslice)
T_(["BitSlice", "BitVec"], ["any", "all", "not_any", "not_all"], m_bits_any)
T_(["BitSlice"], ["set", "replace"], m_set_elem)
T_(["[]", "BitSlice"], ["swap"], m_swap)
T_(["BitSlice", "BitField", "BitVec"], ["load", "load_be", "load_le"], m_load)
T_(["BitVec"], ["into_vec"], m_into_vec)
T_(["BitSlice"], ["from_slice"], m_bits_of)
T_(["BitVec"], ["from_slice", "from_vec"], lambda I, st, a, i: [(("seq", I_uid(), const(0), scale(I.seq_of(st, a[0])[3], 8), None), st)])
T_(["Option"], ["is_some"], m_is("is_some"))
T_(["Option"], ["is_none"], m_is("is_none"))
T_(["Result"], ["is_ok"], m_is("is_ok"))
T_(["Result"], ["is_err"], m_is("is_err"))
T_(["Option", "Result"], ["unwrap", "expect"], m_unwrap)
T_(["Option", "Result"], ["unwrap_unchecked"], m_unwrap)
T_(["Result"], ["unwrap_err", "expect_err"], m_unwrap_err)
T_(["Option", "Result"], ["unwrap_or", "unwrap_or_else", "unwrap_or_default"], m_unwrap_or)
T_(["Option", "Result"], ["map", "map_err", "and_then", "ok_or", "ok_or_else", "ok", "err", "or", "or_else", "and", "filter",
                          "copied", "cloned", "flatten"], m_map_enum)
T_(["Option", "Result"], ["map_or", "map_or_else"], m_map_or)
T_(["Option", "Result"], ["is_some_and", "is_ok_and", "is_none_or", "is_err_and"], m_is_and)
T_(["Option", "Result"], ["as_ref", "as_mut"], m_as_ref(False))
T_(["Option", "Result"], ["as_deref", "as_deref_mut"], m_as_deref)
T_(["Option"], ["take"], m_take)
T_(["Option"], ["replace", "insert"], m_opt_replace)
T_(["Option"], ["iter"], lambda I, st, a, i: [(mkiter(I, st.num.fresh(0, 1), "val", None), st)])
T_(["mem"], ["replace", "take"], m_mem_replace)
T_(["Box"], ["new"], m_box_new)
T_(["RangeInclusive"], ["new"], m_range_new)
T_(["Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive"], ["contains"], m_contains_range)
T_(["RangeInclusive"], ["start", "end"], lambda I, st, a, i: [(("ptr", I.newcell(st, follow(I, st, a[0])[3][0 if simp(i["callee"]["path"])[2] == "start" else 1]), (), False), st)] if follow(I, st, a[0])[0] == "adt" else None)
T_(["cmp"], ["max"], m_minmax("max"))
T_(["cmp"], ["min"], m_minmax("min"))
T_(["panicking"], ["panic", "panic_fmt", "panic_display", "panic_explicit", "unreachable_display", "panic_nounwind", "assert_failed",
                   "panic_bounds_check", "panic_str", "panic_str_2015", "panic_const", "begin_panic", "unreachable_default_msg_panic",
                   "assert_failed_inner", "panic_cannot_unwind"], m_panic)
T_(["rt"], ["begin_panic", "panic_fmt", "begin_panic_fmt"], m_panic)
T_(["process"], ["exit", "abort"], m_exit)
T_(["fmt"], ["format"], m_new_string)
T_(["[]"], ["join", "concat"], m_concat)
T_(["converts"], ["from_utf8"], m_from_utf8)
T_(["String"], ["from_utf8"], m_from_utf8)
T_(["hint"], ["must_use", "black_box"], lambda I, st, a, i: [(a[0], st)])
T_(["boxed"], ["box_assume_init_into_vec_unsafe"], m_assume_vec)
T_(["alloc"], ["box_assume_init_into_vec_unsafe"], m_assume_vec)
T_(["slice"], ["into_vec"], m_same_seq)
T_(["[]"], ["into_vec"], m_same_seq)
T_(["vec"], ["from_elem"], m_from_elem)
T_(["BitVec"], ["repeat"], m_bit_repeat)
T_(["bool"], ["then", "then_some"], m_then)
T_(["Formatter"], ["write_fmt", "write_str"], pure)
INTS = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"]
T_(INTS, ["leading_zeros"], m_leading_zeros)
T_(INTS, ["leading_ones"], m_leading_ones)
T_(INTS, ["trailing_zeros", "trailing_ones", "count_ones", "count_zeros"], m_bitcount)
T_(INTS, ["to_be_bytes"], m_to_be_bytes)
for _o in ("add", "sub", "mul"):
    T_(INTS, ["checked_" + _o], m_checked(_o))
for _o in ("add", "sub"):
    T_(INTS, ["saturating_" + _o], m_saturating(_o))
    T_(INTS, ["wrapping_" + _o], m_wrapping(_o))
    T_(INTS, ["overflowing_" + _o], m_overflowing(_o))
T_(INTS, ["checked_div", "checked_rem"], m_checked_div)
T_(INTS, ["abs", "unsigned_abs"], m_abs)
T_(INTS, ["pow"], m_pow)
T_(INTS, ["div_ceil"], m_div_ceil)
T_(INTS, ["next_multiple_of"], m_next_multiple)
T_(INTS, ["is_positive"], lambda I, st, a, i: [(ge(a[0][1], const(1)), st)] if a[0][0] == "i" else None)
T_(INTS, ["is_negative"], lambda I, st, a, i: [(ge(const(-1), a[0][1]), st)] if a[0][0] == "i" else None)
T_(["HashMap", "BTreeMap", "HashSet", "BTreeSet"], ["iter", "keys", "values", "into_keys", "into_values", "values_mut", "iter_mut", "drain"],
   lambda I, st, a, i: [(mkiter(I, st.num.fresh(0, MAXLEN), "val?", None), st)])

# by (trait, method), any self type
TRAITS = {}


def R_(trait, meths, f):
    for m in meths:
        TRAITS[(trait, m)] = f


R_("Index", ["index"], m_index)
R_("IndexMut", ["index_mut"], m_index_mut)
R_("Deref", ["deref"], m_deref)
R_("DerefMut", ["deref_mut"], m_deref)
R_("Extend", ["extend", "extend_one"], m_extend)
R_("Try", ["branch"], m_branch)
R_("FromResidual", ["from_residual"], m_from_residual)
R_("IntoIterator", ["into_iter"], m_iter("auto"))
R_("Clone", ["clone"], m_clone)
R_("PartialEq", ["eq"], m_eq(False))
R_("PartialEq", ["ne"], m_eq(True))
R_("PartialOrd", ["lt"], m_partial_ord("Lt"))
R_("PartialOrd", ["le"], m_partial_ord("Le"))
R_("PartialOrd", ["gt"], m_partial_ord("Gt"))
R_("PartialOrd", ["ge"], m_partial_ord("Ge"))
R_("Ord", ["max"], m_minmax("max"))
R_("Ord", ["min"], m_minmax("min"))
R_("Ord", ["clamp"], m_clamp)
R_("Not", ["not"], m_not)
for _o in ("Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr"):
    R_(_o, [_o.lower()], m_arith(_o))
R_("TryInto", ["try_into"], m_try_into)
R_("TryFrom", ["try_from"], m_try_into)
R_("Into", ["into"], m_into)
R_("From", ["from"], m_into)
R_("ToString", ["to_string"], m_to_string)
R_("ToOwned", ["to_owned"], m_to_string)
R_("Default", ["default"], m_default)
R_("BitView", ["view_bits"], m_bits_of)
R_("AsBits", ["as_bits"], m_bits_of)
R_("BitField", ["load", "load_be", "load_le"], m_load)
R_("AsRef", ["as_ref"], m_view)
R_("Borrow", ["borrow"], m_view)
R_("Fn", ["call"], m_fn_call)
R_("FnMut", ["call_mut"], m_fn_call)
R_("FnOnce", ["call_once"], m_fn_call)
IT = "Iterator"
R_(IT, ["next"], m_next)
R_("DoubleEndedIterator", ["next_back"], m_next_back)
R_(IT, ["enumerate"], m_enumerate)
R_(IT, ["map"], m_map)
R_(IT, ["filter", "skip_while", "take_while"], m_filterlike(True))
R_(IT, ["filter_map", "flat_map", "map_while", "scan"], m_filterlike(False))
R_(IT, ["for_each"], m_for_each)
R_(IT, ["try_for_each"], m_try_for_each)
R_(IT, ["fold", "try_fold"], m_folds)
R_(IT, ["any", "all"], m_any_all)
R_(IT, ["position", "rposition"], m_position)
R_(IT, ["collect"], m_collect)
R_(IT, ["count"], m_count)
R_(IT, ["min", "max", "last", "nth", "reduce", "min_by_key", "max_by_key", "min_by", "max_by"], m_opt_of_iter)
R_(IT, ["find", "find_map"], m_find)
R_(IT, ["zip"], m_zip)
R_(IT, ["copied", "cloned"], m_copied)
R_(IT, ["skip", "take", "peekable", "fuse", "inspect", "by_ref", "rev"], m_inexact)
R_(IT, ["chain", "flatten"], m_iter_unknown)
R_(IT, ["step_by"], m_step_by)
R_(IT, ["sum", "product"], m_count_any)
R_("DoubleEndedIterator", ["rev"], m_inexact)
R_("Peekable", ["peek"], None)

PANICKY = re.compile(r"::(unwrap|expect|unwrap_err|expect_err|split_at|split_at_mut|copy_from_slice|clone_from_slice|swap_remove|"
                     r"insert_str|replace_range|drain|split_off|remove|rotate_left|rotate_right|chunks|chunks_exact|"
                     r"windows|step_by|pow|abs|rem_euclid|div_euclid|ilog2|ilog10|ilog|next_power_of_two|isqrt|"
                     r"from_digit|borrow_mut|copy_within|swap|fill_with|select_nth_unstable|load_be|load_le|load|"
                     r"store_be|store_le|store|from_str_radix|to_digit|panic_[a-z_]+|unreachable|todo|unimplemented)$")
PANICKY_OK_TYPES = {"HashMap", "BTreeMap", "HashSet", "BTreeSet"}


def lookup(path):
    t, tr, m = simp(path)
    if tr is not None:
        if tr == "Index" and t in ("HashMap", "BTreeMap"):
            return m_map_index
        f = TRAITS.get((tr, m))
        if f is not None:
            return f
        f = TABLE.get((t, m)) if tr in ("BitField", "ToOwned", "ToString", "SliceIndex", "ToTokens") else None
        return f
    f = TABLE.get((t, m))
    if f is not None:
        return f
    # default methods of traits: core::iter::traits::iterator::Iterator::map
    f = TRAITS.get((t, m))
    return f


def install(I):
    class Lk(dict):
        def __missing__(self, path):
            self[path] = r = None if path in I.prog.fns else lookup(path)
            return r

        def get(self, path, d=None):
            return self[path]
    I.models = Lk()
    # derived trait impls of local types that only copy or compare values
    for p, fn in I.prog.fns.items():
        t, tr, m = simp(p)
        if fn.macro and (tr, m) in (("Clone", "clone"),):
            I.models[p] = m_clone
        elif fn.macro and (tr, m) in (("PartialEq", "eq"),):
            I.models[p] = m_eq(False)
        elif tr == "Debug" and m == "fmt" or tr == "Display" and m == "fmt":
            I.models[p] = pure
