"""Harness pieces shared by the checks that interpret the codec library abstractly."""
import re
from dom import Lin, INF, const, sym, add, sub, scale, addc
import interp
import models
import mir

I64MIN, U64MAX = -(1 << 63), (1 << 64) - 1
DATA = "asn1_codecs::aper::AperCodecData"


class Anchor(Exception):
    """something the check is about is not in the tree"""


def kind_of(P, ty):
    return P.types[ty]["k"]


def is_data_ref(P, ty):
    t = P.types[ty]
    return t["k"] == "ref" and P.types[t["to"]].get("path") == DATA


def data_fields(P):
    """index of (bits, offset, key) among the fields of AperCodecData, by type"""
    for t in P.types:
        if t.get("path") == DATA and t.get("variants"):
            fs = t["variants"][0]["fields"]
            bits = [i for i, (n, f) in enumerate(fs) if P.types[f].get("path") == "bitvec::vec::BitVec"]
            off = [i for i, (n, f) in enumerate(fs) if P.types[f]["k"] == "int"]
            key = [i for i, (n, f) in enumerate(fs) if P.types[f].get("path") == "core::option::Option"]
            if len(bits) == 1 and len(off) >= 1:
                o = off[0]
                if len(off) > 1:
                    named = [i for i in off if "offset" in fs[i][0] or "pos" in fs[i][0] or "cursor" in fs[i][0]]
                    o = named[0] if named else off[0]
                return bits[0], o, key[0] if key else None
    raise Anchor("type %s with one bit vector and an offset" % DATA)


def decode_entries(P):
    """every public function of the decode module, every public decoding method"""
    out = []
    for p, fn in P.fns.items():
        if "Public" not in fn.vis or "{closure" in p or not fn.argc:
            continue
        if not is_data_ref(P, fn.locals[1]):
            continue
        if "::decode" in p:
            out.append(fn)
    return out


def encode_entries(P):
    return [fn for p, fn in P.fns.items() if "Public" in fn.vis and "{closure" not in p and fn.argc and
            is_data_ref(P, fn.locals[1]) and "::encode" in p]


def mkdata(I, P, st, adtty, bits, off):
    """AperCodecData value with the given bit contents and offset; pointer to it"""
    bi, oi, ki = data_fields(P)
    v = I.materialize(st, ("top", adtty, interp.uid()), 0)
    fs = list(v[3])
    fs[bi] = bits
    fs[oi] = ("i", off)
    v = v[:3] + (tuple(fs),)
    p = ("ptr", I.newcell(st, v), (), True)
    st.ghost["roots"] = st.ghost.get("roots", ()) + (p[1],)
    return p


def read_data(I, P, st, p):
    """(bits seq, offset Lin) of the AperCodecData behind p"""
    bi, oi, ki = data_fields(P)
    b = I.seq_at(st, p[1], p[2] + (("f", bi, None),))
    o = I.get(st, p[1], p[2] + (("f", oi, None),))
    return b, o[1] if o[0] == "i" else None


def optty(P, ty):
    t = P.types[ty]
    return t["k"] == "adt" and t["path"] == models.OPTION


def some(ty, v):
    return ("adt", ty, 1, (v,))


def none(ty):
    return ("adt", ty, 0, ())


def bound_cells(P, fn):
    """which of lb / ub are given: list of (has_lb, has_ub) for the Option-typed bounds of fn"""
    i = argix(fn)
    if "lb" not in i or "ub" not in i:
        return [None]
    if optty(P, fn.locals[i["lb"] + 1]):
        return [(a, b) for a in (False, True) for b in (False, True)]
    return [(True, True)]


def argix(fn):
    return {fn.names.get(i + 1): i for i in range(fn.argc)}


SIZED = ("bitstring", "octetstring", "string", "length")


def is_sized(fn):
    n = fn.path.split("::")[-1]
    return any(s in n for s in SIZED)


def set_bounds(I, P, st, fn, args, lb, ub):
    """put bounds (Lin or None) into the argument list"""
    ix = argix(fn)
    for nm, e in (("lb", lb), ("ub", ub)):
        i = ix[nm]
        ty = fn.locals[i + 1]
        if optty(P, ty):
            args[i] = none(ty) if e is None else some(ty, ("i", e))
        else:
            args[i] = ("i", e)


def legal_bounds(I, P, st, fn, args, cell):
    """fresh legal bounds for the cell (has_lb, has_ub)"""
    if cell is None:
        return None, None
    lo = 0 if is_sized(fn) else I64MIN
    lb = st.num.fresh(lo, U64MAX) if cell[0] else None
    ub = st.num.fresh(lo, U64MAX) if cell[1] else None
    if lb is not None and ub is not None:
        st.num.assume(sub(ub, lb))
    set_bounds(I, P, st, fn, args, lb, ub)
    return lb, ub


def fresh_args(I, P, st, fn, data=None):
    out = []
    for i in range(fn.argc):
        if i == 0 and data is not None:
            out.append(data)
        else:
            v = I.fresh(st, fn.locals[i + 1])
            if fn.names.get(i + 1) == "optional_count":
                # the number of OPTIONAL components of a type
                v = ("i", st.num.fresh(0, 65536))
            out.append(v)
    return out


def new_interp(P, obligation=None, track=False):
    I = interp.Interp(P, obligation=obligation)
    I.track = track
    return I


def short(path):
    return re.sub(r"<[^<>]*>", "", path).replace("asn1_codecs::", "")


def is_ok(I, st, v):
    """True/False/None for a Result value"""
    if v[0] == "adt":
        return v[2] == 0
    return None
