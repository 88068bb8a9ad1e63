"""The witness types: one for each shape the derive macro supports and each combination of its attributes.
Every attribute of a type has a value of its own, so that an exchange of roles shows."""
import itertools

INTS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "i128"]
STRS = {"BITSTRING": ("bitstring", "bitvec::vec::BitVec<u8, bitvec::order::Msb0>"), "OCTET-STRING": ("octetstring", "Vec<u8>"),
        "UTF8String": ("utf8_string", "String"), "PrintableString": ("printable_string", "String"),
        "VisibleString": ("visible_string", "String")}
NCOMP = 6


def attr(**kw):
    return "#[asn(%s)]" % ", ".join("%s = %s" % (k if k != "type_" else "type", v) for k, v in kw.items() if v is not None)


def q(x):
    return None if x is None else '"%d"' % x


def b(x):
    return None if x is None else ("true" if x else "false")


def shapes():
    out = []

    def combos(lo, hi):
        n = 0
        for l, u, e in itertools.product((None, lo), (None, hi), (None, False, True)):
            yield n, (None if l is None else l + n), (None if u is None else u + n), e
            n += 1
    for asn, fn in (("INTEGER", "integer"), ("ENUMERATED", "enumerated")):
        for n, l, u, e in combos(11, 71):
            out.append(dict(name="%s%d" % (asn.title(), n), asn=asn, api=fn, rty=INTS[n % len(INTS)] if asn == "INTEGER" else "u8", lb=l, ub=u, ext=bool(e),
                            src=attr(type_='"%s"' % asn, lb=q(l), ub=q(u), extensible=b(e)), kind="number"))
        for n, t in enumerate(INTS if asn == "INTEGER" else ["u8", "u16"]):
            # the order of the attributes is free, negative bounds are allowed, size attributes mean nothing here
            l = -5 if t[0] == "i" else 5
            out.append(dict(name="%sT%d" % (asn.title(), n), asn=asn, api=fn, rty=t, lb=l, ub=90 + n, ext=True,
                            src='#[asn(extensible = true, ub = "%d", type = "%s", lb = "%d", sz_lb = "1", sz_ub = "2", sz_extensible = false)]' % (90 + n, asn, l),
                            kind="number"))
    for n, (l, u, e, t) in enumerate(((0, 0, False, "u8"), (4, 4, True, "u8"), (-1, -1, True, "i8"), (-128, 127, False, "i8"), (0, 255, True, "u8"), (0, 65535, False, "u16"),
                                      (-(1 << 63), (1 << 63) - 1, True, "i64"), (0, (1 << 64) - 1, False, "u64"), (7, 3, False, "u8"), (0, None, True, "u64"))):
        out.append(dict(name="IntegerB%d" % n, asn="INTEGER", api="integer", rty=t, lb=l, ub=u, ext=e, kind="number",
                        src=attr(type_='"INTEGER"', lb=q(l), ub=q(u), extensible=b(e))))
    SIZES = ((0, 0, False), (4, 4, True), (4, 4, False), (0, 65535, False), (0, 65536, True), (65536, 65536, False))
    for n, (l, u, e) in enumerate(SIZES):
        out.append(dict(name="SeqOfB%d" % n, asn="SEQUENCE-OF", lb=l, ub=u, ext=e, comp="Ci", kind="seqof",
                        src=attr(type_='"SEQUENCE-OF"', sz_lb=q(l), sz_ub=q(u), sz_extensible=b(e))))
    for asn, (fn, rty) in STRS.items():
        nm = asn.title().replace("-", "")
        for n, (l, u, e) in enumerate(SIZES):
            out.append(dict(name="%sB%d" % (nm, n), asn=asn, api=fn, rty=rty, lb=l, ub=u, ext=e, kind="string",
                            src=attr(type_='"%s"' % asn, sz_lb=q(l), sz_ub=q(u), sz_extensible=b(e))))
        for n, l, u, e in combos(11, 71):
            out.append(dict(name="%s%d" % (nm, n), asn=asn, api=fn, rty=rty, lb=l, ub=u, ext=bool(e),
                            src=attr(type_='"%s"' % asn, sz_lb=q(l), sz_ub=q(u), sz_extensible=b(e)), kind="string"))
        for n, (a, c) in enumerate(((True, False), (False, True))):
            out.append(dict(name="%sM%d" % (nm, n), asn=asn, api=fn, rty=rty, lb=12, ub=34, ext=c,
                            src='#[asn(type = "%s", lb = "3", ub = "5", extensible = %s, sz_extensible = %s, sz_ub = "34", sz_lb = "12")]' % (asn, b(a), b(c)),
                            kind="string"))
    out.append(dict(name="Bool", asn="BOOLEAN", api="bool", rty="bool", src='#[asn(type = "BOOLEAN")]', kind="bool"))
    out.append(dict(name="Nothing", asn="NULL", api=None, rty=None, src='#[asn(type = "NULL")]', kind="null"))
    out.append(dict(name="Oid", asn="OBJECT-IDENTIFIER", api=None, rty=None, src='#[asn(type = "OBJECT-IDENTIFIER")]', kind="oid"))
    for n, l, u, e in combos(11, 71):
        out.append(dict(name="SeqOf%d" % n, asn="SEQUENCE-OF", lb=l, ub=u, ext=bool(e), comp="Ci",
                        src=attr(type_='"SEQUENCE-OF"', sz_lb=q(l), sz_ub=q(u), sz_extensible=b(e)), kind="seqof"))
    out.append(dict(name="SeqOfM", asn="SEQUENCE-OF", lb=12, ub=34, ext=False, comp="Ci", kind="seqof",
                    src='#[asn(type = "SEQUENCE-OF", lb = "3", ub = "5", extensible = true, sz_ub = "34", sz_lb = "12")]'))
    # fields: (name, component, presence index or None, key field)
    seqs = [[], [("a", 0, None, False)], [("a", 0, None, False), ("b", 1, None, False), ("c", 2, None, False)],
            [("a", 0, 0, False)], [("a", 0, 0, False), ("b", 1, 1, False)],
            [("a", 0, None, False), ("b", 1, 0, False), ("c", 2, None, False), ("d", 3, 1, False), ("e", 4, 2, False)],
            [("x", 3, 1, False), ("m", 0, None, False), ("y", 3, 0, False)],
            [("id", 0, None, True), ("value", 1, None, False)], [("a", 1, 0, False), ("id", 2, None, True), ("value", 1, 1, False)],
            [("z", 5, None, False), ("y", 4, None, False), ("x", 4, None, False), ("w", 0, 0, False)]]
    for n, fs in enumerate(seqs):
        for e in (False, True):
            oc = sum(1 for f in fs if f[2] is not None)
            out.append(dict(name="Seq%d%s" % (n, "E" if e else ""), asn="SEQUENCE", ext=e, fields=fs, count=oc, kind="seq",
                            src='#[asn(type = "SEQUENCE", extensible = %s%s)]' % (b(e), ", optional_fields = %d" % oc if oc or n == 2 else "")))
    # variants: (component, key, extended)
    chs = [[(0, 0, False)], [(0, 0, False), (1, 1, False), (2, 2, False)], [(0, 2, False), (1, 0, False), (2, 1, False)],
           [(3, 0, False), (3, 1, False)], [(0, 0, False), (1, 1, False), (2, 0, True)], [(0, 0, False), (2, 0, True), (4, 1, True), (1, 1, False)],
           [(5, 1, True), (4, 0, True), (3, 0, False), (2, 1, False)]]
    for n, vs in enumerate(chs):
        for e in ((False, True) if not any(v[2] for v in vs) else (True,)):
            out.append(dict(name="Choice%d%s" % (n, "E" if e else ""), asn="CHOICE", ext=e, lb=0, ub=sum(1 for v in vs if not v[2]) + 40 + n, variants=vs, kind="choice",
                            src='#[asn(type = "CHOICE", lb = "0", ub = "%d", extensible = %s)]' % (sum(1 for v in vs if not v[2]) + 40 + n, b(e))))
    for n, vs in enumerate(([(0, 7)], [(0, 17), (1, 3), (2, 300)], [(4, 0), (4, 1), (0, 2), (1, 99)])):
        out.append(dict(name="Open%d" % n, asn="OPEN", variants=[(c, k, None) for c, k in vs], kind="open", src='#[asn(type = "OPEN")]'))
    return out


def source(shs):
    o = ["#![allow(dead_code, unused, unreachable_patterns, non_camel_case_types)]", "use asn1_codecs::aper::{AperCodec, AperCodecData, AperCodecError};",
         "use asn1_codecs_derive::AperCodec;", "pub fn opaque<T>() -> T { loop {} }"]
    for c in ["C%d" % i for i in range(NCOMP)] + ["Ci"]:
        o += ["pub struct %s(pub u8);" % c, "impl AperCodec for %s {" % c, "    type Output = Self;",
              "    fn decode(data: &mut AperCodecData) -> Result<Self, AperCodecError> { opaque() }",
              "    fn encode(&self, data: &mut AperCodecData) -> Result<(), AperCodecError> { opaque() }", "}"]
    for s in shs:
        o += ["#[derive(AperCodec)]", s["src"]]
        k = s["kind"]
        if k in ("number", "string", "bool"):
            o.append("pub struct %s(pub %s);" % (s["name"], s["rty"]))
        elif k == "null":
            o.append("pub struct %s;" % s["name"])
        elif k == "oid":
            o.append("pub struct %s;" % s["name"])
        elif k == "seqof":
            o.append("pub struct %s(pub Vec<%s>);" % (s["name"], s["comp"]))
        elif k == "seq":
            o.append("pub struct %s {" % s["name"])
            for nm, c, oi, kf in s["fields"]:
                if oi is not None:
                    o.append("    #[asn(optional_idx = %d)] pub %s: Option<C%d>," % (oi, nm, c))
                else:
                    o.append("    %spub %s: C%d," % ("#[asn(key_field = true)] " if kf else "", nm, c))
            o.append("}")
        elif k == "choice":
            o.append("pub enum %s {" % s["name"])
            for i, (c, key, e) in enumerate(s["variants"]):
                o.append("    #[asn(key = %d, extended = %s)] V%d(C%d)," % (key, b(e), i, c))
            o.append("}")
        elif k == "open":
            o.append("pub enum %s {" % s["name"])
            for i, (c, key, e) in enumerate(s["variants"]):
                o.append("    #[asn(key = %d)] V%d(C%d)," % (key, i, c))
            o.append("}")
    return "\n".join(o) + "\n"


if __name__ == "__main__":
    print(source(shapes()))
