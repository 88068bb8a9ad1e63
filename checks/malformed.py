"""C11: compile-fail witnesses for the derive macro, each with a twin that compiles"""
import json
import os
import shutil

import run

HEAD = """#![allow(dead_code, unused)]
use asn1_codecs::aper::{AperCodec, AperCodecData, AperCodecError};
pub struct Ci(pub u8);
impl AperCodec for Ci {
    type Output = Self;
    fn decode(_: &mut AperCodecData) -> Result<Self, AperCodecError> { Ok(Ci(0)) }
    fn encode(&self, _: &mut AperCodecData) -> Result<(), AperCodecError> { Ok(()) }
}
"""
BV = "bitvec::vec::BitVec<u8, bitvec::order::Msb0>"
# ASN.1 type -> (attributes of a legal declaration, item with @ in place of the attribute)
LEGAL = {
    "INTEGER": ('lb = "0", ub = "9"', "@ pub struct X(pub u8);"),
    "ENUMERATED": ('lb = "0", ub = "9", extensible = true', "@ pub struct X(pub u8);"),
    "BOOLEAN": ("", "@ pub struct X(pub bool);"),
    "BITSTRING": ('sz_lb = "1", sz_ub = "9"', "@ pub struct X(pub %s);" % BV),
    "OCTET-STRING": ('sz_lb = "1", sz_ub = "9", sz_extensible = true', "@ pub struct X(pub Vec<u8>);"),
    "UTF8String": ("", "@ pub struct X(pub String);"),
    "PrintableString": ('sz_lb = "1", sz_ub = "9"', "@ pub struct X(pub String);"),
    "VisibleString": ('sz_lb = "1", sz_ub = "9", sz_extensible = false', "@ pub struct X(pub String);"),
    "NULL": ("", "@ pub struct X;"),
    "OBJECT-IDENTIFIER": ("", "@ pub struct X;"),
    "SEQUENCE-OF": ('sz_lb = "1", sz_ub = "9"', "@ pub struct X(pub Vec<Ci>);"),
    "SEQUENCE": ("extensible = true, optional_fields = 2",
                 "@ pub struct X { pub a: Ci, #[asn(optional_idx = 0)] pub b: Option<Ci>, #[asn(key_field = true)] pub k: Ci, #[asn(optional_idx = 1)] pub c: Option<Ci> }"),
    "CHOICE": ('lb = "0", ub = "1", extensible = false', "@ pub enum X { #[asn(key = 0, extended = false)] A(Ci), #[asn(key = 1, extended = false)] B(Ci) }"),
    "OPEN": ("", "@ pub enum X { #[asn(key = 7)] A(Ci), #[asn(key = 9)] B(Ci) }"),
}
KINDS = {"str": '"0"', "int": "0", "bool": "true", "float": "1.5", "char": "'0'", "byte": "b'0'", "bytestr": 'b"0"'}
TYKEYS = dict(lb="str", ub="str", sz_lb="str", sz_ub="str", extensible="bool", sz_extensible="bool", optional_fields="int")
VARKEYS = dict(key="int", extended="bool", optional_idx="int", key_field="bool")
UNKNOWN = ["bogus", "LB", "Ub", "lower", "lb_", "lbx", "sz_l", "size_lb", "sz_lbs", "extensibl", "Extensible", "extensible_", "sz_ext", "optional", "optional_field",
           "ty", "Type", "types", "tag", "a"]
NOTYPES = ["", " ", "integer", "Integer", "INTEGERS", "INTEGER ", " INTEGER", "INT", "REAL", "BOOL", "Boolean", "ENUM", "ENUMERATE", "BIT STRING", "BIT-STRING", "BITSTRINGS",
           "OCTET STRING", "OCTETSTRING", "OCTET_STRING", "CHARACTER-STRING", "CHARACTER STRING", "STRING", "String", "UTF8STRING", "Utf8String", "utf8String", "PrintableStrings",
           "Printablestring", "visibleString", "IA5string", "NumericString", "GeneralString", "BMPString", "UniversalString", "TeletexString", "T61String",
           "VideotexString", "GraphicString", "ISO646String", "ObjectDescriptor", "UTCTime", "GeneralizedTime", "EXTERNAL", "EMBEDDED-PDV", "RELATIVE-OID",
           "SET", "SET-OF", "SET OF", "SEQUENCE OF", "SEQUENCE_OF", "SEQUENCEOF", "SEQ", "SEQUENCE-", "CHOICES", "Choice", "OPEN-TYPE", "OPENTYPE", "OPEN TYPE", "Null", "NULLS",
           "OBJECT IDENTIFIER", "OBJECT-IDENTIFIERS", "OID", "ANY", "MACRO"]
SHAPES = {
    "unit struct": "pub struct X;",
    "empty tuple struct": "pub struct X();",
    "empty struct": "pub struct X {}",
    "tuple struct of one": None,
    "tuple struct of two": "pub struct X(pub Ci, pub Ci);",
    "tuple struct of two with the right first": None,
    "struct with a named field": "pub struct X { pub a: Ci }",
    "enum without variants": "pub enum X {}",
    "enum with a unit variant": "pub enum X { #[asn(key = 0, extended = false)] A }",
    "enum with a unit and a tuple variant": "pub enum X { #[asn(key = 0, extended = false)] A(Ci), #[asn(key = 1, extended = false)] B }",
    "enum with an empty tuple variant": "pub enum X { #[asn(key = 0, extended = false)] A() }",
    "enum with a variant of two": "pub enum X { #[asn(key = 0, extended = false)] A(Ci, Ci), #[asn(key = 1, extended = false)] B(Ci) }",
    "enum with a struct variant": "pub enum X { #[asn(key = 0, extended = false)] A { a: Ci } }",
    "enum with a tuple and a struct variant": "pub enum X { #[asn(key = 1, extended = false)] B(Ci), #[asn(key = 0, extended = false)] A { a: Ci } }",
    "enum with tuple variants": "pub enum X { #[asn(key = 0, extended = false)] A(Ci), #[asn(key = 1, extended = false)] B(Ci) }",
    "union": "pub union X { a: u8 }",
}
INNER = {"INTEGER": "u8", "ENUMERATED": "u8", "BOOLEAN": "bool", "BITSTRING": BV, "OCTET-STRING": "Vec<u8>", "UTF8String": "String", "PrintableString": "String",
         "VisibleString": "String", "SEQUENCE-OF": "Vec<Ci>"}
# shapes a type fits (everything else has to be refused); the value of an OBJECT IDENTIFIER is not represented, every shape is left open
FITS = {"SEQUENCE": {"unit struct", "empty struct", "empty tuple struct", "struct with a named field"},
        "NULL": {"unit struct", "empty struct", "empty tuple struct"},
        "CHOICE": {"enum with tuple variants"}, "OPEN": {"enum with tuple variants", "enum without variants"}}
WRONG_INNER = {"INTEGER": ["String", "Vec<u8>", "Ci", "f64"], "ENUMERATED": ["String", "Ci"], "BOOLEAN": ["u8", "String", "Ci"], "BITSTRING": ["Vec<u8>", "String", "u8", "Ci"],
               "OCTET-STRING": [BV, "String", "u8", "Ci"], "UTF8String": ["Vec<u8>", "u8", "Ci"], "PrintableString": ["Vec<u8>", "u8"], "VisibleString": ["Vec<u8>", BV],
               "SEQUENCE-OF": ["u8", "Ci", "Option<Ci>", "Vec<u8>", "String", "Box<Ci>"]}


def wit():
    """[(class, description, item)] to be refused; [(description, item)] to be accepted"""
    bad, good = [], []

    def D(attr):
        return "#[derive(asn1_codecs_derive::AperCodec)] " + attr

    def put(t, attrs):
        return LEGAL[t][1].replace("@", D(attrs))

    def lst(t, extra="", pre=""):
        return "#[asn(%s)]" % ", ".join(x for x in (pre, 'type = "%s"' % t, LEGAL[t][0], extra) if x)
    for t in LEGAL:
        good.append((t, put(t, lst(t))))
        # no attribute, no type
        bad.append(("missing type", "%s: no asn attribute" % t, put(t, "")))
        bad.append(("missing type", "%s: no parameters" % t, put(t, "#[asn()]")))
        bad.append(("missing type", "%s: bare attribute" % t, put(t, "#[asn]")))
        bad.append(("missing type", "%s: attribute with a value" % t, put(t, '#[asn = "%s"]' % t)))
        bad.append(("missing type", "%s: attribute with a literal" % t, put(t, '#[asn("%s")]' % t)))
        bad.append(("missing type", "%s: type as a path" % t, put(t, "#[asn(type)]" if False else "#[asn(%s)]" % (LEGAL[t][0] or 'lb = "0"'))))
        for k in ("int", "bool", "float", "char", "byte", "bytestr"):
            bad.append(("wrong literal", "%s: type = %s literal" % (t, k), put(t, "#[asn(%s)]" % ", ".join(x for x in ("type = %s" % KINDS[k], LEGAL[t][0]) if x))))
            # a second type does not heal the first
            bad.append(("wrong literal", "%s: type = %s literal and a type" % (t, k), put(t, lst(t, pre="type = " + KINDS[k]))))
        # unknown keys
        for i, u in enumerate(UNKNOWN + list(VARKEYS)):
            for j, k in enumerate(("str", "int", "bool")):
                if (i + j) % 3 == len(t) % 3:
                    e = "%s = %s" % (u, KINDS[k])
                    bad.append(("unknown key", "%s: %s at the end" % (t, e), put(t, lst(t, extra=e))))
                    bad.append(("unknown key", "%s: %s at the start" % (t, e), put(t, lst(t, pre=e))))
        bad.append(("unknown key", "%s: in a second attribute" % t, put(t, lst(t) + " #[asn(bogus = 1)]")))
        bad.append(("unknown key", "%s: in a first attribute" % t, put(t, '#[asn(bogus = "1")] ' + lst(t))))
        bad.append(("unknown key", "%s: path in front of a key" % t, put(t, lst(t, extra='x::lb = "0"'))))
        # wrong kinds
        for key, want in TYKEYS.items():
            for k, l in KINDS.items():
                if k != want:
                    bad.append(("wrong literal", "%s: %s = %s literal" % (t, key, k), put(t, lst(t, extra="%s = %s" % (key, l)))))
                    if k in ("str", "int", "bool"):
                        bad.append(("wrong literal", "%s: %s = %s literal before the others" % (t, key, k), put(t, lst(t, pre="%s = %s" % (key, l)))))
            bad.append(("wrong literal", "%s: %s without a value" % (t, key), put(t, lst(t, extra=key))))
            bad.append(("wrong literal", "%s: %s with a list" % (t, key), put(t, lst(t, extra="%s(%s)" % (key, KINDS[want])))))
        # not a number
        for key in ("lb", "ub", "sz_lb", "sz_ub"):
            if any(x.strip().startswith(key + " =") for x in LEGAL[t][0].split(",")):
                for v in ("", "abc", "1.5", "0x10", "1 2", "--1", "1_000x"):
                    na = ", ".join('%s = "%s"' % (key, v) if x.strip().startswith(key + " =") else x for x in LEGAL[t][0].split(", "))
                    bad.append(("wrong literal", '%s: %s = "%s" is no number' % (t, key, v), put(t, '#[asn(type = "%s", %s)]' % (t, na))))
        # shapes
        if t != "OBJECT-IDENTIFIER":
            for sn, s in SHAPES.items():
                if sn == "tuple struct of one":
                    s = "pub struct X(pub %s);" % INNER.get(t, "Ci")
                elif s is None:
                    s = "pub struct X(pub %s, pub Ci);" % INNER.get(t, "Ci")
                item = D(lst(t)) + " " + s
                if sn in FITS.get(t, {"tuple struct of one"}):
                    if sn != "enum without variants":
                        good.append(("%s: %s" % (t, sn), item.replace("optional_fields = 2", "optional_fields = 0")))
                else:
                    bad.append(("shape", "%s: %s" % (t, sn), item))
        for x in WRONG_INNER.get(t, []):
            bad.append(("shape", "%s: of %s" % (t, x), D(lst(t)) + " pub struct X(pub %s);" % x))
    # type names
    for n in NOTYPES:
        for t in ("INTEGER", "OCTET-STRING", "UTF8String", "NULL", "SEQUENCE", "CHOICE", "SEQUENCE-OF"):
            bad.append(("unsupported type", "%r for %s" % (n, t), put(t, '#[asn(type = "%s"%s)]' % (n, ", " + LEGAL[t][0] if LEGAL[t][0] else ""))))
    # the legal names on items of another type
    # components and alternatives
    seq = D('#[asn(type = "SEQUENCE", extensible = false, optional_fields = 2)]') + " pub struct X { %s }"
    ch = D('#[asn(type = "CHOICE", lb = "0", ub = "2", extensible = true)]') + " pub enum X { %s }"
    op = D('#[asn(type = "OPEN")]') + " pub enum X { %s }"
    f0 = ["pub a: Ci", "#[asn(optional_idx = 0)] pub b: Option<Ci>", "#[asn(optional_idx = 1)] pub c: Option<Ci>"]
    v0 = ["#[asn(key = 0, extended = false)] A(Ci)", "#[asn(key = 1, extended = false)] B(Ci)", "#[asn(key = 0, extended = true)] C(Ci)"]
    o0 = ["#[asn(key = 10)] A(Ci)", "#[asn(key = 11)] B(Ci)", "#[asn(key = 12)] C(Ci)"]

    def place(cls, desc, shell, legal, make):
        good.append((desc.split(":")[0], shell % ", ".join(legal)))
        for i in range(3):
            bad.append((cls, "%s, position %d" % (desc, i), shell % ", ".join(make(i) if j == i else legal[j] for j in range(3))))
    N = "abc"
    V = "ABC"
    for a, d in (("", "no attribute"), ("#[asn(key_field = false)] ", "another attribute only"), ("#[asn()] ", "empty attribute")):
        place("optional without index", "SEQUENCE: optional component with %s" % d, seq, f0, lambda i: "%spub %s: Option<Ci>" % (a, N[i]))
        place("variant without key", "OPEN: alternative with %s" % d.replace("another", "no key but another"), op, o0, lambda i: "%s%s(Ci)" % (a, V[i]))
    for a, d in (("", "no attribute"), ("#[asn(extended = false)] ", "no key"), ("#[asn(extended = true)] ", "no key, in the additions"), ("#[asn()] ", "empty attribute")):
        place("variant without key", "CHOICE: alternative with %s" % d, ch, v0, lambda i: "%s%s(Ci)" % (a, V[i]))
    shells = (("SEQUENCE", seq, f0, lambda i, e: "#[asn(%s)] pub %s: Ci" % (e, N[i])),
              ("SEQUENCE optional", seq, f0, lambda i, e: "#[asn(optional_idx = %d, %s)] pub %s: Option<Ci>" % (i, e, N[i])),
              ("CHOICE", ch, v0, lambda i, e: "#[asn(key = %d, extended = false, %s)] %s(Ci)" % (i, e, V[i])),
              ("CHOICE first", ch, v0, lambda i, e: "#[asn(%s, key = %d, extended = false)] %s(Ci)" % (e, i, V[i])),
              ("OPEN", op, o0, lambda i, e: "#[asn(key = %d, %s)] %s(Ci)" % (i, e, V[i])))
    for nm, shell, legal, mk in shells:
        for key, want in VARKEYS.items():
            for k, l in KINDS.items():
                if k != want:
                    i = (len(key) + len(k)) % 3
                    e = "%s = %s" % (key, l)
                    bad.append(("wrong literal", "%s: %s literal for %s" % (nm, k, key), shell % ", ".join(mk(i, e) if j == i else legal[j] for j in range(3))))
            for e in (key, "%s(%s)" % (key, KINDS[want])):
                bad.append(("wrong literal", "%s: %s without a value" % (nm, e), shell % ", ".join([mk(0, e)] + legal[1:])))
        for n, u in enumerate(UNKNOWN + list(TYKEYS) + ["type"]):
            i = n % 3
            e = "%s = %s" % (u, KINDS[("str", "int", "bool")[n // 3 % 3]])
            bad.append(("unknown key", "%s: %s" % (nm, e), shell % ", ".join(mk(i, e) if j == i else legal[j] for j in range(3))))
        for a in ("#[asn]", '#[asn = "0"]', "#[asn(0)]", '#[asn("key")]'):
            bad.append(("wrong literal", "%s: %s" % (nm, a), shell % ", ".join([a + " " + legal[0]] + legal[1:])))
    return bad, good


class Crate:
    def __init__(self, w):
        self.w = w
        self.src = os.path.join(w.dir, "src")
        w.copy_repo(self.src)
        self.dst = os.path.join(w.dir, "fail")
        shutil.copytree(os.path.join(run.VERIF, "witness"), self.dst)
        p = os.path.join(self.dst, "Cargo.toml")
        t = open(p).read().replace("/repo/", self.src + "/")
        open(p, "w").write(t)
        lock = os.path.join(self.src, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(self.dst, "Cargo.lock"))
        self.env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(w.dir, "target-fail"), CARGO_NET_OFFLINE="true")
        self.env.pop("RUSTFLAGS", None)

    def compile(self, items):
        """(compiled, {index: first error})"""
        text = HEAD
        starts = []
        n = text.count("\n") + 1
        for i, it in items:
            s = "mod m%d { use super::Ci; use asn1_codecs::aper::AperCodec;\n%s\n}\n" % (i, it)
            starts.append((n, i))
            text += s
            n += s.count("\n")
        open(os.path.join(self.dst, "src", "lib.rs"), "w").write(text)
        import subprocess
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json"], cwd=self.dst, env=self.env, capture_output=True,
                           text=True, errors="replace", timeout=600)
        errs = {}
        other = []
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            if not m["target"]["name"] == "witness":
                other.append(m["message"]["message"])
                continue
            for sp in m["message"]["spans"]:
                if not sp["is_primary"] or not sp["file_name"].endswith("lib.rs"):
                    continue
                i = next((k for s, k in reversed(starts) if s <= sp["line_start"]), None)
                if i is not None:
                    errs.setdefault(i, m["message"]["message"])
        if r.returncode and not errs:
            raise run.BuildFailed("\n".join(other) or r.stderr[-2000:])
        return r.returncode == 0, errs


def explore(w):
    bad, good = wit()
    c = Crate(w)
    res = {}
    ok, errs = c.compile([(i, it) for i, (_, it) in enumerate(good)])
    left = [(i, it) for i, (_, _, it) in enumerate(bad)]
    rounds = 0
    while left:
        rounds += 1
        done, e = c.compile(left)
        if done:
            break
        if not e:
            raise run.BuildFailed("errors that belong to no witness")
        res.update(e)
        left = [x for x in left if x[0] not in e]
    return bad, good, errs, res, rounds


class C11:
    LEVEL = "exhaustive-within-bounds"

    @staticmethod
    def check(rep, w, tier):
        rep.rule("each malformed declaration has a compile error of its own inside its item; each legal twin compiles")
        bad, good, errs, res, rounds = explore(w)
        for i, (d, it) in enumerate(good):
            rep.unit("legal twins")
            if i in errs:
                rep.fail("twin:" + d, "a legal declaration does not compile any more (%s): %s" % (d, errs[i]), "codecs_derive")
            else:
                rep.ok()
        for i, (cls, d, it) in enumerate(bad):
            rep.unit("malformed declarations")
            if i in res:
                rep.ok()
            else:
                rep.fail("accepted:%s:%s" % (cls, d), "the derive accepts a malformed declaration: %s (%s): %s" % (cls, d, it), "codecs_derive derive(AperCodec)")
        rep.unit("compilations", rounds + 1)


C11.META = dict(what="Compile-fail witnesses: the compiler, with the derive macro of the current tree, is given every malformed declaration of a finite family and has to "
                "refuse each one.", cmd="python3 check.py C11", trusted=["rustc", "attribution of an error to the witness whose item contains its primary span"],
                assumptions=["declarations outside the family (other unknown keys, other unsupported names) behave like those in it"])
C11.TECH = "compile-fail witnesses with compiling twins"
C11.NOTE = "Families: unknown keys, literal kinds, missing type, unsupported names, missing key / presence index, shapes, inner types; in every position."
