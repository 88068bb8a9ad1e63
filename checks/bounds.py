"""C19 / C20: the bounds of an INTEGER, from the constraint to the type that holds the value."""
import sys
import run
import mir
import codec
import flow
import interp
import models
import lists
import tokens
from dom import const, sub, addc, scale

CRATE = "asn1_compiler"
WIDTH = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1),
         "i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
         "i128": (-2**127, 2**127 - 1), "u128": (0, 2**128 - 1)}


class Anchor(Exception):
    pass


def adt(P, path):
    r = [i for i, t in enumerate(P.types) if t["k"] == "adt" and t["path"].endswith(path) and t.get("variants") is not None]
    if not r:
        raise Anchor("type %s" % path)
    return r[0]


def is_path(P, ty, suffix):
    t = P.types[ty]
    while t["k"] == "ref":
        t = P.types[t["to"]]
    return t["k"] == "adt" and t["path"].endswith(suffix)


def resolvers(P, made="::Asn1ResolvedInteger", given="::types::Asn1Type"):
    """functions that make a resolved type of a parsed one"""
    out = []
    for f in P.by_crate[CRATE]:
        if f.kind == "Closure" or f.ret is None:
            continue
        r = flow.result_args(P, f.ret)
        if r is not None and is_path(P, r[0], made) and any(is_path(P, f.locals[i + 1], given) for i in range(f.argc)):
            out.append(f)
    return out


class World:
    """one interpreter and the constraint it is given"""

    def __init__(self, P):
        self.P = P
        self.problems = {}
        I = self.I = codec.new_interp(P, lambda *a: None)
        I.unroll = "nest"
        I.MAXSTATES = 4000
        self.L = lists.Lists(I)
        self.T = tokens.Tokens(I)
        self.sy = {}
        self.named = {}
        self.strings = "str"
        self.st = interp.St()
        self.idents = []
        I.on_call = self.on_call

    def on_call(self, st, path, args, info):
        I = self.I
        m = path.split("::")[-1]
        if args and "<impl str>::" in path or "String" in path:
            v = args[0] if args else None
            s = I.seq_of(st, v) if v is not None and v[0] in ("ptr", "seq", "strref") else None
            c = lists.deref(I, st, v) if v is not None else ("top",)
            d = info["dty"]
            if c[0] in ("str", "strref") and c[1] in ("MIN", "MAX") and "<impl str>::parse" in path and d is not None:
                return [(("adt", d, 1, (I.fresh(st, flow.result_args(self.P, d)[1]),)), st)]
            if s is not None and (s[1] in self.sy or s[1] in self.named):
                if "<impl str>::parse" in path:
                    if s[1] in self.named:
                        return [(("adt", d, 1, (I.fresh(st, flow.result_args(self.P, d)[1]),)), st)]
                    if d is not None and I.T[flow.result_args(self.P, d)[0]]["k"] == "int":
                        return [(("adt", d, 0, (("i", self.sy[s[1]]),)), st)]
                    return None
                if m in ("trim", "as_str", "deref", "as_ref", "borrow", "trim_matches", "trim_start", "trim_end") and info["dty"] is not None and I.T[info["dty"]]["k"] == "ref":
                    return [(v, st)]
                if m in ("clone", "to_string", "to_owned"):
                    return [(s, st)]
        if m in ("eq", "ne") and len(args) == 2:
            # a number or a name of a value is not one of the words in the program
            for x, y in (args, args[::-1]):
                if self.text(st, x) is not None and lists.deref(I, st, y)[0] in ("str", "strref"):
                    return [(("b", m == "ne"), st)]
        if m in ("get", "contains_key") and len(args) == 2 and ("map" in path.lower()):
            t = self.text(st, args[1])
            c = lists.deref(I, st, args[1])
            if t in self.named:
                if m == "contains_key":
                    return [(("b", True), st)]
                d = info["dty"]
                return [(("adt", d, 1, (self.named[t],)), st)]
            if c[0] in ("str", "strref") and c[1] in ("MIN", "MAX") and info["dty"] is not None:
                return [(("b", False), st)] if m == "contains_key" else [(("adt", info["dty"], 0, ()), st)]
        r = self.T(st, path, args, info)
        return r if r is not None else self.L(st, path, args, info)

    def text(self, st, v):
        """the unknown text (of a number or a name) behind a value"""
        for _ in range(6):
            if v[0] != "ptr":
                break
            v = self.I.get(st, v[1], v[2])
        return v[1] if v[0] == "seq" and (v[1] in self.sy or v[1] in self.named) else None

    # ---- building the input
    def struct(self, ty_, variant=None, **fields):
        t = self.P.types[ty_]
        vi = 0
        if variant is not None:
            vs = [i for i, v in enumerate(t["variants"]) if v["name"] == variant]
            if not vs:
                raise Anchor("variant %s of %s" % (variant, t["path"]))
            vi = vs[0]
        out = []
        left = dict(fields)
        for n, f in t["variants"][vi]["fields"]:
            if n in left:
                out.append(left.pop(n))
            else:
                out.append(self.I.fresh(self.st, f))
        if left:
            raise Anchor("field %s of %s" % (sorted(left)[0], t["path"]))
        return ("adt", ty_, vi, tuple(out))

    def ftype(self, ty, variant, field):
        t = self.P.types[ty]
        for v in t["variants"]:
            if variant is None or v["name"] == variant:
                for n, f in v["fields"]:
                    if n == field:
                        return f
        raise Anchor("field %s of %s" % (field, t["path"]))

    def name(self, n):
        """the name of a value that stands for the number n"""
        P = self.P
        s = ("seq", interp.uid(), const(0), self.st.num.fresh(1, 64), models.U8(self.I))
        iv = self.struct(adt(P, "::Asn1ResolvedIntegerValue"), value=("i", n))
        v = self.struct(adt(P, "::Asn1ResolvedValue"), "Base", **{"0": self.struct(adt(P, "::ResolvedBaseValue"), "Integer", **{"0": iv})})
        self.named[s[1]] = self.keep(self.struct(adt(P, "::Asn1ResolvedDefinition"), "Value", **{"0": v}))
        return s

    def literal(self, n):
        """a text that spells the number n"""
        if n in ("MIN", "MAX"):
            return self.I.as_seq_val(self.st, ("str", n)) if self.strings == "seq" else ("str", n)
        if isinstance(n, tuple) and n and n[0] == "name":
            return self.name(n[1])
        s = ("seq", interp.uid(), const(0), self.st.num.fresh(1, 64), models.U8(self.I))
        self.sy[s[1]] = n
        self.keep(("i", n))
        return s

    def element(self, e):
        """e: ("v", V) | ("r", L, lincl, U, uincl) | ("set", ElementSet value) | ("sub", Asn1Type value)"""
        P = self.P
        sub_ = adt(P, "::SubtypeElements")
        if e[0] == "v":
            x = self.struct(sub_, "SingleValue", value=self.literal(e[1]))
        elif e[0] == "r":
            x = self.struct(sub_, "ValueRange", lower=self.literal(e[1]), lower_inclusive=("b", e[2]), upper=self.literal(e[3]), upper_inclusive=("b", e[4]))
        elif e[0] == "sub":
            x = self.struct(sub_, "ConstrainedSubtype", **{"0": e[1]})
        el = adt(P, "::Elements")
        if e[0] == "set":
            return self.struct(el, "Set", **{"0": e[1]})
        return self.struct(el, "Subtype", **{"0": x})

    def union(self, parts):
        P = self.P
        us, isx = adt(P, "::UnionSet"), adt(P, "::IntersectionSet")
        return self.struct(us, elements=("arr", tuple(self.struct(isx, elements=("arr", tuple(self.element(e) for e in p))) for p in parts)))

    def elementset(self, root, ext=None):
        P = self.P
        es = adt(P, "::constraints::ElementSet")
        o = self.ftype(es, None, "additional_elements")
        return self.struct(es, root_elements=self.union(root),
                           additional_elements=codec.none(o) if ext is None else codec.some(o, self.union(ext)))

    def inttype(self, sets):
        """an INTEGER with the given constraints"""
        P = self.P
        ty, kd, bi, ac = adt(P, "::types::Asn1Type"), adt(P, "::Asn1TypeKind"), adt(P, "::Asn1BuiltinType"), adt(P, "::Asn1Constraint")
        o = self.ftype(ty, None, "constraints")
        k = self.struct(kd, "Builtin", **{"0": self.struct(bi, "Integer")})
        cs = ("arr", tuple(self.struct(ac, "Subtype", **{"0": s}) for s in sets))
        return self.struct(ty, kind=k, constraints=codec.some(o, cs))

    def size(self, root, ext=None):
        """SIZE elements: root and ext are lists of element sets"""
        P = self.P
        sub_, el = adt(P, "::SubtypeElements"), adt(P, "::Elements")
        us, isx, es = adt(P, "::UnionSet"), adt(P, "::IntersectionSet"), adt(P, "::constraints::ElementSet")

        def un(l):
            return self.struct(us, elements=("arr", tuple(self.struct(isx, elements=("arr", (self.struct(el, "Subtype", **{
                "0": self.struct(sub_, "SizeConstraint", **{"0": x})}),))) for x in l)))
        o = self.ftype(es, None, "additional_elements")
        e = self.struct(es, root_elements=un(root), additional_elements=codec.none(o) if ext is None else codec.some(o, un(ext)))
        return self.struct(adt(P, "::Asn1Constraint"), "Subtype", **{"0": e})

    def sized(self, kind, size):
        """the parsed type of that kind with one SIZE constraint"""
        P = self.P
        ty, kd = adt(P, "::types::Asn1Type"), adt(P, "::Asn1TypeKind")
        o = self.ftype(ty, None, "constraints")
        if kind == "SequenceOf":
            so = adt(P, "::Asn1TypeSequenceOf")
            k = self.struct(kd, "Builtin", **{"0": self.struct(adt(P, "::Asn1BuiltinType"), "Boolean")})
            t = self.struct(ty, kind=k, constraints=codec.none(o))
            return self.struct(so, ty=self.keep(t), size=codec.some(self.ftype(so, None, "size"), size))
        k = self.struct(kd, "Builtin", **{"0": self.struct(adt(P, "::Asn1BuiltinType"), kind)})
        return self.struct(ty, kind=k, constraints=codec.some(o, ("arr", (size,))))

    def resolve(self, fn, ty, given="::types::Asn1Type"):
        args = []
        for i in range(fn.argc):
            lt = fn.locals[i + 1]
            if is_path(self.P, lt, given):
                args.append(self.keep(ty))
            else:
                args.append(self.I.fresh(self.st, lt))
        return self.I.run(fn, args, self.st)

    def keep(self, v):
        p = self.I.newptr(self.st, v, False)
        self.st.ghost["roots"] = self.st.ghost.get("roots", ()) + (p[1],)
        return p

    def field(self, v, name):
        if v[0] != "adt":
            return None
        for i, (n, f) in enumerate(self.P.types[v[1]]["variants"][v[2]]["fields"]):
            if n == name:
                return v[3][i]
        return None


# ---- what the constraint permits

def cases(st, conds):
    """states in which every condition of one combination holds: conds is a list of (name, Lin >= 0)"""
    out = [((), st)]
    for n, e in conds:
        nxt = []
        for names, s in out:
            a, b = s.copy(), s.copy()
            if a.num.assume(e):
                nxt.append((names + (n,), a))
            if b.num.assume(addc(scale(e, -1), -1)):
                nxt.append((names, b))
        out = nxt
    return out


def hulls(st, part):
    """one intersection of elements (each an interval (lo, hi)): [(lo, hi) or None, state]"""
    out = [(part[0], st)]
    for lo, hi in part[1:]:
        nxt = []
        for h, s in out:
            if h is None:
                nxt.append((None, s))
                continue
            for n1, s1 in cases(s, [("lo", sub(lo, h[0]))]):
                for n2, s2 in cases(s1, [("hi", sub(h[1], hi))]):
                    a = lo if "lo" in n1 else h[0]
                    b = hi if "hi" in n2 else h[1]
                    for n3, s3 in cases(s2, [("any", sub(b, a))]):
                        nxt.append(((a, b) if "any" in n3 else None, s3))
        out = nxt
    return out


def expected(st, parts):
    """smallest and largest value of a union of intersections: [((lo, hi) or None, state)]"""
    todo = [((), st)]
    for p in parts:
        todo = [(acc + ((h,) if h is not None else ()), s1) for acc, s in todo for h, s1 in hulls(s, p)]
    out = []
    for hs, s in todo:
        if not hs:
            out.append((None, s))
            continue
        cur = [(hs[0], s)]
        for lo, hi in hs[1:]:
            nxt = []
            for h, s1 in cur:
                for n1, s2 in cases(s1, [("lo", sub(h[0], lo))]):
                    for n2, s3 in cases(s2, [("hi", sub(hi, h[1]))]):
                        nxt.append(((lo if "lo" in n1 else h[0], hi if "hi" in n2 else h[1]), s3))
            cur = nxt
        out += cur
    return out


BIG = 2**64

# n: as r with the ends given as named values; N: a single value given so; m / x: a range from MIN / to MAX
# a shape: list of constraints, each (root parts, extension parts or None); a part is a list of elements
# v: single value; r: both ends included; r<: lower end excluded; r>: upper end excluded; s: range given as a contained subtype
SHAPES = {
    "single value": [([["v"]], None)],
    "range": [([["r"]], None)],
    "range, lower end excluded": [([["r<"]], None)],
    "range, upper end excluded": [([["r>"]], None)],
    "range, both ends excluded": [([["r<>"]], None)],
    "range | value": [([["r"], ["v"]], None)],
    "value | range": [([["v"], ["r"]], None)],
    "range | range": [([["r"], ["r"]], None)],
    "value | value": [([["v"], ["v"]], None)],
    "value | value | value": [([["v"], ["v"], ["v"]], None)],
    "range | value | range": [([["r"], ["v"], ["r"]], None)],
    "range | range | range": [([["r"], ["r"], ["r"]], None)],
    "range ^ range": [([["r", "r"]], None)],
    "range ^ value": [([["r", "v"]], None)],
    "value ^ range": [([["v", "r"]], None)],
    "value ^ value": [([["v", "v"]], None)],
    "range ^ range ^ range": [([["r", "r", "r"]], None)],
    "range ^ range | value": [([["r", "r"], ["v"]], None)],
    "range, ...": [([["r"]], [])],
    "range, ..., range": [([["r"]], [["r"]])],
    "range, ..., value": [([["r"]], [["v"]])],
    "value | range, ..., value | range": [([["v"], ["r"]], [["v"], ["r"]])],
    "contained subtype": [([["s"]], None)],
    "contained subtype with extension": [([["s+"]], None)],
    "contained subtype | value": [([["s"], ["v"]], None)],
    "(range)(range)": [([["r"]], None), ([["r"]], None)],
    "(value)(range)": [([["v"]], None), ([["r"]], None)],
    "(range)(range, ...)": [([["r"]], None), ([["r"]], [])],
    "named..named": [([["n"]], None)],
    "named..<named, ...": [([["n>"]], [])],
    "named value | range": [([["N"], ["r"]], None)],
}


def build(w, kind, lo=None, hi=None, low=-BIG):
    """one element and the interval it stands for"""
    n = w.st.num
    if kind in ("v", "N"):
        x = n.fresh(low, BIG) if lo is None else lo
        if hi is not None and not (n.assume(sub(hi, x)) and n.assume(sub(x, hi))):
            return None
        return ("v", ("name", x) if kind == "N" else x), (x, x)
    a = n.fresh(low, BIG) if lo is None else lo
    b = n.fresh(low, BIG) if hi is None else hi
    li, ui = "<" not in kind, ">" not in kind
    x, y = a if li else addc(a, 1), b if ui else addc(b, -1)
    n.assume(sub(y, x))
    if kind.startswith("n"):
        return ("r", ("name", a), li, ("name", b), ui), (x, y)
    if "m" in kind or "x" in kind:
        return ("r", "MIN" if "m" in kind else a, True, "MAX" if "x" in kind else b, True), (None if "m" in kind else a, None if "x" in kind else b)
    e = ("r", a, li, b, ui)
    if kind.startswith("s"):
        ext = None
        if kind == "s+":
            p, q = n.fresh(low, BIG), n.fresh(low, BIG)
            n.assume(sub(q, p))
            ext = [[("r", p, True, q, True)]]
        e = ("sub", w.inttype([w.elementset([[e]], ext)]))
    return e, (x, y)


def world(P, shape, bounds=None):
    """World with the constraint of that shape; the type; the parts of the root as intervals; whether it is extensible"""
    w = World(P)
    sets, roots = [], []
    marker = False
    k = 0
    if bounds is not None:
        bounds = bounds(w)
    for root, ext in shape:
        ps, iv = [], []
        for p in root:
            es, hs = [], []
            for e in p:
                b = bounds[k] if bounds is not None else (None, None)
                k += 1
                r = build(w, e, *b)
                if r is None:
                    return None
                es.append(r[0])
                hs.append(r[1])
            ps.append(es)
            iv.append(hs)
        xs = None
        if ext is not None:
            xs = [[build(w, e)[0] for e in p] for p in ext]
        marker = ext is not None
        sets.append(w.elementset(ps, xs))
        roots.append(iv)
    # several constraints: what every one of them permits (the shapes used have one part in each)
    parts = roots[0] if len(roots) == 1 else [[h for r in roots for p in r for h in p]]
    return w, w.inttype(sets), parts, marker


def same(st, a, b):
    return st.num.prove(sub(a, b)) and st.num.prove(sub(b, a))


def generators(P, of="::Asn1ResolvedInteger"):
    """functions that write the type of a resolved one"""
    out = []
    for f in P.by_crate[CRATE]:
        if f.kind == "Closure" or f.ret is None or not f.argc or not is_path(P, f.locals[1], of):
            continue
        r = flow.result_args(P, f.ret)
        if r is not None and P.types[r[0]].get("path", "").endswith("::TokenStream"):
            out.append(f)
    return out


def generated(w, st, f, v):
    """[(flattened tokens, state)]"""
    p = w.I.newptr(st, v, False)
    st.ghost["roots"] = st.ghost.get("roots", ()) + (p[1],)
    args = [p] + [w.I.fresh(st, f.locals[i + 1]) for i in range(1, f.argc)]
    out = []
    for r, s in w.I.run(f, args, st):
        if r[0] != "adt":
            raise interp.Gap("result of %s" % f.path)
        if r[2] == 1:
            continue
        t = lists.deref(w.I, s, r[3][0])
        if t[0] != "arr":
            raise interp.Gap("tokens made by %s" % f.path)
        out.append((tokens.flatten(w.I, s, t[1]), s))
    return out


def attribute(toks):
    """the only #[asn(...)] as {key: value tokens}"""
    a = tokens.attributes(toks)
    if len(a) != 1:
        raise interp.Gap("%d asn attributes instead of one" % len(a))
    ks = tokens.keys(a[0])
    return {k: v for k, v in ks}, len(ks) == len(set(k for k, v in ks)) and all(k for k, v in ks)


def text_of(v):
    """the number an attribute value spells"""
    if v is None or len(v) != 1 or v[0][0] != tokens.VALUE:
        return None
    x = v[0][1]
    if tokens.is_text(x) and x[1][1][0] == "i":
        return x[1][1][1]
    return None


def literal_of(v):
    """the constant text of an attribute value ('"INTEGER"', 'true', ...)"""
    if v is None or len(v) != 1:
        return None
    k, x = v[0]
    if k == tokens.WORD:
        return x
    if k == tokens.VALUE and x[0] == "b":
        return "true" if x[1] else "false"
    if k == tokens.VALUE and x[0] in ("str", "strref"):
        return '"%s"' % x[1]
    return None


def field_type(toks):
    """type of the only field of the generated struct"""
    for i, (k, x) in enumerate(toks):
        if k == tokens.GROUP and i >= 2 and (tokens.WORD, "struct") in toks[max(0, i - 3):i]:
            if len(x) == 2 and x[0] == (tokens.WORD, "pub") and x[1][0] == tokens.WORD:
                return x[1][1]
    return None


def anchors(P, rep):
    fns, gens = resolvers(P), generators(P)
    rep.need(len(fns) == 1, "resolver", "exactly one function makes the resolved INTEGER of a type (found %d)" % len(fns), "")
    rep.need(len(gens) == 1, "generator", "exactly one function writes the type of a resolved INTEGER (found %d)" % len(gens), "")
    return (fns[0], gens[0]) if len(fns) == 1 and len(gens) == 1 else None


def c20(P, rep):
    a = anchors(P, rep)
    if a is None:
        return
    fn, gen = a
    for name, shape in SHAPES.items():
        bad = {}
        npaths = 0
        w, ty, parts, marker = world(P, shape)
        try:
            good = 0
            for v, s in w.resolve(fn, ty):
                if v[0] != "adt":
                    raise interp.Gap("result of %s" % fn.path)
                if v[2] == 1:
                    continue
                for toks, s1 in generated(w, s, gen, v[3][0]):
                    npaths += 1
                    good += judge(s1, toks, parts, marker, bad, "lb", "ub", "extensible")
            if not good:
                bad["refused"] = "no such constraint is ever resolved and generated"
        except interp.Gap as ex:
            bad["gap"] = "not followed: %s" % ex
        if w.I.gaps:
            bad["gap"] = "not followed: %s" % (w.I.gaps[0],)
        report(rep, fn, name, bad, "`lb`, `ub` and `extensible` are those of the root, on %d ways through" % npaths)


# a root with no least or no greatest value: the key for that end must not be written
OPEN = {
    "MIN..value": [([["m"]], None)],
    "value..MAX": [([["x"]], None)],
    "MIN..MAX": [([["mx"]], None)],
    "value | value..MAX": [([["v"], ["x"]], None)],
    "MIN..value | range": [([["m"], ["r"]], None)],
    "value..MAX, ...": [([["x"]], [])],
}

# SIZE: (element sets of the root, element sets of the additions or None); an element set is a key of SHAPES with one constraint
SIZES = {
    "SIZE(value)": (["single value"], None),
    "SIZE(range)": (["range"], None),
    "SIZE(range | value)": (["range | value"], None),
    "SIZE(value | range)": (["value | range"], None),
    "SIZE(range, ...)": (["range, ..."], None),
    "SIZE(range, ..., range)": (["range, ..., range"], None),
    "SIZE(range), ...": (["range"], []),
    "SIZE(range), ..., SIZE(range)": (["range"], ["range"]),
    "SIZE(range) | SIZE(value)": (["range", "single value"], None),
    "SIZE(value) | SIZE(range)": (["single value", "range"], None),
}
SIZED = {
    "OCTET STRING": ("OctetString", "::types::Asn1Type", "::Asn1ResolvedOctetString", "::Asn1ResolvedOctetString"),
    "BIT STRING": ("BitString", "::types::Asn1Type", "::Asn1ResolvedBitString", "::Asn1ResolvedBitString"),
    "character string": ("CharacterString", "::types::Asn1Type", "::Asn1ResolvedCharacterString", "::Asn1ResolvedCharacterString"),
    "SEQUENCE OF": ("SequenceOf", "::Asn1TypeSequenceOf", "::Asn1ResolvedType", "::ResolvedConstructedType"),
}


def sizes(w, shape):
    """the SIZE constraint of that shape, its parts as intervals, whether it has a marker"""
    P = w.P
    root, ext = shape
    parts, marker = [], ext is not None

    def one(name, keep):
        ps = []
        (r, x), = SHAPES[name]
        for p in r:
            b = [build(w, e, low=0) for e in p]
            ps.append([e for e, h in b])
            if keep:
                parts.append([h for e, h in b])
        xs = None if x is None else [[build(w, e, low=0)[0] for e in p] for p in x]
        return w.elementset(ps, xs), x is not None
    rs = []
    for n in root:
        v, m = one(n, True)
        rs.append(v)
        marker = marker or m
    xs = None if ext is None else [one(n, False)[0] for n in ext]
    return w.size(rs, xs), parts, marker


def payload(w, s, v, suffix):
    """the value of that type inside a (possibly wrapped) resolved one"""
    v = lists.deref(w.I, s, v)
    n = 0
    while v[0] == "adt" and not w.P.types[v[1]]["path"].endswith(suffix) and len(v[3]) == 1 and n < 8:
        v = lists.deref(w.I, s, v[3][0])
        n += 1
    if v[0] != "adt" or not w.P.types[v[1]]["path"].endswith(suffix):
        raise interp.Gap("no value of type %s was made" % suffix)
    return v


def c20_open(P, rep):
    a = anchors(P, rep)
    if a is None:
        return
    fn, gen = a
    for name, shape in OPEN.items():
        bad, n = {}, 0
        w, ty, parts, marker = world(P, shape)
        nolo, nohi = any(h[0] is None for p in parts for h in p), any(h[1] is None for p in parts for h in p)
        try:
            for v, s in w.resolve(fn, ty):
                n += 1
                if v[0] != "adt":
                    raise interp.Gap("result of %s" % fn.path)
                if v[2] == 1:
                    continue
                for toks, s1 in generated(w, s, gen, v[3][0]):
                    at, once = attribute(toks)
                    if nolo and "lb" in at:
                        bad["lower"] = "`lb` is written although there is no least value"
                    if nohi and "ub" in at:
                        bad["upper"] = "`ub` is written although there is no greatest value"
            if not n:
                bad["gap"] = "no way through was found"
        except interp.Gap as ex:
            bad["gap"] = "not followed: %s" % ex
        if w.I.gaps:
            bad["gap"] = "not followed: %s" % (w.I.gaps[0],)
        report(rep, fn, name, bad, "refused, or no key for the open end, on %d ways through" % n)


def c20_sizes(P, rep):
    for kind, (bi, given, made, of) in SIZED.items():
        fns = resolvers(P, made, given)
        gens = generators(P, of)
        if made == "::Asn1ResolvedType":
            # the functions for the members call the one for the whole: take the one given the parsed SEQUENCE OF itself
            gens = [g for g in gens if touches(P, g, "SequenceOf")]
        rep.need(len(fns) == 1, "%s: resolver" % kind, "exactly one function makes the resolved %s (found %d)" % (kind, len(fns)), "")
        rep.need(len(gens) >= 1, "%s: generator" % kind, "a function writes the type of a resolved %s" % kind, "")
        if len(fns) != 1 or not gens:
            continue
        fn = fns[0]
        for name, shape in SIZES.items():
            bad, n = {}, 0
            w = World(P)
            try:
                sz, parts, marker = sizes(w, shape)
                good = 0
                for v, s in w.resolve(fn, w.sized(bi, sz), given):
                    if v[0] != "adt":
                        raise interp.Gap("result of %s" % fn.path)
                    if v[2] == 1:
                        continue
                    for toks, s1 in generated(w, s, gens[0], payload(w, s, v[3][0], of)):
                        n += 1
                        good += judge(s1, toks, parts, marker, bad, "sz_lb", "sz_ub", "sz_extensible")
                if not good:
                    bad["refused"] = "no such constraint is ever resolved and generated"
            except interp.Gap as ex:
                bad["gap"] = "not followed: %s" % ex
            if w.I.gaps:
                bad["gap"] = "not followed: %s" % (w.I.gaps[0],)
            report(rep, fn, name, bad, "sizes of the root, on %d ways through" % n, kind)


def touches(P, f, variant):
    return variant.lower() in f.path.split("::")[-1].replace("_", "").lower()


def judge(s1, toks, parts, marker, bad, klo, khi, kext):
    """compare the attributes with what the constraint says; how many cases there were"""
    at, once = attribute(toks)
    if not once:
        bad["keys"] = "an attribute key that is written twice or not determined"
    lo, hi = text_of(at.get(klo)), text_of(at.get(khi))
    ext = "false"
    if kext in at:
        ext = literal_of(at[kext])
    if ext not in ("true", "false"):
        bad["marker"] = "the value of `%s` is not determined" % kext
    elif (ext == "true") != marker:
        bad["marker"] = "the extension marker is %s" % ("lost" if marker else "made up")
    good = 0
    for h, s2 in expected(s1.copy(), parts):
        if h is None:
            # no value is permitted: no such constraint
            continue
        good += 1
        if lo is None:
            bad["lower"] = "the attributes have no (determined) lower bound"
        elif not same(s2, lo, h[0]):
            bad["lower"] = "`%s` is not the smallest value the root permits" % klo
        if hi is None:
            bad["upper"] = "the attributes have no (determined) upper bound"
        elif not same(s2, hi, h[1]):
            bad["upper"] = "`%s` is not the largest value the root permits" % khi
    return good


def report(rep, fn, name, bad, good, kind="INTEGER"):
    rep.unit("shapes")
    if bad:
        for k in sorted(bad):
            rep.fail("%s (%s): %s" % (kind, name, k), "%s (%s): %s" % (kind, name, bad[k]), fn.path)
    else:
        rep.ok()
        if getattr(rep, "talk", False):
            print("ok %s (%s): %s" % (kind, name, good))


EDGES = [-2**63, -2**31, -2**15, -2**7, 0, 2**7, 2**8, 2**15, 2**16, 2**31, 2**32, 2**63, 2**64]
WSHAPES = {
    "range": (SHAPES["range"], lambda lo, hi: [(lo, hi)]),
    "value | value": (SHAPES["value | value"], lambda lo, hi: [(lo, lo), (hi, hi)]),
    "greater value | value": (SHAPES["value | value"], lambda lo, hi: [(hi, hi), (lo, lo)]),
    "range | value": (SHAPES["range | value"], lambda lo, hi: [(lo, lo), (hi, hi)]),
    "value | greater range": (SHAPES["value | range"], lambda lo, hi: [(lo, lo), (hi, hi)]),
    "range | lesser value": (SHAPES["range | value"], lambda lo, hi: [(hi, hi), (lo, lo)]),
    "range | lesser range": (SHAPES["range | range"], lambda lo, hi: [(hi, hi), (lo, lo)]),
    "range, ...": (SHAPES["range, ..."], lambda lo, hi: [(lo, hi)]),
}


def spell(a, b):
    def one(x):
        for k in (7, 8, 15, 16, 31, 32, 63, 64):
            for sg in (1, -1):
                for d in (0, -1):
                    if x == sg * 2**k + d:
                        return "%s2^%d%s" % ("-" if sg < 0 else "", k, "" if not d else "-1")
        return str(x)
    return "%s..%s" % (one(a), one(b))


def c19(P, rep):
    a = anchors(P, rep)
    if a is None:
        return
    fn, gen = a
    cells = list(zip(EDGES, [e - 1 for e in EDGES[1:]]))
    for name, (shape, give) in WSHAPES.items():
        bad, n = {}, 0
        types = set()
        for ci, (a0, a1) in enumerate(cells):
            for b0, b1 in cells[ci:]:
                if a0 < 0 and b1 >= 2**63:
                    # in neither of the 64-bit ranges
                    continue
                w, ty, lo, hi = narrow(P, shape, give, (a0, a1), (b0, b1))
                n += 1
                try:
                    got = 0
                    for v, s in w.resolve(fn, ty):
                        if v[0] != "adt":
                            raise interp.Gap("result of %s" % fn.path)
                        if v[2] == 1:
                            continue
                        for toks, s1 in generated(w, s, gen, v[3][0]):
                            got += 1
                            t = field_type(toks)
                            types.add(t)
                            if t not in WIDTH:
                                bad["type"] = "the type of the field is not determined"
                                continue
                            l, u = WIDTH[t]
                            where = "%s for bounds in %s and %s" % (t, spell(a0, a1), spell(b0, b1))
                            if not s1.num.prove(addc(lo, -l)):
                                bad.setdefault("below", "the field cannot hold the smallest value permitted: %s" % where)
                            if not s1.num.prove(sub(const(u), hi)):
                                bad.setdefault("above", "the field cannot hold the largest value permitted: %s" % where)
                    if not got:
                        bad.setdefault("refused", "bounds in %s and %s: never resolved and generated" % (spell(a0, a1), spell(b0, b1)))
                except interp.Gap as ex:
                    bad["gap"] = "not followed: %s" % ex
                if w.I.gaps:
                    bad["gap"] = "not followed: %s" % (w.I.gaps[0],)
        rep.unit("classes of bounds", n)
        report(rep, fn, name, bad, "%d classes of bounds, fields of type %s" % (n, ", ".join(sorted(str(t) for t in types))))


def narrow(P, shape, give, lo, hi):
    box = {}

    def bounds(w):
        n = w.st.num
        box["lo"], box["hi"] = n.fresh(*lo), n.fresh(*hi)
        n.assume(sub(box["hi"], box["lo"]))
        return give(box["lo"], box["hi"])
    w, ty, parts, marker = world(P, shape, bounds)
    return w, ty, box["lo"], box["hi"]


SCOPE = ["library functions and the token writer (quote!) behave as the models in engine/models.py, checks/lists.py and checks/tokens.py say",
         "A bound is given as a literal (or as a named value that stands for a number); the text of a literal spells the number it is parsed to.",
         "The unions and intersections analysed have at most three elements; their bounds are arbitrary.",
         "Paths on which the compiler refuses the constraint (returns an error) satisfy the property, as long as some path of every shape is accepted."]


def load(w):
    if getattr(w, "bounds_prog", None) is not None:
        return w.bounds_prog
    d = w.dump_repo(["asn1-compiler"])
    P = mir.Prog()
    P.load(d[CRATE])
    w.bounds_prog = P
    return P


class C19:
    LEVEL = "exhaustive-within-bounds"
    TECH = "abstract interpretation over MIR, bounds symbolic, shapes of constraints enumerated"
    NOTE = "larger unions than those analysed, and open ends, are not covered"
    META = dict(what="Abstract interpretation of the function that resolves an INTEGER and of the function that writes its type, on the compiler's MIR, for every pair of classes of bounds "
                     "(the 64-bit ranges cut at every limit of a machine integer) and several shapes of constraint: the type written for the field contains both bounds.",
                assumptions=SCOPE)

    @staticmethod
    def check(rep, w, tier):
        rep.rule("the machine integer written as the field's type contains the smallest and the largest value the constraint permits")
        go(c19, rep, w)


class C20:
    LEVEL = "exhaustive-within-bounds"
    TECH = "abstract interpretation over MIR, bounds symbolic, shapes of constraints enumerated"
    NOTE = "larger unions than those analysed, and open ends, are not covered"
    META = dict(what="Abstract interpretation of the function that resolves an INTEGER and of the function that writes its type, on the compiler's MIR, for constraint shapes (values, ranges with "
                     "included and excluded ends, unions, intersections, contained subtypes, extension markers and additions, several constraints) with arbitrary bounds: on every way through, `lb`, "
                     "`ub` and `extensible` written are the smallest value, the largest value and the marker of the root.",
                assumptions=SCOPE)

    @staticmethod
    def check(rep, w, tier):
        rep.rule("lb / ub written are the smallest / largest value of the root; extensible is the marker")
        go(c20, rep, w)
        rep.rule("an end that MIN or MAX leaves open is refused or has no key")
        go(c20_open, rep, w)
        rep.rule("sz_lb / sz_ub / sz_extensible written are those of the SIZE constraint, for the string types and SEQUENCE OF")
        go(c20_sizes, rep, w)


def go(f, rep, w):
    try:
        f(load(w), rep)
    except Anchor as ex:
        rep.fail("anchor", "not found: %s" % ex)


class Rep:
    def rule(self, *a):
        pass

    def need(self, c, k, m, w):
        if not c:
            print("NEED", k, m)

    def unit(self, *a):
        pass

    def fail(self, k, m, w):
        print("FAIL", m)

    talk = True

    def ok(self, m=None):
        pass


if __name__ == "__main__":
    import time
    P = mir.Prog()
    P.load(sys.argv[1])
    for f in (c20_open, c20_sizes, c19, c20):
        t0 = time.time()
        f(P, Rep())
        print(time.time() - t0)
