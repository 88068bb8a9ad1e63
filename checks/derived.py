"""C07 - C10: the implementations the derive macro produces for the witness types of shapes.py, interpreted abstractly with the
library operations and the component codecs as events; C07 also for every function of the library itself."""
import literals
import itertools
import re
import codec
import interp
import mir
import models
import run
import shapes
from decode import TRUST
from dom import const, sub, addc, scale, add
from wire import eq, result

_P = None
# library operation -> positions of its arguments (after the data)
NUM = ("lb", "ub", "ext")
DEC = {"decode_integer": NUM, "decode_enumerated": NUM, "decode_choice_idx": NUM, "decode_bool": (), "decode_bitstring": NUM, "decode_octetstring": NUM,
       "decode_visible_string": NUM, "decode_printable_string": NUM, "decode_utf8_string": NUM, "decode_sequence_header": ("ext", "count"),
       "decode_length_determinent": ("lb", "ub", "small")}
ENC = {"encode_integer": NUM + ("value", "extended"), "encode_enumerated": NUM + ("value", "extended"), "encode_choice_idx": NUM + ("value", "extended"),
       "encode_bool": ("value",), "encode_bitstring": NUM + ("value", "extended"), "encode_octetstring": NUM + ("value", "extended"),
       "encode_visible_string": NUM + ("value", "extended"), "encode_printable_string": NUM + ("value", "extended"),
       "encode_utf8_string": NUM + ("value", "extended"), "encode_sequence_header": ("ext", "value", "extended"),
       "encode_length_determinent": ("lb", "ub", "small", "value")}
API = dict(DEC, **ENC)
COMP = re.compile(r"^<(C\w) as asn1_codecs::aper::AperCodec>::(decode|encode)$")
I128 = (-(1 << 127), (1 << 127) - 1)


class DI(interp.Interp):
    """library operations and component codecs become events"""
    vec = None
    cname = None

    def elem(self, st, s, e, ety):
        # element e of the value being encoded is marked with its index
        if self.vec is not None and s[1] == self.vec and ety is not None and self.T[ety]["k"] == "adt":
            return ("adt", ety, 0, (("i", add(s[2], e)),))
        return super().elem(st, s, e, ety)


class Case:
    def __init__(self, P, shape, res=(0, 0)):
        self.res = res          # residues mod 8 of the data and of the inner data when encoding
        for t in (models.SEGS, models.ALIAS8, models.BITSRC, models.LOADED):
            t.clear()
        self.P, self.shape = P, shape
        self.I = DI(P, obligation=self.obl)
        self.I.track = True
        self.I.on_call = self.on_call
        self.panics = []
        self.st = interp.St()
        self.bitmap = None
        self.notok = False

    def obl(self, kind, detail, ok, fn, sp, stack, st):
        if not ok:
            self.panics.append("%s: %s" % (kind, detail))

    # ------------------------------------------------------------ events
    def on_call(self, st, path, args, info):
        m = COMP.match(path)
        if m:
            return self.component(st, m.group(1), m.group(2), args, info)
        name = path.split("::")[-1]
        if path.startswith("asn1_codecs::aper::") and name in API and args and args[0][0] == "ptr" and \
                self.P.types[info["argtys"][0]].get("k") == "ref" and codec.is_data_ref(self.P, info["argtys"][0]) and self.public(path):
            return self.operation(st, name, args, info)
        return None

    def public(self, path):
        fn = self.P.fns.get(path)
        return fn is not None and "Public" in fn.vis and ("::decode" in path or "::encode" in path) and "AperCodecData" not in path

    def which(self, st, p):
        return "data" if p[1] == self.d[1] else "inner"

    def key(self, st, p):
        bi, oi, ki = codec.data_fields(self.P)
        return self.I.get(st, p[1], p[2] + (("f", ki, None),))

    def num(self, st, v):
        """Option<integer> or integer -> Lin, None or '?'"""
        v = models.follow(self.I, st, v) if v[0] == "ptr" else v
        if v[0] == "adt" and codec.optty(self.P, v[1]):
            if v[2] == 0:
                return None
            v = v[3][0]
        return v[1] if v[0] == "i" else "?"

    def flag(self, st, v):
        v = models.follow(self.I, st, v) if v[0] == "ptr" else v
        return self.I.truth(st, v)

    def load(self, st, v):
        for _ in range(3):
            if v[0] == "ptr":
                w = self.I.get(st, v[1], v[2])
                if w[0] == "top" and w[1] is not None and models.seqlike(self.I, w[1]):
                    return self.I.seq_of(st, v)
                v = w
        return v

    def operation(self, st, name, args, info):
        I = self.I
        ev = {"op": name, "on": self.which(st, args[0])}
        for i, role in enumerate(API[name]):
            if i + 1 >= len(args):
                break
            a = args[i + 1]
            if role in ("lb", "ub", "count"):
                ev[role] = self.num(st, a)
            elif role in ("ext", "small", "extended"):
                ev[role] = self.flag(st, a)
            elif role == "value":
                if name in ("encode_integer", "encode_enumerated", "encode_choice_idx", "encode_length_determinent"):
                    ev[role] = self.num(st, a)
                elif name == "encode_bool":
                    ev[role] = self.flag(st, a)
                    ev["raw"] = a
                else:
                    ev[role] = I.seq_of(st, a) if a[0] == "ptr" else a
                    ev["bits"] = None
                    s = ev[role]
                    if name == "encode_sequence_header" and s[0] == "seq" and s[3].is_const():
                        n = s[3].c
                        v = models.read_bits(I, st, s, n) if n else const(0)
                        ev["bits"] = (n, v.c if v is not None and v.is_const() else None)
        s2 = st.copy()
        # success
        dty = info["dty"]
        pt = models.payload(I, dty)
        if name.startswith("encode"):
            v = ("tup", ())
        elif name == "decode_bool":
            v = ("bs", interp.uid(), True)
        elif name in ("decode_integer", "decode_enumerated", "decode_choice_idx"):
            v = ("tup", (("i", st.num.fresh(*I128)), ("bs", interp.uid(), True)))
        elif name == "decode_length_determinent":
            v = ("i", st.num.fresh(0, 65535))
        elif name == "decode_sequence_header":
            n = len(self.bitmap) if self.bitmap is not None else 0
            u = interp.uid()
            x = 0
            for b in self.bitmap or ():
                x = 2 * x + b
            models.BITSRC[u] = (const(x), max(1, n))
            v = ("tup", (("seq", u, const(0), const(n), I.booltype()), ("bs", interp.uid(), True)))
        else:
            v = I.fresh(st, pt)
            if v[0] == "top":
                v = I.newseq(st, None)
        res = []
        # a flag among the results: both cases apart
        alts = [v]
        if v[0] == "tup" and len(v[1]) == 2 and name != "decode_sequence_header":
            alts = [("tup", (v[1][0], ("b", x))) for x in (False, True)]
        elif v[0] == "bs":
            alts = [("b", False), ("b", True)]
        for i, v in enumerate(alts):
            s1 = st if i == len(alts) - 1 else st.copy()
            s1.trace += (tuple(sorted(dict(ev, out=v).items(), key=lambda z: z[0])),)
            res.append((models.mk(dty, 0, v), s1))
        ev2 = dict(ev, out="err")
        s2.trace += (tuple(sorted(ev2.items(), key=lambda z: z[0])),)
        if s2.ghost.get("failed") is None:
            s2.ghost["failed"] = name
        res.append((self.err(s2, dty), s2))
        return res

    def err(self, st, dty):
        return self.I.materialize(st, ("top", dty, interp.uid()), 1)

    def component(self, st, c, side, args, info):
        I = self.I
        dty = info["dty"]
        loop = c == "Ci"
        if side == "decode":
            data = args[0]
            pt = models.payload(I, dty)
            v = ("adt", pt, 0, (("i", st.num.fresh(0, 255)),))
        else:
            data = args[1]
            v = ("tup", ())
        s2 = st.copy()
        ev = {"comp": c, "side": side, "on": self.which(st, data)}
        if not loop:
            ev["key"] = self.key(st, data)
        if side == "encode":
            w = self.load(st, args[0])
            ev["value"] = w[3][0] if w[0] == "adt" and w[3] else w
        else:
            ev["value"] = v[3][0]
        if ev["on"] == "inner":
            b, o = codec.read_data(I, self.P, st, data)
            ev["bits"], ev["off"] = b, o
        if loop:
            n = st.ghost["cnt"]
            if side == "encode" and not (ev["value"][0] == "i" and eq(st, ev["value"][1], n)):
                st.ghost["disorder"] = True
            if ev["on"] != "data":
                st.ghost["disorder"] = True
            st.ghost["cnt"] = addc(n, 1)
        else:
            st.trace += (tuple(sorted(ev.items())),)
        if side == "encode" and ev["on"] == "inner":
            # the component appends some bits
            n = addc(scale(st.num.fresh(0, 1 << 20), 8), self.res[1])
            self.innern = n
            self.inneru = interp.uid()
            b = models.appended(I, st, b, n, ((const(0), n, ("raw", self.inneru, const(0))),))
            bi, oi, ki = codec.data_fields(self.P)
            I.put(st, data[1], data[2] + (("f", bi, None),), b)
            st.ghost["innern"] = n
        if s2.ghost.get("failed") is None:
            s2.ghost["failed"] = "%s of a component" % side
        return [(models.mk(dty, 0, v), st), (self.err(s2, dty), s2)]

    # ------------------------------------------------------------ running
    def impl(self, side):
        p = "<%s as asn1_codecs::aper::AperCodec>::%s" % (self.shape["name"], side)
        fn = self.P.fns.get(p)
        if fn is None:
            raise codec.Anchor("derived %s of %s" % (side, self.shape["name"]))
        return fn

    def mkdata(self, fn, i, dec):
        I, st = self.I, self.st
        adt = self.P.types[fn.locals[i + 1]]["to"]
        u = self.u = interp.uid()
        ln = st.num.fresh(0, 1 << 40)
        if not dec:
            ln = addc(scale(ln, 8), self.res[0])
        if dec:
            off = st.num.fresh(0, 1 << 40)
            st.num.assume(sub(ln, off))
        else:
            off = const(0)
        self.len0 = ln
        self.d = codec.mkdata(I, self.P, st, adt, ("seq", u, const(0), ln, None), off)
        st.ghost["cnt"] = const(0)
        st.ghost["disorder"] = False
        st.ghost["len0"] = ln

    def decode(self, key=None):
        fn = self.impl("decode")
        self.mkdata(fn, 0, True)
        if key is not None:
            bi, oi, ki = codec.data_fields(self.P)
            kt = next(f for n, f in self.P.types[self.P.types[fn.locals[1]]["to"]]["variants"][0]["fields"] if codec.optty(self.P, f))
            self.keyv = codec.some(kt, ("i", self.st.num.fresh(*I128))) if key else codec.none(kt)
            self.I.put(self.st, self.d[1], self.d[2] + (("f", ki, None),), self.keyv)
            if key:
                self.st.ghost["keyv"] = self.keyv[3][0][1]
        self.key0 = self.key(self.st, self.d)
        return self.I.run(fn, [self.d], self.st)

    def encode(self, mk):
        fn = self.impl("encode")
        self.mkdata(fn, 1, False)
        ty = self.P.types[fn.locals[1]]["to"]
        v = mk(self.st, ty)
        self.self_ = v
        p = ("ptr", self.I.newcell(self.st, v), (), False)
        self.st.ghost["roots"] = self.st.ghost.get("roots", ()) + (p[1],)
        return self.I.run(fn, [p, self.d], self.st)


def events(s):
    return [dict(e) for e in s.trace]


class Judge:
    """collects (property, message)"""

    def __init__(self, shape):
        self.bad = set()
        self.shape = shape
        self.n = 0

    def say(self, props, msg):
        for p in props.split():
            self.bad.add((p, msg))

    def need(self, c, props, msg):
        self.n += 1
        if not c:
            self.say(props, msg)
        return c

    def param(self, st, got, want):
        if want is None or got is None or got == "?":
            return got is want
        return eq(st, got, const(want))

    def params(self, c, s, e, name, lb, ub, ext):
        """the operation and its bounds"""
        sh = self.shape
        if not self.need(e is not None and e.get("op") == name, "C09 C10", "%s calls %s where %s is due" % (
                self.side, (e.get("op") or "a component codec") if e else "nothing", name)):
            return False
        self.need(e["on"] == "data", "C09", "%s works on other data than its argument" % name)
        self.need(self.param(s, e.get("lb"), lb), "C09 C10", "the lower bound given to %s is not the declared one" % name)
        self.need(self.param(s, e.get("ub"), ub), "C09 C10", "the upper bound given to %s is not the declared one" % name)
        if "ext" in API[name]:
            self.need(e.get("ext") is ext, "C09 C10", "the extensibility given to %s is not the declared one" % name)
        if "extended" in API[name] and name != "encode_choice_idx":
            self.need(e.get("extended") is False, "C09", "%s is told that the value is extended" % name)
        return True

    def outcomes(self, c, outs, side):
        """successful outcomes; failing callees must fail"""
        self.side = side
        ok = []
        err = []
        for v, s in outs:
            k = result(c.I, s, v)
            f = s.ghost.get("failed")
            if f is not None:
                self.need(k[0] == "err", "C07", "%s succeeds although %s has failed" % (side, f))
                continue
            if k[0] == "?":
                self.say("C07 C08 C09 C10", "the outcome of %s is not determined" % side)
            elif k[0] == "ok":
                ok.append((k[1], s))
            else:
                err.append(s)
        for p in c.panics:
            self.say("C09", "%s may panic: %s" % (side, p))
        for g in c.I.gaps:
            self.say("C07 C08 C09 C10", "construct outside the analysis: %s" % (g,))
        return ok, err


def field0(v):
    return v[3][0] if v is not None and v[0] == "adt" and v[3] else None


def same_seq(I, st, a, b):
    if a is None or b is None:
        return False
    a = I.as_seq_val(st, a) if a[0] in ("top", "str", "strref") else a
    return a[0] == "seq" and b[0] == "seq" and a[1] == b[1] and eq(st, a[2], b[2]) and eq(st, a[3], b[3])


def do_number(P, sh):
    J = Judge(sh)
    c = Case(P, sh)
    ok, err = J.outcomes(c, c.decode(), "decode")
    J.need(ok, "C09", "decode never succeeds")
    api = "decode_" + sh["api"]
    lo, hi = mir_range(sh["rty"])
    for v, s in ok:
        es = events(s)
        J.need(len(es) == 1, "C09 C10", "decode makes %d codec calls where one is due" % len(es))
        if J.params(c, s, es[0] if es else None, api, sh["lb"], sh["ub"], sh["ext"]):
            x, e = es[0]["out"][1]
            f = field0(v)
            J.need(f is not None and f[0] == "i" and eq(s, f[1], x[1]), "C09", "the value returned is not the value decoded")
            if sh["asn"] == "ENUMERATED":
                J.need(c.I.truth(s, e) is False, "C08", "an enumeration value from the additions may be returned")
    for s in err:
        es = events(s)
        if len(es) == 1 and es[0].get("op") == api:
            x, e = es[0]["out"][1]
            t = c.I.truth(s, e)
            J.need(t is True or s.num.prove(addc(sub(x[1], const(hi)), -1)) or s.num.prove(addc(sub(const(lo), x[1]), -1)), "C09",
                   "a decoded value that fits may be refused")
    c = Case(P, sh)
    ok, err = J.outcomes(c, c.encode(lambda st, ty: c.I.materialize(st, ("top", ty, 0), 0)), "encode")
    J.need(ok, "C09", "encode never succeeds")
    J.need(not err, "C09", "encode may refuse a value by itself")
    for v, s in ok:
        es = events(s)
        J.need(len(es) == 1, "C09 C10", "encode makes %d codec calls where one is due" % len(es))
        if J.params(c, s, es[0] if es else None, "encode_" + sh["api"], sh["lb"], sh["ub"], sh["ext"]):
            x = es[0]["value"]
            w = field0(c.self_)
            J.need(x not in (None, "?") and eq(s, x, w[1]), "C09", "the value encoded is not the value of the type")
    return J


def mir_range(t):
    b = int(t[1:])
    return (0, (1 << b) - 1) if t[0] == "u" else (-(1 << (b - 1)), (1 << (b - 1)) - 1)


def do_string(P, sh):
    J = Judge(sh)
    c = Case(P, sh)
    ok, err = J.outcomes(c, c.decode(), "decode")
    J.need(ok and not err, "C09", "decode may fail by itself" if err else "decode never succeeds")
    for v, s in ok:
        es = events(s)
        J.need(len(es) == 1, "C09 C10", "decode makes %d codec calls where one is due" % len(es))
        if J.params(c, s, es[0] if es else None, "decode_" + sh["api"], sh["lb"], sh["ub"], sh["ext"]):
            J.need(same_seq(c.I, s, field0(v), c.I.as_seq_val(s, es[0]["out"])), "C09", "the value returned is not the value decoded")
    c = Case(P, sh)

    def mk(st, ty):
        c.sv = c.I.newseq(st, None)
        return ("adt", ty, 0, (c.sv,))
    ok, err = J.outcomes(c, c.encode(mk), "encode")
    J.need(ok and not err, "C09", "encode may refuse a value by itself" if err else "encode never succeeds")
    for v, s in ok:
        es = events(s)
        J.need(len(es) == 1, "C09 C10", "encode makes %d codec calls where one is due" % len(es))
        if J.params(c, s, es[0] if es else None, "encode_" + sh["api"], sh["lb"], sh["ub"], sh["ext"]):
            J.need(same_seq(c.I, s, es[0]["value"], c.sv), "C09", "the value encoded is not the value of the type")
    return J


def do_bool(P, sh):
    J = Judge(sh)
    c = Case(P, sh)
    ok, err = J.outcomes(c, c.decode(), "decode")
    J.need(ok and not err, "C09", "decode may fail by itself" if err else "decode never succeeds")
    for v, s in ok:
        es = events(s)
        if J.need(len(es) == 1 and es[0].get("op") == "decode_bool", "C09 C10", "decode of a BOOLEAN is not one decode_bool"):
            f = field0(v)
            a, b = c.I.truth(s, f), c.I.truth(s, es[0]["out"])
            J.need(f == es[0]["out"] or (a is not None and a is b), "C09", "the value returned is not the value decoded")
    for b in (False, True):
        c = Case(P, sh)
        ok, err = J.outcomes(c, c.encode(lambda st, ty: ("adt", ty, 0, (("b", b),))), "encode")
        J.need(ok and not err, "C09", "encode may refuse a value by itself" if err else "encode never succeeds")
        for v, s in ok:
            es = events(s)
            if J.need(len(es) == 1 and es[0].get("op") == "encode_bool", "C09 C10", "encode of a BOOLEAN is not one encode_bool"):
                J.need(es[0]["value"] is b, "C09", "the value encoded is not the value of the type")
    return J


def do_null(P, sh):
    J = Judge(sh)
    oid = sh["kind"] == "oid"
    for side in ("decode", "encode"):
        c = Case(P, sh)
        outs = c.decode() if side == "decode" else c.encode(lambda st, ty: ("adt", ty, 0, ()))
        ok, err = J.outcomes(c, outs, side)
        if oid:
            J.need(not ok and err, "C08", "%s of an OBJECT IDENTIFIER does not fail" % side)
        else:
            J.need(ok and not err, "C09", "%s of NULL may fail" % side)
        for s in [s for _, s in ok] + err:
            J.need(not events(s), "C09 C10" if not oid else "C08", "%s works on the data where nothing is due" % side)
            b, o = codec.read_data(c.I, P, s, c.d)
            J.need(b[1] == c.u, "C08 C09", "%s changes the data where nothing is due" % side)
    return J


def do_seqof(P, sh):
    J = Judge(sh)
    c = Case(P, sh)
    ok, err = J.outcomes(c, c.decode(), "decode")
    J.need(ok, "C09", "decode never succeeds")
    plain = 0
    for v, s in ok:
        es = events(s)
        ext = None
        if es and es[0].get("op") == "decode_bool":
            ext = c.I.truth(s, es[0]["out"])
            J.need(ext is not None, "C09 C10", "the extension bit is not looked at")
            es = es[1:]
        J.need((ext is not None) == sh["ext"], "C09 C10", "decode reads %s extension bit" % ("an" if ext is not None else "no"))
        J.need(len(es) == 1, "C09 C10", "decode makes %d codec calls for the length where one is due" % len(es))
        lb, ub = (None, None) if ext else (sh["lb"], sh["ub"])
        plain += not ext
        if not J.params(c, s, es[0] if es else None, "decode_length_determinent", lb, ub, None):
            continue
        J.need(es[0]["small"] is False, "C09 C10", "the length is taken for a small one")
        n = es[0]["out"][1]
        J.need(eq(s, s.ghost["cnt"], n), "C09", "the number of components decoded is not the length")
        f = field0(v)
        q = c.I.as_seq_val(s, f) if f is not None else None
        J.need(q is not None and eq(s, q[3], n), "C09", "the list returned does not have the components decoded")
        J.need(s.ghost.get("disorder") is False, "C09", "components are not decoded in order from the data")
    J.need(plain, "C09", "a list within its size bounds never decodes")
    for s in err:
        es = events(s)
        J.need(es and es[0].get("op") == "decode_bool" and c.I.truth(s, es[0]["out"]) is True, "C09", "decode may fail by itself")
    c = Case(P, sh)

    def mk(st, ty):
        c.sv = c.I.newseq(st, None)
        c.I.vec = c.sv[1]
        return ("adt", ty, 0, (c.sv,))
    ok, err = J.outcomes(c, c.encode(mk), "encode")
    J.need(ok and not err, "C09", "encode may refuse a value by itself" if err else "encode never succeeds")
    for v, s in ok:
        es = events(s)
        ext = False
        if es and es[0].get("op") == "encode_bool":
            ext = True
            J.need(es[0]["value"] is False, "C09", "the extension bit is not clear for a list within its bounds")
            es = es[1:]
        J.need(ext == sh["ext"], "C09 C10", "encode writes %s extension bit" % ("an" if ext else "no"))
        J.need(len(es) == 1, "C09 C10", "encode makes %d codec calls for the length where one is due" % len(es))
        if not J.params(c, s, es[0] if es else None, "encode_length_determinent", sh["lb"], sh["ub"], None):
            continue
        J.need(es[0]["small"] is False, "C09 C10", "the length is given as a small one")
        n = c.sv[3]
        x = es[0]["value"]
        J.need(x not in (None, "?") and eq(s, x, n), "C09", "the length encoded is not the number of components")
        J.need(eq(s, s.ghost["cnt"], n), "C09", "the number of components encoded is not the length")
        J.need(s.ghost.get("disorder") is False, "C09", "components are not encoded in order")
    return J


def keyval(k):
    """(known, Lin or None)"""
    if k[0] == "adt":
        if k[2] == 0:
            return True, None
        return (True, k[3][0][1]) if k[3][0][0] == "i" else (False, None)
    return False, None


def do_seq(P, sh):
    J = Judge(sh)
    fs = sh["fields"]
    n = sh["count"]
    for bits in itertools.product((0, 1), repeat=n):
        due = [f for f in fs if f[2] is None or bits[f[2]]]
        c = Case(P, sh)
        c.bitmap = bits
        ok, err = J.outcomes(c, c.decode(), "decode")
        J.need(ok and not err, "C09", "decode may fail by itself" if err else "decode never succeeds")
        for v, s in ok:
            es = events(s)
            h = es[0] if es else None
            if not J.need(h is not None and h.get("op") == "decode_sequence_header" and h["on"] == "data", "C09 C10", "decode does not start with the header"):
                continue
            J.need(h["ext"] is sh["ext"], "C09 C10", "the extensibility given to decode_sequence_header is not the declared one")
            J.need(J.param(s, h["count"], n), "C09 C10", "the number of presence bits read is not the declared one")
            es = es[1:]
            if not J.need([e.get("comp") for e in es] == ["C%d" % f[1] for f in due], "C09",
                          "decode does not read the components that are present, in their order"):
                continue
            J.need(all(e["on"] == "data" for e in es), "C09", "a component is decoded from other data")
            got = {}
            key = c.key0
            for f, e in zip(due, es):
                got[f[0]] = e["value"][1]
                k0, k1 = keyval(key), keyval(e["key"])
                J.need(key == e["key"] or (k0[0] and k1[0] and (k0[1] is None) == (k1[1] is None) and (k0[1] is None or eq(s, k0[1], k1[1]))), "C09",
                       "a component is decoded under another key than the value of the key field")
                if f[3]:
                    key = ("adt", None, 1, (e["value"],))
            if v is None or v[0] != "adt" or len(v[3]) != len(fs):
                J.say("C09", "the value returned is not determined")
                continue
            for f, x in zip(fs, v[3]):
                if f[2] is not None:
                    if not J.need(x[0] == "adt" and x[2] == bits[f[2]], "C09", "a component is present where its bit is clear or absent where it is set"):
                        continue
                    if x[2] == 0:
                        continue
                    x = x[3][0]
                w = field0(x)
                J.need(w is not None and w[0] == "i" and eq(s, w[1], got[f[0]]), "C09", "a component is stored in another field")
        # encode
        c = Case(P, sh)

        def mk(st, ty):
            ft = P.types[ty]["variants"][0]["fields"]
            vs = []
            c.vals = {}
            for f, (nm, t) in zip(fs, ft):
                x = st.num.fresh(0, 255)
                c.vals[f[0]] = x
                if f[2] is not None:
                    if bits[f[2]]:
                        vs.append(("adt", t, 1, (("adt", P.types[t]["args"][0], 0, (("i", x),)),)))
                    else:
                        vs.append(("adt", t, 0, ()))
                else:
                    vs.append(("adt", t, 0, (("i", x),)))
            return ("adt", ty, 0, tuple(vs))
        ok, err = J.outcomes(c, c.encode(mk), "encode")
        J.need(ok and not err, "C09", "encode may refuse a value by itself" if err else "encode never succeeds")
        want = 0
        for b in bits:
            want = 2 * want + b
        for v, s in ok:
            es = events(s)
            h = es[0] if es else None
            if not J.need(h is not None and h.get("op") == "encode_sequence_header" and h["on"] == "data", "C09 C10", "encode does not start with the header"):
                continue
            J.need(h["ext"] is sh["ext"], "C09 C10", "the extensibility given to encode_sequence_header is not the declared one")
            J.need(h["extended"] is False, "C09", "encode_sequence_header is told that the value is extended")
            J.need(h["bits"] is not None and h["bits"][0] == n, "C09 C10", "the number of presence bits written is not the declared one")
            J.need(h["bits"] is not None and h["bits"][1] == want, "C09", "the presence bits written are not those of the components")
            es = es[1:]
            if not J.need([e.get("comp") for e in es] == ["C%d" % f[1] for f in due], "C09",
                          "encode does not write the components that are present, in their order"):
                continue
            J.need(all(e["on"] == "data" for e in es), "C09", "a component is encoded to other data")
            for f, e in zip(due, es):
                J.need(e["value"][0] == "i" and eq(s, e["value"][1], c.vals[f[0]]), "C09", "a component is encoded in the place of another")
    return J


def variant_fields(P, fn, n):
    return None


def do_choice(P, sh):
    J = Judge(sh)
    vs = sh["variants"]
    roots = {k: i for i, (cc, k, e) in enumerate(vs) if not e}
    c = Case(P, sh)
    ok, err = J.outcomes(c, c.decode(), "decode")
    seen = set()
    for v, s in ok:
        es = events(s)
        if not J.params(c, s, es[0] if es else None, "decode_choice_idx", sh["lb"], sh["ub"], sh["ext"]):
            continue
        x, e = es[0]["out"][1]
        J.need(c.I.truth(s, e) is False, "C08", "an alternative from the extension additions may be decoded")
        lo, hi = s.num.ival(x[1])
        if not J.need(lo == hi and lo in roots, "C08 C09", "an unknown choice index may be decoded"):
            continue
        i = roots[lo]
        seen.add(lo)
        J.need(v is not None and v[0] == "adt" and v[2] == i, "C09", "a choice index is decoded as another alternative than it is encoded for")
        es = es[1:]
        if J.need(len(es) == 1 and es[0].get("comp") == "C%d" % vs[i][0] and es[0]["on"] == "data", "C09", "decode does not read the alternative the index denotes"):
            w = field0(field0(v))
            J.need(w is not None and w[0] == "i" and eq(s, w[1], es[0]["value"][1]), "C09", "the value returned is not the value decoded")
    J.need(seen == set(roots), "C09", "an alternative of the root is never decoded")
    for s in err:
        es = events(s)
        if es and es[0].get("op") == "decode_choice_idx":
            x, e = es[0]["out"][1]
            J.need(c.I.truth(s, e) is True or not any(feasible(c.I, s, x[1], k) for k in roots), "C09", "a known choice index may be refused")
    for i, (cc, k, e) in enumerate(vs):
        c = Case(P, sh)

        def mk(st, ty):
            c.x = st.num.fresh(0, 255)
            t = P.types[ty]["variants"][i]["fields"][0][1]
            return ("adt", ty, i, (("adt", t, 0, (("i", c.x),)),))
        ok, err = J.outcomes(c, c.encode(mk), "encode")
        if e:
            for v, s in ok:
                es = events(s)
                J.need(es and es[0].get("op") == "encode_choice_idx" and es[0].get("extended") is True, "C08",
                       "an alternative from the extension additions is not encoded as an extended one")
                if es and es[0].get("op") == "encode_choice_idx":
                    J.params(c, s, es[0], "encode_choice_idx", sh["lb"], sh["ub"], sh["ext"])
            for s in err:
                J.need(not events(s), "C08", "an alternative from the additions is refused after something has been written")
            continue
        J.need(ok and not err, "C09", "encode may refuse a value by itself" if err else "encode never succeeds")
        for v, s in ok:
            es = events(s)
            if not J.params(c, s, es[0] if es else None, "encode_choice_idx", sh["lb"], sh["ub"], sh["ext"]):
                continue
            J.need(J.param(s, es[0]["value"], k), "C09", "an alternative is encoded under another index than its key")
            J.need(es[0]["extended"] is False, "C09", "an alternative of the root is encoded as an extended one")
            es = es[1:]
            if J.need(len(es) == 1 and es[0].get("comp") == "C%d" % cc and es[0]["on"] == "data", "C09", "encode does not write the alternative after its index"):
                J.need(es[0]["value"][0] == "i" and eq(s, es[0]["value"][1], c.x), "C09", "the value encoded is not the value of the type")
    return J


def feasible(I, s, x, k):
    s1 = s.copy()
    return bool(I.assume(s1, ("c", "eq0", addc(x, -k)), True))


def do_open(P, sh):
    J = Judge(sh)
    vs = sh["variants"]
    keys = {k: i for i, (cc, k, e) in enumerate(vs)}
    c = Case(P, sh)
    ok, err = J.outcomes(c, c.decode(False), "decode")
    J.need(not ok, "C08", "an open type without a key may be decoded")
    c = Case(P, sh)
    ok, err = J.outcomes(c, c.decode(True), "decode")
    seen = set()
    for v, s in ok:
        es = events(s)
        if not J.params(c, s, es[0] if es else None, "decode_octetstring", None, None, False):
            continue
        bytes_ = c.I.as_seq_val(s, es[0]["out"])
        x = s.ghost["keyv"]
        lo, hi = s.num.ival(x)
        if not J.need(lo == hi and lo in keys, "C08 C09", "an open type with an unknown key may be decoded"):
            continue
        i = keys[lo]
        seen.add(lo)
        J.need(v is not None and v[0] == "adt" and v[2] == i, "C09", "an open type key is decoded as another alternative than the declared one")
        es = es[1:]
        if J.need(len(es) == 1 and es[0].get("comp") == "C%d" % vs[i][0] and es[0]["on"] == "inner", "C09",
                  "decode does not read the alternative the key denotes from the octets of the open type"):
            w = field0(field0(v))
            J.need(w is not None and w[0] == "i" and eq(s, w[1], es[0]["value"][1]), "C09", "the value returned is not the value decoded")
            b, o = es[0]["bits"], es[0]["off"]
            J.need(o is not None and eq(s, o, const(0)) and eq(s, b[3], scale(bytes_[3], 8)) and comes_from(s, b, bytes_), "C09",
                   "the alternative is not decoded from the start of the octets of the open type")
    J.need(seen == set(keys), "C09", "an alternative of the open type is never decoded")
    for s in err:
        J.need(not any(feasible(c.I, s, s.ghost["keyv"], k) for k in keys), "C09", "a known open type key may be refused")
    for i, (cc, k, e), res in [(i, v, (r, q)) for i, v in enumerate(vs) for r in range(8) for q in range(8) if len(vs) == 1 or (r + 3 * q) % 8 == i]:
        c = Case(P, sh, res)

        def mk(st, ty):
            c.x = st.num.fresh(0, 255)
            t = P.types[ty]["variants"][i]["fields"][0][1]
            return ("adt", ty, i, (("adt", t, 0, (("i", c.x),)),))
        ok, err = J.outcomes(c, c.encode(mk), "encode")
        J.need(ok and not err, "C09", "encode may refuse a value by itself" if err else "encode never succeeds")
        for v, s in ok:
            es = events(s)
            if not J.need(es and es[0].get("comp") == "C%d" % cc and es[0]["on"] == "inner", "C09", "encode does not write the alternative of the value"):
                continue
            J.need(es[0]["value"][0] == "i" and eq(s, es[0]["value"][1], c.x), "C09", "the value encoded is not the value of the type")
            if not J.params(c, s, es[1] if len(es) > 1 else None, "encode_length_determinent", None, None, None):
                continue
            J.need(len(es) == 2 and es[1]["small"] is False, "C09", "an open type is not one length and its octets")
            n = es[1]["value"]
            J.need(n not in (None, "?") and open_tail(c, s, n), "C09", "the length written is not that of the octets appended for the open type")
    return J


def comes_from(s, b, bytes_):
    """bits b are the image of the octets bytes_"""
    if b[1] == ("bits", bytes_[1]) and b[2] == const(0):
        return True
    a = models.ALIAS8.get(bytes_[1])
    if a is not None and a[0] == b[1] and eq(s, a[1], b[2]):
        return True
    g = models.SEGS.get(b[1])
    if g is not None:
        g = [x for x in g if not s.num.prove(scale(x[1], -1))]
        return len(g) == 1 and g[0][2][0] == "raw" and g[0][2][1] == ("bits", bytes_[1])
    return False


def open_tail(c, s, n):
    """after the length: padding, the bits of the alternative, padding to n octets (the length itself is an event and appends nothing)"""
    b, o = codec.read_data(c.I, c.P, s, c.d)
    g = models.SEGS.get(b[1])
    if g is None or not (b[2].is_const() and b[2].c == 0):
        return False
    al = addc(s.ghost["len0"], -c.res[0] % 8)
    m = s.ghost["innern"]
    if not eq(s, sub(b[3], al), scale(n, 8)):
        return False
    fs = [x for x in g if not s.num.prove(scale(x[1], -1))]
    inner = 0
    for a, w, src in fs:
        if src[0] == "raw" and src[1] == c.u:
            if not (eq(s, a, const(0)) and eq(s, w, s.ghost["len0"])):
                return False
        elif src[0] == "raw" and src[1] == c.inneru:
            if not (eq(s, a, al) and eq(s, w, m)):
                return False
            inner += 1
        elif src[0] != "zero":
            return False
    return inner == 1 or s.num.prove(scale(m, -1))


DO = dict(number=do_number, string=do_string, bool=do_bool, null=do_null, oid=do_null, seqof=do_seqof, seq=do_seq, choice=do_choice, open=do_open)


def task(i):
    sh = _S[i]
    try:
        J = DO[sh["kind"]](_P, sh)
    except codec.Anchor as e:
        return i, 0, [(p, "missing: %s" % e) for p in ("C07", "C08", "C09", "C10")]
    except interp.Gap as e:
        return i, 0, [(p, "outside the analysis: %s" % e) for p in ("C07", "C08", "C09", "C10")]
    return i, J.n, sorted(J.bad)


def load(w):
    global _P, _S
    if _P is not None:
        return
    _S = shapes.shapes()
    files = dict(w.dump_repo(["asn1-codecs"]))
    wit = w.dump_witness("witness", files={"src/lib.rs": shapes.source(_S)})
    P = mir.Prog()
    P.load(files["asn1_codecs"])
    P.load(wit["witness"])
    _P = P


def run_shapes(rep, w, pid):
    load(w)
    for i, n, bad in run.pmap(task, list(range(len(_S)))):
        sh = _S[i]
        rep.unit("witness types (shape x attributes)")
        rep.unit("derived functions analysed", 2)
        mine = [m for p, m in bad if p == pid]
        for m in mine:
            rep.fail("derive:%s:%s" % (sh["asn"], m), "derived implementation for %s: %s (witness %s %s)" % (sh["asn"], m, sh["name"], sh["src"]), sh["asn"])
        if not mine:
            rep.ok(n)


# ---------------------------------------------------------------- C07 in the library
ERR = "asn1_codecs::aper::error::Error"
FOREIGN = re.compile(r"(^|::)from_utf8$")


def fallible(P, ty):
    t = P.types[ty]
    return t["k"] == "adt" and t["path"] == models.RESULT and len(t["args"]) == 2 and P.types[t["args"][1]].get("path") == ERR


def lib_roots(P):
    return [p for p, fn in P.fns.items() if fn.crate == "asn1_codecs" and fn.ret is not None and fallible(P, fn.ret)]


def lib_task(path):
    P = _P
    for t in (models.SEGS, models.ALIAS8, models.BITSRC, models.LOADED):
        t.clear()
    I = interp.Interp(P)
    fn = P.fns[path]
    st = interp.St()
    calls = set()

    def on_call(st, p, args, info):
        f = P.fns.get(p)
        own = f is not None and f.ret is not None and fallible(P, f.ret)
        dty = info["dty"]
        if not own and info["callee"] and info["callee"].get("trait") == "asn1_codecs::aper::AperCodec":
            own = dty is not None and P.types[dty].get("path") == models.RESULT
        if not own and not (FOREIGN.search(p) and dty is not None and P.types[dty].get("path") == models.RESULT):
            return None
        name = codec.short(p).split("::")[-1]
        calls.add((info["sp"], name))
        out = []
        for v, s in I.opaque(st, args, info):
            s2 = s.copy()
            out.append((I.materialize(s, ("top", dty, interp.uid()), 0), s))
            if s2.ghost.get("failed") is None:
                s2.ghost["failed"] = name
            out.append((I.materialize(s2, ("top", dty, interp.uid()), 1), s2))
        return out
    I.on_call = on_call
    bad = set()
    n = 0
    try:
        args = []
        for i in range(fn.argc):
            args.append(I.fresh(st, fn.locals[i + 1]))
        outs = I.run(fn, args, st)
    except interp.Gap as e:
        return path, 0, 0, ["outside the analysis: %s" % e]
    for v, s in outs:
        n += 1
        f = s.ghost.get("failed")
        if f is None:
            continue
        if v[0] == "top":
            bad.add("the outcome is not determined after %s has failed" % f)
        elif v[0] == "adt" and v[2] == 0:
            bad.add("succeeds although %s has failed" % f)
    for g in I.gaps:
        bad.add("construct outside the analysis: %s" % (g,))
    return path, n, len(calls), sorted(bad)


class C07:
    LEVEL = "proof"

    @staticmethod
    def check(rep, w, tier):
        load(w)
        roots = lib_roots(_P)
        if len(roots) < 30:
            raise codec.Anchor("the fallible functions of the codec library (found %d)" % len(roots))
        rep.rule("for every function of the library and every derived implementation: on every path on which a callee returns an error (a fallible library "
                 "function, a component codec, a UTF-8 check), the function returns an error")
        for p, n, k, bad in run.pmap(lib_task, roots):
            rep.unit("library functions")
            rep.unit("fallible calls in library functions", k)
            name = codec.short(p)
            for b in bad:
                rep.fail("%s:%s" % (name, b), "%s %s" % (name, b), name)
            if not bad:
                rep.ok(max(1, k))
        run_shapes(rep, w, "C07")


class C08:
    LEVEL = "proof"

    @staticmethod
    def check(rep, w, tier):
        import wirec
        load(w)
        if wirec._P is None:
            wirec._P = _P
        cells = [(a, b) for a in (False, True) for b in (False, True)]
        tasks = []
        for name in sorted(ENC):
            if "extended" not in ENC[name]:
                continue
            for r in range(8):
                for e in (False, True):
                    for c in cells if name not in ("encode_sequence_header", "encode_choice_idx") else cells[3:]:
                        tasks.append(("refuse_ext", c, r, e, name))
        for kind in list(wirec.STR) + ["length", "small"]:
            for r in range(8):
                for e in (False, True) if kind in wirec.STR else (False,):
                    for c in cells:
                        tasks.append(("refuse_len", c, r, e, kind))
        rep.rule("encoding a value flagged as extended is an error on every path and appends nothing; so is a length of 16384 or more that no size "
                 "constraint puts below 65536 (nothing of the length or the contents is written)")
        wirec.run_tasks(rep, w, tasks)
        rep.rule("derived decoders return an error for alternatives and enumeration values from the additions, unknown choice indices and open type keys; "
                 "derived encoders pass the additions on as extended")
        run_shapes(rep, w, "C08")


class C09:
    LEVEL = "proof"

    @staticmethod
    def check(rep, w, tier):
        rep.rule("for every witness type and every combination of present components / alternative: the derived encoder and decoder perform the same sequence of "
                 "library operations and component codecs, in declaration order, on the same data, with the same parameters; presence bits, indices and keys "
                 "denote the same component; values decoded are the values returned, values of the type are the values encoded")
        run_shapes(rep, w, "C09")
        literals.check(rep, literals.load(w))


class C10:
    LEVEL = "proof"

    @staticmethod
    def check(rep, w, tier):
        rep.rule("for every witness type both derived functions call the library operation of the declared ASN.1 type with the declared lower bound, upper bound "
                 "and extensibility (size bounds for sized types), each in its position; an absent attribute is None / false")
        run_shapes(rep, w, "C10")
        literals.check(rep, literals.load(w))


WTRUST = TRUST + ["the expansion of the derive macro by rustc, on the witness types of checks/shapes.py"]
WASSUME = ["the derive macro treats all types of one shape alike (its templates branch only on the attributes and on the shape)"]
for _c, _id, _what, _tech, _note in (
        (C07, "C07", "Abstract interpretation of every fallible library function and of the derived implementations, with failing callees.",
         "abstract interpretation of MIR: failure of a callee implies failure of the caller", "All paths of all fallible functions; callees are split into success and failure."),
        (C08, "C08", "Abstract interpretation of the encoders on extended values and unrepresentable lengths, and of derived decoders on unknown indices and keys.",
         "abstract interpretation of MIR: refusal without effect", "Symbolic bounds, values and lengths per position in the octet; derived code over witness types."),
        (C09, "C09", "Abstract interpretation of both derived functions of every witness type with library operations and component codecs as events.",
         "abstract interpretation of the derived implementations (event sequences) over witness types", "All paths of the derived code of 150 witness types covering every shape and attribute combination."),
        (C10, "C10", "Abstract interpretation of both derived functions of every witness type; parameters of the library operations against the attributes.",
         "abstract interpretation of the derived implementations (parameters of library operations) over witness types", "Every combination of present and absent attributes with distinct values.")):
    _c.META = dict(what=_what, cmd="python3 check.py " + _id, trusted=WTRUST, assumptions=WASSUME)
    _c.TECH, _c.NOTE = _tech, _note
