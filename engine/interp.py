"""Abstract interpreter over MIR.  Disjunctive states, joined (with widening) at loop heads and when a block
collects too many states; calls to crate functions are analysed in place unless a contract is given."""
import heapq
import itertools
import sys
import time
from dom import Lin, Num, INF, const, sym, add, sub, scale, addc, subst, newsym
import mir
import models

sys.setrecursionlimit(20000)
_uid = itertools.count(1)


def uid():
    return next(_uid)


UNIT = ("tup", ())
TRUE, FALSE = ("b", True), ("b", False)
MAXLEN = 1 << 60


def I(c):
    return ("i", const(c))


class Gap(Exception):
    """the analyser met something it does not model"""


class St:
    __slots__ = ("mem", "num", "bools", "ghost", "trace")

    def __init__(self):
        self.mem, self.num, self.bools, self.ghost, self.trace = {}, Num(), {}, {}, ()

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.num = self.num.copy()
        s.bools = dict(self.bools)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        return s


def neg(v):
    k = v[0]
    if k == "b":
        return ("b", not v[1])
    if k == "bs":
        return ("bs", v[1], not v[2])
    if k == "c":
        if v[1] == "ge0":
            return ("c", "ge0", addc(scale(v[2], -1), -1))
        return ("c", "ne0" if v[1] == "eq0" else "eq0", v[2])
    if k == "and":
        return ("or", neg(v[1]), neg(v[2]))
    if k == "or":
        return ("and", neg(v[1]), neg(v[2]))
    if k == "novf":
        return ("ovf",) + v[1:]
    if k == "ovf":
        return ("novf",) + v[1:]
    return ("bs", uid(), True)


def val_syms(v, out):
    k = v[0]
    if k == "i":
        for s, _ in v[1].t:
            out.add(s)
    elif k in ("c",):
        for s, _ in v[2].t:
            out.add(s)
    elif k in ("ovf", "novf"):
        for s, _ in v[1].t:
            out.add(s)
    elif k == "seq":
        for e in (v[2], v[3]):
            for s, _ in e.t:
                out.add(s)
        ls = []
        models.content_lins(v[1], ls)
        for e in ls:
            for s, _ in e.t:
                out.add(s)
        if isinstance(v[4], tuple):
            val_syms(v[4], out)
    elif k == "iter":
        for e in (v[2], v[3]):
            for s, _ in e.t:
                out.add(s)
        if v[6] is not None:
            val_syms(v[6], out)
    elif k in ("adt",):
        for x in v[3]:
            val_syms(x, out)
    elif k in ("tup", "arr"):
        for x in v[1]:
            val_syms(x, out)
    elif k == "clo":
        for x in v[2]:
            val_syms(x, out)
    elif k in ("and", "or"):
        val_syms(v[1], out)
        val_syms(v[2], out)
    elif k == "bits":
        val_syms(v[1], out)
        for s, _ in v[2].t:
            out.add(s)


def val_keys(v, out):
    k = v[0]
    if k == "ptr":
        out.append(v[1])
    elif k == "discr":
        out.append(v[1])
    elif k == "adt":
        for x in v[3]:
            val_keys(x, out)
    elif k in ("tup", "arr"):
        for x in v[1]:
            val_keys(x, out)
    elif k == "clo":
        for x in v[2]:
            val_keys(x, out)
    elif k == "iter" and v[6] is not None:
        val_keys(v[6], out)
    elif k == "bits":
        val_keys(v[1], out)


def trace_lins(tr, out):
    for e in tr:
        if isinstance(e, Lin):
            for s, _ in e.t:
                out.add(s)
        elif isinstance(e, tuple):
            trace_lins(e, out)


class Interp:
    MAXSTATES = 48
    MAXDEPTH = 14

    def __init__(self, prog, hooks=None, contracts=None, no_inline=None, obligation=None):
        self.prog = prog
        self.T = prog.types
        self.models = {}
        self.prefix_models = []
        self.contracts = contracts or {}
        self.no_inline = no_inline or (lambda fn: False)
        self.on_obl = obligation
        self.fid = itertools.count(1)
        self.hid = itertools.count(1)
        self.stack = []
        self.callees = {}
        self.stats = dict(states=0, calls=0, joins=0, blocks=0)
        self.divs = {}
        self.loops = {}        # (fn, head) -> list of bool progress
        self.on_loop = None
        self.on_call = None
        self.inline_all = True
        self.gaps = []
        self.unmodelled = {}
        self.silent_fn = lambda p: False
        models.install(self)

    # ---------------------------------------------------------------- obligations
    def obl(self, kind, detail, ok, fn, sp, st):
        if self.on_obl:
            self.on_obl(kind, detail, ok, fn, sp, list(self.stack), st)

    # ---------------------------------------------------------------- values
    def intrange(self, ty):
        t = self.T[ty]
        if t["k"] == "char":
            return 0, 0x10FFFF
        b = t["bits"]
        if t["signed"]:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    # hooks for the models -------------------------------------------------
    # element types whose values are remembered: reading the same place of the same sequence twice gives the same value
    # (sequences of these types are only ever read by the code under analysis, which the caller checks)
    memo = frozenset()

    def elem(self, st, s, e, ety):
        """element e of sequence s"""
        if ety in self.memo:
            pos = add(s[2], e)
            m = st.ghost.get("elt") or {}
            k = (s[1], pos)
            if k not in m:
                m = dict(m)
                m[k] = self.fresh(st, ety)
                st.ghost["elt"] = m
            return m[k]
        if ety is not None and self.T[ety]["k"] == "bool":
            q = ("seq", s[1], add(s[2], e), const(1), None)
            self.on_read(st, None, q)
            v = models.read_bits(self, st, q, 1)
            if v is not None:
                return ("b", v.c == 1) if v.is_const() else ("c", "eq0", addc(v, -1))
        if s[1] in models.BITSRC and not isinstance(s[1], tuple) and ety is not None and self.T[ety]["k"] == "int":
            v, w = models.BITSRC[s[1]]
            i = add(s[2], e)
            if self.track and i.is_const() and not v.is_const():
                x = models.be_bits(self, st, v, w, 8 * i.c, 8)
                if x is not None:
                    return ("i", x)
            if i.is_const() and v.is_const() and w % 8 == 0:
                return I(((v.c % (1 << w)) >> (w - 8 - 8 * i.c)) & 255)
        if ety is None:
            return ("top", None, uid())
        return self.fresh(st, ety)

    def booltype(self):
        if self._bt is None:
            for i, t in enumerate(self.T):
                if t["k"] == "bool":
                    self._bt = i
                    break
        return self._bt

    _bt = None

    def char_boundary(self, st, s, lo, hi):
        if lo.is_const() and lo.c == 0 and sub(hi, s[3]).is_const() and sub(hi, s[3]).c == 0:
            return True
        return isinstance(s[1], tuple) and s[1][0] == "s" and all(ord(c) < 128 for c in s[1][1])

    def on_append(self, st, info, dst, old, src, n):
        pass

    def on_anyall(self, st, info, it, args, b):
        pass

    lazyinfo = None
    _u8 = None
    precise_zip = False
    track = False
    copies_anew = False     # a copy of a sequence is a sequence of its own

    def on_read(self, st, info, s):
        pass

    def on_load(self, st, info, s, e):
        pass

    def on_default(self, st, info, v, cs, good):
        pass

    def fresh(self, st, ty):
        t = self.T[ty]
        k = t["k"]
        if k in ("int", "char"):
            lo, hi = self.intrange(ty)
            return ("i", st.num.fresh(lo, hi))
        if k == "bool":
            return ("bs", uid(), True)
        if k == "tuple":
            return ("tup", tuple(self.fresh(st, x) for x in t["fields"]))
        if k in ("slice", "str"):
            return self.newseq(st, t.get("to"))
        return ("top", ty, uid())

    def newseq(self, st, ety, ln=None, lo=0):
        if ln is None:
            ln = st.num.fresh(lo, MAXLEN)
        return ("seq", uid(), const(0), ln, ety)

    def newcell(self, st, v):
        k = ("H", next(self.hid))
        st.mem[k] = v
        return k

    def newptr(self, st, v, mut=False):
        return ("ptr", self.newcell(st, v), (), mut)

    def materialize(self, st, v, variant):
        """top adt -> adt with fresh fields"""
        ty = v[1]
        t = self.T[ty]
        if t["k"] == "adt" and t["variants"]:
            vs = t["variants"][variant]
            return ("adt", ty, variant, tuple(self.fresh(st, f) for _, f in vs["fields"]))
        if t["k"] == "closure":
            return ("clo", t["def"], tuple(self.fresh(st, f) for f in t["upvars"]))
        if t["k"] == "tuple":
            return ("tup", tuple(self.fresh(st, f) for f in t["fields"]))
        return None

    # place navigation -------------------------------------------------
    def get(self, st, key, path):
        v = st.mem.get(key)
        if v is None:
            return ("top", None, uid())
        return self._get(st, v, key, path, 0)

    def _get(self, st, v, key, path, i):
        if i == len(path):
            if v[0] == "top" and v[1] is not None and self.T[v[1]]["k"] in ("int", "char", "bool"):
                v = self.fresh(st, v[1])
                self.put(st, key, path, v)
            return v
        e = path[i]
        if e[0] == "d":
            if v[0] == "top" and v[1] is not None:
                m = self.materialize(st, v, e[1])
                if m is None:
                    return ("top", None, uid())
                self.put(st, key, path[:i], m)
                v = m
            return self._get(st, v, key, path, i + 1)
        if e[0] == "f":
            if e[1] == 0 and e[2] is not None and (v[0] == "ptr" or (v[0] == "top" and v[1] is not None and self.T[v[1]]["k"] == "adt" and self.T[v[1]]["path"] == "alloc::boxed::Box")):
                # the raw pointer in a Box
                t = self.T[e[2]]
                if t["k"] == "ptr" or (t["k"] == "adt" and (t["path"].startswith("core::ptr::") or t["path"] == "alloc::boxed::BoxRaw")):
                    if v[0] == "top":
                        v = ("ptr", self.newcell(st, self.fresh(st, self.T[v[1]]["args"][0])), (), True)
                        self.put(st, key, path[:i], v)
                    return self._get(st, v, key, path, i + 1)
            if v[0] == "top":
                if v[1] is None:
                    return ("top", e[2], uid()) if i == len(path) - 1 else ("top", None, uid())
                t = self.T[v[1]]
                m = None
                if t["k"] in ("tuple", "closure") or (t["k"] == "adt" and t["adt"] == "struct"):
                    m = self.materialize(st, v, 0)
                if m is None or (m[0] == "adt" and not m[3] and e[1] >= 0 and len(m[3]) <= e[1]):
                    r = self.fresh(st, e[2]) if e[2] is not None else ("top", None, uid())
                    if i == len(path) - 1:
                        return r
                    k2 = self.newcell(st, r)
                    return self._get(st, r, k2, path[i + 1:], 0)
                self.put(st, key, path[:i], m)
                v = m
            if v[0] == "adt":
                fs = v[3]
            elif v[0] in ("tup", "arr"):
                fs = v[1]
            elif v[0] == "clo":
                fs = v[2]
            else:
                r = self.fresh(st, e[2]) if e[2] is not None else ("top", None, uid())
                if i == len(path) - 1:
                    return r
                k2 = self.newcell(st, r)
                return self._get(st, r, k2, path[i + 1:], 0)
            if e[1] >= len(fs):
                return ("top", e[2], uid())
            return self._get(st, fs[e[1]], key, path, i + 1)
        if e[0] == "e":
            if v[0] == "arr" and len(e) > 2 and e[2] is not None and e[2] < len(v[1]):
                return self._get(st, v[1][e[2]], key, path, i + 1)
            ety = None
            if v[0] == "seq":
                ety = v[4] if not isinstance(v[4], tuple) else None
                if self.track and len(e) > 2 and e[2] is not None and v[1] in models.BITSRC:
                    return self._get(st, self.elem(st, v, const(e[2]), ety if ety is not None else models.U8(self)), key, path, i + 1)
            r = self.fresh(st, ety) if ety is not None else ("top", None, uid())
            if i == len(path) - 1:
                return r
            k2 = self.newcell(st, r)
            return self._get(st, r, k2, path[i + 1:], 0)
        raise Gap("path elem %r" % (e,))

    def put(self, st, key, path, v):
        if not path:
            st.mem[key] = v
            return
        st.mem[key] = self._put(st, st.mem.get(key, ("top", None, uid())), path, v)

    def _put(self, st, old, path, v):
        if not path:
            return v
        e = path[0]
        if e[0] == "d":
            if old[0] == "top" and old[1] is not None:
                m = self.materialize(st, old, e[1])
                if m is not None:
                    old = m
            elif old[0] == "adt" and old[2] != e[1]:
                m = self.materialize(st, ("top", old[1], uid()), e[1])
                if m is not None:
                    old = m
            return self._put(st, old, path[1:], v)
        if e[0] == "f":
            if old[0] == "top" and old[1] is not None:
                t = self.T[old[1]]
                if t["k"] in ("tuple", "closure") or (t["k"] == "adt" and t["adt"] == "struct"):
                    m = self.materialize(st, old, 0)
                    if m is not None:
                        old = m
            if old[0] == "adt" and e[1] < len(old[3]):
                fs = list(old[3])
                fs[e[1]] = self._put(st, fs[e[1]], path[1:], v)
                return ("adt", old[1], old[2], tuple(fs))
            if old[0] in ("tup", "arr") and e[1] < len(old[1]):
                fs = list(old[1])
                fs[e[1]] = self._put(st, fs[e[1]], path[1:], v)
                return (old[0], tuple(fs))
            if old[0] == "clo" and e[1] < len(old[2]):
                fs = list(old[2])
                fs[e[1]] = self._put(st, fs[e[1]], path[1:], v)
                return ("clo", old[1], tuple(fs))
            return ("top", old[1] if old[0] == "top" else None, uid())
        if e[0] == "e":
            if old[0] == "arr":
                if len(e) > 2 and e[2] is not None and e[2] < len(old[1]):
                    fs = list(old[1])
                    fs[e[2]] = self._put(st, fs[e[2]], path[1:], v)
                    return ("arr", tuple(fs))
                return ("seq", uid(), const(0), const(len(old[1])), None)
            if old[0] == "seq":
                return ("seq", uid(), const(0), old[3], old[4])
            return old
        raise Gap("put path %r" % (e,))

    def loc(self, st, fid, place):
        key, path = ("L", fid, place[0]), ()
        for e in place[1]:
            k = e[0]
            if k == "*":
                v = self.get(st, key, path)
                key, path = self.deref(st, v, key, path)
            elif k == "f":
                path = path + (("f", e[1], e[2]),)
            elif k == "d":
                path = path + (("d", e[1]),)
            elif k == "i":
                iv = st.mem.get(("L", fid, e[1]))
                c = iv[1].c if iv and iv[0] == "i" and iv[1].is_const() else None
                if self.memo and iv and iv[0] == "i":
                    w = self.get(st, key, path)
                    if w[0] == "seq" and w[4] in self.memo:
                        key, path = self.newcell(st, self.elem(st, w, iv[1], w[4])), ()
                        continue
                path = path + (("e", None, c),)
            elif k == "ci":
                path = path + (("e", None, None if e[3] else e[1]),)
            elif k == "ss":
                v = self.get(st, key, path)
                v = self.as_seq_val(st, v)
                if e[3]:
                    n = addc(v[3], -(e[1] + e[2]))
                else:
                    n = const(e[2] - e[1])
                key, path = self.newcell(st, ("seq", v[1], addc(v[2], e[1]), n, v[4])), ()
            else:
                raise Gap("projection %r" % (e,))
        return key, path

    def deref(self, st, v, key=None, path=None):
        if v[0] == "ptr":
            return v[1], v[2]
        if v[0] == "strref":
            return self.newcell(st, ("str", v[1])), ()
        if v[0] == "top":
            ty = v[1]
            mut = False
            if ty is not None and self.T[ty]["k"] in ("ref", "ptr"):
                mut = self.T[ty]["mut"]
                c = self.newcell(st, self.fresh(st, self.T[ty]["to"]))
            elif ty is not None and self.T[ty]["k"] == "adt" and self.T[ty]["path"] == "alloc::boxed::Box":
                c = self.newcell(st, self.fresh(st, self.T[ty]["args"][0]))
            else:
                c = self.newcell(st, ("top", None, uid()))
            if key is not None:
                self.put(st, key, path, ("ptr", c, (), mut))
            return c, ()
        if v[0] == "box":
            return v[1], ()
        c = self.newcell(st, ("top", None, uid()))
        return c, ()

    def as_seq_val(self, st, v):
        if v[0] == "seq":
            return v
        if v[0] == "arr":
            return ("seq", uid(), const(0), const(len(v[1])), None)
        if v[0] == "str":
            return ("seq", ("s", v[1]), const(0), const(len(v[1].encode())), None)
        ety = None
        if v[0] == "top" and v[1] is not None:
            t = self.T[v[1]]
            if t["k"] in ("slice",):
                ety = t["to"]
            elif t["k"] == "array":
                if t["len"] is not None:
                    return ("seq", uid(), const(0), const(t["len"]), t["to"])
            elif t["k"] == "adt" and t["args"]:
                ety = t["args"][0]
        return self.newseq(st, ety)

    def seq_at(self, st, key, path):
        v = self.get(st, key, path)
        if v[0] == "seq":
            return v
        s = self.as_seq_val(st, v)
        if v[0] == "top":
            self.put(st, key, path, s)
        return s

    def seq_of(self, st, v):
        """v: pointer-ish (or owned) value -> seq value of the pointee; follows pointer chains"""
        for _ in range(6):
            if v[0] == "strref":
                return self.as_seq_val(st, ("str", v[1]))
            if v[0] == "ptr":
                w = self.get(st, v[1], v[2])
                if w[0] in ("ptr", "strref"):
                    v = w
                    continue
                if w[0] == "top" and w[1] is not None and self.T[w[1]]["k"] == "ref":
                    self.deref(st, w, v[1], v[2])
                    v = self.get(st, v[1], v[2])
                    continue
                return self.seq_at(st, v[1], v[2])
            if v[0] == "top" and v[1] is not None and self.T[v[1]]["k"] == "ref":
                k, p = self.deref(st, v)
                v = ("ptr", k, p, False)
                continue
            break
        return self.as_seq_val(st, v)

    # ---------------------------------------------------------------- operands
    def opty(self, fn, o):
        if "cp" in o or "mv" in o:
            return self.placety(fn, o.get("cp") or o.get("mv"))
        return o.get("ty")

    def placety(self, fn, p):
        ty = fn.locals[p[0]]
        for e in p[1]:
            if ty is None:
                return None
            t = self.T[ty]
            k = e[0]
            if k == "*":
                if t["k"] in ("ref", "ptr"):
                    ty = t["to"]
                elif t["k"] == "adt" and t["args"]:
                    ty = t["args"][0]
                else:
                    ty = None
            elif k == "f":
                ty = e[2]
            elif k in ("i", "ci"):
                ty = t.get("to")
            elif k in ("d", "ss"):
                pass
            else:
                ty = None
        return ty

    def operand(self, st, fn, fid, o):
        if "cp" in o or "mv" in o:
            p = o.get("cp") or o.get("mv")
            key, path = self.loc(st, fid, p)
            v = self.get(st, key, path)
            if v[0] == "top" and v[1] is None:
                ty = self.placety(fn, p)
                if ty is not None:
                    v = self.fresh(st, ty)
                    self.put(st, key, path, v)
            return v
        if "rc" in o:
            return FALSE
        return self.konst(st, fn, o)

    def konst(self, st, fn, o):
        if "fn" in o:
            c = o["fn"]
            p = c["resolved"] or c["path"]
            self.callees[p] = c
            return ("fn", p)
        ty = o["ty"]
        t = self.T[ty]
        if "str" in o:
            return ("strref", o["str"])
        if "promoted" in o and fn.promoted and o["promoted"] < len(fn.promoted):
            r = self.eval_promoted(st, fn, o["promoted"])
            if r is not None:
                return r
        if "v" in o:
            if t["k"] == "bool":
                return ("b", bool(o["v"]))
            if t["k"] in ("int", "char"):
                return I(o["v"])
        if "agg" in o:
            r = self.agg(st, ty, o["agg"])
            if r is not None:
                return r
        if t["k"] == "tuple" and not t["fields"]:
            return UNIT
        if t["k"] == "closure" and not t["upvars"]:
            return ("clo", t["def"], ())
        return self.fresh(st, ty)

    def agg(self, st, ty, a):
        if a is None:
            return None
        t = self.T[ty]
        if "str" in a:
            return ("strref", a["str"])
        if "v" in a:
            if t["k"] == "bool":
                return ("b", bool(a["v"]))
            return I(a["v"])
        if t["k"] == "adt" and t["variants"]:
            v = a["variant"]
            fs = []
            for (n, ft), x in zip(t["variants"][v]["fields"], a["fields"]):
                fs.append((self.agg(st, ft, x) if x else None) or self.fresh(st, ft))
            return ("adt", ty, v, tuple(fs))
        if t["k"] == "tuple":
            return ("tup", tuple((self.agg(st, ft, x) if x else None) or self.fresh(st, ft) for ft, x in zip(t["fields"], a["fields"])))
        if t["k"] == "array":
            return ("arr", tuple((self.agg(st, t["to"], x) if x else None) or self.fresh(st, t["to"]) for x in a["fields"]))
        return None

    def eval_promoted(self, st, fn, i):
        p = fn.promoted[i]
        if any(b["t"][0] not in ("return", "goto", "drop", "assert") for b in p.blocks if not b["cl"]):
            # promoted with calls: only const fns (RangeInclusive::new ...): interpret
            pass
        try:
            fid = next(self.fid)
            outs = self._run(p, fid, st, quiet=True)
        except Gap:
            return None
        if len(outs) != 1:
            return None
        v, s2 = outs[0]
        st.mem, st.num, st.bools = s2.mem, s2.num, s2.bools
        return v

    # ---------------------------------------------------------------- conditions
    def truth(self, st, v):
        """True/False/None"""
        k = v[0]
        if k == "b":
            return v[1]
        if k == "bs":
            r = st.bools.get(v[1])
            if r is None:
                return None
            return r == v[2]
        if k == "c":
            return st.num.decide(v[1], v[2])
        if k == "and":
            a, b = self.truth(st, v[1]), self.truth(st, v[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == "or":
            a, b = self.truth(st, v[1]), self.truth(st, v[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if k in ("ovf", "novf"):
            lo, hi = v[2], v[3]
            if st.num.prove(addc(v[1], -lo)) and st.num.prove(add(const(hi), v[1], -1)):
                return k == "novf"
            return None
        return None

    def assume(self, st, v, val):
        """list of states in which v == val (st is consumed)"""
        r = self.truth(st, v)
        if r is not None:
            return [st] if r == val else []
        if not val:
            v = neg(v)
        k = v[0]
        if k == "bs":
            st.bools[v[1]] = v[2]
            return [st]
        if k == "c":
            ok = {"ge0": st.num.assume, "eq0": st.num.assume_eq, "ne0": st.num.assume_ne}[v[1]](v[2])
            if ok and v[1] == "ne0" and v[2].t and st.num.decide("ne0", v[2]) is None:
                # split on the two sides so that the exclusion is not lost
                s2 = st.copy()
                out = []
                if st.num.assume(addc(v[2], -1)):
                    out.append(st)
                if s2.num.assume(addc(scale(v[2], -1), -1)):
                    out.append(s2)
                return out
            return [st] if ok else []
        if k == "and":
            out = []
            for s in self.assume(st, v[1], True):
                out += self.assume(s, v[2], True)
            return out
        if k == "or":
            s2 = st.copy()
            out = self.assume(st, v[1], True)
            for s in self.assume(s2, v[1], False):
                out += self.assume(s, v[2], True)
            return out
        if k == "novf":
            if not st.num.assume(addc(v[1], -v[2])):
                return []
            if not st.num.assume(add(const(v[3]), v[1], -1)):
                return []
            return [st]
        return [st]

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fn, fid, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fn, fid, r[1])
        if k == "ref":
            p = r[1]
            if p[1] and p[1][-1][0] == "*" and len(p[1]) >= 1:
                # reborrow &*x
                base = [p[0], p[1][:-1]]
                key, path = self.loc(st, fid, base)
                v = self.get(st, key, path)
                if v[0] == "strref":
                    return v
                k2, p2 = self.deref(st, v, key, path)
                return ("ptr", k2, p2, bool(r[2]))
            key, path = self.loc(st, fid, p)
            if any(e[0] == "e" for e in path) and not r[2]:
                v = self.get(st, key, path)
                if v[0] == "top" and v[1] is None:
                    ty = self.placety(fn, p)
                    if ty is not None:
                        v = self.fresh(st, ty)
                return ("ptr", self.newcell(st, v), (), False)
            return ("ptr", key, path, bool(r[2]))
        if k == "rawptr":
            key, path = self.loc(st, fid, r[1])
            return ("ptr", key, path, True)
        if k == "discr":
            key, path = self.loc(st, fid, r[1])
            v = self.get(st, key, path)
            if v[0] == "adt":
                return I(int(self.T[v[1]]["variants"][v[2]]["discr"]))
            ty = v[1] if v[0] == "top" and v[1] is not None else self.placety(fn, r[1])
            if v[0] == "top" and v[1] is None and ty is not None:
                self.put(st, key, path, ("top", ty, uid()))
            if ty is not None and self.T[ty]["k"] == "adt" and self.T[ty]["variants"]:
                return ("discr", key, path, ty)
            return ("i", st.num.fresh())
        if k == "cast":
            return self.cast(st, fn, fid, r)
        if k == "bin":
            return self.binop(st, fn, r[1], self.operand(st, fn, fid, r[2]), self.operand(st, fn, fid, r[3]),
                              self.opty(fn, r[2]))
        if k == "un":
            v = self.operand(st, fn, fid, r[2])
            if r[1] == "Not":
                ty = self.opty(fn, r[2])
                if self.T[ty]["k"] == "bool":
                    return neg(v)
                if v[0] == "i" and self.T[ty]["k"] == "int":
                    # two's complement: -v - 1, or the largest value less v
                    sn = self.T[ty]["s"]
                    return ("i", addc(scale(v[1], -1), -1 if sn[0] == "i" else (1 << (64 if sn[1:] == "size" else int(sn[1:]))) - 1))
                return self.fresh(st, ty)
            if r[1] == "Neg":
                if v[0] == "i":
                    return ("i", scale(v[1], -1))
                return self.fresh(st, dty)
            if r[1] == "PtrMetadata":
                s = self.seq_of(st, v)
                return ("i", s[3])
            return self.fresh(st, dty)
        if k == "agg":
            ops = tuple(self.operand(st, fn, fid, o) for o in r[2])
            a = r[1]
            if a[0] == "tuple":
                return ("tup", ops)
            if a[0] == "array":
                return ("arr", ops)
            if a[0] == "adt":
                return ("adt", dty, a[2], ops)
            if a[0] == "closure":
                return ("clo", a[1], ops)
            return self.fresh(st, dty)
        if k == "repeat":
            if r[2] is not None and r[2] <= 32:
                return ("arr", (self.operand(st, fn, fid, r[1]),) * r[2])
            return ("seq", uid(), const(0), const(r[2]) if r[2] is not None else st.num.fresh(0, MAXLEN), self.opty(fn, r[1]))
        return self.fresh(st, dty)

    def cast(self, st, fn, fid, r):
        kind, dty = r[1], r[3]
        v = self.operand(st, fn, fid, r[2])
        t = self.T[dty]
        if kind == "IntToInt":
            if v[0] == "discr":
                return self.fresh(st, dty)
            if v[0] in ("b", "bs", "c", "and", "or"):
                tr = self.truth(st, v)
                if tr is not None:
                    return I(1 if tr else 0)
                s = st.num.fresh(0, 1)
                return ("i", s)
            if v[0] == "i":
                lo, hi = self.intrange(dty)
                if st.num.prove(addc(v[1], -lo)) and st.num.prove(add(const(hi), v[1], -1)):
                    return v
                a, b = st.num.ival(v[1])
                if a != -INF and b != INF and t["k"] == "int":
                    # the whole range wraps by the same multiple
                    m = 1 << t["bits"]
                    j = (int(a) - lo) // m
                    if j == (int(b) - lo) // m:
                        return ("i", addc(v[1], -j * m))
                n = self.fresh(st, dty)
                self.on_truncate(st, fn, v, dty, n)
                return n
            return self.fresh(st, dty)
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "Subtype", "BoxDerefTransmute"):
            if v[0] == "top":
                return ("top", dty, v[2])
            return v
        return self.fresh(st, dty)

    def on_truncate(self, st, fn, v, dty, n):
        pass

    def binop(self, st, fn, op, a, b, ty):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b)
        if op == "Offset":
            return ("top", None, uid())
        if op == "Cmp":
            return ("top", None, uid())
        if self.T[ty]["k"] == "bool":
            if op == "BitAnd":
                return ("and", a, b)
            if op == "BitOr":
                return ("or", a, b)
            return ("bs", uid(), True)
        if a[0] != "i" or b[0] != "i":
            r = self.fresh(st, ty)
            if op.endswith("WithOverflow"):
                return ("tup", (r, ("bs", uid(), True)))
            return r
        x, y = a[1], b[1]
        e = None
        if base == "Add":
            e = add(x, y)
        elif base == "Sub":
            e = sub(x, y)
        elif base == "Mul":
            if y.is_const():
                e = scale(x, y.c)
            elif x.is_const():
                e = scale(y, x.c)
            else:
                xl, xh = st.num.ival(x)
                yl, yh = st.num.ival(y)
                c = [p * q for p in (xl, xh) for q in (yl, yh) if not (p in (INF, -INF) and q == 0) and not (q in (INF, -INF) and p == 0)]
                c = [z for z in c if z == z] or [-INF, INF]
                e = st.num.fresh(min(c), max(c))
        if e is not None:
            lo, hi = self.intrange(ty)
            if op.endswith("WithOverflow"):
                return ("tup", (("i", e), ("ovf", e, lo, hi)))
            if op.endswith("Unchecked"):
                return ("i", e)
            if st.num.prove(addc(e, -lo)) and st.num.prove(add(const(hi), e, -1)):
                return ("i", e)
            return self.fresh(st, ty)
        return ("i", self.arith(st, op, x, y, ty))

    def arith(self, st, op, x, y, ty):
        n = st.num
        if op in ("Div", "Rem", "Shr") and y.is_const():
            d = y.c if op != "Shr" else (1 << y.c)
            if d > 0 and (op == "Shr" or n.prove(x)):
                q, r = self.divmod(st, x, d)
                return r if op == "Rem" else q
        if op == "Shl" and y.is_const():
            e = scale(x, 1 << y.c)
            lo, hi = self.intrange(ty)
            if e.is_const():
                m = e.c % (1 << self.T[ty]["bits"])
                return const(m if m <= hi else m - (1 << self.T[ty]["bits"]))
            if n.prove(addc(e, -lo)) and n.prove(add(const(hi), e, -1)):
                return e
        if op == "Shl" and x.is_const() and x.c == 1:
            yl, yh = n.ival(y)
            if 0 <= yl and yh <= 128:
                return n.fresh(1 << int(yl), 1 << int(yh))
        if op == "BitAnd":
            for m, o in ((y, x), (x, y)):
                if m.is_const() and m.c >= 0 and (m.c & (m.c + 1)) == 0 and n.prove(o):
                    d = m.c + 1
                    if n.prove(add(const(m.c), o, -1)):
                        return o
                    return self.divmod(st, o, d)[1]
                if m.is_const() and m.c >= 0:
                    return n.fresh(0, m.c)
            if n.prove(x) and n.prove(y):
                return n.fresh(0, min(n.ival(x)[1], n.ival(y)[1]))
        if op == "BitOr":
            for m, o in ((y, x), (x, y)):
                if m.is_const() and m.c >= 0:
                    low = (m.c & -m.c) if m.c else None
                    ol, oh = n.ival(o)
                    if m.c == 0:
                        return o
                    if ol >= 0 and oh < low:
                        return addc(o, m.c)
            if n.prove(x) and n.prove(y):
                xh, yh = n.ival(x)[1], n.ival(y)[1]
                if xh != INF and yh != INF:
                    return n.fresh(0, (1 << max(int(xh).bit_length(), int(yh).bit_length())) - 1)
        return self.fresh(st, ty)[1]

    def divmod(self, st, x, d):
        """floor division of x by the positive constant d: (quotient, remainder) as affine expressions"""
        n = st.num
        if d == 1:
            return x, const(0)
        aq = Lin(0)
        rest = Lin(0)
        for s, k in x.t:
            if k % d == 0:
                aq = add(aq, sym(s), k // d)
            else:
                rest = add(rest, sym(s), k)
        aq = addc(aq, x.c // d)
        rest = addc(rest, x.c % d)
        if n.prove(rest) and n.prove(add(const(d - 1), rest, -1)):
            return aq, rest
        key = (rest, d)
        q = self.divs.get(key)
        if q is None:
            q = self.divs[key] = newsym()
        if q not in n.bnd:
            xl, xh = n.ival(rest)
            n.bnd[q] = (-INF if xl == -INF else xl // d, INF if xh == INF else xh // d)
        ql = sym(q)
        n.assume(sub(rest, scale(ql, d)))
        n.assume(addc(sub(scale(ql, d), rest), d - 1))
        l, h = n.b(q)
        if l == h and l not in (INF, -INF):
            ql = const(int(l))
        return add(aq, ql), sub(rest, scale(ql, d))

    def ceil_div(self, st, x, d):
        return self.divmod(st, addc(x, d - 1), d)[0]

    def compare(self, st, op, a, b):
        if a[0] == "discr" or b[0] == "discr":
            d, o = (a, b) if a[0] == "discr" else (b, a)
            return ("bs", uid(), True)
        boolish = ("b", "bs", "c", "and", "or", "ovf", "novf")
        if a[0] in boolish and b[0] in boolish:
            ta, tb = self.truth(st, a), self.truth(st, b)
            if op in ("Eq", "Ne"):
                if tb is not None:
                    r = a if tb else neg(a)
                elif ta is not None:
                    r = b if ta else neg(b)
                else:
                    return ("bs", uid(), True)
                return r if op == "Eq" else neg(r)
            return ("bs", uid(), True)
        if a[0] != "i" or b[0] != "i":
            return ("bs", uid(), True)
        x, y = a[1], b[1]
        if op == "Eq":
            r = ("c", "eq0", sub(x, y))
        elif op == "Ne":
            r = ("c", "ne0", sub(x, y))
        elif op == "Ge":
            r = ("c", "ge0", sub(x, y))
        elif op == "Gt":
            r = ("c", "ge0", addc(sub(x, y), -1))
        elif op == "Le":
            r = ("c", "ge0", sub(y, x))
        else:
            r = ("c", "ge0", addc(sub(y, x), -1))
        if not r[2].t:
            return ("b", {"ge0": r[2].c >= 0, "eq0": r[2].c == 0, "ne0": r[2].c != 0}[r[1]])
        return r

    # ---------------------------------------------------------------- gc / canon / join
    def roots(self, st, fn, fid, block):
        live = mir.liveness(fn)[block]
        ks = [("L", fid, i) for i in sorted(live) if ("L", fid, i) in st.mem]
        outer = [k for k in st.mem if k[0] == "L" and k[1] != fid and k[1] in self.frames]
        outer.sort()
        ext = [k for k in st.ghost.get("roots", ()) if k in st.mem]
        return ks + outer + ext

    def gc(self, st, roots):
        seen = set()
        todo = list(roots)
        syms = set()
        uids = set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            v = st.mem.get(k)
            if v is None:
                continue
            seen.add(k)
            ks = []
            val_keys(v, ks)
            val_syms(v, syms)
            todo += ks
        for g, v in st.ghost.items():
            self.ghost_syms(v, syms)
        trace_lins(st.trace, syms)
        if len(seen) != len(st.mem):
            st.mem = {k: v for k, v in st.mem.items() if k in seen}
        st.num.project(syms)
        if st.bools:
            used = set()
            for v in st.mem.values():
                self.val_bs(v, used)
            st.bools = {u: b for u, b in st.bools.items() if u in used}

    def ghost_syms(self, v, out):
        if isinstance(v, Lin):
            for s, _ in v.t:
                out.add(s)
        elif isinstance(v, (tuple, list)):
            for x in v:
                self.ghost_syms(x, out)
        elif isinstance(v, dict):
            for x in v.values():
                self.ghost_syms(x, out)

    def val_bs(self, v, out):
        k = v[0]
        if k == "bs":
            out.add(v[1])
        elif k == "adt":
            for x in v[3]:
                self.val_bs(x, out)
        elif k in ("tup", "arr"):
            for x in v[1]:
                self.val_bs(x, out)
        elif k == "clo":
            for x in v[2]:
                self.val_bs(x, out)
        elif k == "iter" and v[6] is not None:
            self.val_bs(v[6], out)
        elif k in ("and", "or"):
            self.val_bs(v[1], out)
            self.val_bs(v[2], out)

    def canon(self, st, roots):
        sm, km, um = {}, {}, {}
        out = []
        todo = []

        def cl(e):
            return (e.c, tuple(sorted((sm.setdefault(s, len(sm)), k) for s, k in e.t)))

        def cu(u):
            return um.setdefault(u, len(um))

        def ck(k):
            if k[0] == "L":
                if k not in km:
                    km[k] = k
                    todo.append(k)
                return k
            if k not in km:
                km[k] = ("H", len(km))
                todo.append(k)
            return km[k]

        def cv(v):
            k = v[0]
            if k == "i":
                return ("i", cl(v[1]))
            if k in ("b", "str", "strref", "fn"):
                return v
            if k == "bs":
                return ("bs", cu(v[1]), v[2], st.bools.get(v[1]))
            if k == "c":
                return ("c", v[1], cl(v[2]))
            if k in ("ovf", "novf"):
                return (k, cl(v[1]))
            if k == "adt":
                return ("adt", v[1], v[2], tuple(cv(x) for x in v[3]))
            if k in ("tup", "arr"):
                return (k, tuple(cv(x) for x in v[1]))
            if k == "clo":
                return (k, v[1], tuple(cv(x) for x in v[2]))
            if k == "top":
                return ("top", v[1], cu(v[2]))
            if k == "ptr":
                return ("ptr", ck(v[1]), v[2], v[3])
            if k == "discr":
                return ("discr", ck(v[1]), v[2], v[3])
            if k == "seq":
                return ("seq", cu(v[1]), cl(v[2]), cl(v[3]), cv(v[4]) if isinstance(v[4], tuple) else v[4]) + \
                    models.content_desc(v[1], cl, cu, cv)
            if k == "iter":
                return ("iter", cu(v[1]), cl(v[2]), cl(v[3]), v[4], v[5], cv(v[6]) if v[6] is not None else None)
            if k in ("and", "or"):
                return (k, cv(v[1]), cv(v[2]))
            if k == "bits":
                return (k, cv(v[1]), cl(v[2])) + tuple(v[3:])
            return v

        def cg(v):
            if isinstance(v, Lin):
                return cl(v)
            if isinstance(v, (tuple, list)):
                return tuple(cg(x) for x in v)
            if isinstance(v, dict):
                return tuple((repr(k), cg(x)) for k, x in sorted(v.items(), key=lambda z: repr(z[0])))
            return v

        for r in roots:
            ck(r)
        i = 0
        while i < len(todo):
            k = todo[i]
            i += 1
            v = st.mem.get(k)
            out.append((km[k], cv(v) if v is not None else None))
        g = cg({k: v for k, v in st.ghost.items() if k != "roots"})
        tr = cg(st.trace)
        fs = frozenset(cl(f) for f in st.num.facts if all(s in sm for s, _ in f.t))
        bs = tuple(st.num.b(s) for s in sm)
        return hash((tuple(out), g, tr, fs, bs)), (tuple(out), g, tr, fs, bs)

    def skeleton(self, st, fn, fid, roots):
        out = []
        if st.ghost.get("failed") is not None:
            out.append(("failed", st.ghost["failed"]))
        for r in roots:
            if r[0] == "L" and r[1] == fid:
                v = st.mem.get(r)
                if v is None:
                    continue
                if v[0] == "b":
                    out.append((r[2], v[1]))
                elif v[0] == "bs" and v[1] in st.bools:
                    out.append((r[2], st.bools[v[1]] == v[2]))
                elif v[0] == "adt" and self.T[v[1]]["adt"] == "enum":
                    out.append((r[2], "v%d" % v[2]))
        return tuple(out), st.trace if not self.star_traces else None

    star_traces = False

    def join(self, acc, new, roots, level, phis):
        """(joined, changed). phis: set of symbols that are phi symbols of this join point."""
        J = St()
        sig_a, sig_n = {}, {}
        pair_phi = {}
        kmap = {}
        todo = []
        changed = [False]
        newphis = []

        def jl(a, b):
            if len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1 and a.t[0][0] in phis:
                p = a.t[0][0]
                if p in sig_n and sig_n[p] != b:
                    # the same phi feeds two slots that now differ: split
                    key = (a, b)
                    if key in pair_phi:
                        return sym(pair_phi[key])
                    q = newsym()
                    pair_phi[key] = q
                    sig_a[q], sig_n[q] = a, b
                    newphis.append(q)
                    changed[0] = True
                    return sym(q)
                sig_n[p] = b
                sig_a[p] = a
                return a
            if a == b:
                return a
            key = (a, b)
            if key not in pair_phi:
                d = sub(a, b)
                if not any(x in phis for x in a.syms()) and not any(x in phis for x in b.syms()):
                    # one expression describes both sides
                    if (b.t and all(x in acc.num.bnd for x in b.syms()) and acc.num.ival(d) == (0, 0)):
                        changed[0] = True
                        return b
                    if a.t and all(x in new.num.bnd for x in a.syms()) and new.num.ival(d) == (0, 0):
                        return a
                q = newsym()
                pair_phi[key] = q
                sig_a[q], sig_n[q] = a, b
                newphis.append(q)
                changed[0] = True
            return sym(pair_phi[key])

        def jk(a, b):
            if a[0] == "L" or b[0] == "L":
                if a == b:
                    if (a, b) not in kmap:
                        kmap[(a, b)] = a
                        todo.append((a, b))
                    return a
                return None
            if (a, b) not in kmap:
                k = a if a not in used else ("H", next(self.hid))
                used.add(k)
                kmap[(a, b)] = k
                todo.append((a, b))
            return kmap[(a, b)]
        used = set()

        def jtop(ty):
            changed[0] = True
            if ty is not None:
                return self.fresh(J, ty) if self.T[ty]["k"] not in ("int",) else ("i", J.num.fresh(*self.intrange(ty)))
            return ("top", None, uid())

        def jv(a, b, ty=None):
            ka, kb = a[0], b[0]
            if ka == "top" and a[1] is not None:
                ty = a[1]
            if ka == kb:
                if ka == "i":
                    return ("i", jl(a[1], b[1]))
                if ka in ("b", "strref", "fn", "str"):
                    if a == b:
                        return a
                    if ka == "b":
                        changed[0] = True
                        return ("bs", uid(), True)
                    if ka == "str":
                        changed[0] = True
                        return ("seq", uid(), const(0), jl(const(len(a[1].encode())), const(len(b[1].encode()))), None)
                    return jtop(ty)
                if ka == "bs":
                    if a[1:] == b[1:]:
                        va, vb = acc.bools.get(a[1]), new.bools.get(a[1])
                        if va == vb:
                            if va is not None:
                                J.bools[a[1]] = va
                            return a
                    va, vb = acc.bools.get(a[1]), new.bools.get(b[1])
                    if va is not None and vb is not None and (va == a[2]) == (vb == b[2]):
                        return ("b", va == a[2])
                    if va is None and a[1] not in new.bools:
                        return a
                    changed[0] = True
                    return ("bs", uid(), True)
                if ka == "c":
                    if a == b:
                        return a
                    changed[0] = True
                    return ("bs", uid(), True)
                if ka == "adt" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
                    fts = [f for _, f in self.T[a[1]]["variants"][a[2]]["fields"]] if self.T[a[1]]["variants"] else [None] * len(a[3])
                    if len(fts) != len(a[3]):
                        fts = [None] * len(a[3])
                    return ("adt", a[1], a[2], tuple(jv(x, y, t) for x, y, t in zip(a[3], b[3], fts)))
                if ka == "adt":
                    changed[0] = True
                    return ("top", a[1], uid())
                if ka in ("tup", "arr") and len(a[1]) == len(b[1]):
                    return (ka, tuple(jv(x, y) for x, y in zip(a[1], b[1])))
                if ka == "clo" and a[1] == b[1]:
                    return (ka, a[1], tuple(jv(x, y) for x, y in zip(a[2], b[2])))
                if ka == "top":
                    if a[1] == b[1]:
                        return a
                    return jtop(a[1])
                if ka == "ptr":
                    if a[2] == b[2]:
                        k = jk(a[1], b[1])
                        if k is not None:
                            return ("ptr", k, a[2], a[3])
                    # distinct places: a fresh view of the pointee, joined
                    va, vb = self.get(acc, a[1], a[2]), self.get(new, b[1], b[2])
                    nk = ("H", next(self.hid))
                    J.mem[nk] = jv(va, vb)
                    changed[0] = True
                    return ("ptr", nk, (), False)
                if ka == "discr":
                    if a[2] == b[2]:
                        k = jk(a[1], b[1])
                        if k is not None:
                            return ("discr", k, a[2], a[3])
                    return ("i", J.num.fresh())
                if ka == "seq":
                    if a[1] == b[1]:
                        js, jn = jl(a[2], b[2]), jl(a[3], b[3])
                        if js != a[2] and jn != a[3]:
                            rests.append((js, jn, add(a[2], a[3]), add(b[2], b[3])))
                        return ("seq", a[1], js, jn, a[4])
                    if a[2].is_const() and a[2].c == 0 and a[1] in phi_uids:
                        return ("seq", a[1], const(0), jl(a[3], b[3]), a[4])
                    u = uid()
                    phi_uids.add(u)
                    changed[0] = True
                    return ("seq", u, const(0), jl(a[3], b[3]), a[4])
                if ka == "iter":
                    if a[4] == b[4]:
                        x6 = jv(a[6], b[6]) if a[6] is not None and b[6] is not None else None
                        return ("iter", a[1], jl(a[2], b[2]), jl(a[3], b[3]), a[4], a[5], x6)
                    return jtop(ty)
                if ka in ("and", "or"):
                    if a == b:
                        return a
                    changed[0] = True
                    return ("bs", uid(), True)
            boolish = ("b", "bs", "c", "and", "or")
            if ka in boolish and kb in boolish:
                if ka == "bs" and a[1] not in acc.bools:
                    return a
                changed[0] = True
                return ("bs", uid(), True)
            if ka == "top":
                if a[1] is not None:
                    return a
            if kb == "top" and ka == "adt":
                changed[0] = True
                return ("top", a[1], uid())
            if {ka, kb} <= {"seq", "str", "arr"}:
                x, y = self.as_seq_val(acc, a), self.as_seq_val(new, b)
                changed[0] = True
                u = uid()
                phi_uids.add(u)
                return ("seq", u, const(0), jl(x[3], y[3]), x[4])
            if ka == "strref" and kb == "ptr":
                nk = ("H", next(self.hid))
                J.mem[nk] = self.newseq(J, None)
                changed[0] = True
                return ("ptr", nk, (), False)
            if ka == "ptr" and kb == "strref":
                va = self.get(acc, a[1], a[2])
                if va[0] == "seq":
                    u = uid()
                    nk = ("H", next(self.hid))
                    J.mem[nk] = ("seq", u, const(0), jl(va[3], const(len(b[1].encode()))), va[4])
                    changed[0] = True
                    return ("ptr", nk, (), False)
            return jtop(ty)

        phi_uids = self.phi_uids
        order = []
        rests = []
        for r in roots:
            if r in acc.mem and r in new.mem:
                k = jk(r, r)
        i = 0
        curfn = self.curfn
        while i < len(todo):
            a, b = todo[i]
            i += 1
            va, vb = acc.mem.get(a), new.mem.get(b)
            if va is None or vb is None:
                J.mem[kmap[(a, b)]] = ("top", None, uid())
                continue
            ty = curfn.locals[a[2]] if a[0] == "L" and a[1] == self.curfid else None
            J.mem[kmap[(a, b)]] = jv(va, vb, ty)
        # ghost
        J.ghost = dict(acc.ghost)
        for g in list(J.ghost):
            x, y = acc.ghost[g], new.ghost.get(g)
            if isinstance(x, Lin) and isinstance(y, Lin):
                J.ghost[g] = jl(x, y)
            elif g.startswith("hd:") if isinstance(g, str) else False:
                if x != y and isinstance(x, dict) and isinstance(y, dict):
                    J.ghost[g] = {k: jl(x[k], y[k]) for k in x if k in y}
            elif x != y:
                J.ghost[g] = self.ghost_join(g, x, y, jl)
        for g in new.ghost:
            if g not in J.ghost:
                J.ghost[g] = self.ghost_join(g, None, new.ghost[g], jl)
        if acc.trace == new.trace:
            J.trace = acc.trace
        else:
            J.trace = self.trace_join(acc.trace, new.trace)
            if J.trace != acc.trace:
                changed[0] = True
        # numeric
        allphi = set(phis) | set(newphis)
        syms = set()
        for v in J.mem.values():
            val_syms(v, syms)
        for v in J.ghost.values():
            self.ghost_syms(v, syms)
        trace_lins(J.trace, syms)
        sub_n = {p: sig_n[p] for p in sig_n}
        sub_a = {p: sig_a[p] for p in sig_a}
        for s in syms:
            if s in J.num.bnd:
                continue
            if s in sig_n:
                ea, eb = sig_a[s], sig_n[s]
                la, ha = acc.num.ival(ea)
                lb_, hb = new.num.ival(eb)
            else:
                la, ha = acc.num.b(s)
                lb_, hb = new.num.b(s)
                if s not in acc.num.bnd and s in new.num.bnd:
                    la, ha = -INF, INF
            lo, hi = min(la, lb_), max(ha, hb)
            if s in phis or s not in sig_n:
                if lo < la:
                    changed[0] = True
                    if level >= 2:
                        lo = next((t for t in (1, 0) if t <= lo), -INF)
                if hi > ha:
                    changed[0] = True
                    if level >= 2:
                        hi = next((t for t in (0, 1, 255, 65536, MAXLEN, (1 << 64) - 1) if t >= hi), INF)
            J.num.bnd[s] = (lo, hi)
        # facts of acc
        for f in acc.num.facts:
            if any(s not in syms for s, _ in f.t):
                continue
            g = subst(f, sub_n)
            if new.num.prove(g):
                J.num.facts[f] = True
            else:
                changed[0] = True
                if level < 3:
                    l = new.num.lower(g)
                    if l != -INF:
                        w = addc(f, -l)
                        J.num.facts[w] = True
        # candidate facts for new phis
        if newphis:
            keys = []
            for s in sorted(syms):
                if s not in newphis:
                    keys.append((sym(s), subst(sym(s), sub_a), subst(sym(s), sub_n)))
            keys = keys[:14]
            for g in acc.ghost:
                # compound quantities of the analysis itself (a bound written as a sum of symbols)
                x, y = acc.ghost[g], new.ghost.get(g)
                if isinstance(x, Lin) and isinstance(y, Lin) and len(x.t) > 1 and isinstance(J.ghost.get(g), Lin) and \
                        all(s in syms and s not in newphis for s, _ in J.ghost[g].t):
                    keys.append((J.ghost[g], x, y))
            for js, jn, x, y in rests:
                # what is left of a sequence still ends where the sequence ends
                if x == y and all(q in syms and q not in newphis for q in x.syms()) and getattr(self, "memo", None):
                    J.num.facts[sub(add(js, jn), x)] = True
                    J.num.facts[sub(x, add(js, jn))] = True
            seen, lens = set(), ()
            if getattr(self, "memo", None):
                lens = {v[3] for v in J.mem.values() if v[0] == "seq" and v[3].t}
                for v in J.mem.values():
                    # lengths of parts of a sequence
                    if v[0] == "seq" and len(v[3].t) > 1 and v[3] not in seen and len(seen) < 4 and all(s in syms and s not in newphis for s, _ in v[3].t):
                        seen.add(v[3])
                        keys.append((v[3], subst(v[3], sub_a), subst(v[3], sub_n)))
            for q in newphis:
                if q not in syms:
                    continue
                for (k, ka, kb) in keys + [(sym(r), sig_a[r], sig_n[r]) for r in newphis if r != q and r in syms]:
                    for sgn in (1, -1):
                        da = scale(sub(ka, sig_a[q]), sgn)
                        db = scale(sub(kb, sig_n[q]), sgn)
                        l1 = acc.num.lower(da)
                        if l1 == -INF:
                            continue
                        l2 = new.num.lower(db)
                        if l2 == -INF:
                            continue
                        f = addc(scale(sub(k, sym(q)), sgn), -int(min(l1, l2)))
                        if J.num.ival(f)[0] < 0 or sgn == 1 and f.c >= 0 and k in lens:
                            J.num.facts[f] = True
        phis |= set(newphis)
        return J, changed[0]

    def ghost_join(self, g, x, y, jl):
        if g == "failed":
            return x if x is not None else y
        return x if x == y else None

    def trace_join(self, a, b):
        if b[:len(a)] == a:
            ext = b[len(a):]
            return a + (("*", ext),)
        # a = T + star(X), b = T + star(X) + X
        for i in range(len(a), 0, -1):
            if isinstance(a[i - 1], tuple) and a[i - 1] and a[i - 1][0] == "*" and b[:i] == a[:i]:
                if b[i:] == a[i - 1][1] and i == len(a):
                    return a
        return (("TOP",),)

    # ---------------------------------------------------------------- running
    def run(self, fn, args, st):
        """analyse fn with argument values; list of (return value, state)"""
        if len(self.stack) > self.MAXDEPTH + 6:
            raise Gap("call depth at %s" % fn.path)
        fid = next(self.fid)
        for i, a in enumerate(args):
            st.mem[("L", fid, i + 1)] = a
        self.stack.append(fn.path)
        self.stats["calls"] += 1
        try:
            return self._run(fn, fid, st)
        finally:
            self.stack.pop()

    frames = ()
    phi_uids = set()
    curfn = None
    curfid = None

    UNROLL = 17
    unroll = False
    deadline = None

    def _run(self, fn, fid, st, quiet=False):
        saved = (self.frames, self.curfn, self.curfid)
        self.frames = tuple(self.frames) + (fid,)
        try:
            return self.__run(fn, fid, st)
        finally:
            self.frames, self.curfn, self.curfid = saved

    def __run(self, fn, fid, st):
        heap = []
        pending = {}
        seen = {}
        accs = {}
        outs = []
        outseen = set()
        cnt = itertools.count()

        def push(b, s, frm):
            pending.setdefault(b, []).append((s, frm))
            heapq.heappush(heap, (fn.rpoi[b], next(cnt), b))

        push(0, st, None)
        while heap:
            _, _, b = heapq.heappop(heap)
            lst = pending.pop(b, None)
            if not lst:
                continue
            for s, frm in lst:
                self.curfn, self.curfid = fn, fid
                ishead = b in fn.heads
                if self.deadline and time.time() > self.deadline:
                    raise Gap("time limit of the analysis in %s" % fn.path)
                for g in [g for g in s.ghost if isinstance(g, str) and (g.startswith("un:%d:" % fid) or g.startswith("hd:%d:" % fid))]:
                    if b not in (mir.loopof if g[0] == "u" and self.unroll != "nest" else mir.natloop)(fn, int(g.split(":")[2])):
                        del s.ghost[g]
                multi = ishead or len(fn.pred[b]) > 1
                todo = [s]
                if multi:
                    rts = self.roots(s, fn, fid, b)
                    if ishead:
                        hk = "hd:%d:%d" % (fid, b)
                        if hk in s.ghost and frm is not None and frm in mir.natloop(fn, b):
                            self.backedge(fn, b, s, s.ghost[hk] or {}, fid)
                        s.ghost.pop(hk, None)
                        s.ghost.pop("elt", None)
                        self.at_head(fn, b, s, fid, frm)
                    self.gc(s, rts)
                    nseen = seen.setdefault(b, set())
                    unroll = False
                    if ishead and self.unroll:
                        # the first rounds of a loop are followed one by one: a loop with a small constant number of
                        # rounds is analysed without joining them
                        un = "un:%d:%d" % (fid, b)
                        if frm is None or frm not in (mir.natloop if self.unroll == "nest" else mir.loopof)(fn, b):
                            s.ghost[un] = 0
                        elif s.ghost.get(un) is not None:
                            s.ghost[un] += 1
                            if s.ghost[un] > self.UNROLL:
                                s.ghost[un] = None
                        unroll = s.ghost.get(un) is not None and len(nseen) < 3 * self.MAXSTATES
                        if not unroll:
                            s.ghost[un] = None
                    if (ishead and not unroll) or len(nseen) >= (3 * self.MAXSTATES if unroll else self.MAXSTATES):
                        sk = self.skeleton(s, fn, fid, rts)
                        tbl = accs.setdefault(b, {})
                        if len(tbl) >= 24 and sk not in tbl:
                            sk = next(iter(tbl))
                        if sk not in tbl:
                            tbl[sk] = [s, 0, set()]
                        else:
                            a = tbl[sk]
                            self.stats["joins"] += 1
                            # widening belongs at loop heads; elsewhere the joined states only grow while the heads do
                            j, ch = self.join(a[0], s, rts, a[1] if ishead else max(0, a[1] - 12), a[2])
                            if not ch:
                                continue
                            a[0] = j
                            a[1] += 1
                            if a[1] > (40 if ishead else 120):
                                raise Gap("no fixpoint at %s block %d" % (fn.path, b))
                            s = j.copy()
                            rts = self.roots(s, fn, fid, b)
                            self.gc(s, rts)
                            a[0] = s
                        s = s.copy()
                        todo = [s]
                        if ishead:
                            self.from_head(fn, b, s, fid)
                            s.ghost[hk] = self.head_slots(s, fn, fid, b)
                            self.loops.setdefault((fn.path, b), None)
                            self.loopstate(fn, b, s, fid)
                    else:
                        h, c = self.canon(s, rts)
                        if c in nseen:
                            continue
                        nseen.add(c)
                for s1 in todo:
                    self.stats["states"] += 1
                    for tgt, s2 in self.block(fn, fid, b, s1):
                        if tgt == "ret":
                            v = s2.mem.get(("L", fid, 0), UNIT)
                            for g in [g for g in s2.ghost if isinstance(g, str) and (g.startswith("hd:%d:" % fid) or g.startswith("un:%d:" % fid))]:
                                del s2.ghost[g]
                            ks = []
                            val_keys(v, ks)
                            # drop the frame (cells still pointed to are kept by reachability)
                            rts = [k for k in s2.mem if k[0] == "L" and k[1] in self.frames and k[1] != fid]
                            rts.sort()
                            rts += [k for k in s2.ghost.get("roots", ()) if k in s2.mem]
                            s2.mem[("L", fid, 0)] = v
                            self.gc(s2, rts + [("L", fid, 0)])
                            h, c = self.canon(s2, rts + [("L", fid, 0)])
                            if c in outseen:
                                continue
                            outseen.add(c)
                            outs.append((v, s2))
                        else:
                            push(tgt, s2, b)
        return outs

    def head_slots(self, st, fn, fid, b):
        out = {}
        for k, v in st.mem.items():
            self.int_slots(k, (), v, out)
        return out

    def int_slots(self, k, path, v, out):
        t = v[0]
        if t == "i":
            out[(k, path)] = v[1]
        elif t == "iter":
            out[(k, path + ("pos",))] = v[2]
            if v[6] is not None:
                self.int_slots(k, path + ("src",), v[6], out)
        elif t == "seq":
            out[(k, path + ("len",))] = v[3]
        elif t == "adt":
            for i, x in enumerate(v[3]):
                self.int_slots(k, path + (i,), x, out)
        elif t in ("tup", "arr"):
            for i, x in enumerate(v[1]):
                self.int_slots(k, path + (i,), x, out)

    def backedge(self, fn, b, s, slots, fid):
        if self.on_loop is None:
            return
        now = {}
        for k, v in s.mem.items():
            self.int_slots(k, (), v, now)
        strict, nondec, dec, nonincr = set(), set(), set(), set()
        for sl, old in slots.items():
            e = now.get(sl)
            if e is None:
                continue
            d = sub(e, old)
            if s.num.prove(addc(d, -1)):
                strict.add(sl)
                nondec.add(sl)
            elif s.num.prove(d):
                nondec.add(sl)
            if s.num.prove(addc(scale(d, -1), -1)):
                dec.add(sl)
        self.on_loop(fn, b, strict, nondec, dec, list(self.stack))

    def loopstate(self, fn, b, s, fid):
        pass

    def at_head(self, fn, b, s, fid, frm):
        """a state arrives at a loop head"""

    def from_head(self, fn, b, s, fid):
        """a (joined) state leaves a loop head into the loop"""

    # ---------------------------------------------------------------- blocks
    def block(self, fn, fid, b, st):
        self.stats["blocks"] += 1
        B = fn.blocks[b]
        for s in B["st"]:
            if s[0] == "=":
                dty = self.placety(fn, s[1])
                v = self.rvalue(st, fn, fid, s[2], dty)
                if not s[1][1]:
                    st.mem[("L", fid, s[1][0])] = v
                else:
                    key, path = self.loc(st, fid, s[1])
                    self.put(st, key, path, v)
                    self.on_write(st, fn, s, key, path, v)
            elif s[0] == "setd":
                key, path = self.loc(st, fid, s[1])
                v = self.get(st, key, path)
                ty = self.placety(fn, s[1])
                m = self.materialize(st, ("top", ty, uid()), s[2])
                if m:
                    self.put(st, key, path, m)
        t = B["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "return":
            return [("ret", st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "switch":
            return self.switch(fn, fid, st, t)
        if k == "assert":
            return self.do_assert(fn, fid, b, st, t, B["sp"])
        if k == "call":
            return self.do_call(fn, fid, b, st, t, B["sp"])
        raise Gap("terminator %s in %s" % (k, fn.path))

    def on_write(self, st, fn, s, key, path, v):
        pass

    def switch(self, fn, fid, st, t):
        v = self.operand(st, fn, fid, t[1])
        out = []
        if v[0] == "discr":
            key, path, ty = v[1], v[2], v[3]
            vs = self.T[ty]["variants"]
            cur = self.get(st, key, path)
            if cur[0] == "adt":
                d = int(vs[cur[2]]["discr"])
                for val, tgt in t[2]:
                    if val == d or (d < 0 and val == d + (1 << 128)):
                        return [(tgt, st)]
                return [(t[3], st)]
            tg = {}
            for val, tgt in t[2]:
                tg[val] = tgt
            others = []
            unknown = cur[0] != "top" or cur[1] is None
            for i, vv in enumerate(vs):
                d = int(vv["discr"])
                if d in tg:
                    s = st.copy()
                    if not unknown:
                        self.put(s, key, path, self.materialize(s, cur, i))
                    out.append((tg[d], s))
                else:
                    others.append(i)
            if others and fn.blocks[t[3]]["t"][0] != "unreachable":
                if len(others) <= 3 and not unknown:
                    for i in others:
                        s = st.copy()
                        self.put(s, key, path, self.materialize(s, cur, i))
                        out.append((t[3], s))
                else:
                    out.append((t[3], st.copy()))
            return out
        if v[0] == "i":
            rest = st
            e = v[1]
            if e.is_const():
                for val, tgt in t[2]:
                    if self.same_const(e.c, val):
                        return [(tgt, st)]
                return [(t[3], st)]
            states = [st]
            ty = self.opty(fn, t[1])
            for val, tgt in t[2]:
                if ty is not None and self.T[ty]["k"] == "int" and self.T[ty]["signed"] and val >= 1 << (self.T[ty]["bits"] - 1):
                    val -= 1 << self.T[ty]["bits"]
                nxt = []
                for s in states:
                    d = s.num.decide("eq0", addc(e, -val))
                    if d is True:
                        out.append((tgt, s))
                        continue
                    if d is False:
                        nxt.append(s)
                        continue
                    s2 = s.copy()
                    if s2.num.assume_eq(addc(e, -val)):
                        out.append((tgt, s2))
                    nxt += self.assume(s, ("c", "ne0", addc(e, -val)), True)
                states = nxt
            for s in states:
                out.append((t[3], s))
            return out
        if v[0] in ("b", "bs", "c", "and", "or", "ovf", "novf"):
            tf = None
            for val, tgt in t[2]:
                if val == 0:
                    tf = tgt
            tt = t[3]
            for val, tgt in t[2]:
                if val == 1:
                    tt = tgt
            if tf is None:
                tf = t[3]
            r = self.truth(st, v)
            if r is True:
                return [(tt, st)]
            if r is False:
                return [(tf, st)]
            s2 = st.copy()
            for s in self.assume(st, v, False):
                out.append((tf, s))
            for s in self.assume(s2, v, True):
                out.append((tt, s))
            return out
        for tgt in mir.succs(t):
            out.append((tgt, st.copy()))
        return out

    def same_const(self, c, val):
        return c == val or (c < 0 and any(c + (1 << b) == val for b in (8, 16, 32, 64, 128)))

    def do_assert(self, fn, fid, b, st, t, sp):
        c = self.operand(st, fn, fid, t[1])
        exp = t[2]
        msg = t[3]
        want = c if exp else neg(c)
        ok = self.truth(st, want)
        kind = msg[0]
        detail = kind
        if kind == "overflow":
            detail = "%s overflow of %s" % (msg[1], self.describe(fn, msg[2]) + "," + self.describe(fn, msg[3]))
        elif kind == "bounds":
            detail = "index %s of len %s" % (self.describe(fn, msg[2]), self.describe(fn, msg[1]))
        self.obl(kind + (":" + msg[1] if kind == "overflow" else ""), detail, ok is True, fn, sp, st)
        return [(t[4], s) for s in self.assume(st, want, True)]

    def describe(self, fn, o):
        if "v" in o:
            return str(o["v"])
        p = o.get("cp") or o.get("mv")
        if p:
            return fn.names.get(p[0], "_")
        return o.get("s", "?")

    # ---------------------------------------------------------------- calls
    def do_call(self, fn, fid, b, st, t, sp):
        f = t[1]
        args = [self.operand(st, fn, fid, a) for a in t[2]]
        dest, tgt = t[3], t[4]
        dty = self.placety(fn, dest)
        info = dict(fn=fn, sp=sp, dty=dty, argtys=[self.opty(fn, a) for a in t[2]], callee=None, fid=fid)
        if "fn" in f:
            c = f["fn"]
            info["callee"] = c
            res = self.call(st, c["resolved"] or c["path"], args, info)
        else:
            fv = self.operand(st, fn, fid, f)
            if fv[0] == "fn":
                info["callee"] = self.callees.get(fv[1])
                res = self.call(st, fv[1], args, info)
            else:
                info["callee"] = dict(path="INDIRECT", resolved=None, targs=[], local=False, full="INDIRECT", trait=None)
                res = self.opaque(st, args, info)
        out = []
        for v, s in res:
            if tgt is None:
                continue
            if not dest[1]:
                s.mem[("L", fid, dest[0])] = v
            else:
                key, path = self.loc(s, fid, dest)
                self.put(s, key, path, v)
            out.append((tgt, s))
        return out

    def opaque(self, st, args, info):
        for a in args:
            w = a
            for _ in range(3):
                if w[0] == "ptr":
                    w = self.get(st, w[1], w[2])
            if w[0] == "iter" and models.is_lazy(w):
                models.force(self, st, w, info)
            self.havoc(st, a)
        return [(self.fresh(st, info["dty"]), st)]

    def havoc(self, st, v, depth=0):
        if depth > 3:
            return
        k = v[0]
        if k == "iter" and models.is_lazy(v):
            models.force(self, st, v)
        elif k == "ptr" and v[3]:
            w = self.get(st, v[1], v[2])
            self.put(st, v[1], v[2], self.forget(st, w))
        elif k == "clo":
            for x in v[2]:
                self.havoc(st, x, depth + 1)
        elif k in ("tup", "arr"):
            for x in v[1]:
                self.havoc(st, x, depth + 1)
        elif k == "adt":
            for x in v[3]:
                self.havoc(st, x, depth + 1)

    def forget(self, st, w):
        k = w[0]
        if k == "i":
            return ("i", st.num.fresh())
        if k in ("b", "bs", "c", "and", "or"):
            return ("bs", uid(), True)
        if k in ("adt", "top"):
            return ("top", w[1], uid())
        if k == "seq":
            return self.newseq(st, w[4])
        if k == "ptr":
            if w[3]:
                self.havoc(st, w)
            return w
        if k == "iter":
            if models.is_lazy(w):
                models.force(self, st, w)
            ln = st.num.fresh(0, MAXLEN)
            return ("iter", uid(), st.num.fresh(0, MAXLEN), ln, w[4], w[5], None)
        return ("top", None, uid())

    def call(self, st, path, args, info):
        if self.on_call:
            r = self.on_call(st, path, args, info)
            if r is not None:
                return r
        m = self.models.get(path)
        if m is None:
            for pre, h in self.prefix_models:
                if path.startswith(pre):
                    m = h
                    break
        if m is not None:
            try:
                r = m(self, st, args, info)
            except (KeyError, TypeError, IndexError) as ex:
                self.gaps.append((path, info["sp"], repr(ex)))
                r = None
                if self.debug:
                    raise
            if r is not None:
                return r
        fn = self.prog.fns.get(path)
        if fn is not None:
            if fn.kind == "Closure" and len(args) == 2 and args[1][0] == "tup" and len(args[1][1]) == fn.argc - 1 and \
                    "ops::function::Fn" in ((info["callee"] or {}).get("trait") or ""):
                # a direct call of a closure hands over its arguments as a tuple
                args = [args[0]] + list(args[1][1])
            c = self.contracts.get(path)
            if c is not None:
                return c(self, st, args, info, fn)
            if not self.no_inline(fn):
                if self.stack.count(path) <= self.MAXREC and len(self.stack) <= self.MAXDEPTH:
                    return self.run(fn, args, st)
                self.cut(path, fn, st, info)
            return self.opaque(st, args, info)
        d = info["dty"]
        if d is not None and self.T[d]["k"] == "adt" and self.T[d]["variants"]:
            # a tuple struct or tuple variant used as a function
            p0 = path.split("::<")[0]
            tp = self.T[d]["path"]
            for i, v in enumerate(self.T[d]["variants"]):
                if len(v["fields"]) == len(args) and args and p0 in (tp, tp + "::" + v["name"]) and \
                        p0.split("::")[-1] == v["name"]:
                    return [(("adt", d, i, tuple(args)), st)]
        if models.PANICKY.search(path) and not models.simp(path)[0] in models.PANICKY_OK_TYPES:
            self.obl("panicky", "call of %s, which can panic" % models.simp(path)[2], False, info["fn"], info["sp"], st)
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        return self.opaque(st, args, info)

    def valty(self, st, v):
        if v[0] in ("adt", "top"):
            return v[1]
        return None

    MAXREC = 2
    debug = False

    def cut(self, path, fn, st, info):
        """recursion or depth limit reached"""
        self.obl("recursion", "recursive call of %s beyond the analysed depth" % path, False, info["fn"], info["sp"], st)

    def call_closure(self, st, clo, args, info, dty=None):
        """apply a closure / fn value to args; list of (value,state)"""
        i2 = dict(info)
        if dty is not None:
            i2["dty"] = dty
        v = clo
        for _ in range(3):
            if v[0] == "ptr":
                v = self.get(st, v[1], v[2])
        if v[0] == "clo":
            fn = self.prog.fns.get(v[1])
            if fn is None:
                return self.opaque(st, [clo] + list(args), i2)
            t1 = self.T[fn.locals[1]] if fn.argc >= 1 else None
            if t1 and t1["k"] == "ref":
                selfv = clo if clo[0] == "ptr" else self.newptr(st, v, True)
            else:
                selfv = v
            if len(self.stack) > self.MAXDEPTH or v[1] in self.stack:
                i2["dty"] = fn.ret
                return self.opaque(st, [clo] + list(args), i2)
            return self.run(fn, [selfv] + list(args), st)
        if v[0] == "fn":
            i2["callee"] = self.callees.get(v[1])
            i2["argtys"] = [self.valty(st, a) for a in args]
            p = v[1]
            fn = self.prog.fns.get(p)
            if i2.get("dty") is None:
                i2["dty"] = fn.ret if fn else None
            if i2["dty"] is None:
                return [(("top", None, uid()), st)]
            return self.call(st, p, list(args), i2)
        if i2.get("dty") is None:
            self.havoc(st, clo)
            return [(("top", None, uid()), st)]
        return self.opaque(st, [clo] + list(args), i2)
