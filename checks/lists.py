"""Vectors of known length, followed element by element, for the interpreter (engine/interp.py).

A known vector - and an iterator over one - is the value ("arr", elements).  Adaptors are applied at once: the closures the
compiler passes have no effects the order of which could matter."""
import interp
import models
from dom import const, sub, addc

SEQ = {"Vec", "alloc::vec::Vec"}


def deref(I, st, v):
    for _ in range(6):
        if v[0] != "ptr":
            return v
        v = I.get(st, v[1], v[2])
    return v


def place(I, st, v):
    """the last pointer on the way to the pointee of v"""
    for _ in range(6):
        if v[0] != "ptr":
            return None
        w = I.get(st, v[1], v[2])
        if w[0] != "ptr":
            return v
        v = w
    return None


def known(v):
    return v[0] == "arr"


def num(I, st, v):
    v = deref(I, st, v)
    if v[0] == "adt" and len(v[3]) == 1 and v[3][0][0] == "i":
        v = v[3][0]
    return v[1] if v[0] == "i" else None


def opt(I, info, v):
    d = info["dty"]
    return ("adt", d, 0, ()) if v is None else ("adt", d, 1, (v,))


def isopt(I, ty):
    return ty is not None and I.T[ty]["k"] == "adt" and I.T[ty]["path"] == models.OPTION


class Lists:
    def __init__(self, I, elems=None):
        self.I = I
        self.elems = elems or (lambda ty: True)

    # ---- application of a closure to every item, keeping the states apart
    def mapped(self, st, clo, items, info, keep, byref=False):
        I = self.I
        todo = [((), st)]
        for x in items:
            nxt = []
            for acc, s in todo:
                a = I.newptr(s, x, False) if byref else x
                for r, s1 in I.call_closure(s, clo, [a], info):
                    for y, s2 in keep(r, x, s1):
                        nxt.append((acc + y, s2))
            todo = nxt
            if len(todo) > 600:
                raise interp.Gap("too many cases in a closure over a list")
        return todo

    def truth(self, v, st):
        out = []
        s2 = st.copy()
        for s in self.I.assume(st, v, True):
            out.append((True, s))
        for s in self.I.assume(s2, v, False):
            out.append((False, s))
        return out

    def extreme(self, st, items, which):
        """(item, state): smallest or largest of the numbers"""
        I = self.I
        todo = [(items[0], st)]
        for x in items[1:]:
            nxt = []
            for m, s in todo:
                a, b = num(I, s, m), num(I, s, x)
                if a is None or b is None:
                    return None
                for t, s1 in self.truth(models.ge(a, b) if which == "min" else models.ge(b, a), s):
                    nxt.append((x if t else m, s1))
            todo = nxt
        return todo

    def eq(self, st, a, b):
        """[(bool, state)] comparison of two known values"""
        I = self.I
        a, b = deref(I, st, a), deref(I, st, b)
        if a[0] == "i" and b[0] == "i":
            out = []
            for t, s in self.truth(("and", models.ge(a[1], b[1]), models.ge(b[1], a[1])), st):
                out.append((t, s))
            return out
        if a[0] == b[0] == "adt" and a[2] == b[2] and len(a[3]) == len(b[3]):
            todo, out = [st], []
            for x, y in zip(a[3], b[3]):
                nxt = []
                for s in todo:
                    r = self.eq(s, x, y)
                    if r is None:
                        return None
                    for t, s1 in r:
                        (nxt if t else out).append(s1)
                todo = nxt
            return [(True, s) for s in todo] + [(False, s) for s in out]
        return None

    def flat(self, st, v):
        """items of a known vector, or of an Option"""
        w = deref(self.I, st, v)
        if known(w):
            return w[1]
        if w[0] == "adt" and isopt(self.I, w[1]):
            return w[3]
        return None

    def items(self, st, v):
        """items of something that is iterated: references when it is behind a reference"""
        I = self.I
        if v[0] == "ptr":
            p = place(I, st, v)
            w = I.get(st, p[1], p[2])
            if known(w):
                return tuple(("ptr", p[1], p[2] + (("e", None, i),), False) for i in range(len(w[1])))
            return None
        if known(v):
            return v[1]
        if v[0] == "adt" and isopt(I, v[1]):
            return v[3]
        return None

    def __call__(self, st, path, args, info):
        I = self.I
        base, tr, m = models.simp(path)
        d = info["dty"]
        dt = I.T[d] if d is not None else None
        if not args or m in ("with_capacity", "default", "from_elem"):
            if dt is not None and dt["k"] == "adt" and dt["path"] == "alloc::vec::Vec" and m in ("new", "with_capacity", "default") and self.elems(dt["args"][0]):
                return [(("arr", ()), st)]
            return None
        if path in I.prog.fns:
            return None
        a0 = args[0]
        w = deref(I, st, a0)
        if w[0] == "adt" and isopt(I, w[1]) and m in ("get_or_insert_with", "get_or_insert", "insert", "get_or_insert_default") and a0[0] == "ptr":
            p = place(I, st, a0)
            at = ("ptr", p[1], p[2] + (("d", 1), ("f", 0, None)), True)
            if w[2] == 1 and m != "insert":
                return [(at, st)]
            if m == "get_or_insert_with":
                new = I.call_closure(st, args[1], [], info_of(I, info, I.T[w[1]]["args"][0]))
            elif len(args) > 1:
                new = [(args[1], st)]
            else:
                return None
            out = []
            for v, s in new:
                I.put(s, p[1], p[2], ("adt", w[1], 1, (v,)))
                out.append((at, s))
            return out
        if m == "branch" or (w[0] == "adt" and m not in ("chain", "extend", "zip", "flatten", "into_iter", "iter")):
            return None
        if not known(w):
            if w[0] == "adt" and isopt(I, w[1]) and m in ("into_iter", "iter") and not (dt is not None and dt["k"] == "ref"):
                if a0[0] == "ptr":
                    p = place(I, st, a0)
                    return [(("arr", (("ptr", p[1], p[2] + (("d", 1), ("f", 0, None)), False),) if w[2] == 1 else ()), st)]
                return [(("arr", w[3]), st)]
            if not (len(args) > 1 and known(deref(I, st, args[1]))):
                return None
            return None
        p = place(I, st, a0) if a0[0] == "ptr" else None
        xs = w[1]
        # ---- vectors
        if m == "push":
            I.put(st, p[1], p[2], ("arr", xs + (args[1],)))
            return [(models.UNIT if hasattr(models, "UNIT") else ("tup", ()), st)]
        if m == "pop":
            if xs:
                I.put(st, p[1], p[2], ("arr", xs[:-1]))
            return [(opt(I, info, xs[-1] if xs else None), st)]
        if m in ("len", "count"):
            return [(("i", const(len(xs))), st)]
        if m == "is_empty":
            return [(("b", not xs), st)]
        if m in ("clone", "to_vec", "to_owned"):
            return [(w, st)]
        if m in ("deref", "as_slice", "as_ref", "borrow", "deref_mut", "as_mut_slice", "by_ref", "as_mut"):
            return [(p, st)]
        if m == "clear":
            I.put(st, p[1], p[2], ("arr", ()))
            return [(("tup", ()), st)]
        if m == "append" and base in SEQ:
            q = place(I, st, args[1])
            o = deref(I, st, args[1])
            if q is None or not known(o):
                return None
            I.put(st, p[1], p[2], ("arr", xs + o[1]))
            I.put(st, q[1], q[2], ("arr", ()))
            return [(("tup", ()), st)]
        if m in ("extend", "extend_from_slice"):
            o = self.items(st, args[1])
            if o is None:
                return None
            I.put(st, p[1], p[2], ("arr", xs + tuple(deref(I, st, x) for x in o)))
            return [(("tup", ()), st)]
        if m in ("index", "get", "get_unchecked"):
            i = num(I, st, args[1])
            if i is None or i.t:
                return None
            i = i.c
            if not 0 <= i < len(xs):
                return [(opt(I, info, None), st)] if m == "get" else []
            r = ("ptr", p[1], p[2] + (("e", None, i),), False)
            return [(opt(I, info, r) if m == "get" else r, st)]
        if m in ("first", "last") and tr is None and p is not None:
            if not xs:
                return [(opt(I, info, None), st)]
            i = 0 if m == "first" else len(xs) - 1
            return [(opt(I, info, ("ptr", p[1], p[2] + (("e", None, i),), False)), st)]
        if m == "contains":
            todo, out = [st], []
            for x in xs:
                nxt = []
                for s in todo:
                    r = self.eq(s, x, args[1])
                    if r is None:
                        return None
                    for t, s1 in r:
                        if t:
                            out.append((("b", True), s1))
                        else:
                            nxt.append(s1)
                todo = nxt
            return out + [(("b", False), s) for s in todo]
        if m in ("retain", "retain_mut"):
            out = []
            for acc, s in self.mapped(st, args[1], xs, info_of(I, info, None), lambda r, x, s: [((x,) if t else (), s1) for t, s1 in self.truth(r, s)], True):
                I.put(s, p[1], p[2], ("arr", acc))
                out.append((("tup", ()), s))
            return out
        # ---- iterators
        if m in ("iter", "iter_mut"):
            return [(("arr", self.items(st, a0)), st)]
        if m == "into_iter":
            return [(("arr", self.items(st, a0)), st)]
        if m == "drain":
            I.put(st, p[1], p[2], ("arr", ()))
            return [(("arr", xs), st)]
        if m in ("next", "next_back"):
            if p is None:
                return None
            if not xs:
                return [(opt(I, info, None), st)]
            x, rest = (xs[0], xs[1:]) if m == "next" else (xs[-1], xs[:-1])
            I.put(st, p[1], p[2], ("arr", rest))
            return [(opt(I, info, x), st)]
        if tr not in ("Iterator", "DoubleEndedIterator", "IntoIterator", "ExactSizeIterator", None) and not (tr or "").endswith("Iterator"):
            return None
        if m in ("cloned", "copied"):
            return [(("arr", tuple(deref(I, st, x) for x in xs)), st)]
        if m in ("rev",):
            return [(("arr", xs[::-1]), st)]
        if m in ("fuse", "peekable"):
            return [(("arr", xs), st)]
        if m in ("skip", "take"):
            n = num(I, st, args[1])
            if n is None or n.t:
                return None
            return [(("arr", xs[n.c:] if m == "skip" else xs[:n.c]), st)]
        if m == "enumerate":
            return [(("arr", tuple(("tup", (("i", const(i)), x)) for i, x in enumerate(xs))), st)]
        if m == "chain":
            o = self.items(st, args[1])
            return None if o is None else [(("arr", xs + o), st)]
        if m == "zip":
            o = self.items(st, args[1])
            return None if o is None else [(("arr", tuple(("tup", z) for z in zip(xs, o))), st)]
        if m == "flatten":
            out = ()
            for x in xs:
                o = self.items(st, x)
                if o is None:
                    return None
                out += o
            return [(("arr", out), st)]
        i2 = info_of(I, info, None)
        if m == "map":
            return [(("arr", acc), s) for acc, s in self.mapped(st, args[1], xs, i2, lambda r, x, s: [((r,), s)])]
        if m == "flat_map":
            def fl(r, x, s):
                o = self.items(s, r)
                if o is None:
                    raise interp.Gap("items of a flat_map")
                return [(o, s)]
            return [(("arr", acc), s) for acc, s in self.mapped(st, args[1], xs, i2, fl)]
        if m == "filter":
            return [(("arr", acc), s) for acc, s in self.mapped(st, args[1], xs, i2, lambda r, x, s: [((x,) if t else (), s1) for t, s1 in self.truth(r, s)], True)]
        if m == "filter_map":
            def fm(r, x, s):
                if r[0] != "adt":
                    raise interp.Gap("result of a filter_map closure")
                return [(r[3], s)]
            return [(("arr", acc), s) for acc, s in self.mapped(st, args[1], xs, i2, fm)]
        if m == "for_each":
            return [(("tup", ()), s) for acc, s in self.mapped(st, args[1], xs, i2, lambda r, x, s: [((), s)])]
        if m in ("any", "all", "find", "position"):
            todo, out = [st], []
            for n, x in enumerate(xs):
                nxt = []
                for s in todo:
                    a = I.newptr(s, x, False) if m == "find" else x
                    for r, s1 in I.call_closure(s, args[1], [a], i2):
                        for t, s2 in self.truth(r, s1):
                            if t == (m != "all"):
                                v = ("b", m == "any") if m in ("any", "all") else opt(I, info, x if m == "find" else ("i", const(n)))
                                out.append((v, s2))
                            else:
                                nxt.append(s2)
                todo = nxt
            v = ("b", m == "all") if m in ("any", "all") else opt(I, info, None)
            return out + [(v, s) for s in todo]
        if m in ("min", "max"):
            if not xs:
                return [(opt(I, info, None), st)]
            r = self.extreme(st, xs, m)
            return None if r is None else [(opt(I, info, x), s) for x, s in r]
        if m in ("min_by_key", "max_by_key"):
            if not xs:
                return [(opt(I, info, None), st)]
            out = []
            for acc, s in self.mapped(st, args[1], xs, i2, lambda r, x, s: [((("tup", (x, r)),), s)], True):
                todo = [(acc[0], s)]
                for z in acc[1:]:
                    nxt = []
                    for b, s1 in todo:
                        ka, kb = num(I, s1, b[1][1]), num(I, s1, z[1][1])
                        if ka is None or kb is None:
                            return None
                        for t, s2 in self.truth(models.ge(ka, kb) if m == "min_by_key" else models.ge(kb, ka), s1):
                            nxt.append((z if t else b, s2))
                    todo = nxt
                out += [(opt(I, info, b[1][0]), s1) for b, s1 in todo]
            return out
        if m in ("fold", "reduce"):
            if m == "reduce":
                if not xs:
                    return [(opt(I, info, None), st)]
                todo, clo, seq = [(xs[0], st)], args[1], xs[1:]
            else:
                todo, clo, seq = [(args[1], st)], args[2], xs
            for x in seq:
                todo = [(r, s1) for acc, s in todo for r, s1 in I.call_closure(s, clo, [acc, x], i2)]
            return [(opt(I, info, v) if m == "reduce" else v, s) for v, s in todo]
        if m == "try_for_each" or m == "try_fold":
            return None
        if m in ("collect", "from_iter"):
            if dt is not None and dt["k"] == "adt" and dt["path"] == "alloc::vec::Vec":
                return [(("arr", xs), st)]
            if dt is not None and dt["k"] == "adt" and dt["path"] in (models.RESULT, models.OPTION):
                good = 0 if dt["path"] == models.RESULT else 1
                acc = []
                for x in xs:
                    if x[0] != "adt":
                        return None
                    if x[2] != good:
                        return [(("adt", d, x[2], x[3]), st)]
                    acc.append(x[3][0])
                return [(("adt", d, good, (("arr", tuple(acc)),)), st)]
        return None


def info_of(I, info, dty):
    i = dict(info)
    i["dty"] = dty
    return i
