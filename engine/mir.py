"""Loading of the MIR dumps and CFG utilities."""
import json, os


class Fn:
    __slots__ = ("path", "kind", "vis", "span", "macro", "parent", "trait", "self_ty", "ret", "argc", "locals",
                 "names", "blocks", "promoted", "crate", "succ", "pred", "rpo", "rpoi", "heads", "live", "_loops", "_nat")

    def __repr__(self):
        return "<fn %s>" % self.path


class Prog:
    """All crates loaded together; type indices are global."""

    def __init__(self):
        self.types = []
        self.fns = {}
        self.crates = {}
        self.closures_of = {}
        self.by_crate = {}

    def load(self, path):
        d = json.load(open(path))
        base = len(self.types)
        crate = d["crate"]
        self.crates[crate] = d
        for t in d["types"]:
            t = dict(t)
            for k in ("to",):
                if t.get(k) is not None:
                    t[k] += base
            if t["k"] == "tuple":
                t["fields"] = [x + base for x in t["fields"]]
            if t["k"] == "adt":
                t["args"] = [x + base for x in t["args"]]
                for v in t["variants"]:
                    v["fields"] = [(n, x + base) for n, x in v["fields"]]
            if t["k"] == "closure":
                t["upvars"] = [x + base for x in t["upvars"]]
            t["crate"] = crate
            self.types.append(t)
        lst = []
        for f in d["fns"]:
            fn = self._mkfn(f, base, crate)
            fn.promoted = [self._mkfn(dict(p, path=f["path"] + "::promoted[%d]" % i, kind="Promoted", vis="", span=f["span"],
                                           macro=False, parent=f["path"], trait=None, self=None, ret=None, promoted=[]), base, crate)
                           for i, p in enumerate(f["promoted"])]
            if fn.path in self.fns:
                fn.path = fn.path + "#dup" + fn.span
            self.fns[fn.path] = fn
            lst.append(fn)
            if fn.kind == "Closure":
                self.closures_of.setdefault(fn.parent, []).append(fn)
        self.by_crate[crate] = lst
        return crate

    def _mkfn(self, f, base, crate):
        fn = Fn()
        fn.path, fn.kind, fn.vis, fn.span = f["path"], f["kind"], f["vis"], f["span"]
        fn.macro, fn.parent, fn.trait, fn.self_ty = f["macro"], f["parent"], f["trait"], f["self"]
        fn.ret = f["ret"] + base if f["ret"] is not None else None
        fn.argc = f["argc"]
        fn.locals = [x + base for x in f["locals"]]
        fn.names = {}
        for n, p in f["names"]:
            if not p[1]:
                fn.names.setdefault(p[0], n)
        fn.crate = crate
        for b in f["blocks"]:
            _shift_block(b, base)
        fn.blocks = f["blocks"]
        fn.promoted = []
        fn.succ = [succs(b["t"]) for b in fn.blocks]
        n = len(fn.blocks)
        fn.pred = [[] for _ in range(n)]
        for i, ss in enumerate(fn.succ):
            for s in ss:
                fn.pred[s].append(i)
        fn.rpo, fn.rpoi, fn.heads = _rpo(fn.succ)
        fn.live = None
        fn._loops = None
        return fn

    def tstr(self, i):
        return self.types[i]["s"]


def _shift_ops(x, base):
    if isinstance(x, dict):
        if "ty" in x:
            x["ty"] += base
        if "fn" in x:
            x["fn"]["targs"] = [t + base for t in x["fn"]["targs"]]
        if "agg" in x:
            _shift_ops(x["agg"], base)
        for k in ("cp", "mv"):
            if k in x:
                _shift_place(x[k], base)
        if "fields" in x and isinstance(x["fields"], list):
            for y in x["fields"]:
                _shift_ops(y, base)
    elif isinstance(x, list):
        for y in x:
            _shift_ops(y, base)


def _shift_place(p, base):
    for e in p[1]:
        if e[0] == "f":
            e[2] += base


def _shift_rv(r, base):
    k = r[0]
    if k in ("use", "repeat"):
        _shift_ops(r[1], base)
    elif k in ("ref", "rawptr", "discr"):
        _shift_place(r[1], base)
    elif k == "cast":
        _shift_ops(r[2], base)
        r[3] += base
    elif k == "bin":
        _shift_ops(r[2], base)
        _shift_ops(r[3], base)
    elif k == "un":
        _shift_ops(r[2], base)
    elif k == "agg":
        _shift_ops(r[2], base)


def _shift_block(b, base):
    for s in b["st"]:
        _shift_place(s[1], base)
        if s[0] == "=":
            _shift_rv(s[2], base)
    t = b["t"]
    if t[0] == "switch":
        _shift_ops(t[1], base)
    elif t[0] == "call":
        _shift_ops(t[1], base)
        _shift_ops(t[2], base)
        _shift_place(t[3], base)
    elif t[0] == "drop":
        _shift_place(t[1], base)
    elif t[0] == "assert":
        _shift_ops(t[1], base)
        _shift_ops(t[3], base)


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        r = []
        for _, b in t[2]:
            if b not in r:
                r.append(b)
        if t[3] not in r:
            r.append(t[3])
        return r
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def _rpo(succ):
    n = len(succ)
    seen = [0] * n
    order = []
    heads = set()
    if n == 0:
        return order, {}, heads
    stack = [(0, iter(succ[0]))]
    seen[0] = 1
    while stack:
        b, it = stack[-1]
        adv = False
        for s in it:
            if seen[s] == 0:
                seen[s] = 1
                stack.append((s, iter(succ[s])))
                adv = True
                break
            elif seen[s] == 1:
                heads.add(s)
        if not adv:
            seen[b] = 2
            order.append(b)
            stack.pop()
    order.reverse()
    return order, {b: i for i, b in enumerate(order)}, heads


def op_locals(x, out):
    if isinstance(x, dict):
        for k in ("cp", "mv"):
            if k in x:
                place_locals(x[k], out)
    elif isinstance(x, list):
        for y in x:
            op_locals(y, out)


def place_locals(p, out):
    out.add(p[0])
    for e in p[1]:
        if e[0] == "i":
            out.add(e[1])


def rv_uses(r, out):
    k = r[0]
    if k in ("use", "repeat"):
        op_locals(r[1], out)
    elif k in ("ref", "rawptr", "discr"):
        place_locals(r[1], out)
    elif k == "cast":
        op_locals(r[2], out)
    elif k == "bin":
        op_locals(r[2], out)
        op_locals(r[3], out)
    elif k == "un":
        op_locals(r[2], out)
    elif k == "agg":
        op_locals(r[2], out)


def liveness(fn):
    """live-in locals per block (a local whose address escapes is kept by reachability, not here)."""
    if fn.live is not None:
        return fn.live
    n = len(fn.blocks)
    use, deff = [set() for _ in range(n)], [set() for _ in range(n)]
    for i, b in enumerate(fn.blocks):
        u, d = use[i], deff[i]

        def touch(s):
            for x in s:
                if x not in d:
                    u.add(x)
        for s in b["st"]:
            t = set()
            if s[0] == "=":
                rv_uses(s[2], t)
            if s[1][1]:
                place_locals(s[1], t)
            touch(t)
            if not s[1][1]:
                d.add(s[1][0])
        t = b["t"]
        x = set()
        if t[0] == "switch":
            op_locals(t[1], x)
        elif t[0] == "call":
            op_locals(t[1], x)
            op_locals(t[2], x)
            if t[3][1]:
                place_locals(t[3], x)
        elif t[0] == "assert":
            op_locals(t[1], x)
            op_locals(t[3], x)
        elif t[0] == "return":
            x.add(0)
        touch(x)
        if t[0] == "call" and not t[3][1]:
            d.add(t[3][0])
    live = [set() for _ in range(n)]
    changed = True
    order = list(reversed(fn.rpo))
    while changed:
        changed = False
        for b in order:
            out = set()
            for s in fn.succ[b]:
                out |= live[s]
            # defs in the block kill only what is live out
            new = use[b] | (out - deff[b])
            if new != live[b]:
                live[b] = new
                changed = True
    fn.live = live
    return live


def loop_blocks(fn, head):
    """blocks of the natural loop(s) with this head."""
    body = {head}
    st = []
    for p in fn.pred[head]:
        if p in fn.rpoi and _reaches(fn, head, p):
            st.append(p)
    while st:
        x = st.pop()
        if x in body:
            continue
        body.add(x)
        for q in fn.pred[x]:
            if q in fn.rpoi:
                st.append(q)
    # keep only blocks reachable from head
    return {x for x in body if _reaches(fn, head, x)}


def loopof(fn, head):
    try:
        c = fn._loops
    except AttributeError:
        c = None
    if c is None:
        c = fn._loops = {}
    if head not in c:
        c[head] = loop_blocks(fn, head)
    return c[head]


def natloop(fn, head):
    """blocks of the natural loop of a head (the way around does not pass through the entry of the head from outside)"""
    try:
        c = fn._nat
    except AttributeError:
        c = fn._nat = {}
    if head not in c:
        out, st = {0} - {head}, [0] if head else []
        while st:
            for s in fn.succ[st.pop()]:
                if s not in out and s != head:
                    out.add(s)
                    st.append(s)
        body = {head}
        st = [u for u in fn.pred[head] if u not in out]
        while st:
            u = st.pop()
            if u not in body:
                body.add(u)
                st += fn.pred[u]
        c[head] = body if len(body) > 1 or head in fn.succ[head] else set(loopof(fn, head))
    return c[head]


def _reaches(fn, a, b):
    seen = {a}
    st = [a]
    while st:
        x = st.pop()
        if x == b:
            return True
        for s in fn.succ[x]:
            if s not in seen:
                seen.add(s)
                st.append(s)
    return False


def dominators(fn):
    order = fn.rpo
    idom = {order[0]: order[0]}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            ps = [p for p in fn.pred[b] if p in idom]
            if not ps:
                continue
            new = ps[0]
            for p in ps[1:]:
                a, c = new, p
                while a != c:
                    while fn.rpoi[a] > fn.rpoi[c]:
                        a = idom[a]
                    while fn.rpoi[c] > fn.rpoi[a]:
                        c = idom[c]
                new = a
            if idom.get(b) != new:
                idom[b] = new
                changed = True
    return idom
