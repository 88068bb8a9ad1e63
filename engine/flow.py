"""Flow queries over MIR: callees, derivation of locals, outcome of Result-returning paths."""
import mir


def callee(t):
    """path of the function a call terminator calls (resolved implementation when known), or None"""
    if t[0] == "call" and isinstance(t[1], dict) and "fn" in t[1]:
        f = t[1]["fn"]
        return f.get("resolved") or f["path"]
    return None


def declared(t):
    if t[0] == "call" and isinstance(t[1], dict) and "fn" in t[1]:
        return t[1]["fn"]["path"]
    return None


def last(path):
    return path.rsplit("::", 1)[-1] if path else None


def targs(t):
    return t[1]["fn"].get("targs") or []


def calls(fn):
    for i, b in enumerate(fn.blocks):
        if not b.get("cl") and b["t"][0] == "call":
            yield i, b["t"]


def where(fn, i):
    b = fn.blocks[i]
    for s in reversed(b["st"]):
        if s[0] == "=" and len(s) > 3:
            return s[3]
    return b.get("sp") or fn.span


def op_place(o):
    """place of an operand or None"""
    if isinstance(o, dict):
        return o.get("mv") or o.get("cp")
    return None


def is_move(o):
    return isinstance(o, dict) and "mv" in o


def const(o):
    if isinstance(o, dict) and o.get("c"):
        return o
    return None


def adt(P, ty):
    t = P.types[ty]
    return t if t["k"] == "adt" else None


def strip_refs(P, ty):
    while P.types[ty]["k"] in ("ref", "ptr"):
        ty = P.types[ty]["to"]
    return ty


def is_adt(P, ty, suffix):
    t = P.types[strip_refs(P, ty)]
    return t["k"] == "adt" and t["path"].endswith(suffix)


def result_args(P, ty):
    """(ok type, err type) of core::result::Result or None"""
    t = P.types[ty]
    if t["k"] == "adt" and t["path"] == "core::result::Result":
        a = t["args"]
        if len(a) >= 2:
            return a[0], a[1]
        v = t["variants"]
        return v[0]["fields"][0][1], v[1]["fields"][0][1]
    return None


def deep_types(P, ty, seen=None):
    """all types reachable from ty through fields, arguments, references (ids)"""
    seen = set() if seen is None else seen
    st = [ty]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        t = P.types[x]
        if t.get("to") is not None:
            st.append(t["to"])
        for k in ("args", "upvars"):
            st += t.get(k) or []
        if t["k"] == "tuple":
            st += t["fields"]
        if t["k"] == "adt" and t.get("crate_local", True):
            for v in t.get("variants") or []:
                st += [f[1] for f in v["fields"]]
        if t.get("elem") is not None:
            st.append(t["elem"])
    return seen


def succ_nc(fn, i):
    """successors without unwinding"""
    t = fn.blocks[i]["t"]
    return [s for s in mir.succs(t) if not fn.blocks[s].get("cl")]


def reach(fn, starts, cut=()):
    """blocks reachable from the blocks `starts`, never following the edges in cut ((from, to) pairs)"""
    seen = set(starts)
    st = list(starts)
    while st:
        i = st.pop()
        for s in succ_nc(fn, i):
            if (i, s) in cut or s in seen:
                continue
            seen.add(s)
            st.append(s)
    return seen


def returns(fn):
    return [i for i, b in enumerate(fn.blocks) if b["t"][0] == "return" and not b.get("cl")]


# ---------------------------------------------------------------- derivation
class Deriv:
    """flow-insensitive 'is computed from' relation between the locals of one function"""

    def __init__(self, fn):
        self.fn = fn
        self.src = {}
        self.refs = {}
        for i, b in enumerate(fn.blocks):
            if b.get("cl"):
                continue
            for s in b["st"]:
                if s[0] != "=":
                    continue
                u = set()
                mir.rv_uses(s[2], u)
                self._add(s[1], u)
                if s[2][0] == "ref":
                    self.refs.setdefault(s[1][0], set()).add(s[2][1][0])
            t = b["t"]
            if t[0] == "call":
                u = set()
                for a in t[2]:
                    mir.op_locals(a, u)
                if isinstance(t[1], dict) and "fn" not in t[1]:
                    mir.op_locals(t[1], u)
                self._add(t[3], u)
                # a mutable reference passed in may be written from the other arguments
                for a in t[2]:
                    p = op_place(a)
                    if p is not None:
                        for r in self.refs.get(p[0], ()):
                            self.src.setdefault(r, set()).update(u - {p[0]})

    def _add(self, place, u):
        self.src.setdefault(place[0], set()).update(u)
        for e in place[1]:
            if e == ["*"] or (isinstance(e, list) and e and e[0] == "*"):
                for r in self.refs.get(place[0], ()):
                    self.src.setdefault(r, set()).update(u)

    def back(self, locs):
        """all locals the given ones are computed from (inclusive)"""
        seen = set(locs)
        st = list(locs)
        while st:
            x = st.pop()
            for y in self.src.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    def fwd(self, locs):
        inv = {}
        for d, ss in self.src.items():
            for s in ss:
                inv.setdefault(s, set()).add(d)
        seen = set(locs)
        st = list(locs)
        while st:
            x = st.pop()
            for y in inv.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen


# ---------------------------------------------------------------- outcomes
def outcomes(P, fn, start, init=None, stop_at_switch=False, cut=(), merge=()):
    """What the function can return on paths starting at the edge (pred, block) or at a block: a set of
    "err" (Result::Err or ControlFlow residual), "ok", "call" (the result of a further call), "other", and "loop" when a path
    gets back to `pred`.  Tracks Result-, bool- and Option-typed locals by what was last written to them."""
    pred, b0 = start if isinstance(start, tuple) else (None, start)
    st0 = dict(init or {})
    seen = {}
    out = set()
    flags = drop_flags(P, fn) if stop_at_switch else ()
    work = [(b0, st0)]
    while work:
        i, s = work.pop()
        key = (i, tuple(sorted(s.items())))
        if key in seen:
            continue
        seen[key] = 1
        if len(seen) > 20000:
            return {"other"}
        if pred is not None and i == pred:
            out.add("loop")
            continue
        b = fn.blocks[i]
        s = dict(s)
        if i in merge and s.get(0) not in ("err", "ok", "call") and not only_leaves(fn, i):
            out.add("other")
            continue
        for x in b["st"]:
            if x[0] != "=":
                continue
            (l, pr), rv = x[1], x[2]
            if pr:
                continue
            s[l] = _rv_status(P, fn, rv, s)
        t = b["t"]
        if t[0] == "return":
            out.add(s.get(0, "other"))
            continue
        if t[0] == "call":
            l, pr = t[3]
            if not pr:
                q = declared(t) or ""
                if q.endswith("FromResidual::from_residual") or last(q) == "from_residual":
                    s[l] = "err"
                elif result_args(P, fn.locals[l]):
                    # adaptors keep what they are given
                    a0 = op_place(t[2][0]) if t[2] else None
                    if last(q) in ("map_err", "into", "from", "or_else") and a0 is not None and not a0[1] and a0[0] in s:
                        s[l] = s[a0[0]] if last(q) != "or_else" else "call"
                    else:
                        s[l] = "call"
                else:
                    s[l] = "other"
        nxt = succ_nc(fn, i)
        if t[0] == "switch":
            # constant or status-determined switches
            p = op_place(t[1])
            if p is not None and not p[1] and s.get(p[0], "") in ("true", "false"):
                v = 1 if s[p[0]] == "true" else 0
                tgt = [b for (c, b) in t[2] if c == v]
                nxt = tgt or [t[3]]
            elif stop_at_switch and s.get(0) not in ("ok", "err") and not (p is not None and not p[1] and p[0] in flags):
                continue
        live = fn_live(fn)
        for n in nxt:
            if (i, n) in cut:
                continue
            keep = live[n]
            work.append((n, {k: v for k, v in s.items() if k == 0 or k in keep}))
    return out


def only_leaves(fn, i):
    """does the block lead to nothing but drops and the return?"""
    seen = set()
    st = [i]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        t = fn.blocks[b]["t"]
        if t[0] not in ("goto", "drop", "return", "switch") or len(seen) > 60:
            return False
        st += succ_nc(fn, b)
    return True


def drop_flags(P, fn):
    """unnamed bool locals only ever assigned constants"""
    bad = set(fn.names) | set(range(fn.argc + 1))
    any_ = set()
    for b in fn.blocks:
        for x in b["st"]:
            if x[0] == "=":
                l = x[1][0]
                any_.add(l)
                if not (x[2][0] == "use" and isinstance(x[2][1], dict) and x[2][1].get("c")):
                    bad.add(l)
        if b["t"][0] == "call":
            bad.add(b["t"][3][0])
    return {l for l in any_ - bad if P.types[fn.locals[l]]["k"] == "bool"}


def fn_live(fn):
    return mir.liveness(fn)


def _rv_status(P, fn, rv, s):
    k = rv[0]
    if k == "use":
        o = rv[1]
        p = op_place(o)
        if p is not None:
            return s.get(p[0], "other") if not p[1] else "other"
        if isinstance(o, dict) and o.get("c"):
            t = P.types[o["ty"]]
            if t["k"] == "bool":
                return "true" if o.get("v") else "false"
            if result_args(P, o["ty"]) and o.get("agg"):
                return "err" if o["agg"]["variant"] == 1 else "ok"
        return "other"
    if k == "agg":
        return _agg_status(P, rv)
    return "other"


def _agg_status(P, rv):
    a = rv[1]
    if isinstance(a, list) and a[0] == "adt" and a[1] == "core::result::Result":
        return "err" if a[2] == 1 else "ok"
    return "other"


def switches_on(fn, l):
    """(block, terminator) of the switches on the plain local l"""
    for i, b in enumerate(fn.blocks):
        t = b["t"]
        if not b.get("cl") and t[0] == "switch":
            p = op_place(t[1])
            if p is not None and p[0] == l and not p[1]:
                yield i, t


def discr_switches(fn, l):
    """(block, {variant: target}, otherwise) of the switches on the discriminant of local l"""
    ds = set()
    for b in fn.blocks:
        if b.get("cl"):
            continue
        for x in b["st"]:
            if x[0] == "=" and x[2][0] == "discr" and x[2][1][0] == l and not x[2][1][1]:
                ds.add(x[1][0])
    for d in ds:
        for i, t in switches_on(fn, d):
            yield i, {v: tg for v, tg in t[2]}, t[3]


def edge_of(mp, other, v):
    return mp.get(v, other)
