"""C16: no module and no definition is silently lost."""
import mir
import flow
import effects
import errors

DT = ("::Asn1Definition", "::Asn1Module", "::Asn1ResolvedDefinition")
MAPS = ("::BTreeMap", "::HashMap", "::IndexMap")
ADAPT = {"filter", "take", "skip", "step_by", "take_while", "skip_while", "filter_map", "map_while", "find", "find_map", "nth", "last", "dedup", "dedup_by", "dedup_by_key",
         "retain", "truncate", "drain", "first", "split_off", "clear", "swap_remove", "remove", "pop_first", "pop_last", "last_mut", "first_mut", "unzip", "partition"}
SUCCESS = {"ok", "other", "call"}


def dt(P, ty):
    """name of the definition-like type ty is, behind references and tuples and Option"""
    t = P.types[flow.strip_refs(P, ty)]
    if t["k"] == "adt":
        for d in DT:
            if t["path"].endswith(d):
                return d
        if t["path"] == "core::option::Option":
            return dt(P, t["variants"][1]["fields"][0][1])
    if t["k"] == "tuple":
        for x in t["fields"]:
            r = dt(P, x)
            if r:
                return r
    return None


def map_value(P, ty):
    """value type of the map ty refers to"""
    t = P.types[flow.strip_refs(P, ty)]
    if t["k"] == "adt" and any(t["path"].endswith(m) for m in MAPS) and len(t["args"]) >= 2:
        return t["args"][1]
    return None


def arg_type(P, fn, t, k=0):
    if len(t[2]) <= k:
        return None
    pl = flow.op_place(t[2][k])
    if pl is not None:
        return errors.place_type(P, fn, pl)
    return t[2][k]["ty"] if isinstance(t[2][k], dict) and t[2][k].get("c") else None


def kept(P, v):
    t = P.types[v]
    return dt(P, v) or (t["k"] == "adt" and t["path"].endswith("::Asn1ModuleName"))


def origin(fn, l):
    """a description of what a reference local points at: base local and projections, followed through reborrows"""
    seen = set()
    pr = []
    while l not in seen:
        seen.add(l)
        d = [s for b in fn.blocks for s in b["st"] if s[0] == "=" and s[1] == [l, []]]
        if len(d) != 1:
            break
        rv = d[0][2]
        src = rv[1] if rv[0] == "ref" else flow.op_place(rv[1]) if rv[0] == "use" else None
        if src is None:
            break
        pr = [e for e in src[1] if e[0] != "*"] + pr
        l = src[0]
    return (l, str(pr))


def none_edges(P, fn, l, variant=0):
    """edges on which the Option in local l is None (variant 0) or Some (1), also through is_none / is_some / as_ref"""
    out = set()
    for j, mp, other in flow.discr_switches(fn, l):
        out.add((j, flow.edge_of(mp, other, variant)))
    for i, t in flow.calls(fn):
        m = flow.last(flow.declared(t))
        if m in ("is_none", "is_some") and t[2]:
            pl = flow.op_place(t[2][0])
            if pl is not None and (pl[0] == l or origin(fn, pl[0])[0] == l):
                out |= set(errors.bool_edges(fn, t[3][0], (m == "is_none") == (variant == 0)))
    return out


def opt_fed(P, fn, l):
    """locals holding the same Option (moves, as_ref, take)"""
    out = {l}
    ch = True
    while ch:
        ch = False
        for b in fn.blocks:
            if b.get("cl"):
                continue
            for s in b["st"]:
                if s[0] == "=" and not s[1][1] and s[2][0] == "use":
                    pl = flow.op_place(s[2][1])
                    if pl is not None and not pl[1] and pl[0] in out and s[1][0] not in out:
                        out.add(s[1][0])
                        ch = True
            t = b["t"]
            if t[0] == "call" and flow.last(flow.declared(t)) in ("as_ref", "as_mut", "take", "copied", "cloned", "as_deref") and t[2]:
                pl = flow.op_place(t[2][0])
                if pl is not None and (pl[0] in out or origin(fn, pl[0])[0] in out) and t[3][0] not in out:
                    out.add(t[3][0])
                    ch = True
            if t[0] == "call" and flow.last(flow.declared(t)) in ("ok_or", "ok_or_else") and t[2]:
                pass
    return out


def opt_edges(P, fn, l, variant):
    out = set()
    for x in opt_fed(P, fn, l):
        out |= none_edges(P, fn, x, variant)
        for i, t in flow.calls(fn):
            if flow.last(flow.declared(t)) in ("ok_or", "ok_or_else") and t[2] and flow.op_place(t[2][0]) and flow.op_place(t[2][0])[0] == x and variant == 1:
                out |= errors.ok_edges(P, fn, t[3][0])
    return out


def only_err(P, fn, edge, cut=()):
    return not flow.outcomes(P, fn, edge, cut=cut) & (SUCCESS | {"loop"})


# --------------------------------------------------------------- comparisons
def eq_edges(P, fn, al):
    """edges on which a comparison of something in `al` with something else came out equal"""
    out = set()
    for i, t in flow.calls(fn):
        m = flow.last(flow.declared(t))
        if m in ("eq", "ne"):
            u = set()
            for a in t[2]:
                mir.op_locals(a, u)
            if u & al:
                out |= set(errors.bool_edges(fn, t[3][0], m == "eq"))
    return out


def closure_fn(P, fn, l):
    ty = P.types[flow.strip_refs(P, fn.locals[l])]
    return P.fns.get(ty["def"]) if ty["k"] == "closure" else None


def differs(P, c):
    """does the closure return whether its argument differs from something?"""
    for i, t in flow.calls(c):
        if flow.last(flow.declared(t)) == "ne" and t[3] == [0, []]:
            return True
        if flow.last(flow.declared(t)) == "eq":
            x = t[3][0]
            return any(s[0] == "=" and s[1] == [0, []] and s[2][0] == "un" and s[2][1] == "Not" and flow.op_place(s[2][2]) == [x, []] for b in c.blocks for s in b["st"])
    return False


def refused(P, fn, i, t):
    """is a value displaced by this insertion an error (or the same as the new one)?"""
    l = t[3][0]
    D = flow.Deriv(fn)
    al = D.fwd({l})
    eq = eq_edges(P, fn, al)
    some = opt_edges(P, fn, l, 1)
    if some and all(only_err(P, fn, e, eq) for e in some):
        # the tests must be on every way out
        none = opt_edges(P, fn, l, 0)
        if not flow.outcomes(P, fn, t[4], cut=none | eq) & SUCCESS:
            return True
    for x in opt_fed(P, fn, l):
        for j, u in flow.calls(fn):
            m = flow.last(flow.declared(u))
            if m in ("map_or", "is_some_and", "is_none_or") and u[2] and flow.op_place(u[2][0]) and flow.op_place(u[2][0])[0] == x:
                c = flow.op_place(u[2][-1])
                c = closure_fn(P, fn, c[0]) if c else None
                if m == "map_or":
                    d = u[2][1]
                    if not (isinstance(d, dict) and d.get("c") and d.get("v") == 0):
                        continue
                if c is None or not differs(P, c):
                    continue
                bad = errors.bool_edges(fn, u[3][0], True)
                good = set(errors.bool_edges(fn, u[3][0], False))
                if bad and all(only_err(P, fn, e) for e in bad) and not flow.outcomes(P, fn, t[4], cut=good) & SUCCESS:
                    return True
    return False


def guarded(P, fn, i, t):
    """is the insertion reached only where a lookup in the same map found nothing, the other edge being an error or `false`?"""
    o = origin(fn, flow.op_place(t[2][0])[0])
    for j, u in flow.calls(fn):
        m = flow.last(flow.declared(u))
        if m not in ("contains_key", "get", "get_mut", "get_key_value") or not u[2] or flow.op_place(u[2][0]) is None:
            continue
        if origin(fn, flow.op_place(u[2][0])[0]) != o:
            continue
        if m == "contains_key":
            absent = set(errors.bool_edges(fn, u[3][0], False))
            present = set(errors.bool_edges(fn, u[3][0], True))
        else:
            absent = opt_edges(P, fn, u[3][0], 0)
            present = opt_edges(P, fn, u[3][0], 1)
        if not absent or i in flow.reach(fn, [0], cut=absent):
            continue
        # every lookup is followed by its test before the insertion, and nothing is inserted on the present edge
        if not same_key(fn, u, t):
            continue
        res = set()
        for e in present:
            res |= flow.outcomes(P, fn, e) if not returns_bool(P, fn) else bool_outcomes(P, fn, e)
        if not res & (SUCCESS | {"loop", "true"}):
            return "false" if "false" in res else "err"
    return None


def same_key(fn, u, t):
    """both calls take a key computed from the same things"""
    D = flow.Deriv(fn)
    a, b = set(), set()
    mir.op_locals(u[2][1], a)
    mir.op_locals(t[2][1], b)
    a, b = D.back(a), D.back(b)
    roots = {x for x in a & b if x in fn.names or x <= fn.argc}
    return bool(roots) or bool(a & b)


def returns_bool(P, fn):
    return P.types[fn.locals[0]]["k"] == "bool"


def bool_outcomes(P, fn, e, cut=()):
    """values a bool function returns from an edge (or block 0) on, following copies, negations and tests of boolean locals"""
    out = set()
    seen = set()

    def step(i, j, env):
        t = fn.blocks[i]["t"]
        if t[0] == "switch":
            pl = flow.op_place(t[1])
            if pl is not None and not pl[1] and P.types[fn.locals[pl[0]]]["k"] == "bool":
                zero = [tg for v, tg in t[2] if v == 0]
                val = not (j in zero)
                if pl[0] in env and env[pl[0]] != val:
                    return None
                env = dict(env)
                env[pl[0]] = val
        return env
    e0 = step(e[0], e[1], {}) if isinstance(e, tuple) else {}
    st = [(e[1] if isinstance(e, tuple) else e, e0)]
    if isinstance(e, tuple):
        # what the tested local was copied from has the same value
        for b in fn.blocks:
            for s in b["st"]:
                if s[0] == "=" and not s[1][1] and s[1][0] in st[0][1] and s[2][0] == "use":
                    pl = flow.op_place(s[2][1])
                    if pl is not None and not pl[1]:
                        st[0][1][pl[0]] = st[0][1][s[1][0]]
                if s[0] == "=" and not s[1][1] and s[1][0] in st[0][1] and s[2][0] == "un" and s[2][1] == "Not":
                    pl = flow.op_place(s[2][2])
                    if pl is not None and not pl[1]:
                        st[0][1][pl[0]] = not st[0][1][s[1][0]]
    while st:
        i, env = st.pop()
        key = (i, tuple(sorted(env.items())))
        if key in seen or len(seen) > 20000:
            continue
        seen.add(key)
        b = fn.blocks[i]
        env = dict(env)
        src = {}
        for s in b["st"]:
            if s[0] != "=" or s[1][1]:
                continue
            l = s[1][0]
            env.pop(l, None)
            rv = s[2]
            if rv[0] == "use":
                c = flow.const(rv[1])
                pl = flow.op_place(rv[1])
                if c is not None and P.types[fn.locals[l]]["k"] == "bool":
                    env[l] = bool(c.get("v"))
                elif pl is not None and not pl[1]:
                    if pl[0] in env:
                        env[l] = env[pl[0]]
                    src[l] = (pl[0], True)
            elif rv[0] == "un" and rv[1] == "Not":
                pl = flow.op_place(rv[2])
                if pl is not None and not pl[1]:
                    if pl[0] in env:
                        env[l] = not env[pl[0]]
                    src[l] = (pl[0], False)
        if b["t"][0] == "call" and not b["t"][3][1]:
            env.pop(b["t"][3][0], None)
        if b["t"][0] == "return":
            out.add({True: "true", False: "false", None: "other"}[env.get(0)])
        for x in flow.succ_nc(fn, i):
            if (i, x) in cut:
                continue
            n = step(i, x, env)
            if n is None:
                continue
            for l, (o, pos) in src.items():
                if l in n and o not in n:
                    n = dict(n)
                    n[o] = n[l] if pos else not n[l]
            st.append((x, n))
    return out


def callers(P, path):
    for p, f in P.fns.items():
        for i, t in flow.calls(f):
            if flow.callee(t) == path:
                yield f, i, t


# --------------------------------------------------------------- topological sort
def is_sort(P, ty):
    t = P.types[flow.strip_refs(P, ty)]
    return t["k"] == "adt" and t["path"].endswith("::TopologicalSort")


def sorters(P):
    out = []
    for p, f in sorted(P.fns.items()):
        ls = [l for l in range(len(f.locals)) if P.types[f.locals[l]]["k"] == "adt" and is_sort(P, f.locals[l])]
        pops = [i for i, t in flow.calls(f) if flow.last(flow.declared(t)) in ("pop_all", "pop", "next") and arg_type(P, f, t) is not None and is_sort(P, arg_type(P, f, t))]
        if pops:
            out.append((f, pops))
    return out


def empty_edges(P, f, of):
    """edges on which something whose type satisfies `of` is empty"""
    out = set()
    for i, t in flow.calls(f):
        m = flow.last(flow.declared(t))
        ty = arg_type(P, f, t)
        if ty is None or not of(P, ty):
            continue
        if m == "is_empty":
            out |= set(errors.bool_edges(f, t[3][0], True))
        if m == "len":
            l = t[3][0]
            for j, u in flow.switches_on(f, l):
                out |= {(j, tg) for v, tg in u[2] if v == 0}
            for b in f.blocks:
                for s in b["st"]:
                    if s[0] == "=" and s[2][0] == "bin" and flow.op_place(s[2][2]) == [l, []] and flow.const(s[2][3]) is not None:
                        v = flow.const(s[2][3]).get("v")
                        op = s[2][1]
                        if (op, v) in (("Eq", 0), ("Lt", 1), ("Le", 0)):
                            out |= set(errors.bool_edges(f, s[1][0], True))
                        if (op, v) in (("Ne", 0), ("Gt", 0), ("Ge", 1)):
                            out |= set(errors.bool_edges(f, s[1][0], False))
    return out


# --------------------------------------------------------------- loops
class Loops:
    def __init__(self, P):
        self.P = P
        self.sorters = {f.path for f, _ in sorters(P)}
        self._cover = {}

    def loops(self, fn):
        """(next block, some edges, none edges, item type) of the loops that draw items from something"""
        P = self.P
        out = []
        for i, t in flow.calls(fn):
            m = flow.last(flow.declared(t))
            if m not in ("next", "pop", "next_back", "pop_front", "pop_first") or t[3][1]:
                continue
            ty = P.types[fn.locals[t[3][0]]]
            if ty["k"] != "adt" or ty["path"] != "core::option::Option":
                continue
            some, none = opt_edges(P, fn, t[3][0], 1), opt_edges(P, fn, t[3][0], 0)
            if not some or i not in flow.reach(fn, [e[1] for e in some]):
                continue
            out.append((i, t, some, none, ty["variants"][1]["fields"][0][1]))
        return out

    def good(self, fn, handled, item=None):
        """none edges of the loops over things that satisfy `item` all of whose rounds pass an edge in `handled`, and of the loops all of whose rounds contain such a loop"""
        ls = self.loops(fn)
        none = set()
        todo = list(ls)
        for x in ls:
            i, t, some, nn, ty = x
            if (item is None or item(ty)) and nn and i not in flow.reach(fn, [e[1] for e in some], cut=handled):
                todo.remove(x)
                none |= nn
        ch = True
        while ch:
            ch = False
            for x in list(todo):
                i, t, some, nn, ty = x
                if nn and none and i not in flow.reach(fn, [e[1] for e in some], cut=none):
                    todo.remove(x)
                    none |= nn
                    ch = True
        return none, ls, todo

    def early(self, fn, lp):
        """can the function succeed from inside an iteration without drawing the next item?"""
        i, t, some, none, ty = lp
        cut = {(p, i) for p in range(len(fn.blocks)) if i in flow.succ_nc(fn, p)}
        # leaving one loop into the next round of an enclosing loop is leaving it as well
        return any(flow.outcomes(self.P, fn, e, cut=cut) & SUCCESS for e in some)

    def covers(self, fn, handler, skip, item, depth=0):
        """does every successful path through fn pass the end of a loop each of whose rounds is handled?"""
        none, ls, bad = self.good(fn, self.handled(fn, handler, skip, item, depth), item)
        if not none:
            return False, ls
        return not flow.outcomes(self.P, fn, 0, cut=none) & SUCCESS, ls

    def handled(self, fn, handler, skip, item, depth):
        P = self.P
        out = set(skip(fn))
        for i, t in flow.calls(fn):
            if t[4] is None:
                continue
            if handler(fn, i, t):
                out.add((i, t[4]))
                continue
            q = flow.callee(t)
            if q in P.fns and depth < 4:
                h = P.fns[q]
                if not flow.outcomes(P, h, 0, cut=self.handled(h, handler, skip, item, depth + 1)) & SUCCESS and self.any_handler(h, handler, 0):
                    out.add((i, t[4]))
                elif self.covers(h, handler, skip, item, depth + 1)[0]:
                    out.add((i, t[4]))
        return out

    def any_handler(self, h, handler, depth):
        for i, t in flow.calls(h):
            if handler(h, i, t):
                return True
            q = flow.callee(t)
            if q in self.P.fns and depth < 4 and self.any_handler(self.P.fns[q], handler, depth + 1):
                return True
        return False


def variant_edges(P, fn, suffix, keep):
    """edges of switches on the discriminant of an enum whose path ends in `suffix`, for variants other than `keep`"""
    out = set()
    for i, b in enumerate(fn.blocks):
        if b.get("cl"):
            continue
        for s in b["st"]:
            if s[0] == "=" and s[2][0] == "discr":
                ty = errors.place_type(P, fn, s[2][1])
                if ty is None:
                    continue
                t = P.types[flow.strip_refs(P, ty)]
                if t["k"] != "adt" or not t["path"].endswith(suffix):
                    continue
                names = [v["name"] for v in t["variants"]]
                for j, u in flow.switches_on(fn, s[1][0]):
                    mp = {v: tg for v, tg in u[2]}
                    k = flow.edge_of(mp, u[3], names.index(keep)) if keep in names else None
                    out |= {(j, tg) for tg in set(mp.values()) | {u[3]} if tg != k}
    return out


class C16:
    LEVEL = "other"
    TECH = "must-pass-through and ownership analysis over MIR"
    NOTE = ("that dependencies are computed completely is C18; that a definition without a parser rule is an error is C23; values, classes and parameterized definitions have no generated item of their own")
    META = dict(what="Keyed insertions of modules, definitions, imports and resolved definitions; the two topological sorts; the import check; and the loops that carry every file, module, "
                     "definition and resolved type from the entry point to the generated code: nothing may be displaced, left over in a sort, skipped, or left in a loop that ends early, except on an error path.",
                assumptions=["the topological sort hands out an element once all of its dependencies have been handed out"])

    @staticmethod
    def check(rep, w, tier):
        P = errors.load(w)
        g = errors._G
        ms = errors.mains(P)
        rep.need(len(ms) == 1, "main", "the entry point of the compiler was not found")
        if not ms:
            return
        L = Loops(P)
        fns = [f for p, f in sorted(P.fns.items()) if not (f.trait and "fmt::" in f.trait)]
        rep.rule("an insertion under a name that is taken is an error, or stores the same definition again")
        n = 0
        for f in fns:
            for i, t in flow.calls(f):
                m, ty = flow.last(flow.declared(t)), arg_type(P, f, t)
                mv = map_value(P, ty) if ty is not None else None
                if m == "insert" and mv is not None and kept(P, mv):
                    n += 1
                    how = "err" if refused(P, f, i, t) else guarded(P, f, i, t)
                    what = P.tstr(mv).rsplit("::", 1)[-1]
                    rep.need(how is not None, "%s:insert:%s" % (f.path, what), "%s can replace a %s that is already stored under the same name" % (f.path, what), flow.where(f, i))
                    if how == "false":
                        c = 0
                        for h, j, u in callers(P, f.path):
                            c += 1
                            no = errors.bool_edges(h, u[3][0], False)
                            yes = set(errors.bool_edges(h, u[3][0], True))
                            ok = bool(no) and all(only_err(P, h, e) for e in no) and not flow.outcomes(P, h, u[4], cut=yes) & SUCCESS
                            rep.need(ok, "%s:%s:refused" % (h.path, f.path), "%s goes on although %s refused what it was given" % (h.path, f.path), flow.where(h, j))
                        rep.need(c > 0, "%s:callers" % f.path, "no caller of %s was found" % f.path)
                elif m in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key", "and_modify", "insert_entry") and arg_type(P, f, t) is not None and entry_value(P, arg_type(P, f, t)):
                    rep.fail("%s:entry" % f.path, "%s keeps only one of two things of the same name" % f.path, flow.where(f, i))
                elif m in ("extend", "append", "collect", "from_iter", "from") and any(map_value(P, x) is not None and kept(P, map_value(P, x)) for x in [y for y in (ty, f.locals[t[3][0]]) if y is not None]):
                    if m == "extend" or m == "append" or m in ("collect", "from_iter", "from") and not f.trait:
                        rep.fail("%s:%s" % (f.path, m), "%s stores many things at once, without noticing repeated names" % f.path, flow.where(f, i))
        rep.unit("keyed insertions", n)
        rep.need(n >= 4, "insertions", "only %d keyed insertions of modules, imports and definitions were found" % n)

        rep.rule("success after draining a topological sort requires that the sort is empty")
        ss = sorters(P)
        rep.need(len(ss) >= 2, "sorts", "the topological sorts of modules and definitions were not found")
        for f, pops in ss:
            rep.unit("topological sorts")
            cut = empty_edges(P, f, is_sort)
            rep.need(bool(cut) and not flow.outcomes(P, f, 0, cut=cut) & SUCCESS, f.path + ":cycle", "%s succeeds although elements on a cycle are left in the sort" % f.path, flow.where(f, pops[0]))
            # everything drawn is kept
            def put(fn, i, t):
                return flow.last(flow.declared(t)) in ("extend", "push", "append", "extend_from_slice", "push_back", "insert") and not (arg_type(P, fn, t) is not None and is_sort(P, arg_type(P, fn, t)))
            keep = {(i, t[4]) for i, t in flow.calls(f) if put(f, i, t) and t[4] is not None}
            keep |= empty_edges(P, f, lambda P, ty: not is_sort(P, ty))
            keep |= L.good(f, keep, lambda ty: named(P, ty))[0]
            for i in pops:
                l = f.blocks[i]["t"][3][0]
                keep |= opt_edges(P, f, l, 0)
            for i in pops:
                t = f.blocks[i]["t"]
                r = flow.reach(f, [t[4]], cut=keep)
                rep.need(not (set(pops) & r) and not any(x in r for x in flow.returns(f)) or not flow.outcomes(P, f, t[4], cut=keep) & SUCCESS and not set(pops) & r, f.path + ":drawn",
                         "%s does not keep everything it draws from the sort" % f.path, flow.where(f, i))
            D = flow.Deriv(f)
            fw = D.fwd({f.blocks[i]["t"][3][0] for i in pops})
            for i, t in flow.calls(f):
                us = set()
                for a in t[2][:1]:
                    mir.op_locals(a, us)
                ty = arg_type(P, f, t)
                if flow.last(flow.declared(t)) in ADAPT and us & fw and not is_sort(P, ty) and P.types[flow.strip_refs(P, ty)].get("path") != "core::option::Option":
                    rep.fail("%s:%s" % (f.path, flow.last(flow.declared(t))), "%s leaves out some of what it draws from the sort (%s)" % (f.path, flow.last(flow.declared(t))), flow.where(f, i))
            for lp in L.loops(f):
                rep.need(not L.early(f, lp) or lp[0] in pops, f.path + ":early", "%s leaves a loop over its input early" % f.path, flow.where(f, lp[0]))

        rep.rule("an import from a module that is not there, or of a symbol the module does not have, is an error")
        imps = [f for f in fns if f.path in g.reachable([ms[0].path]) and not errors.has_tokens(P, errors.owner(P, f)) and imports_loops(P, f)]
        ok = 0
        for f in imps:
            ls = imports_loops(P, f)
            for lp in ls:
                mods, syms = import_tests(P, f, lp)
                if mods is None:
                    continue
                ok += 1
                rep.unit("import loops")
                some = [e[1] for e in lp[2]]
                rep.need(bool(mods) and lp[0] not in flow.reach(f, some, cut=mods), f.path + ":module", "%s accepts an import from a module that does not exist" % f.path, flow.where(f, lp[0]))
                rep.need(bool(syms) and lp[0] not in flow.reach(f, some, cut=syms), f.path + ":symbol", "%s accepts an import of a symbol its module does not have" % f.path, flow.where(f, lp[0]))
                none, all_, bad = L.good(f, mods)
                rep.need(not flow.outcomes(P, f, 0, cut=none) & SUCCESS, f.path + ":all", "%s can succeed without looking at every import" % f.path, f.span)
                for x in L.loops(f):
                    rep.need(not L.early(f, x), f.path + ":early", "%s leaves a loop over modules or imports early" % f.path, flow.where(f, x[0]))
                res = errors.resolvers(P)
                rep.need(runs_before(P, ms[0], {f.path}, res), f.path + ":run", "definitions are resolved without the imports having been checked by %s" % f.path)
        rep.need(ok >= 1, "imports", "the check of the imports was not found")

        rep.rule("every file, module, definition and type is handled in every round of the loops that carry it")
        # modules are stored
        stores = {f.path for f in fns for i, t in flow.calls(f) if flow.last(flow.declared(t)) == "insert" and arg_type(P, f, t) is not None and map_value(P, arg_type(P, f, t)) is not None
                  and dt(P, map_value(P, arg_type(P, f, t))) == "::Asn1Module"}
        noskip = lambda fn: set()
        cov, _ = L.covers(ms[0], lambda fn, i, t: flow.callee(t) in stores, noskip, lambda ty: dt(P, ty) == "::Asn1Module")
        rep.need(cov, ms[0].path + ":modules", "%s can go on without having added every module of every file" % ms[0].path, ms[0].span)
        for p in sorted(stores):
            f = P.fns[p]
            ins = {(i, t[4]) for i, t in flow.calls(f) if flow.last(flow.declared(t)) == "insert" and map_value(P, arg_type(P, f, t) or 0) is not None}
            if returns_bool(P, f):
                vals = bool_outcomes(P, f, 0, cut=ins)
                rep.need("true" not in vals and "other" not in vals, p + ":stored", "%s can report success without having stored the module" % p, f.span)
            else:
                rep.need(not flow.outcomes(P, f, 0, cut=ins) & SUCCESS, p + ":stored", "%s can succeed without having stored the module" % p, f.span)
        res = errors.resolvers(P)
        rep.need(bool(res), "resolve", "the resolution of the definitions of a module was not found")
        chain = [f for f in fns if f.path not in res and f.kind != "Closure" and any(flow.callee(t) in res for i, t in flow.calls(f))]
        rep.need(bool(chain), "resolve:callers", "nothing resolves the modules")
        for f in chain:
            cov, ls = L.covers(f, lambda fn, i, t: flow.callee(t) in res, noskip, lambda ty: named(P, ty) or dt(P, ty) == "::Asn1Module")
            rep.unit("loops over modules", len(ls))
            rep.need(cov, f.path + ":modules", "%s can succeed without resolving every module" % f.path, f.span)
            for x in ls:
                rep.need(not L.early(f, x), f.path + ":early", "%s leaves a loop over modules early" % f.path, flow.where(f, x[0]))
        for p in sorted(res):
            f = P.fns[p]
            preds = class_predicates(P, L, f)

            def stores_def(fn, i, t):
                ty = arg_type(P, fn, t)
                mv = map_value(P, ty) if ty is not None else None
                return flow.last(flow.declared(t)) == "insert" and mv is not None and dt(P, mv) in ("::Asn1Definition", "::Asn1ResolvedDefinition")

            def skip(fn):
                out = set()
                for i, t in flow.calls(fn):
                    ty = P.types[fn.locals[t[3][0]]]
                    if ty["k"] == "adt" and ty["path"] == "core::option::Option" and dt(P, fn.locals[t[3][0]]) == "::Asn1Definition" and looks_up(P, t):
                        out |= opt_edges(P, fn, t[3][0], 0)
                    if flow.callee(t) in preds:
                        out |= set(errors.bool_edges(fn, t[3][0], True))
                return out
            cov, ls = L.covers(f, stores_def, skip, lambda ty: named(P, ty) or dt(P, ty) == "::Asn1Definition")
            rep.unit("loops over definitions", len(ls))
            rep.need(cov, f.path + ":definitions", "%s can succeed without having stored every definition of the module" % f.path, f.span)
            for x in ls:
                rep.need(not L.early(f, x), f.path + ":early", "%s leaves a loop over definitions early" % f.path, flow.where(f, x[0]))

        # generation
        gens = [f for f in fns if f.kind != "Closure" and any(gives_types(P, f.locals[t[3][0]]) for i, t in flow.calls(f)) and f.path in g.reachable([ms[0].path]) and makes_code(P, f)]
        rep.need(bool(gens), "generate", "the generation of the resolved types was not found")

        def pushes(fn, i, t):
            ty = arg_type(P, fn, t)
            return flow.last(flow.declared(t)) in ("push", "extend", "insert", "push_back", "append_all", "append") and ty is not None and "TokenStream" in P.tstr(ty)

        def none_code(fn):
            return set().union(*[opt_edges(P, fn, l, 0) for l in range(len(fn.locals)) if P.types[fn.locals[l]].get("path") == "core::option::Option" and "TokenStream" in P.tstr(fn.locals[l])] or [set()])
        for f in gens:
            cov, ls = L.covers(f, pushes, none_code, lambda ty: types_pair(P, ty))
            rep.need(cov, f.path + ":types", "%s can succeed without having generated every resolved type" % f.path, f.span)
            for x in ls:
                rep.need(not L.early(f, x), f.path + ":early", "%s leaves a loop over types early" % f.path, flow.where(f, x[0]))
        rg = g.reachable([f.path for f in gens])
        for f in fns:
            if f.path not in rg and f.path not in [x.path for x in gens]:
                continue
            for i, b in enumerate(f.blocks):
                if b.get("cl"):
                    continue
                for s in b["st"]:
                    if s[0] == "=" and "TokenStream" in P.tstr(f.locals[s[1][0]]) and "Option<" in P.tstr(f.locals[s[1][0]]) and ends_in_stream(P, f, s) and is_none(P, f, s):
                        if P.tstr(f.ret).find("Option<") >= 0 and "TokenStream" in P.tstr(f.ret):
                            rep.fail(f.path + ":nothing", "%s generates nothing for some definitions" % f.path, s[3])
        rep.unit("functions of the generator", len(rg))

        # iterators over definitions
        for f in fns:
            if errors.has_tokens(P, errors.owner(P, f)):
                continue
            for i, t in flow.calls(f):
                m = flow.last(flow.declared(t))
                if m not in ADAPT or arg_type(P, f, t) is None:
                    continue
                if not carries(P, arg_type(P, f, t)):
                    continue
                if m == "drain" and P.types[arg_type(P, f, t, 1) or 0].get("path", "").endswith("::RangeFull"):
                    continue
                rep.unit("adaptors over definitions")
                c = [closure_fn(P, f, flow.op_place(a)[0]) for a in t[2][1:] if flow.op_place(a)] + [P.fns.get(P.types[x]["def"]) for x in flow.targs(t) if P.types[x]["k"] == "closure"]
                c = [x for x in c if x is not None]
                good = m in ("filter_map", "filter") and c and all(by_variant(P, x) for x in c)
                rep.need(bool(good), "%s:%s" % (f.path, m), "%s leaves out some of the definitions it goes through (%s)" % (f.path, m), flow.where(f, i))
        # what the parser returns is kept
        rep.rule("every module and definition the parser produces is kept by the function that asked for it")
        n = 0
        for f in fns:
            if not errors.has_tokens(P, errors.owner(P, f)):
                continue
            for i, t in flow.calls(f):
                q = flow.callee(t)
                r = flow.result_args(P, f.locals[t[3][0]]) if not t[3][1] else None
                if q not in P.fns or r is None or t[4] is None:
                    continue
                d = dt(P, r[0])
                if d not in ("::Asn1Definition", "::Asn1Module"):
                    continue
                n += 1
                own = flow.result_args(P, f.ret) if f.ret is not None else None
                if own and dt(P, own[0]) == d:
                    rep.ok()
                    continue
                D = flow.Deriv(f)
                fw = D.fwd({t[3][0]})
                keep = set()
                for j, u in flow.calls(f):
                    if flow.last(flow.declared(u)) in ("push", "insert", "push_back") and u[4] is not None:
                        ty = arg_type(P, f, u, len(u[2]) - 1)
                        if ty is not None and dt(P, ty) == d and flow.op_place(u[2][-1])[0] in fw:
                            keep.add((j, u[4]))
                oks = errors.ok_edges(P, f, t[3][0])
                lost = False
                for e in oks:
                    r2 = flow.reach(f, [e[1]], cut=keep)
                    lost |= i in r2 or bool(flow.outcomes(P, f, e, cut=keep) & SUCCESS)
                rep.need(bool(oks) and bool(keep) and not lost, "%s:%s" % (f.path, q), "%s does not keep what %s returned" % (f.path, q), flow.where(f, i))
        rep.unit("parsed modules and definitions", n)
        rep.need(n >= 2, "parsed", "the places where the parser's modules and definitions are kept were not found")


def named(P, ty):
    t = P.types[flow.strip_refs(P, ty)]
    return t["k"] == "str" or t["k"] == "adt" and t["path"].endswith("::String")


def types_pair(P, ty):
    u = P.types[flow.strip_refs(P, ty)]
    if u["k"] == "tuple":
        return any(types_pair(P, x) for x in u["fields"])
    return u.get("path", "").endswith(("::Asn1ResolvedType", "::Asn1ResolvedDefinition"))


def entry_value(P, ty):
    t = P.types[flow.strip_refs(P, ty)]
    return t["k"] == "adt" and t["path"].rsplit("::", 1)[-1] in ("Entry", "OccupiedEntry") and any(kept(P, a) for a in t["args"][:2] if isinstance(a, int))


def looks_up(P, t):
    """is this call a lookup of a definition by name?"""
    q = flow.callee(t)
    if q in P.fns:
        h = P.fns[q]
        cs = [flow.last(flow.declared(u)) for i, u in flow.calls(h)]
        sw = [b for b in h.blocks if b["t"][0] == "switch" and not b.get("cl")]
        return not sw and any(c in ("get", "get_mut") for c in cs) and not set(cs) & (ADAPT | {"filter", "and_then", "take_if"})
    return flow.last(flow.declared(t)) in ("get", "get_mut")


def class_predicates(P, L, f):
    """boolean tests of a definition for which every definition that satisfies them has been stored before"""
    out = set()
    for i, t in flow.calls(f):
        h = P.fns.get(flow.callee(t))
        if h is None:
            continue
        for j, u in flow.calls(h):
            q = flow.callee(u)
            if q not in P.fns or not returns_bool(P, P.fns[q]) or arg_type(P, h, u) is None or dt(P, arg_type(P, h, u)) != "::Asn1Definition":
                continue

            def ins(fn, k, v):
                ty = arg_type(P, fn, v)
                return flow.last(flow.declared(v)) == "insert" and ty is not None and map_value(P, ty) is not None and dt(P, map_value(P, ty)) == "::Asn1Definition"

            def skip(fn, q=q):
                r = set()
                for k, v in flow.calls(fn):
                    if flow.callee(v) == q:
                        r |= set(errors.bool_edges(fn, v[3][0], False))
                return r
            if L.covers(h, ins, skip, lambda ty: dt(P, ty) == "::Asn1Definition")[0] and not any(L.early(h, x) for x in L.loops(h)):
                out.add(q)
    return out


def imports_loops(P, f):
    """loops over (symbol, module name) pairs"""
    out = []
    for lp in Loops(P).loops(f):
        t = P.types[lp[4]]
        if t["k"] == "tuple" and len(t["fields"]) == 2 and P.types[flow.strip_refs(P, t["fields"][1])].get("path", "").endswith("::Asn1ModuleName"):
            out.append(lp)
    return out


def import_tests(P, f, lp):
    """(edges after the module was found, edges after the symbol was found) or (None, None) when the loop never looks a module up"""
    mods, syms = set(), set()
    found = False
    modl = set()
    D = flow.Deriv(f)
    for i, t in flow.calls(f):
        m, ty = flow.last(flow.declared(t)), arg_type(P, f, t)
        mv = map_value(P, ty) if ty is not None else None
        if mv is not None and dt(P, mv) == "::Asn1Module" and m in ("get", "contains_key", "get_key_value", "get_mut"):
            key = set()
            mir.op_locals(t[2][1], key)
            if not any(P.types[flow.strip_refs(P, f.locals[x])].get("path", "").endswith("::Asn1ModuleName") for x in D.back(key)):
                continue
            found = True
            e = set(errors.bool_edges(f, t[3][0], True)) if m == "contains_key" else opt_edges(P, f, t[3][0], 1)
            no = set(errors.bool_edges(f, t[3][0], False)) if m == "contains_key" else opt_edges(P, f, t[3][0], 0)
            if all(only_err(P, f, x) for x in no):
                mods |= e
            modl |= D.fwd({t[3][0]})
        # helpers
        q = flow.callee(t)
        if q in P.fns and flow.result_args(P, f.locals[t[3][0]]) and t[4] is not None:
            h = P.fns[q]
            hm, hs = import_tests(P, h, None)
            if hm is not None:
                found = True
                if hm and not flow.outcomes(P, h, 0, cut=hm) & SUCCESS:
                    mods.add((i, t[4]))
                if hs and not flow.outcomes(P, h, 0, cut=hs) & SUCCESS:
                    syms.add((i, t[4]))
    for i, t in flow.calls(f):
        q = flow.callee(t)
        us = set()
        for a in t[2]:
            mir.op_locals(a, us)
        if not us & modl:
            continue
        ok = False
        if q in P.fns and returns_bool(P, P.fns[q]) and membership(P, P.fns[q]):
            ok = True
        elif flow.last(flow.declared(t)) == "contains_key" and map_value(P, arg_type(P, f, t) or 0) is not None and kept(P, map_value(P, arg_type(P, f, t))):
            ok = True
        if not ok:
            continue
        yes, no = set(errors.bool_edges(f, t[3][0], True)), set(errors.bool_edges(f, t[3][0], False))
        syms |= yes
        for x in no:
            if not only_err(P, f, x, cut=yes):
                # `a || b` tests the second only where the first failed
                r = flow.outcomes(P, f, x, cut=yes | later(P, f, modl, i))
                if r & (SUCCESS | {"loop"}):
                    syms -= yes
    return (mods, syms) if found else (None, None)


def later(P, f, modl, i):
    out = set()
    for j, t in flow.calls(f):
        if j != i and flow.last(flow.declared(t)) == "contains_key":
            us = set()
            for a in t[2]:
                mir.op_locals(a, us)
            if us & modl:
                out |= set(errors.bool_edges(f, t[3][0], True))
    return out


def membership(P, h):
    """true only where a lookup by the given name succeeded"""
    cut = set()
    direct = set()
    for i, t in flow.calls(h):
        if flow.last(flow.declared(t)) == "contains_key":
            mv = map_value(P, arg_type(P, h, t) or 0)
            if mv is not None and kept(P, mv):
                cut |= set(errors.bool_edges(h, t[3][0], True))
                direct.add(i)
        elif flow.last(flow.declared(t)) in ("is_some", "is_some_and"):
            direct.add(i)
    if not direct:
        return False
    r = flow.reach(h, [0], cut)
    for i in r:
        for s in h.blocks[i]["st"]:
            if s[0] == "=" and s[1] == [0, []]:
                c = flow.const(s[2][1]) if s[2][0] == "use" else None
                if c is None:
                    src = flow.op_place(s[2][1]) if s[2][0] == "use" else None
                    if src is None or not any(h.blocks[j]["t"][3] == src for j in direct):
                        return False
                elif c.get("v"):
                    return False
        t = h.blocks[i]["t"]
        if t[0] == "call" and t[3] == [0, []] and i not in direct:
            return False
    return True


def runs_before(P, m, must, res):
    """does every path of m to the resolution of definitions pass a call of `must`?"""
    g = errors._G

    def before(f, depth):
        stop = set()
        for i, t in flow.calls(f):
            q = flow.callee(t)
            if q in P.fns and (q in must or g.reachable([q]) & must and not g.reachable([q]) & res):
                stop.add(i)
        r = flow.reach(f, [0], {(i, s) for i in stop for s in flow.succ_nc(f, i)})
        for i, t in flow.calls(f):
            q = flow.callee(t)
            if i in r and q in P.fns and (q in res or g.reachable([q]) & res):
                if q not in res and depth < 6 and before(P.fns[q], depth + 1):
                    continue
                return False
        return True
    return before(m, 0)


def gives_types(P, ty):
    """a collection or iterator of (name, resolved type) pairs"""
    t = P.types[ty]
    if t["k"] != "adt":
        return False
    for a in t["args"]:
        if isinstance(a, int):
            u = P.types[flow.strip_refs(P, a)]
            if u["k"] == "tuple" and any(P.types[flow.strip_refs(P, x)].get("path", "").endswith("::Asn1ResolvedType") for x in u["fields"]):
                return True
    return False


def makes_code(P, f):
    return any("TokenStream" in P.tstr(f.locals[t[3][0]]) for i, t in flow.calls(f))


def ends_in_stream(P, f, s):
    ty = errors.place_type(P, f, s[1])
    if ty is None:
        return False
    t = P.types[ty]
    return t["k"] == "adt" and t["path"] == "core::option::Option" and "TokenStream" in P.tstr(ty)


def is_none(P, f, s):
    rv = s[2]
    if rv[0] == "agg":
        a = rv[1]
        return isinstance(a, list) and a[0] == "adt" and a[1] == "core::option::Option" and a[2] == 0
    if rv[0] == "use" and isinstance(rv[1], dict) and rv[1].get("c"):
        return bool(rv[1].get("agg")) and rv[1]["agg"]["variant"] == 0
    return False


def carries(P, ty):
    """a collection or an iterator whose items are definitions or modules"""
    t = P.types[flow.strip_refs(P, ty)]
    if t["k"] == "slice":
        return bool(dt(P, t["to"]))
    if t["k"] != "adt":
        return False
    if t["path"] == "core::option::Option":
        return False
    return any(isinstance(a, int) and (dt(P, a) or carries(P, a)) for a in t["args"])


def by_variant(P, c):
    """does the closure decide only on which variant of Asn1ResolvedDefinition it is given, keeping types?"""
    for i, b in enumerate(c.blocks):
        if b.get("cl") or b["t"][0] != "switch":
            continue
        pl = flow.op_place(b["t"][1])
        if pl is None:
            return False
        src = [s for x in c.blocks for s in x["st"] if s[0] == "=" and s[1] == [pl[0], []]]
        if len(src) != 1 or src[0][2][0] != "discr":
            return False
        ty = errors.place_type(P, c, src[0][2][1])
        if ty is None or not P.types[flow.strip_refs(P, ty)].get("path", "").endswith("::Asn1ResolvedDefinition"):
            return False
    if any(t for i, t in flow.calls(c)):
        return False
    cut = variant_edges(P, c, "::Asn1ResolvedDefinition", "Type")
    # on the Type edge nothing is left out
    for i in flow.reach(c, [0], cut):
        for s in c.blocks[i]["st"]:
            if s[0] == "=" and s[1] == [0, []]:
                if is_none(P, c, s):
                    return False
                k = flow.const(s[2][1]) if s[2][0] == "use" else None
                if k is not None and k.get("v") == 0:
                    return False
    return bool(cut)
