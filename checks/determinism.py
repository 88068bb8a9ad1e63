"""C12: nothing whose value is not determined by the input reaches the compiler's output or decisions."""
import re

import mir
import flow
import effects

HASH = ("std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet", "hashbrown::map::HashMap", "hashbrown::set::HashSet",
        "std::collections::HashMap", "std::collections::HashSet")
ITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "into_iter", "retain", "extract_if", "intersection", "union",
        "difference", "symmetric_difference", "fmt", "new_debug"}
# the order in which these hand out ready elements is that of a hash map
TOPO = {"pop", "pop_all", "peek", "peek_all", "next", "into_iter"}
# consumers for which the order of the elements makes no difference
SORT = re.compile(r"^sort(_unstable)?(_by)?(_key)?(_by_key|_by_cached_key)?$")
INSENSITIVE = {"count", "len", "is_empty", "all", "any", "max", "min", "sum", "contains", "contains_key"}
ORDERED = ("alloc::collections::btree::map::BTreeMap", "alloc::collections::btree::set::BTreeSet", "alloc::collections::binary_heap::BinaryHeap") + HASH
OTHER = [
    ("the clock", r"^std::time::(Instant|SystemTime)::(now|elapsed)"),
    ("random numbers", r"^(rand|getrandom|fastrand|oorandom)::|RandomState::new|RandomState as core::default::Default|DefaultHasher as core::default|DefaultHasher::new"),
    ("the identity of a thread or process", r"^std::thread::(current|id|Thread::id)|^std::thread::.*::current$|^std::process::id|ThreadId"),
    ("the environment", r"^std::env::(var|vars|var_os|vars_os|current_dir|current_exe|temp_dir|home_dir|option_env)"),
    ("the order of a directory", r"^std::fs::read_dir|^std::path::Path::read_dir"),
    ("the number of processors", r"available_parallelism"),
    ("an address", r"core::fmt::Pointer|new_pointer|::(expose_provenance|addr)$|core::ptr::hash"),
    ("state shared between runs or threads", r"^core::sync::atomic::Atomic\w*::\w+|^std::thread::local::LocalKey|^std::sync::(mpsc|mutex|rwlock|poison)|^std::sync::.*(Mutex|RwLock|Condvar|Sender|Receiver)"),
]
OTHER = [(n, re.compile(r)) for n, r in OTHER]


def hash_type(P, ty):
    return any(P.types[x]["k"] == "adt" and P.types[x]["path"] in HASH for x in flow.deep_types(P, ty))


def is_hash_op(P, t):
    """what is iterated if the call iterates over (or prints) a hash map or set"""
    q = flow.callee(t) or ""
    d = flow.declared(t) or ""
    m = flow.last(d)
    if m not in ITER and m not in TAKES:
        return None
    if m in ("fmt", "new_debug"):
        for x in flow.targs(t):
            if hash_type(P, x):
                return "the Debug text of a hash map"
        return None
    for a in t[2][:1]:
        ty = arg_type(P, a)
        if ty is not None:
            u = P.types[flow.strip_refs(P, ty)]
            if u["k"] == "adt" and u["path"] in HASH:
                return "the order of a hash map"
    if m in TAKES:
        for a in t[2][1 if m != "from_iter" else 0:]:
            ty = arg_type(P, a)
            if ty is not None:
                u = P.types[flow.strip_refs(P, ty)]
                if u["k"] == "adt" and u["path"] in HASH and not receiver_hash(P, t):
                    return "the order of a hash map"
        return None
    for x in flow.targs(t)[:1]:
        u = P.types[flow.strip_refs(P, x)]
        if m == "into_iter" and u["k"] == "adt" and u["path"] in HASH:
            return "the order of a hash map"
    if any(h in q for h in HASH):
        return "the order of a hash map"
    return None


_FN = None
# take an iterable
TAKES = {"extend", "from_iter", "zip", "chain", "append"}


def receiver_hash(P, t):
    if not t[2]:
        return False
    ty = arg_type(P, t[2][0])
    if ty is None:
        return False
    u = P.types[flow.strip_refs(P, ty)]
    return u["k"] == "adt" and u["path"] in ORDERED

def arg_type(P, a):
    pl = flow.op_place(a)
    if pl is not None and not pl[1]:
        return _FN.locals[pl[0]]
    if isinstance(a, dict) and a.get("c"):
        return a["ty"]
    return None


def is_topo(t):
    q = flow.callee(t) or ""
    return "topological_sort" in q and flow.last(flow.declared(t)) in TOPO


def consumed_in_order(P, fn, i, t):
    """None if every order-sensitive use of the result comes after a sort; else a description"""
    if flow.last(flow.declared(t)) in ("pop", "peek") and is_topo(t):
        return "elements are taken one by one"
    bad, ret = follow(P, fn, t[4], [t[3][0]], 0)
    if ret:
        bad = bad + [(0, "return")]
    if bad:
        return "used in that order (%s)" % ", ".join(sorted({str(m) for _, m in bad}))
    return None


def follow(P, fn, start, held, depth):
    """order-sensitive uses of the unordered elements in `held` from block `start` on, and whether they are returned unordered"""
    D = flow.Deriv(fn)
    bad = []
    ret = False
    seen = set()
    work = [(start, frozenset(held))]
    while work:
        b, hold = work.pop()
        if b is None or (b, hold) in seen:
            continue
        seen.add((b, hold))
        if len(seen) > 4000:
            return [(b, "too many paths")], False
        h = set(hold)
        for s in fn.blocks[b]["st"]:
            if s[0] != "=":
                continue
            u = set()
            mir.rv_uses(s[2], u)
            if s[2][0] in ("discr",):
                h.discard(s[1][0])
                continue
            if u & h:
                h.add(s[1][0])
            elif not s[1][1]:
                h.discard(s[1][0])
        tt = fn.blocks[b]["t"]
        if tt[0] == "call":
            us = set()
            for a in tt[2]:
                mir.op_locals(a, us)
            m = flow.last(flow.declared(tt))
            dty = P.types[flow.strip_refs(P, fn.locals[tt[3][0]])]
            if us & h:
                if SORT.match(m or ""):
                    # the receiver and everything it refers to is ordered now
                    rec = set()
                    mir.op_locals(tt[2][0], rec)
                    h -= closure_refs(fn, D, rec)
                elif m in INSENSITIVE:
                    h.discard(tt[3][0])
                elif dty["k"] == "adt" and dty["path"] in ORDERED:
                    h.discard(tt[3][0])
                elif m in ("extend", "append", "insert") and tt[2] and is_ordered_local(P, fn, min(_ol(tt[2][0]) or {0})):
                    pass
                elif m in ("push", "push_back", "extend", "append", "extend_from_slice") and tt[2] and fresh_vec(P, fn, D, _ol(tt[2][0])):
                    h |= closure_refs(fn, D, _ol(tt[2][0]))
                elif flow.callee(tt) in P.fns and depth < 3:
                    g = P.fns[flow.callee(tt)]
                    inner = [k + 1 for k, a in enumerate(tt[2]) if _ol(a) & h]
                    b2, r2 = follow(P, g, 0, inner, depth + 1)
                    if b2:
                        bad += b2
                        continue
                    if r2:
                        h.add(tt[3][0])
                    elif not tt[3][1]:
                        h.discard(tt[3][0])
                        for k in inner:
                            if P.types[g.locals[k]]["k"] == "ref" and P.types[g.locals[k]].get("mut", True) and sorts_param(P, g, k):
                                h -= closure_refs(fn, D, _ol(tt[2][k - 1]))
                elif moves_only(m) or is_lazy(m) or m in ("next", "swap", "index", "len", "is_empty"):
                    h.add(tt[3][0])
                elif m in ("drop", "drop_in_place"):
                    pass
                else:
                    bad.append((b, m))
                    continue
            else:
                if not tt[3][1]:
                    h.discard(tt[3][0])
        elif tt[0] == "return":
            ret = ret or 0 in h
            continue
        live = flow.fn_live(fn)
        for n in flow.succ_nc(fn, b):
            work.append((n, frozenset(x for x in h if x in live[n])))
    return bad, ret


def fresh_vec(P, fn, D, locs):
    """is the collection a vector of this call (not one that already holds something in order)?  Its contents become unordered."""
    return all(x > fn.argc or x == 0 for x in closure_refs(fn, D, locs)) and any(SORT.match(flow.last(flow.declared(u)) or "") and
           (closure_refs(fn, D, _ol(u[2][0])) & closure_refs(fn, D, locs)) for j, u in flow.calls(fn) if u[2])


def sorts_param(P, g, k):
    D = flow.Deriv(g)
    return any(SORT.match(flow.last(flow.declared(u)) or "") and u[2] and k in closure_refs(g, D, _ol(u[2][0])) for j, u in flow.calls(g))


def _ol(a):
    s = set()
    mir.op_locals(a, s)
    return s


def is_ordered_local(P, fn, l):
    u = P.types[flow.strip_refs(P, fn.locals[l])]
    return u["k"] == "adt" and u["path"] in ORDERED


def closure_refs(fn, D, locs):
    """the locals and everything they are references into (through reborrows, moves and deref calls)"""
    out = set(locs)
    st = list(locs)
    via = alias_src(fn)
    while st:
        x = st.pop()
        for y in via.get(x, ()):
            if y not in out:
                out.add(y)
                st.append(y)
    return out


def alias_src(fn):
    out = {}
    for b in fn.blocks:
        if b.get("cl"):
            continue
        for s in b["st"]:
            if s[0] == "=" and s[2][0] in ("ref", "use", "cast", "rawptr"):
                u = set()
                mir.rv_uses(s[2], u)
                out.setdefault(s[1][0], set()).update(u)
        t = b["t"]
        if t[0] == "call" and flow.last(flow.declared(t)) in ("deref", "deref_mut", "as_mut", "as_mut_slice", "borrow_mut") and t[2]:
            u = set()
            mir.op_locals(t[2][0], u)
            out.setdefault(t[3][0], set()).update(u)
    return out


def moves_only(m):
    return m in ("deref", "deref_mut", "as_mut", "as_ref", "borrow", "borrow_mut", "clone", "cloned", "to_vec", "into", "from", "as_slice", "as_mut_slice",
                 "iter", "iter_mut", "into_iter", "keys", "values", "collect", "from_iter", "by_ref", "into_boxed_slice", "into_vec")


def is_lazy(m):
    return m in ("map", "filter", "filter_map", "copied", "cloned", "flatten", "flat_map", "chain", "inspect")


class C12:
    LEVEL = "other"
    TECH = "dataflow from unordered and external sources over MIR"
    NOTE = ("every call of the compiler and of the derive macro, resolved by rustc; collections of other crates (topological-sort) by a table of what their order depends on; "
            "rustfmt is trusted to be deterministic")
    META = dict(what="Every source of a value that the input does not determine - iteration over hash maps and sets, elements handed out by the topological sort, Debug text of "
                     "hash maps, clocks, random numbers, threads, environment, addresses, process-wide state - is enumerated in the compiler and the derive macro, and each must be "
                     "sorted or reduced to something that does not depend on order before any other use.",
                assumptions=["rustfmt, quote, heck and the standard ordered collections are deterministic"])

    @staticmethod
    def check(rep, w, tier):
        global _FN
        rep.rule("no function iterates over a hash map or set, or prints one, unless the elements are sorted or counted before any other use")
        rep.rule("what the topological sort hands out is sorted before any other use")
        rep.rule("no clock, random number, thread identity, environment variable, directory order, address or process-wide mutable state is read; a spawned thread owns what it works on and is joined")
        P = effects.load(w, ["asn1-compiler", "asn1_codecs_derive"])
        rep.need({"asn1_compiler", "asn1_codecs_derive"} <= set(P.crates), "crates", "the compiler and the derive macro were not found")
        g = effects.Graph(P)
        nt = 0
        for p, f in sorted(P.fns.items()):
            rep.unit("functions")
            _FN = f
            for i, q, fd in effects.uses(f):
                rep.unit("calls and function values")
                n = next((n for n, r in OTHER if r.search(q) or r.search(fd["path"])), None)
                rep.need(n is None, "%s:%s" % (p, q), "%s depends on %s through %s" % (p, n, q), flow.where(f, i))
            for i, t in flow.calls(f):
                h = is_hash_op(P, t)
                if h is not None:
                    rep.unit("iterations over hash maps")
                    c = "its text" if "text" in h else "kept in a sequence" if flow.last(flow.declared(t)) in ("extend", "append") else consumed_in_order(P, f, i, t)
                    rep.need(c is None, "%s:%s" % (p, h), "%s depends on %s: %s" % (p, h, c), flow.where(f, i))
                if is_topo(t):
                    nt += 1
                    c = consumed_in_order(P, f, i, t)
                    rep.need(c is None, "%s:topological" % p, "%s depends on the order in which the topological sort hands out its elements: %s" % (p, c), flow.where(f, i))
                if flow.last(flow.callee(t)) == "spawn" and "thread" in (flow.callee(t) or ""):
                    bad = [P.tstr(x) for y in flow.targs(t) for x in flow.deep_types(P, y)
                           if re.search(r"^(alloc::sync::(Arc|Weak)|core::cell::|std::sync::|core::sync::|\*(const|mut) |&mut )", P.tstr(x))]
                    rep.need(not bad, "%s:spawn" % p, "%s shares %s with the thread it spawns" % (p, ", ".join(sorted(set(bad)))[:200]), flow.where(f, i))
                    D = flow.Deriv(f)
                    fw = D.fwd([t[3][0]])
                    joined = any(flow.last(flow.declared(u)) == "join" and u[2] and (_ol(u[2][0]) & fw) for j, u in flow.calls(f))
                    rep.need(joined, "%s:join" % p, "%s does not join the thread it spawns" % p, flow.where(f, i))
        rep.unit("topological sorts", nt)
        rep.need(nt >= 1, "topo", "the topological sort of modules and definitions was not found")
