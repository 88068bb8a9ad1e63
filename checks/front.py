"""C13 / C14 / C23: tokenizer and parser of the compiler on every input."""
import sys
import run
import mir
import codec
import flow
import interp
from dom import const, sub, addc, add, scale

CRATE = "asn1_compiler"
# an input has fewer tokens (and characters) than this
MAXTOK = (1 << 31) - 2

# predicates on characters: ranges on which they are known to hold (anything else is unknown)
PREDS = {
    "is_numeric": (("0", "9"),),
    "is_ascii_digit": (("0", "9"),),
    "is_alphanumeric": (("0", "9"), ("a", "z"), ("A", "Z")),
    "is_ascii_alphanumeric": (("0", "9"), ("a", "z"), ("A", "Z")),
    "is_alphabetic": (("a", "z"), ("A", "Z")),
    "is_ascii_alphabetic": (("a", "z"), ("A", "Z")),
    "is_ascii_hexdigit": (("0", "9"), ("a", "f"), ("A", "F")),
    "is_lowercase": (("a", "z"),),
    "is_uppercase": (("A", "Z"),),
    "is_ascii_lowercase": (("a", "z"),),
    "is_ascii_uppercase": (("A", "Z"),),
    "is_whitespace": ((" ", " "), ("\t", "\n")),
    "is_ascii_whitespace": ((" ", " "), ("\t", "\n")),
}


def items(P, ty):
    """"tok" / "chr" for a slice of tokens or characters behind a reference"""
    t = P.types[ty]
    if t["k"] != "ref":
        return None
    t = P.types[t["to"]]
    if t["k"] == "adt" and t["path"].endswith("::Vec"):
        e = t["args"][0]
    elif t["k"] == "slice":
        e = t["to"]
    else:
        return None
    e = P.types[e]
    if e["k"] == "adt" and e["path"].endswith("::Token"):
        return "tok"
    return "chr" if e["k"] == "char" else None


def count_path(P, ret):
    """path of the consumed count in the Ok payload of a return type: () for usize, (i,) for a tuple, None if there is none"""
    if ret is None:
        return None
    r = flow.result_args(P, ret)
    if r is None:
        return None
    o = P.types[r[0]]
    if o["k"] == "int" and o["s"] == "usize":
        return ()
    if o["k"] == "tuple" and o["fields"]:
        last = P.types[o["fields"][-1]]
        if last["k"] == "int" and last["s"] == "usize":
            return (len(o["fields"]) - 1,)
    return None


def functions(P):
    out = []
    for f in P.by_crate[CRATE]:
        if f.kind == "Closure" or f.macro or (f.trait and "fmt::" in f.trait):
            continue
        if "::tokenizer::" in f.path or "::parser::" in f.path or f.path.startswith("parser::") or f.path.startswith("tokenizer::"):
            out.append(f)
    return out


def classify(P):
    """parse steps: path -> (fn, index of the slice, path of the count); tests: path -> (fn, slice index, index of a second slice or None)"""
    steps, tests, rest = {}, {}, []
    for f in functions(P):
        ix = [i for i in range(f.argc) if items(P, f.locals[i + 1])]
        cp = count_path(P, f.ret)
        # a position passed along is not a count of its own: such a helper is looked at where it is called
        pos = [i for i in range(f.argc) if P.types[f.locals[i + 1]]["k"] == "int" and P.types[f.locals[i + 1]]["s"] == "usize"]
        if len(ix) == 1 and cp is not None and (not pos or items(P, f.locals[ix[0] + 1]) == "chr"):
            steps[f.path] = (f, ix[0], cp)
            continue
        r = flow.result_args(P, f.ret) if f.ret is not None else None
        if len(ix) == 1 and r is not None and P.types[r[0]]["k"] == "bool":
            o = [i for i in range(f.argc) if i != ix[0] and P.types[f.locals[i + 1]]["k"] == "ref" and P.types[P.types[f.locals[i + 1]]["to"]]["k"] == "slice"]
            tests[f.path] = (f, ix[0], o[0] if len(o) == 1 else None)
            continue
        rest.append(f)
    return steps, tests, rest


def count_of(v, cp):
    """Lin of the consumed count in an Ok value"""
    x = v[3][0]
    for i in cp:
        if x[0] != "tup":
            return None
        x = x[1][i]
    return x[1] if x[0] == "i" else None


def option_path(P, ret, cp):
    """index of the only Option beside the count in the Ok payload"""
    if not cp:
        return None
    o = P.types[flow.result_args(P, ret)[0]]
    ix = [i for i, t in enumerate(o["fields"]) if P.types[t]["k"] == "adt" and P.types[t]["path"] == "core::option::Option"]
    return ix[0] if len(ix) == 1 else None


def ok_value(I, st, ret, cp, n, op=None, var=None):
    P = I.prog
    okty = flow.result_args(P, ret)[0]
    if not cp:
        return ("adt", ret, 0, (("i", n),))
    fs = list(P.types[okty]["fields"])
    vals = [I.fresh(st, t) for t in fs]
    vals[cp[0]] = ("i", n)
    if op is not None:
        vals[op] = ("adt", fs[op], var, (I.fresh(st, P.types[fs[op]]["args"][0]),) if var else ())
    return ("adt", ret, 0, (("tup", tuple(vals)),))


def err_value(I, st, ret):
    return ("adt", ret, 1, (I.fresh(st, flow.result_args(I.prog, ret)[1]),))


def slice_arg(I, st, v):
    for _ in range(4):
        if v[0] == "ptr":
            w = I.get(st, v[1], v[2])
            if w[0] == "seq":
                return w
            if w[0] in ("adt", "top"):
                s = I.seq_of(st, v)
                return s
            v = w
        elif v[0] == "seq":
            return v
        else:
            break
    return I.seq_of(st, v)


class Run:
    """analysis of one function"""

    def __init__(self, P, fn, steps, tests, lo, tight, pre=None):
        self.tight = tight
        self.pres = pre or {}
        self.pre = self.pres.get(fn.path, 0)
        self.P, self.fn, self.steps, self.tests, self.lo = P, fn, steps, tests, lo
        self.ob, self.loops, self.calls, self.bad = {}, {}, {}, {}
        self.low = None
        self.high = None
        self.me = None

    def obligation(self, kind, detail, ok, fn, sp, stack, st):
        a = self.ob.setdefault((fn.path, sp, kind, detail), [0, 0])
        a[0 if ok else 1] += 1

    def on_call(self, I, st, path, args, info):
        q = path
        m = path.split("::")[-1]
        if m in PREDS and "<impl char>" in path:
            v = args[0]
            if v[0] == "ptr":
                v = I.get(st, v[1], v[2])
            if v[0] == "i":
                for a, b in PREDS[m]:
                    if st.num.prove(addc(v[1], -ord(a))) and st.num.prove(sub(const(ord(b)), v[1])):
                        return [(("b", True), st)]
            return [(("bs", interp.uid(), True), st)]
        if q.endswith("::tokenizer::tokenize") and self.fn.path != q:
            okty = flow.result_args(self.P, info["dty"])[0]
            e = st.copy()
            return [(err_value(I, e, info["dty"]), e),
                    (("adt", info["dty"], 0, (("seq", interp.uid(), const(0), st.num.fresh(0, MAXTOK), self.P.types[okty]["args"][0]),)), st)]
        if q in self.steps and not (self.fn.path == q and not I.stack):
            f, ix, cp = self.steps[q]
            s = slice_arg(I, st, args[ix])
            out = []
            L = s[3] if s is not None else st.num.fresh(0, interp.MAXLEN)
            if self.pres.get(q):
                self.obligation("precondition", "%s is given at least one token" % q, st.num.prove(addc(L, -1)), self.fn, info["sp"], (), st)
                if not st.num.assume(addc(L, -1)):
                    return []
            if self.me is not None:
                if s is None or s[1] != self.me:
                    rel = None
                else:
                    rel = "later" if st.num.prove(addc(s[2], -1)) else "same"
                self.calls.setdefault((q, info["sp"]), set()).add(rel)
            e = st.copy()
            out.append((err_value(I, e, f.ret), e))
            lo = self.lo.get(q, 0)
            op = option_path(self.P, f.ret, cp)
            if op is not None and not lo and self.lo.get((q, "some")):
                # nothing found, nothing consumed; something found, something consumed
                h = st.copy()
                n = h.num.fresh(1, interp.MAXLEN)
                if h.num.assume(sub(L, n)):
                    for a in args:
                        I.havoc(h, a) if a is not args[ix] else None
                    out.append((ok_value(I, h, f.ret, cp, n, op, 1), h))
                n = st.num.fresh(0, interp.MAXLEN)
                if st.num.assume(sub(L, n)):
                    for a in args:
                        I.havoc(st, a) if a is not args[ix] else None
                    out.append((ok_value(I, st, f.ret, cp, n, op, 0), st))
                return out
            n = st.num.fresh(lo, interp.MAXLEN)
            if st.num.assume(sub(L, n)):
                for a in args:
                    I.havoc(st, a) if a is not args[ix] else None
                out.append((ok_value(I, st, f.ret, cp, n), st))
            return out
        if q in self.tests and self.fn.path not in self.tests:
            f, ix, o = self.tests[q]
            s = slice_arg(I, st, args[ix])
            L = s[3] if s is not None else None
            e = st.copy()
            need = const(1)
            if o is not None:
                s2 = slice_arg(I, st, args[o])
                need = s2[3] if s2 is not None and self.lo.get(q) == "len" else const(1)
            if self.lo.get(q, 0) == 0:
                need = None
            if L is not None and need is not None:
                if self.tight.get(q) and not e.num.assume(addc(sub(need, L), -1)):
                    e = None
                if not st.num.assume(sub(L, need)):
                    st = None
            out = []
            if e is not None:
                out.append((err_value(I, e, f.ret), e))
            if st is not None:
                out.append((("adt", f.ret, 0, (("bs", interp.uid(), True),)), st))
            return out
        return None

    def backedge(self, I, fn, b, s, slots, fid):
        """places whose value strictly grows (and stays below a length) or strictly shrinks on every way around the loop"""
        now = {}
        for k, v in s.mem.items():
            I.int_slots(k, (), v, now)
        good = set()
        for sl, old in slots.items():
            e = now.get(sl)
            if e is None or sl[0][0] != "L" or sl[0][1] != fid:
                continue
            d = sub(e, old)
            if s.num.prove(addc(d, -1)) and (sl[1] and sl[1][-1] == "pos" or s.num.ival(e)[1] <= BOUND or s.num.prove(sub(const(BOUND), e))):
                good.add((sl[0][2], sl[1], "+"))
            elif s.num.prove(addc(scale(d, -1), -1)) and (s.num.ival(e)[0] >= -BOUND or s.num.prove(addc(e, BOUND))):
                good.add((sl[0][2], sl[1], "-"))
        k = (fn.path, b)
        self.loops[k] = good if k not in self.loops else self.loops[k] & good

    def go(self):
        self.ob, self.loops, self.calls, self.bad = {}, {}, {}, {}
        self.low = self.me = None
        self.some = 1
        P, fn = self.P, self.fn
        I = codec.new_interp(P, self.obligation)
        I.MAXSTATES = 400
        I.memo = frozenset(i for i, t in enumerate(P.types) if t["k"] == "char")
        self.I = I
        st = interp.St()
        first = [True]

        def on_call(s, path, args, info):
            return self.on_call(I, s, path, args, info)
        I.on_call = on_call
        I.backedge = lambda f, b, s, slots, fid: self.backedge(I, f, b, s, slots, fid)
        args = []
        ix = self.steps[fn.path][1] if fn.path in self.steps else self.tests[fn.path][1] if fn.path in self.tests else None
        ln = None
        for i in range(fn.argc):
            ty = fn.locals[i + 1]
            if i == ix and P.types[P.types[ty]["to"]]["k"] == "slice":
                ln = st.num.fresh(self.pre, MAXTOK)
                self.me = interp.uid()
                v = ("seq", self.me, const(0), ln, P.types[P.types[ty]["to"]]["to"])
                p = I.newptr(st, v, False)
                st.ghost["roots"] = st.ghost.get("roots", ()) + (p[1],)
                args.append(p)
            else:
                t = P.types[ty]
                if t["k"] == "ref" and P.types[t["to"]]["k"] == "slice":
                    p = I.newptr(st, I.newseq(st, P.types[t["to"]]["to"]), False)
                    st.ghost["roots"] = st.ghost.get("roots", ()) + (p[1],)
                    args.append(p)
                else:
                    args.append(I.fresh(st, ty))
        self.ln = ln
        outs = I.run(fn, args, st)
        self.gaps, self.unmodelled = list(I.gaps), dict(I.unmodelled)
        if fn.path in self.steps:
            cp = self.steps[fn.path][2]
            for v, s in outs:
                if v[0] == "adt" and v[2] == 1:
                    continue
                n = count_of(v, cp) if v[0] == "adt" else None
                if n is None or ln is None:
                    self.bad["count"] = "the number of tokens it reports is not determined"
                    self.low = 0
                    continue
                if not s.num.prove(sub(ln, n)):
                    self.bad["count"] = "it can report more tokens than it was given"
                l = 1 if s.num.prove(addc(n, -1)) else 0
                self.low = l if self.low is None else min(l, self.low)
                op = option_path(P, fn.ret, cp)
                if op is not None:
                    x = v[3][0][1][op] if v[3][0][0] == "tup" else None
                    if not l and not (x is not None and x[0] == "adt" and x[2] == 0):
                        self.some = 0
        elif fn.path in self.tests:
            f, i, o = self.tests[fn.path]
            self.tight = True
            for v, s in outs:
                if v[0] == "adt" and v[2] == 1:
                    need = const(1) if o is None else slice_arg(I, s, args[o])[3]
                    if not s.num.prove(addc(sub(need, ln), -1)):
                        self.tight = False
                    continue
                if o is None:
                    l = 1 if s.num.prove(addc(ln, -1)) else 0
                else:
                    s2 = slice_arg(I, s, args[o])
                    l = "len" if s.num.prove(sub(ln, s2[3])) else 1 if s.num.prove(addc(ln, -1)) else 0
                self.low = l if self.low in (None, l) else 1 if {self.low, l} == {1, "len"} and False else 0
        return self



BOUND = interp.MAXLEN * 8


def sites(fn, sp, op):
    """(block, local, constant or None) of the checked operations at a span"""
    out = []
    for i, b in enumerate(fn.blocks):
        for s in b["st"]:
            if s[0] == "=" and s[2][0] == "bin" and s[2][1] == op + "WithOverflow" and s[3] == sp:
                pl = flow.op_place(s[2][2])
                if pl is None or pl[1]:
                    return []
                out.append((i, pl[0], s[2][3].get("v") if isinstance(s[2][3], dict) else None))
    return out


def counter(P, fn, sp, op, loops):
    """a local that only holds constants and is stepped by one, at most once up and once down on every way around a loop that counts tokens,
    stays within its type: it moves by at most one per token"""
    ss = sites(fn, sp, op)
    if len(ss) != 1 or ss[0][2] != 1:
        return False
    l = ss[0][1]
    if P.types[fn.locals[l]]["k"] != "int" or P.types[fn.locals[l]]["s"] not in ("i32", "u32", "i64", "u64", "isize", "usize"):
        return False
    nb = {"Add": 0, "Sub": 0}
    steps = set()
    for i, b in enumerate(fn.blocks):
        for s in b["st"]:
            if s[0] != "=":
                continue
            if s[1] == [l, []]:
                if s[2][0] == "use" and isinstance(s[2][1], dict) and "c" in s[2][1]:
                    if abs(s[2][1].get("v", 1 << 40)) > 1:
                        return False
                    continue
                src = flow.op_place(s[2][1]) if s[2][0] == "use" else None
                if src is None or len(src[1]) != 1:
                    return False
                steps.add(src[0])
            elif s[2][0] in ("ref", "rawptr") and s[2][1][0] == l and (s[2][-1] is True or s[2][0] != "ref"):
                return False
        if b["t"][0] == "call" and b["t"][3][0] == l:
            return False
    for i, b in enumerate(fn.blocks):
        for s in b["st"]:
            if s[0] == "=" and s[1][0] in steps:
                r = s[2]
                if r[0] != "bin" or r[1] not in ("AddWithOverflow", "SubWithOverflow") or flow.op_place(r[2]) != [l, []] or not isinstance(r[3], dict) or r[3].get("v") != 1:
                    return False
                nb[r[1][:3]] += 1
                hs = [h for h in fn.heads if i in mir.natloop(fn, h)]
                hs = [h for h in hs if not any(g != h and i in mir.natloop(fn, g) and g in mir.natloop(fn, h) for g in fn.heads)]
                if not hs or not all(any(x[2] == "+" for x in loops.get((fn.path, h), ())) for h in hs):
                    return False
                # once per way around, and only one loop around it
                if len([h for h in fn.heads if i in mir.natloop(fn, h)]) > 1:
                    return False
    if nb[op] != 1:
        return False
    # a local of a signed type starting at -1, 0 or 1 moves by fewer than 2^31 - 2 steps down or up
    return op == "Add" or P.types[fn.locals[l]]["s"][0] == "i"


PANICS = {"unwrap", "expect", "unwrap_err", "expect_err", "index", "index_mut", "panic", "panic_fmt", "panic_bounds_check", "split_at", "copy_from_slice", "unreachable_display", "panic_explicit"}


def risky(fn):
    if any(b["t"][0] == "assert" for b in fn.blocks) or fn.heads:
        return True
    return any(flow.last(flow.declared(t)) in PANICS for i, t in flow.calls(fn))


def sccs(g):
    """node -> component number, of the graph node -> successors"""
    idx, low, comp, st, on = {}, {}, {}, [], set()
    n = [0, 0]

    def go(v):
        idx[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        on.add(v)
        for x in sorted(g.get(v, ())):
            if x not in idx:
                go(x)
                low[v] = min(low[v], low[x])
            elif x in on:
                low[v] = min(low[v], idx[x])
        if low[v] == idx[v]:
            while True:
                x = st.pop()
                on.discard(x)
                comp[x] = n[1]
                if x == v:
                    break
            n[1] += 1
    for v in sorted(g):
        if v not in idx:
            go(v)
    return comp


_W = {}


def one(job):
    path, lo, tight, pre = job
    P, steps, tests = _W["P"], _W["steps"], _W["tests"]
    f = P.fns[path]
    try:
        r = Run(P, f, steps, tests, lo, tight, pre).go()
    except Exception as ex:
        return path, dict(ob={}, loops={}, calls={}, bad={"analysis": "it could not be analysed: %r" % (ex,)}, low=0, some=0, tight=False, gaps=[], unmodelled=[], seen=set())
    return path, dict(ob=r.ob, loops=r.loops, calls=r.calls, bad=r.bad, low=r.low, some=r.some, tight=r.tight if r.tight is True or r.tight is False else None,
                      gaps=[str(x) for x in r.gaps], unmodelled=sorted(map(str, r.unmodelled)), seen={k[0] for k in r.ob} | {k[0] for k in r.loops} | set(getattr(r.I, "entered", ())))


def roots(P):
    t = [f for f in functions(P) if f.path.endswith("tokenizer::tokenize")]
    p = [f for f in functions(P) if f.path.endswith("parser::int::parse")]
    return t, p


def prepare(P):
    import effects
    import multiprocessing
    sys.setrecursionlimit(20000)
    g = effects.Graph(P)
    t, p = roots(P)
    if len(t) != 1 or len(p) != 1:
        return None
    tok, par = t[0], p[0]
    reach = g.reachable([tok.path, par.path])
    intok = g.reachable([tok.path])
    steps, tests, rest = classify(P)
    chars = {q: v for q, v in steps.items() if items(P, v[0].locals[v[1] + 1]) == "chr"}
    steps = {q: v for q, v in steps.items() if q not in chars and q in reach}
    tests = {q: v for q, v in tests.items() if q in reach}
    _W.update(P=P, steps=steps, tests=tests)
    res = {}
    lo = {q: 1 for q in list(steps) + list(tests)}
    lo.update({(q, "some"): 1 for q in steps})
    pre, tight = {}, {}
    for q in sorted(tests):
        _, r = one((q, lo, tight, pre))
        res[q] = r
        lo[q], tight[q] = r["low"] or 0, bool(r["tight"])
    bad = lambda r: bool([k for k, a in r["ob"].items() if a[1] and not k[2].startswith("overflow")])
    work = set(steps) | {tok.path, par.path}
    rounds = 0
    while work and rounds < 8:
        rounds += 1
        # the tokenizer takes longest
        jobs = [(q, dict(lo), dict(tight), dict(pre)) for q in sorted(work, key=lambda q: (q != tok.path, q))]
        with multiprocessing.get_context("fork").Pool(min(8, multiprocessing.cpu_count() or 1)) as pool:
            got = dict(pool.map(one, jobs, 1))
            again = [q for q, r in got.items() if q in steps and not pre.get(q) and bad(r)]
            alt = dict(pool.map(one, [(q, dict(lo), dict(tight), dict(pre, **{q: 1})) for q in again], 1)) if again else {}
        res.update(got)
        changed = set()
        for q, r in alt.items():
            if not bad(r):
                pre[q] = 1
                res[q] = r
                changed.add(q)
        for q in got:
            if q in steps and lo[q] and not res[q]["low"]:
                lo[q] = 0
                changed.add(q)
            if q in steps and lo[q, "some"] and not res[q]["some"]:
                lo[q, "some"] = 0
                changed.add(q)
        callers = set()
        for q in changed:
            for c, out in g.out.items():
                if q in out:
                    callers.add(P.fns[c].path if c in P.fns else c)
        # a call inside a closure or helper belongs to whoever reaches it without passing another step
        work = set()
        todo, seen = list(callers), set(callers)
        while todo:
            c = todo.pop()
            if c in steps or c in (tok.path, par.path):
                work.add(c)
                continue
            for d in g.inn.get(c, ()):
                if d not in seen:
                    seen.add(d)
                    todo.append(d)
    seen = set().union(*[r["seen"] for r in res.values()])
    late = []
    for q in sorted(reach):
        f = P.fns.get(q)
        if f is None or f.crate != CRATE or q in res or q in seen or not risky(f) or (f.trait and "fmt::" in f.trait):
            continue
        late.append(q)
    for q in late:
        if P.fns[q].kind != "Closure":
            res[q] = one((q, lo, tight, pre))[1]
    return dict(g=g, tok=tok, par=par, reach=reach, intok=intok, steps=steps, tests=tests, res=res, lo=lo, pre=pre, late=late, rounds=rounds)


def and_text(P, fn, sp):
    """the slice is of the text of a token, taken only where the token is known to be an and-identifier"""
    blocks = [i for i, b in enumerate(fn.blocks) if b["t"][0] == "call" and flow.last(flow.declared(b["t"])) == "index"]
    tests = [t for i, t in flow.calls(fn) if (flow.callee(t) or "").endswith("Token::is_and_identifier")]
    if len(blocks) != 1 or len(tests) != 1:
        return False
    import errors
    no = errors.bool_edges(fn, tests[0][3][0], False)
    yes = set(errors.bool_edges(fn, tests[0][3][0], True))
    return bool(no) and bool(yes) and blocks[0] not in flow.reach(fn, [0], cut=yes)


def short(p):
    return p.replace("asn1_compiler::", "")


def load(w):
    d = w.dump_repo(["asn1-compiler"])
    P = mir.Prog()
    for k in sorted(d):
        P.load(d[k])
    return P


SCOPE = ["functions reached from tokenize and from parse (resolving and generating code are not included)",
         "an input has fewer than 2^31 - 2 characters and tokens; the line, column and byte positions of the tokenizer stay below 2^63",
         "the text of an and-identifier token begins with '&'",
         "library functions behave as documented and those that have no model do not panic; memory and stack suffice"]


class C13:
    LEVEL = "other"
    TECH = "abstract interpretation over MIR with contracts per parse function"
    NOTE = "panics inside the resolver and the generator, stack depth and memory are not covered"
    META = dict(what="Every bounds check, slice, unwrap, arithmetic operation and explicit panic reached from tokenize and parse: index and slice arithmetic is tracked with linear "
                     "relations to the number of tokens or characters, for a symbolic input of any length; each parse function is used by its callers through what was shown of it "
                     "(it consumes at least one and at most the given number of tokens).", assumptions=SCOPE)

    @staticmethod
    def check(rep, w, tier):
        P = load(w)
        r = prepare(P)
        rep.need(r is not None, "entry", "tokenize and parse were not found")
        if r is None:
            return
        rep.rule("an operation that can panic is shown not to, on every path, for every number of tokens and characters")
        loops = {}
        for q, x in r["res"].items():
            for k, v in x["loops"].items():
                loops[k] = loops[k] & v if k in loops else v
        n = 0
        for q, x in sorted(r["res"].items()):
            rep.unit("functions")
            rep.need(not x["gaps"], "%s:gap" % q, "%s could not be analysed completely: %s" % (short(q), x["gaps"][:1]))
            rep.need("analysis" not in x["bad"], "%s:analysis" % q, "%s: %s" % (short(q), x["bad"].get("analysis")))
            for (f, sp, kind, detail), a in sorted(x["ob"].items(), key=str):
                n += 1
                fn = P.fns.get(f)
                if not a[1]:
                    rep.ok()
                    continue
                if fn is not None and kind.startswith("overflow"):
                    op = kind.split(":")[1]
                    if op == "Add" and f in r["intok"]:
                        ss = sites(fn, sp, op)
                        if ss and all(P.types[fn.locals[l]]["k"] == "int" and P.types[fn.locals[l]]["s"] == "usize" for i, l, c in ss):
                            rep.unit("positions of the tokenizer, taken not to overflow")
                            rep.ok()
                            continue
                    if counter(P, fn, sp, op, loops):
                        rep.unit("counters that move by one per token")
                        rep.ok()
                        continue
                if fn is not None and "tokenizer::Token::" in f and and_text(P, fn, sp):
                    rep.unit("texts of and-identifiers")
                    rep.ok()
                    continue
                rep.fail("%s:%s:%s" % (f, kind, detail), "%s can panic or break its caller's contract: %s (%s), in the analysis of %s" % (short(f), detail, kind, short(q)), sp)
            if x["bad"].get("count") and q in r["steps"]:
                rep.fail("%s:count" % q, "%s: %s, and its callers slice by that number" % (short(q), x["bad"]["count"]))
            elif q in r["steps"]:
                rep.ok()
        for q in r["late"]:
            if P.fns[q].kind == "Closure":
                rep.fail("%s:closure" % q, "the closure %s was not analysed" % short(q))
        rep.unit("operations that can panic, per function analysed", n)
        rep.need(len(r["steps"]) >= 20, "steps", "only %d parse functions were found" % len(r["steps"]))
        rep.need(n >= 150, "operations", "only %d operations were found" % n)


class C14:
    LEVEL = "other"
    TECH = "ranking functions for loops and recursion, inferred by abstract interpretation over MIR"
    NOTE = "resolving and generating code are not covered"
    META = dict(what="Every loop reached from tokenize and parse has a counter that strictly grows below a bound, or strictly shrinks above one, on every way around it; every parse function reports at most "
                     "the tokens it was given; and every cycle of calls descends into a strictly shorter rest of the tokens.", assumptions=SCOPE)

    @staticmethod
    def check(rep, w, tier):
        P = load(w)
        r = prepare(P)
        rep.need(r is not None, "entry", "tokenize and parse were not found")
        if r is None:
            return
        rep.rule("every loop has a ranking function")
        seen = {}
        for q, x in r["res"].items():
            rep.unit("functions")
            rep.need(not x["gaps"] and "analysis" not in x["bad"], "%s:gap" % q, "%s could not be analysed completely: %s" % (short(q), (x["gaps"] or [x["bad"].get("analysis")])[:1]))
            for k, v in x["loops"].items():
                seen.setdefault(k, []).append(bool(v))
        for (f, b), v in sorted(seen.items()):
            rep.unit("loops")
            fn = P.fns.get(f)
            heads = sorted(fn.heads) if fn is not None else [b]
            rep.need(all(v), "%s:loop:%d" % (f, heads.index(b) if b in heads else 0), "%s has a way around a loop that makes no progress" % short(f), flow.where(fn, b) if fn is not None else "")
        rep.rule("a parse function reports at most the tokens it was given")
        for q in sorted(r["steps"]):
            rep.need(not r["res"][q]["bad"].get("count"), "%s:count" % q, "%s: %s" % (short(q), r["res"][q]["bad"].get("count")))
        rep.rule("a cycle of calls descends into a strictly shorter rest of the tokens")
        full, same, odd = {}, {}, set()
        for q in r["steps"]:
            full.setdefault(q, set())
            for (c, sp), rels in r["res"][q]["calls"].items():
                rep.unit("calls between parse functions")
                full[q].add(c)
                if rels - {"later"}:
                    same.setdefault(q, set()).add(c)
                if None in rels:
                    odd.add((q, c, sp))
        comp = sccs(full)
        for q, c, sp in sorted(odd):
            rep.need(comp.get(q) != comp.get(c), "%s:%s:other" % (q, c), "%s calls %s, which can call it back, with tokens that are not a rest of its own" % (short(q), short(c)), sp)
        sc = sccs(same)
        for q in sorted(same):
            for c in sorted(same[q]):
                rep.need(sc.get(q) != sc.get(c) and q != c, "%s:%s:same" % (q, c), "%s can call %s without having consumed a token, and be called back" % (short(q), short(c)))
        # recursion outside the parse functions
        g = r["g"]
        sub = {q: {c for c in g.out.get(q, ()) if c in P.fns and P.fns[c].crate == CRATE} for q in r["reach"] if q in P.fns and P.fns[q].crate == CRATE}
        fc = sccs(sub)
        size = {}
        for q, i in fc.items():
            size.setdefault(i, []).append(q)
        for i, qs in sorted(size.items()):
            if len(qs) == 1 and qs[0] not in sub.get(qs[0], ()):
                continue
            # without the parse functions no cycle remains
            inner = {q: {c for c in sub[q] if c in qs and c not in r["steps"]} for q in qs if q not in r["steps"]}
            ic = sccs(inner)
            cnt = {}
            for q, k in ic.items():
                cnt.setdefault(k, []).append(q)
            for k, cyc in cnt.items():
                if len(cyc) > 1 or cyc[0] in inner.get(cyc[0], ()):
                    f = P.fns[cyc[0]]
                    if any(P.fns[x].macro or (P.fns[x].trait and "fmt::" in P.fns[x].trait) for x in cyc):
                        continue
                    rep.fail("%s:recursion" % cyc[0], "%s calls itself outside the parse functions" % short(cyc[0]))
                else:
                    rep.ok()
        for f, b in [(q, b) for q in sorted(r["reach"]) if q in P.fns and P.fns[q].crate == CRATE and not P.fns[q].macro for b in P.fns[q].heads]:
            fn = P.fns[f]
            if fn.trait and "fmt::" in fn.trait:
                continue
            rep.need((f, b) in seen or any(h in mir.natloop(fn, b) for (p, h) in seen if p == f) or f in r["res"] or any(f in x["seen"] for x in r["res"].values()),
                     "%s:unseen" % f, "a loop of %s was not analysed" % short(f), flow.where(fn, b))
        rep.need(len(seen) >= 20, "loops", "only %d loops were found" % len(seen))
        rep.need(len(r["steps"]) >= 20, "steps", "only %d parse functions were found" % len(r["steps"]))


if __name__ == "__main__":
    import time
    import collections

    class Rep:
        def __init__(self): self.u = collections.Counter(); self.f = []; self.n = 0
        def rule(self, x): pass
        def unit(self, k, n=1): self.u[k] += n
        def ok(self, n=1): self.n += 1
        def fail(self, k, m, w=""): self.f.append((k, m, w))
        def need(self, c, k, m, w=""): self.ok() if c else self.fail(k, m, w)
    P = mir.Prog()
    P.load(sys.argv[1])
    load = lambda w: P
    t = time.time()
    _prep = prepare(P)
    print("prepare", time.time() - t, _prep["rounds"], "pre", [short(k) for k in _prep["pre"]], "lo0", [short(str(k)) for k, v in _prep["lo"].items() if not v], "late", _prep["late"])
    prepare = lambda P: _prep
    for C in (C13, C14):
        rep = Rep()
        C.check(rep, None, "quick")
        print(C.__name__, dict(rep.u), rep.n)
        for k in rep.f:
            print("  FAIL", [str(x)[:170] for x in k])
    print("UNMOD", sorted({u for x in _prep["res"].values() for u in x["unmodelled"]}))
