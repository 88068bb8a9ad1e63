"""C16, C17, C25: what becomes of failures, of definitions and of modules in the compiler."""
import json
import re

import mir
import flow
import effects

ERR = ("::error::Error", "std::io::error::Error", "core::io::error::Error", "::FromUtf8Error", "core::str::error::Utf8Error", "alloc::string::FromUtf8Error")
DROP = {"ok", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "is_ok_and", "map_or", "map_or_else", "iter", "into_iter", "or", "is_err_and", "unwrap_or_else", "and",
        "copied", "cloned", "into_ok", "forget"}
KEEP = {"map_err", "map", "and_then", "branch", "from_residual", "inspect_err", "inspect", "transpose", "flatten", "err", "unwrap", "expect", "unwrap_err", "clone", "from_output",
        "expect_err", "as_ref", "as_mut", "as_deref", "into_err", "or_else", "into", "from", "add_context", "context"}
_P = None
_G = None


def load(w):
    global _P, _G
    if _P is None:
        _P = effects.load(w, ["asn1-compiler"])
        _G = effects.Graph(_P)
    return _P


def tracked(P, ty):
    r = flow.result_args(P, ty)
    if not r:
        return False
    e = P.types[r[1]]
    if e["k"] == "adt" and any(e["path"].endswith(x) for x in ERR):
        return True
    if "dyn core::any::Any" in P.tstr(r[1]) or "dyn core::error::Error" in P.tstr(r[1]):
        return True
    return tracked(P, r[0])


def place_type(P, fn, pl):
    ty = fn.locals[pl[0]]
    for e in pl[1]:
        if e[0] == "*":
            if P.types[ty].get("to") is None:
                return None
            ty = P.types[ty]["to"]
        elif e[0] == "f":
            ty = e[2]
        elif e[0] == "d":
            pass
        else:
            return None
    return ty


def has_tokens(P, fn):
    for i in range(fn.argc):
        t = P.types[fn.locals[i + 1]]
        if t["k"] == "ref":
            u = P.types[t["to"]]
            if u["k"] == "slice" and P.types[u["to"]]["k"] == "adt" and P.types[u["to"]]["path"].endswith("::Token"):
                return True
            if u["k"] == "adt" and u["path"].endswith("::Vec") and P.tstr(u["args"][0]).endswith("Token"):
                return True
    return False


def owner(P, fn):
    while fn.kind == "Closure" and fn.parent in P.fns:
        fn = P.fns[fn.parent]
    return fn


def err_edges(P, fn):
    """(switch block, target of the Err edge, description of what failed) for every inspected tracked Result, including the residual edge of `?`"""
    out = []
    insp = []
    for i, b in enumerate(fn.blocks):
        if b.get("cl"):
            continue
        for s in b["st"]:
            if s[0] != "=" or s[2][0] != "discr":
                continue
            pl = s[2][1]
            ty = place_type(P, fn, pl)
            if ty is None:
                continue
            ty = flow.strip_refs(P, ty)
            res = tracked(P, ty)
            cf = P.types[ty]["k"] == "adt" and P.types[ty]["path"].endswith("ControlFlow") and any(tracked(P, a) for a in P.types[ty]["args"])
            if not res and not cf:
                continue
            for j, t in flow.switches_on(fn, s[1][0]):
                mp = {v: tg for v, tg in t[2]}
                insp.append((j, flow.edge_of(mp, t[3], 1), source(P, fn, pl[0]), (pl[0], json.dumps(pl[1]))))
    # the discriminant is read again when the value is dropped: keep the inspections no other inspection of the same value dominates
    if insp:
        dom = mir.dominators(fn)
        for j, e, src, key in insp:
            if not any(k2 == key and j2 != j and dominates(dom, j2, j) for j2, e2, s2, k2 in insp):
                out.append((j, e, src))
    # is_ok / is_err
    for i, t in flow.calls(fn):
        m = flow.last(flow.declared(t))
        if m in ("is_ok", "is_err") and "core::result::Result" in (flow.declared(t) or "") and t[2]:
            pl = flow.op_place(t[2][0])
            if pl is None or not tracked(P, flow.strip_refs(P, fn.locals[pl[0]])):
                continue
            for j, err in bool_edges(fn, t[3][0], m == "is_err"):
                out.append((j, err, source(P, fn, pl[0])))
    return out


def dominates(idom, a, b):
    while b in idom:
        if b == a:
            return True
        if idom[b] == b:
            return False
        b = idom[b]
    return False


def bool_edges(fn, l, sense):
    """(switch block, target taken when the bool local l equals `sense`), through negations and copies"""
    out = []
    todo = [(l, sense)]
    seen = set()
    while todo:
        x, s = todo.pop()
        if (x, s) in seen:
            continue
        seen.add((x, s))
        for j, t in flow.switches_on(fn, x):
            mp = {v: tg for v, tg in t[2]}
            out.append((j, flow.edge_of(mp, t[3], 1 if s else 0)))
        for b in fn.blocks:
            if b.get("cl"):
                continue
            for st in b["st"]:
                if st[0] == "=" and not st[1][1]:
                    rv = st[2]
                    if rv[0] == "use" and flow.op_place(rv[1]) == [x, []]:
                        todo.append((st[1][0], s))
                    elif rv[0] == "un" and rv[1] == "Not" and flow.op_place(rv[2]) == [x, []]:
                        todo.append((st[1][0], not s))
    return out


def source(P, fn, l):
    """the call a Result local comes from (for messages)"""
    seen = set()
    st = [l]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for i, t in flow.calls(fn):
            if t[3][0] == x:
                m = flow.last(flow.declared(t))
                if m in KEEP and t[2] and flow.op_place(t[2][0]) is not None:
                    st.append(flow.op_place(t[2][0])[0])
                else:
                    return flow.callee(t) or "a call"
        for b in fn.blocks:
            for s in b["st"]:
                if s[0] == "=" and s[1][0] == x and s[2][0] in ("use", "ref"):
                    u = set()
                    mir.rv_uses(s[2], u)
                    st += list(u)
    return "a result"


def data_switches(fn):
    return {i for i, b in enumerate(fn.blocks) if b["t"][0] == "switch"}


def straight(P, fn, start, oks):
    """outcomes on the paths from the edge that make no further decision on data; running into the blocks `oks` where the function goes on after success counts as going on"""
    return flow.outcomes(P, fn, start, stop_at_switch=True, merge=oks)


def dropped(P, fn):
    """failures of this function's callees that do not reach its caller: (key, message, block)"""
    bad = []
    n = 0
    for j, e, src in err_edges(P, fn):
        n += 1
        oks = flow.reach(fn, [x for x in flow.succ_nc(fn, j) if x != e], cut={(j, x) for x in flow.succ_nc(fn, j)})
        short = re.sub(r"^asn1_compiler::", "", src)
        full = flow.outcomes(P, fn, (j, e))
        if "loop" in full:
            bad.append(("skip:%s" % short, "goes on with the next item when %s fails" % short, j))
            continue
        lin = straight(P, fn, (j, e), oks)
        if lin & {"ok", "other"}:
            bad.append(("replace:%s" % short, "continues as if nothing had failed when %s fails" % short, j))
    for i, t in flow.calls(fn):
        m = flow.last(flow.declared(t))
        decl = flow.declared(t) or ""
        if "core::result::Result" in decl and m in DROP and t[2]:
            pl = flow.op_place(t[2][0])
            ty = place_type(P, fn, pl) if pl is not None else None
            if ty is not None and tracked(P, flow.strip_refs(P, ty)):
                n += 1
                short = re.sub(r"^asn1_compiler::", "", source(P, fn, pl[0]))
                bad.append(("%s:%s" % (m, short), "discards the failure of %s (%s)" % (short, m), i))
        if m in ("flatten", "flat_map", "map_while", "filter_map"):
            for x in flow.targs(t):
                for y in flow.deep_types(P, x):
                    u = P.types[y]
                    if u["k"] == "closure" and u["def"] in P.fns and P.fns[u["def"]].ret is not None and tracked(P, P.fns[u["def"]].ret) and m in ("flatten", "flat_map"):
                        bad.append(("%s" % m, "drops the failures among the elements of an iterator (%s)" % m, i))
    for i, q, fd in effects.uses(fn):
        if q.startswith("core::result::Result") and flow.last(q) in ("ok", "unwrap_or_default"):
            b = fn.blocks[i]
            tm = b["t"]
            if tm[0] == "call" and flow.callee(tm) == q:
                continue
            if any(tracked(P, flow.strip_refs(P, y)) for y in [x for x in all_types_named(P, fd)]):
                bad.append(("value:%s" % flow.last(q), "passes failures to %s" % q, i))
    # results nobody looks at
    used = set()
    for i, b in enumerate(fn.blocks):
        if b.get("cl"):
            continue
        for s in b["st"]:
            if s[0] == "=":
                u = set()
                mir.rv_uses(s[2], u)
                used |= u
                if s[2][0] == "discr":
                    used.add(s[2][1][0])
        t = b["t"]
        if t[0] == "call":
            u = set()
            for a in t[2]:
                mir.op_locals(a, u)
            used |= u
        if t[0] == "switch":
            u = set()
            mir.op_locals(t[1], u)
            used |= u
    for i, t in flow.calls(fn):
        l = t[3][0]
        if not t[3][1] and l != 0 and l not in used and tracked(P, fn.locals[l]) and t[4] is not None:
            n += 1
            short = re.sub(r"^asn1_compiler::", "", flow.callee(t) or "a call")
            bad.append(("unused:%s" % short, "never looks at the result of %s" % short, i))
        elif tracked(P, fn.locals[l]) and not t[3][1]:
            n += 1
    return n, bad


def all_types_named(P, fd):
    out = []
    for x in fd.get("targs") or []:
        out += list(flow.deep_types(P, x))
    return out


class C25:
    LEVEL = "other"
    TECH = "error-flow analysis over MIR"
    NOTE = ("every function of the compiler outside the backtracking token parsers; a failure that leads to a further decision on other data counts as an explicit alternative")
    META = dict(what="For every Result carrying a compiler, I/O or UTF-8 error in the compiler, the error edge of its inspection (match, if let, ?, is_ok, is_err) is followed through the "
                     "control flow: it must end in an error return or in a further decision, never in the next iteration or in a plain continuation; results are never left unread "
                     "or passed to an operation that discards the error.",
                assumptions=["functions that take the token slice backtrack by design; that nothing they give up on is lost is C23"])

    @staticmethod
    def check(rep, w, tier):
        P = load(w)
        rep.rule("the error of a tracked Result reaches the caller or decides between explicit alternatives")
        nf = 0
        for p, f in sorted(P.fns.items()):
            if has_tokens(P, owner(P, f)) or f.trait and "fmt::" in f.trait:
                continue
            n, bad = dropped(P, f)
            rep.ok(max(0, n - len(bad)))
            rep.unit("results followed", n)
            if n:
                rep.unit("functions with fallible steps")
                nf += 1
            for k, m, i in bad:
                rep.fail("%s:%s" % (p, k), "%s %s" % (p, m), flow.where(f, i))
        rep.need(nf >= 30, "anchor", "only %d functions with fallible steps were found" % nf)
        for f in mains(P):
            rep.unit("entry points")
            rep.need(fails_visibly(P, f), f.path + ":exit", "%s cannot report a failure to the operating system" % f.path)


def mains(P):
    return [f for p, f in P.fns.items() if f.crate.startswith("hampi_asn1c") and flow.last(p) == "main" and f.kind != "Closure"]


def fails_visibly(P, f):
    if f.ret is not None and (flow.result_args(P, f.ret) or P.tstr(f.ret).endswith("ExitCode")):
        return True
    return any((flow.callee(t) or "").endswith("process::exit") for i, t in flow.calls(f))


# ------------------------------------------------------------------ C17
def chain(P, g):
    """functions from which standard output is reached"""
    out = set()
    for p in P.fns:
        if effects.reaches(P, g, p, "standard output"):
            out.add(p)
    return out


def to_sink(P, ch, t):
    q = flow.callee(t)
    return q in ch or effects.sink(q or "") == "standard output" or effects.sink(flow.declared(t) or "") == "standard output"


def status_ok(P, fn, start, locs, depth=0):
    """Is every success return from `start` on reached through an edge on which the exit status in `locs` was successful?"""
    cut = set()
    D = flow.Deriv(fn)
    al = D.fwd(locs)
    for i, t in flow.calls(fn):
        us = set()
        for a in t[2]:
            mir.op_locals(a, us)
        if not us & al:
            continue
        m, q = flow.last(flow.declared(t)), flow.callee(t) or ""
        if m == "success" and "ExitStatus" in q:
            cut |= {(j, e) for j, e in bool_edges(fn, t[3][0], True)}
        elif m in ("eq", "ne") and fn.locals[t[3][0]] is not None and P.types[fn.locals[t[3][0]]]["k"] == "bool":
            if compares_zero(fn, t):
                cut |= {(j, e) for j, e in bool_edges(fn, t[3][0], m == "eq")}
        elif m == "is_some_and" or m == "map_or":
            cut |= {(j, e) for j, e in bool_edges(fn, t[3][0], True)}
        elif m == "exit_ok":
            cut |= ok_edges(P, fn, t[3][0])
        elif q in P.fns and flow.result_args(P, fn.locals[t[3][0]]) and depth < 3:
            h = P.fns[q]
            inner = [k + 1 for k, a in enumerate(t[2]) if ({flow.op_place(a)[0]} if flow.op_place(a) else set()) & al]
            if inner and status_ok(P, h, 0, inner, depth + 1):
                cut |= ok_edges(P, fn, t[3][0])
                if t[3][0] == 0:
                    cut.add((i, t[4]))
        elif q in P.fns and P.types[fn.locals[t[3][0]]]["k"] == "bool":
            cut |= {(j, e) for j, e in bool_edges(fn, t[3][0], True)}
    for i, b in enumerate(fn.blocks):
        t = b["t"]
        if b.get("cl") or t[0] != "switch":
            continue
        pl = flow.op_place(t[1])
        if pl is None or pl[0] not in al:
            continue
        ty = place_type(P, fn, pl)
        if ty is not None and P.types[ty]["k"] == "int" and P.types[ty]["s"] == "i32":
            cut |= {(i, tg) for v, tg in t[2] if v == 0}
    return bool(cut) and "ok" not in flow.outcomes(P, fn, start, cut=cut)


def compares_zero(fn, t):
    """does the comparison have a constant Some(0) or 0 on one side?"""
    ls = set()
    for a in t[2]:
        mir.op_locals(a, ls)
    ls = flow.Deriv(fn).back(ls)
    vals = []

    def consts(x):
        if isinstance(x, dict):
            if x.get("promoted") is not None and x["promoted"] < len(fn.promoted):
                for b in fn.promoted[x["promoted"]].blocks:
                    for s in b["st"]:
                        consts(s[2:3])
            elif x.get("c") and isinstance(x.get("v"), int):
                vals.append(x["v"])
            return
        if isinstance(x, (list, tuple)):
            for y in x:
                consts(y)
    for b in fn.blocks:
        for s in b["st"]:
            if s[0] == "=" and s[1][0] in ls and s[2][0] in ("use", "agg", "ref") and "bool" not in str(s[1]):
                consts(s[2])
    for a in t[2]:
        consts(a)
    return 0 in vals


def ok_edges(P, fn, l):
    """edges on which the Result in l (or its ControlFlow) is Ok"""
    out = set()
    ls = [l]
    for i, t in flow.calls(fn):
        if flow.last(flow.declared(t)) in ("branch", "map_err") and t[2] and flow.op_place(t[2][0]) and flow.op_place(t[2][0])[0] in ls:
            ls.append(t[3][0])
    for x in ls:
        for j, mp, other in flow.discr_switches(fn, x):
            out.add((j, flow.edge_of(mp, other, 0)))
    return out


class C17:
    LEVEL = "other"
    TECH = "must-pass-through and error-flow analysis over MIR"
    NOTE = ("control flow of every function between the program's entry points and standard output; what rustfmt does with the code is trusted, its exit status is not")
    META = dict(what="In every function from which standard output is reached: no error edge leads to the output, nothing fallible runs after it, resolution runs before it on every path, "
                     "what rustfmt produced is used only on the edge where its exit status was success, and entry points turn every failure into an error exit.",
                assumptions=["a process that ends by a panic has a non-zero exit status"])

    @staticmethod
    def check(rep, w, tier):
        P = load(w)
        g = _G
        ch = chain(P, g)
        ms = mains(P)
        rep.need(len(ms) == 1, "main", "the entry point of the compiler was not found")
        rep.need(any(m.path in ch for m in ms), "chain", "the entry point never reaches standard output")
        rep.rule("no error edge of a function leads to a call that reaches standard output")
        rep.rule("after the call that reaches standard output no step of the compiler runs that can fail")
        rep.rule("every path from the entry point to standard output runs resolution of all modules first")
        rep.rule("output of rustfmt is used only on the edge where its exit status is success")
        rep.rule("the entry point returns every failure as an error, or exits with a non-zero status")
        res = resolvers(P)
        rep.need(bool(res), "resolve", "the resolution of the definitions of a module was not found")
        doms = []
        for p in sorted(ch):
            f = P.fns[p]
            rep.unit("functions that reach standard output")
            sinks = [(i, t) for i, t in flow.calls(f) if to_sink(P, ch, t)]
            for j, e, src in err_edges(P, f):
                r = flow.reach(f, [e])
                hit = [i for i, t in sinks if i in r]
                rep.need(not hit, "%s:emit after %s" % (p, src), "%s writes to standard output although %s failed" % (p, src), flow.where(f, j))
                rep.unit("error edges")
            for i, t in sinks:
                rep.unit("output calls")
                if t[4] is None:
                    continue
                r = flow.reach(f, [t[4]])
                for j in sorted(r):
                    u = f.blocks[j]["t"]
                    if u[0] == "call" and flow.callee(u) in P.fns and P.fns[flow.callee(u)].ret is not None and tracked(P, P.fns[flow.callee(u)].ret):
                        rep.fail("%s:after:%s" % (p, flow.callee(u)), "%s runs %s after it has written to standard output" % (p, flow.callee(u)), flow.where(f, j))
                    else:
                        rep.ok()
        for m in ms:
            rep.need(must_before(P, m, ch, res, 0), m.path + ":resolve", "a path from %s reaches standard output without resolving the modules" % m.path)
            n, bad = dropped(P, m)
            rep.unit("results in the entry point", n)
            for k, msg, i in bad:
                rep.fail("%s:%s" % (m.path, k), "%s %s" % (m.path, msg), flow.where(m, i))
            rep.need(fails_visibly(P, m), m.path + ":exit", "%s cannot report a failure to the operating system" % m.path)
        for p, f in sorted(P.fns.items()):
            for i, t in flow.calls(f):
                if (flow.callee(t) or "").endswith("process::exit"):
                    c = t[2][0]
                    rep.need(isinstance(c, dict) and c.get("c") and c.get("v") not in (0, None), p + ":exit", "%s exits with a status that may be 0" % p, flow.where(f, i))
        # rustfmt
        n = 0
        for p, f in sorted(P.fns.items()):
            for i, t in flow.calls(f):
                m, q = flow.last(flow.declared(t)), flow.callee(t) or ""
                if m in ("wait", "wait_with_output", "output", "status") and "std::process::" in q and t[3]:
                    n += 1
                    rep.need(status_ok(P, f, t[4], [t[3][0]]), p + ":status", "%s can succeed although the process it waited for failed" % p, flow.where(f, i))
        rep.need(n >= 1, "rustfmt", "the place where the exit status of rustfmt is read was not found")
        rep.unit("processes waited for", n)
        # everything in between hands failures on
        for p in sorted(mid(P, g, ch, res)):
            f = P.fns[p]
            if has_tokens(P, owner(P, f)):
                continue
            n, bad = dropped(P, f)
            rep.unit("results between the entry point and the output", n)
            rep.ok(max(0, n - len(bad)))
            for k, msg, i in bad:
                rep.fail("%s:%s" % (p, k), "%s %s" % (p, msg), flow.where(f, i))


def resolvers(P):
    """functions that resolve the definitions of one module"""
    out = set()
    for p, f in P.fns.items():
        if f.kind == "Closure":
            continue
        tys = [P.tstr(f.locals[i + 1]) for i in range(f.argc)]
        if any(t.endswith("Resolver") and t.startswith("&mut") for t in tys) and any(t.endswith("Asn1Module") and t.startswith("&mut") for t in tys):
            out.add(p)
    return out


def must_before(P, f, ch, res, depth):
    """does every path of f up to a call that reaches the output pass a call that reaches resolution (or happen inside the callee)?"""
    stop = set()
    for i, t in flow.calls(f):
        q = flow.callee(t)
        if q in P.fns and q not in ch and _G.reachable([q]) & res:
            stop.add(i)
    cut = {(i, s) for i in stop for s in flow.succ_nc(f, i)}
    r = flow.reach(f, [0], cut)
    for i, t in flow.calls(f):
        if i in r and to_sink(P, ch, t):
            q = flow.callee(t)
            if q in ch and depth < 6 and must_before(P, P.fns[q], ch, res, depth + 1):
                continue
            return False
    return True


def mid(P, g, ch, res):
    """compiler and generator functions whose results decide what is emitted"""
    out = set()
    for p in ch:
        out |= {q for q in g.reachable([p]) if q in P.fns}
    return out
