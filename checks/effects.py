"""C12 and C15: what the crates touch besides their arguments - output streams, files, processes, clocks, hash-map order."""
import ast
import re

import mir
import run
import flow
import derived

# paths (of the function that is called) with an effect on, or a dependence on, the world outside the arguments
SINKS = [
    ("standard output", r"^std::io::stdio::(_print|stdout|print_to|Stdout)|^std::io::stdio::.*Stdout|<std::io::stdio::Stdout"),
    ("standard error", r"^std::io::stdio::(_eprint|stderr|Stderr|StderrRaw)|<std::io::stdio::Stderr|^std::macros::|^std::io::stdio::attempt_print"),
    ("standard input", r"^std::io::stdio::(stdin|Stdin|read_to_string)|<std::io::stdio::Stdin"),
    ("the file system", r"^std::fs::|<std::fs::|^std::os::.*fs|^std::path::Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_dir|read_link)"),
    ("the environment", r"^std::env::|<std::env::"),
    ("the network", r"^std::net::|<std::net::|^std::os::.*net"),
    ("processes", r"^std::process::|<std::process::|^std::os::.*process"),
    ("threads", r"^std::thread::(functions|scoped|builder|spawn|Builder|scope|lifecycle|park|sleep)|^std::thread::.*::spawn|<std::thread::.*Builder"),
    ("the clock", r"^std::time::(Instant|SystemTime)|<std::time::(Instant|SystemTime)"),
    ("the logger", r"^log::set_(boxed_)?logger|^log::set_max_level"),
    ("the panic hook", r"^std::panic(king)?::(set_hook|take_hook|update_hook)"),
    ("foreign code", r"^libc::|^core::arch::|^core::ffi::va_list"),
    ("another process's data", r"^std::os::"),
    ("signals", r"^std::(alloc::set_alloc_error_hook|backtrace::)"),
]
SINKS = [(n, re.compile(r)) for n, r in SINKS]
# crates whose code has no effect outside its arguments; a call into any other crate has to be looked at
PURE = {"core", "alloc", "bitvec", "wyz", "funty", "tap", "radium", "log", "asn1_codecs", "asn1_codecs_derive", "asn1_compiler", "hampi_asn1c", "witness",
        "quote", "proc_macro2", "proc_macro", "syn", "heck", "lazy_static", "topological_sort", "unicode_ident"}
STD_PURE = re.compile(r"^<?(&'?\w* ?(mut )?)?std::(collections|hash|ascii|error|io::(error|cursor|impls|util|copy|buffered|Read|Write|BufRead|Seek|self)|sync::once|sync::poison|sync::(Once|OnceLock|LazyLock|lazy_lock|once_lock)|"
                      r"keyword|f32|f64|num|path|ffi|macros::panic|panicking|rt::(begin_panic|panic)|thread::join_handle|thread::JoinHandle|time::Duration)")


def root(path):
    """crate of a callee path: '<&T as core::fmt::Display>::fmt' -> core, by the trait for impls of foreign types"""
    p = path
    m = re.match(r"^<(.*)>::[^<>]*(::__stability)?$", p)
    if m and " as " in m.group(1):
        ty, tr = m.group(1).rsplit(" as ", 1)
        b = re.match(r"^(&'?\w* ?(mut )?|\*const |\*mut |\[|\()*([A-Za-z_0-9]+)::", ty)
        return b.group(3) if b else tr.split("::")[0]
    if p.startswith("<"):
        b = re.match(r"^<(&'?\w* ?(mut )?|\[|\()*([A-Za-z_0-9]+)::", p)
        return b.group(3) if b else "core"
    return p.split("::")[0]


def sink(path):
    for n, r in SINKS:
        if r.search(path):
            return n
    return None


def uses(fn):
    """(block, path) of every function called or taken as a value"""
    out = []

    def walk(x, i):
        if isinstance(x, dict):
            if "fn" in x and isinstance(x["fn"], dict):
                q = x["fn"].get("resolved") or x["fn"]["path"]
                out.append((i, q, x["fn"]))
            for k in x:
                if k not in ("ty", "fn"):
                    walk(x[k], i)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y, i)
    for g in [fn] + list(fn.promoted):
        for i, b in enumerate(g.blocks):
            walk(b["st"], i if g is fn else 0)
            walk(b["t"], i if g is fn else 0)
    return out


class Graph:
    """callers of every function (calls, values, closures) within the loaded crates"""

    def __init__(self, P):
        self.P = P
        self.out = {}
        self.inn = {}
        for p, f in P.fns.items():
            s = set()
            for i, q, fd in uses(f):
                s.add(q)
                s.add(fd["path"])
            for c in P.closures_of.get(p, ()):
                s.add(c.path)
            self.out[p] = s
            for q in s:
                self.inn.setdefault(q, set()).add(p)

    def reachable(self, starts):
        seen = set(starts)
        st = list(starts)
        while st:
            x = st.pop()
            for y in self.out.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen


def load(w, pkgs):
    P = mir.Prog()
    d = w.dump_repo(pkgs)
    for c in sorted(d):
        P.load(d[c])
    return P


def libs(rep, P, crates, allow):
    """no effect from the given crates' functions except what allow(fn, sink name, path, block) permits"""
    nf = 0
    nc = 0
    for p, f in sorted(P.fns.items()):
        if f.crate not in crates:
            continue
        nf += 1
        for i, q, fd in uses(f):
            nc += 1
            s = sink(q) or sink(fd["path"])
            if s is None:
                r = root(q)
                if r == "std" and not STD_PURE.search(q) and not q.startswith("std::"):
                    r = "core"
                if r == "std" and not STD_PURE.search(q):
                    s = "the world outside (a part of the standard library not known to be free of effects)"
                elif r not in PURE and r != "std" and not fd.get("local"):
                    s = "the world outside (another crate)"
            if s is None:
                rep.ok()
                continue
            a = allow(f, s, q, i)
            if a is True:
                rep.ok()
            else:
                rep.fail("%s:%s" % (p, q.rsplit("::", 2)[-1] if False else q), a or "%s reaches %s through %s" % (p, s, q), flow.where(f, i))
    rep.unit("functions", nf)
    rep.unit("calls and function values", nc)


class C15:
    LEVEL = "other"
    TECH = "effect analysis over the resolved call graph"
    NOTE = ("every function value and call of the codec library, of derived code for all witness types and of the compiler, resolved by rustc; "
            "what a log back end installed by the application does with log records is its own")
    META = dict(what="Every call and function value in the codec library, in the derived code of the witness types, in the derive macro and in the compiler is classified by the "
                     "function it resolves to: no sink (streams, files, environment, network, processes, clock, foreign code) is reachable, apart from the compiler's documented ones.",
                assumptions=["core, alloc, bitvec, log (records only), syn, quote, heck and topological-sort have no effects of their own (their code is not analysed)"])

    @staticmethod
    def check(rep, w, tier):
        rep.rule("no function of the codec library, of derived code or of the derive macro calls or mentions a function with an effect outside its arguments")
        P = load(w, ["asn1-codecs", "asn1_codecs_derive"])
        rep.need(any(c == "asn1_codecs" for c in P.crates) and any(c == "asn1_codecs_derive" for c in P.crates), "crates", "codec crates not found")
        libs(rep, P, {"asn1_codecs", "asn1_codecs_derive"}, lambda f, s, q, i: None)
        derived.load(w)
        PW = derived._P
        wit = {c for c in PW.crates if "witness" in c}
        rep.need(bool(wit), "witness", "the crate of derived witness types was not analysed")
        libs(rep, PW, wit, lambda f, s, q, i: None)
        # the compiler
        rep.rule("in the compiler only one function writes to standard output, what it writes is the generated code after rustfmt, nothing else but standard error, the rustfmt process and the files named as arguments is touched")
        PC = load(w, ["asn1-compiler"])
        out_sites = []

        def allow(f, s, q, i):
            if s == "standard error":
                return True
            if s == "standard output":
                out_sites.append((f, i, q))
                return True
            if s == "processes":
                return True if re.search(r"::(Command|Child|Stdio|ExitStatus|Output|ChildStdin|ChildStdout)\b", q) or "process::Child" in q else None
            if s == "threads":
                return True
            if f.crate.startswith("hampi_asn1c"):
                if s == "the environment" and re.search(r"::args$|::Args\b", q):
                    return True
                if s == "the file system" and re.search(r"::File::open$|<&?std::fs::File as std::io::Read>|::fs::read$|::fs::read_to_string$", q):
                    return True
            return None
        libs(rep, PC, set(PC.crates), allow)
        rep.need(len(out_sites) > 0, "out", "the compiler never writes the generated code to standard output")
        # what is printed: derives from the formatted code, from no error or other text
        g = Graph(PC)
        for f, i, q in out_sites:
            rep.unit("output sites")
            ls = set()
            t = f.blocks[i]["t"]
            D = flow.Deriv(f)
            if t[0] == "call":
                for a in t[2]:
                    mir.op_locals(a, ls)
                if "tdout" in PC.tstr(f.locals[t[3][0]]):
                    hs = D.fwd([t[3][0]])
                    for j, u in flow.calls(f):
                        us = set()
                        for a in u[2]:
                            mir.op_locals(a, us)
                        if us & hs:
                            ls |= us
            src = D.back(ls)
            rep.need(formatted(PC, g, f, src, 0), "stdout:" + f.path, "%s writes something else than the formatted code to standard output" % f.path, flow.where(f, i))
            # nothing but the formatted code: every piece of the format string is white space
            for piece in literal_pieces(PC, f, src):
                rep.need(piece.strip() == "" or piece in ("{}",), "stdout text:%s" % f.path, "%s writes the text %r to standard output" % (f.path, piece), flow.where(f, i))
        rep.need(len({f.path for f, i, q in out_sites}) <= 1, "out2", "standard output is written in more than one function: %s" % ", ".join(sorted({f.path for f, i, q in out_sites})))


def formatted(P, g, f, src, depth):
    """do the locals src hold the successful result of the step that runs rustfmt?"""
    for j, u in flow.calls(f):
        if u[3][0] in src and not u[3][1]:
            cal = flow.callee(u)
            if cal in P.fns and P.fns[cal].ret is not None and flow.result_args(P, P.fns[cal].ret) and reaches(P, g, cal, "processes"):
                return True
    ps = [l for l in src if 1 <= l <= f.argc]
    if depth > 3 or not ps:
        return False
    sites = [(P.fns[c], u) for c in sorted(g.inn.get(f.path, ())) if c in P.fns for j, u in flow.calls(P.fns[c]) if flow.callee(u) == f.path]
    for h, u in sites:
        ls = set()
        for l in ps:
            if l - 1 < len(u[2]):
                mir.op_locals(u[2][l - 1], ls)
        if not formatted(P, g, h, flow.Deriv(h).back(ls), depth + 1):
            return False
    return bool(sites)


def reaches(P, g, start, what):
    for p in g.reachable([start]):
        if sink(p) == what:
            return True
    return False


def literal_pieces(P, f, locs):
    out = []
    for b in f.blocks:
        for s in b["st"]:
            if s[0] == "=" and s[1][0] in locs:
                collect_str(s[2], out)
        t = b["t"]
        if t[0] == "call" and t[3][0] in locs:
            for a in t[2]:
                collect_str(a, out)
    return out


def template(b):
    """literal text of a format template of core::fmt"""
    out, i = "", 0
    while i < len(b) and b[i]:
        c = b[i]
        if c < 0x80:
            out += b[i + 1:i + 1 + c].decode("utf-8", "replace")
            i += 1 + c
        elif c == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out += b[i + 3:i + 3 + n].decode("utf-8", "replace")
            i += 3 + n
        else:
            i += 1 + 4 * (c & 1) + 2 * (c >> 1 & 1) + 2 * (c >> 2 & 1) + 2 * (c >> 3 & 1)
    return out


def collect_str(x, out):
    if isinstance(x, dict):
        if "str" in x and isinstance(x["str"], str):
            out.append(x["str"])
            return
        if isinstance(x.get("s"), str) and x["s"].startswith('b"'):
            out.append(template(ast.literal_eval(x["s"])))
            return
        for k in x:
            collect_str(x[k], out)
    elif isinstance(x, list):
        for y in x:
            collect_str(y, out)
