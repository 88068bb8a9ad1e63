"""The derive macro's templates do not depend on the values of attributes (the assumption under which a witness type stands for all types of its shape)."""
import mir
import flow
import errors

READ = ("syn::lit::LitStr::value", "syn::lit::LitInt::base10_parse", "syn::lit::LitInt::base10_digits", "syn::lit::LitStr::parse", "proc_macro2::Literal::to_string",
        "syn::lit::LitStr::token", "syn::lit::LitInt::token", "syn::lit::LitStr::parse_with")


def load(w):
    P = mir.Prog()
    for v in w.dump_repo(["asn1_codecs_derive"]).values():
        P.load(v)
    return P


def text(o):
    c = flow.const(o)
    return c.get("str") if c is not None else None


def const_strs(fn, t):
    """constant strings among the arguments of a comparison, through references"""
    out = []
    for a in t[2]:
        s = text(a)
        pl = flow.op_place(a)
        seen = set()
        while s is None and pl is not None and pl[0] not in seen:
            seen.add(pl[0])
            d = [x[2] for b in fn.blocks for x in b["st"] if x[0] == "=" and x[1] == [pl[0], []]]
            if len(d) != 1:
                break
            rv = d[0]
            if rv[0] == "use":
                s = text(rv[1])
                pl = flow.op_place(rv[1])
                c = flow.const(rv[1])
                if c is not None and c.get("promoted") is not None and c["promoted"] < len(fn.promoted):
                    for b in fn.promoted[c["promoted"]].blocks:
                        for x in b["st"]:
                            if x[0] == "=" and x[2][0] == "use" and text(x[2][1]) is not None:
                                s = text(x[2][1])
            elif rv[0] == "ref":
                pl = rv[1]
            else:
                break
        if s is not None:
            out.append(s)
    return out


def reads(P):
    """functions whose result tells something about the value of a literal"""
    out = set()
    ch = True
    while ch:
        ch = False
        for p, f in P.fns.items():
            if p in out or not p.startswith("asn1_codecs_derive"):
                continue
            srcs = sources(P, f, out)
            if srcs and 0 in flow.Deriv(f).fwd(srcs):
                out.add(p)
                ch = True
    return out


def tells(P, ty):
    """can a value of this type be branched on (as opposed to code that is only spliced)?"""
    t = P.types[flow.strip_refs(P, ty)]
    s = P.tstr(ty)
    return "TokenStream" not in s and "Error" not in s.replace("Result", "")


def sources(P, f, known):
    out = set()
    for i, t in flow.calls(f):
        q, d = flow.callee(t) or "", flow.declared(t) or ""
        if q in READ or d in READ:
            out.add(t[3][0])
        elif q in known and tells(P, f.locals[t[3][0]]):
            out.add(t[3][0])
        else:
            for a in t[2]:
                pl = flow.op_place(a)
                if pl is not None:
                    ty = P.types[flow.strip_refs(P, f.locals[pl[0]])]
                    if ty["k"] == "closure" and ty["def"] in known and tells(P, f.locals[t[3][0]]):
                        out.add(t[3][0])
    return out


def scalar_fwd(P, f, srcs):
    """locals computed from the sources, stopping at generated code"""
    D = flow.Deriv(f)
    inv = {}
    for d, ss in D.src.items():
        for s in ss:
            inv.setdefault(s, set()).add(d)
    seen = set(srcs)
    st = list(srcs)
    while st:
        x = st.pop()
        for y in inv.get(x, ()):
            if y not in seen and tells(P, f.locals[y]) and not P.tstr(f.locals[y]).endswith(("Params", "Attributes")):
                seen.add(y)
                st.append(y)
    return seen


def check(rep, P):
    rep.rule("no decision of the derive macro depends on the value of a bound, key or index, except to reject it; type names and flags are compared with constants")
    rd = reads(P)
    n = 0
    for p, f in sorted(P.fns.items()):
        if not p.startswith("asn1_codecs_derive"):
            continue
        srcs = sources(P, f, rd)
        if not srcs:
            continue
        fw = scalar_fwd(P, f, srcs)
        named = set()
        for i, t in flow.calls(f):
            if flow.last(flow.declared(t)) in ("eq", "ne", "starts_with", "ends_with", "contains"):
                us = set()
                for a in t[2]:
                    mir.op_locals(a, us)
                cs = const_strs(f, t)
                if us & fw and cs and all(c[:1].isalpha() for c in cs):
                    named.add(t[3][0])
        # what follows from the comparison with a name alone
        other = srcs
        D = flow.Deriv(f)
        for i, b in enumerate(f.blocks):
            if b.get("cl") or b["t"][0] != "switch":
                continue
            pl = flow.op_place(b["t"][1])
            if pl is None or pl[0] not in fw:
                continue
            n += 1
            if pl[0] in named:
                rep.ok()
                continue
            outs = [flow.outcomes(P, f, (i, s)) for s in set(flow.succ_nc(f, i))]
            dead = [o for o in outs if not o & {"ok", "other", "call", "loop"}]
            alive = [o for o in outs if o & {"ok", "other", "call", "loop"}]
            # `?` and match on a parse result: everything but one edge is an error
            rep.need(len(alive) <= 1, "%s:value" % p, "%s generates different code for different values of an attribute" % p, flow.where(f, i))
        if f.kind == "Closure" and 0 in fw and P.types[f.locals[0]]["k"] == "bool":
            par = errors.owner(P, f)
            rep.need(False if decides(P, f, named) else True, "%s:value" % p, "%s decides on the value of an attribute" % p, f.span)
    rep.unit("decisions on attribute values", n)
    rep.need(len(rd) >= 1, "literals", "the places where the derive macro reads attribute values were not found")


def decides(P, f, named):
    return 0 not in named
