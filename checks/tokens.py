"""Token streams built with quote!, followed token by token, for the interpreter (engine/interp.py).

A token stream is the value ("arr", tokens); a token is ("tup", (("i", kind), payload)).  The text of a value made by
format!("{}", x) or x.to_string() is ("tup", (("i", TEXT), x))."""
import interp
import models
import lists
from dom import const

WORD, VALUE, GROUP, PUNCT, UNKNOWN, TEXT, FMTARG, FMTARGS = range(100, 108)
PUNCTS = {"push_comma": ",", "push_eq": "=", "push_pound": "#", "push_colon": ":", "push_colon2": "::", "push_semi": ";", "push_lt": "<",
          "push_gt": ">", "push_and": "&", "push_bang": "!", "push_dot": ".", "push_star": "*", "push_rarrow": "->", "push_fat_arrow": "=>",
          "push_question": "?", "push_or": "|", "push_add": "+", "push_sub": "-", "push_underscore": "_"}


def tok(kind, payload):
    return ("tup", (("i", const(kind)), payload))


def kind(v):
    if v[0] == "tup" and len(v[1]) == 2 and v[1][0][0] == "i" and not v[1][0][1].t:
        return v[1][0][1].c
    return None


def is_text(v):
    return kind(v) == TEXT


def string(I, st, v):
    """constant text of a value, None if it is not known"""
    v = lists.deref(I, st, v)
    return v[1] if v[0] in ("str", "strref") else None


class Tokens:
    def __init__(self, I):
        self.I = I
        self.streams = frozenset(i for i, t in enumerate(I.T) if t["k"] == "adt" and t["path"] in ("proc_macro2::TokenStream", "proc_macro2::imp::TokenStream"))

    def push(self, st, ts, toks):
        I = self.I
        p = lists.place(I, st, ts)
        if p is None:
            raise interp.Gap("a token stream that is not a place")
        w = I.get(st, p[1], p[2])
        if w[0] != "arr":
            w = ("arr", (tok(UNKNOWN, w),))
        I.put(st, p[1], p[2], ("arr", w[1] + tuple(toks)))
        return [(("tup", ()), st)]

    def tokens_of(self, st, v):
        """tokens a value is written as"""
        I = self.I
        w = lists.deref(I, st, v)
        if w[0] == "arr":
            return w[1]
        if w[0] == "adt" and lists.isopt(I, w[1]):
            return () if w[2] == 0 else self.tokens_of(st, w[3][0])
        if w[0] in ("str", "strref"):
            return (tok(VALUE, ("strref", w[1])),)
        if w[0] == "top" and w[1] in self.streams:
            return (tok(UNKNOWN, w),)
        return (tok(VALUE, w),)

    def __call__(self, st, path, args, info):
        I = self.I
        m = path.split("::")[-1]
        d = info["dty"]
        if path.startswith("quote::__private::"):
            if m.endswith("_spanned"):
                m, args = m[:-8], [args[0]] + list(args[2:])
            if m in PUNCTS:
                return self.push(st, args[0], [tok(PUNCT, ("strref", PUNCTS[m]))])
            if m in ("push_ident", "parse", "push_lifetime"):
                s = string(I, st, args[1])
                return self.push(st, args[0], [tok(WORD, ("strref", s)) if s is not None else tok(UNKNOWN, args[1])])
            if m == "push_group":
                return self.push(st, args[0], [tok(GROUP, ("tup", (args[1], args[2])))])
            if m.startswith("push_"):
                return self.push(st, args[0], [tok(PUNCT, ("strref", m))])
            return None
        if "ToTokens" in path and m == "to_tokens" and len(args) == 2 and path not in I.prog.fns:
            return self.push(st, args[1], self.tokens_of(st, args[0]))
        if "ToTokens" in path and m in ("to_token_stream", "into_token_stream") and path not in I.prog.fns:
            return [(("arr", self.tokens_of(st, args[0])), st)]
        if d in self.streams and not args and m in ("new", "default"):
            return [(("arr", ()), st)]
        if m in ("extend", "append_all") and args and path not in I.prog.fns:
            p = lists.place(I, st, args[0])
            w = I.get(st, p[1], p[2]) if p is not None else None
            if w is not None and w[0] == "arr":
                o = lists.deref(I, st, args[1])
                if o[0] == "top" and o[1] in self.streams:
                    return self.push(st, args[0], [tok(UNKNOWN, o)])
                if o[0] == "arr" and any(x[0] == "arr" for x in o[1]):
                    # an iterator over token streams
                    return self.push(st, args[0], [y for x in o[1] for y in (x[1] if x[0] == "arr" else (x,))])
            return None
        # ---- texts
        if path.startswith("core::fmt::rt::Argument") and m in ("new_display", "new_debug"):
            return [(tok(FMTARG, lists.deref(I, st, args[0])), st)]
        if path.startswith("core::fmt::Arguments") and m == "new" and len(args) == 2:
            full = (info["callee"] or {}).get("full", "")
            if "::<2, 1>" in full:
                a = lists.deref(I, st, args[1])
                if a[0] == "arr" and len(a[1]) == 1 and kind(a[1][0]) == FMTARG:
                    return [(tok(FMTARGS, a[1][0][1][1]), st)]
            return None
        if path == "alloc::fmt::format" and kind(args[0]) == FMTARGS:
            x = args[0][1][1]
            return [(x if is_text(x) or x[0] in ("str", "strref") else tok(TEXT, x), st)]
        if path == "core::hint::must_use":
            return [(args[0], st)]
        if args and m in ("to_string", "to_owned", "clone", "as_str", "deref", "as_ref", "borrow", "into", "from"):
            w = lists.deref(I, st, args[0])
            if is_text(w):
                return [(w if m not in ("as_str", "deref", "as_ref", "borrow") else args[0], st)]
            if m == "to_string" and w[0] == "i" and d is not None and I.T[d].get("path") == "alloc::string::String":
                return [(tok(TEXT, w), st)]
        return None


def flatten(I, st, toks):
    """[(kind, text or value or (delimiter, tokens))]"""
    out = []
    for t in toks:
        k = kind(t)
        x = t[1][1] if k is not None else t
        if k in (WORD, PUNCT):
            out.append((k, x[1]))
        elif k == GROUP:
            w = lists.deref(I, st, x[1][1])
            out.append((GROUP, flatten(I, st, w[1]) if w[0] == "arr" else [(UNKNOWN, w)]))
        else:
            out.append((k, x))
    return out


def attributes(toks):
    """contents of every #[asn(...)] in order, anywhere"""
    out = []
    for i, (k, x) in enumerate(toks):
        if k == GROUP:
            if i and toks[i - 1] == (PUNCT, "#") and len(x) == 2 and x[0] == (WORD, "asn") and x[1][0] == GROUP:
                out.append(x[1][1])
            else:
                out += attributes(x)
    return out


def keys(content):
    """key = value pairs of an attribute: [(key, [value tokens])]"""
    out, cur = [], []
    for t in content + [(PUNCT, ",")]:
        if t == (PUNCT, ","):
            if cur:
                k = cur[0][1] if cur[0][0] == WORD else None
                out.append((k, cur[2:] if len(cur) > 1 and cur[1] == (PUNCT, "=") else None))
            cur = []
        else:
            cur.append(t)
    return out


def show(toks):
    return " ".join(x if k in (WORD, PUNCT) else "(%s)" % show(x) if k == GROUP else "<%s>" % (x,) for k, x in toks)
