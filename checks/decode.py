"""C01 / C02: every public decode entry point of the codec library on a buffer of unknown contents."""
import run
import mir
import codec
import interp
from dom import const, sub, addc

CRATE = "asn1_codecs"
_P = None
DBG = None


def load(w, pkgs=("asn1-codecs",)):
    files = w.dump_repo(list(pkgs))
    P = mir.Prog()
    P.load(files[CRATE])
    return P


def argdesc(cell):
    if cell is None:
        return ""
    return "lb %s, ub %s" % tuple("given" if c else "absent" for c in cell)


def tasks_for(P):
    ents = codec.decode_entries(P)
    names = {f.path.split("::")[-1] for f in ents}
    for must in ("decode_integer", "decode_bool", "decode_octetstring", "decode_sequence_header"):
        if must not in names:
            raise codec.Anchor("public function %s of the codec library" % must)
    return [(f.path, c) for f in ents for c in codec.bound_cells(P, f)]


class Panics:
    """obligations at panic sites, keyed by function, kind and detail"""

    def __init__(self):
        self.ob = {}

    def __call__(self, kind, detail, ok, fn, sp, stack, st):
        k = (fn.path, sp, kind, detail)
        a = self.ob.setdefault(k, [0, 0, None])
        a[0 if ok else 1] += 1
        if not ok and a[2] is None:
            a[2] = [codec.short(x) for x in stack]


def run_entry(task, frontier=False):
    path, cell = task
    P = _P
    pan = Panics()
    I = codec.new_interp(P, pan)
    fn = P.fns[path]
    st = interp.St()
    ln, off = st.num.fresh(0, 1 << 61), st.num.fresh(0, 1 << 61)
    st.num.assume(sub(ln, off))
    u = interp.uid()
    adt = P.types[fn.locals[1]]["to"]
    d = codec.mkdata(I, P, st, adt, ("seq", u, const(0), ln, None), off)
    args = codec.fresh_args(I, P, st, fn, d)
    codec.legal_bounds(I, P, st, fn, args, cell)
    out = dict(task=task, obl=[], reads=0, outcomes=0, ok=0, bad=[], gaps=[], unmodelled=[])
    if frontier:
        I.copies_anew = True
        st.ghost["F"] = off
        st.ghost["start"] = off
        bad = {}

        def on_read(s1, info, s):
            if s[1] != u:
                return
            F = s1.ghost.get("F")
            out["reads"] += 1
            where = codec.short(I.stack[-1]) if I.stack else path
            if F is None:
                bad.setdefault((where, "unknown"), "the position of a read relative to the preceding reads is not determined")
                return
            start, end = s[2], interp.add(s[2], s[3])
            n = s1.num
            if n.prove(sub(const(0), s[3])):
                return
            if n.prove(sub(start, F)) and n.prove(sub(F, start)):
                s1.ghost["F"] = end
                return
            o = codec.read_data(I, P, s1, d)[1]
            if n.prove(sub(F, end)) and (n.prove(sub(start, off)) or (o is not None and n.prove(sub(start, o)))):
                return          # bits already read (a peek)
            if o is not None and n.prove(sub(start, o)) and n.prove(sub(F, start)) and n.prove(sub(end, F)):
                s1.ghost["F"] = end
                return
            if DBG:
                DBG(s1, s, F, o, I)
            bad.setdefault((where, "read"), "a read does not start where the bits already read end")
        I.on_read = on_read
    outs = I.run(fn, args, st)
    out["outcomes"] = len(outs)
    out["gaps"] = [str(g) for g in I.gaps]
    out["unmodelled"] = sorted(I.unmodelled)
    out["blocks"] = I.stats["blocks"]
    for k, a in pan.ob.items():
        out["obl"].append((k, a))
    if frontier:
        for v, s1 in outs:
            if codec.is_ok(I, s1, v) is False:
                continue
            out["ok"] += 1
            b, o = codec.read_data(I, P, s1, d)
            F = s1.ghost.get("F")
            n = s1.num
            if b[1] != u:
                bad.setdefault((path, "buffer"), "the data is replaced while decoding")
            elif o is None or F is None:
                bad.setdefault((path, "cursor-unknown"), "the cursor after a successful decode is not determined by the reads")
            else:
                if not n.prove(sub(o, F)):
                    bad.setdefault((path, "behind"), "after a successful decode the cursor is behind the bits that were read")
                if not n.prove(sub(F, o)):
                    bad.setdefault((path, "beyond"), "after a successful decode the cursor has moved over bits that were not read")
                if not n.prove(sub(ln, o)):
                    bad.setdefault((path, "end"), "after a successful decode the cursor may be past the end of the data")
        out["bad"] = [(k, v) for k, v in bad.items()]
    return out


def run_frontier(task):
    return run_entry(task, True)


class C01:
    LEVEL = "proof"

    @staticmethod
    def check(rep, w, tier):
        global _P
        _P = load(w)
        tasks = tasks_for(_P)
        rep.rule("every panic site (assert terminator, panicking library call, explicit panic) reachable from a public decode function must be "
                 "proved unreachable or safe for every buffer, cursor <= length and legal constraint")
        res = run.pmap(run_entry, tasks)
        seen = set()
        for r in res:
            rep.unit("entry points x bound cells")
            rep.unit("basic blocks interpreted", r["blocks"])
            for g in r["gaps"]:
                rep.fail("gap:" + g, "construct outside the analysis: " + g, r["task"][0])
            for (fp, sp, kind, detail), a in r["obl"]:
                seen.add((fp, sp, kind, detail))
                if a[1]:
                    rep.fail("%s:%s:%s" % (codec.short(fp), kind, detail),
                             "%s may fail: %s (entry %s %s, path %s)" % (
                                 kind, detail, codec.short(r["task"][0]), argdesc(r["task"][1]), " > ".join(a[2] or [])), sp)
                else:
                    rep.ok()
        rep.unit("panic sites", len(seen))
        rep.notes.append("library functions taken not to panic: " + ", ".join(sorted({x for r in res for x in r["unmodelled"]})))


class C02:
    LEVEL = "proof"

    @staticmethod
    def check(rep, w, tier):
        global _P
        _P = load(w)
        tasks = tasks_for(_P)
        rep.rule("every read of the buffer starts exactly where the bits already read end (or re-reads bits the cursor has not passed); on every "
                 "successful path the cursor equals the end of the bits read and is inside the data")
        res = run.pmap(run_frontier, tasks)
        for r in res:
            rep.unit("entry points x bound cells")
            rep.unit("abstract reads", r["reads"])
            rep.unit("successful outcomes", r["ok"])
            for g in r["gaps"]:
                rep.fail("gap:" + g, "construct outside the analysis: " + g, r["task"][0])
            if not r["reads"]:
                rep.fail("noread:" + codec.short(r["task"][0]), "no read of the buffer was found", r["task"][0])
            for (fp, what), msg in r["bad"]:
                rep.fail("%s:%s" % (codec.short(fp), what), msg + " (entry %s %s)" % (codec.short(r["task"][0]), argdesc(r["task"][1])), fp)
            if not r["bad"]:
                rep.ok(r["ok"] + r["reads"])
        import wirec
        wirec._P = _P
        rep.rule("with any bit of an alignment padding set, every outcome of the decoder is an error")
        wirec.run_tasks(rep, w, wirec.pad_tasks(tier))


TRUST = ["MIR of rustc nightly as dumped by driver/", "the abstract interpreter in engine/ and its models of core, alloc and bitvec functions"]
ASSUME = ["a cursor position is at most the length of the data when a decode function is called (the public seek functions are not decode entry points)",
          "the data is shorter than 2^61 bits", "allocation succeeds"]

C01.META = dict(what="Abstract interpretation of the MIR of every public decode function (affine expressions over intervals, loops to a fixpoint).",
                cmd="python3 check.py C01", trusted=TRUST, assumptions=ASSUME)
C02.META = dict(what="Abstract interpretation of every public decode function with a ghost read frontier on the input buffer.",
                cmd="python3 check.py C02", trusted=TRUST, assumptions=ASSUME)

C01.TECH = "abstract interpretation of MIR: panic-freedom of every public decode function"
C01.NOTE = ("Every path of every public decode function (generics and private callees inlined) over unknown data, cursor and legal bounds, in an affine/interval "
            "domain; panic sites inside core, alloc and bitvec are covered by the preconditions of their models.")
C02.TECH = "abstract interpretation of MIR with a ghost read frontier (typestate of the cursor)"
C02.NOTE = "Covers the reads made through every public decode function; trusts the models of the bitvec slice functions."
