import itertools
from ._rw import *
from ..engine import parallel
from ..scen import Scenario

METHOD = ("typestate analysis of the file object: every sequence of write and close calls up to a bounded length is followed through the "
          "public interface and each call is classified as always raising or completing; files opened on the way are tracked to their close")
LEVEL = "other"
ASSUMPTIONS = ["no I/O error occurs", "one thread uses a file object at a time"]


def drive(sc):
    sc.ip.extra = {"drive": os.path.join(REF, "drive.py")}
    return sc.load("drive")


def step(chk, sc, fn):
    """'ok', 'raised' or None (undecided), with the raise sites"""
    nr, ne = len(sc.ip.raises), len(sc.ip.events)
    keep = sc.st.copy()
    try:
        fn()
        new = sc.ip.raises[nr:]
        if any(unks(c) for r in new for c in r[0]):
            return None, new, ne
        return "ok", new, ne
    except Dead:
        new = sc.ip.raises[nr:]
        sc.st = keep
        sc.dead = None
        T.set_facts(sc.st.facts)
        return "raised", new, ne


def wrote(sc, ne):
    return [e for e in sc.ip.events[ne:] if e[0] == "write"]


HOW = (("", {}), ("no-header", {"no_header": TRUE}), ("annotated", {"annotation": TRUE}),
       ("annotated-no-header", {"annotation": TRUE, "no_header": TRUE}), ("comma", {"delimiter": K(","), "float_format": K("%g")}))


def histories(chk, ffi, n, how=0):
    rule = "a file object is written exactly once, while open, in write mode"
    for ops in itertools.product(("write", "close"), repeat=n):
        sc = Scenario(chk.repo)
        m = sc.load()
        d, _ = na_dict(sc, ffi, "pos", None)
        key = "history/%d/%s%s" % (ffi, "-".join(ops), "/" + HOW[how][0] if how else "")
        fo = sc.call(sc.attr(m, "openNAFile"), sym("fname", "str"), K("w"), d)
        written = closed = False
        verdict = (PROVED, "every call behaves as specified")
        where = []
        for i, op in enumerate(ops):
            if op == "write":
                r, new, ne = step(chk, sc, lambda: sc.meth(fo, "write", **HOW[how][1]))
                want = "raised" if written or closed else "ok"
                if r is None:
                    verdict = (UNDECIDED, "call %d not followed" % (i + 1))
                    break
                if r != want:
                    verdict = (VIOLATED, "call %d (write on a file %s) %s" % (
                        i + 1, "already closed" if closed else "already written" if written else "freshly opened",
                        "does not raise" if r == "ok" else "always raises: %s" % (new[-1][2] or new[-1][1])))
                    fn = sc.ip.funcs
                    where = [chk.site(x[3]) for x in new[-2:]] or ["nappy/na_file/na_file.py %s" % q for q in sorted(q for _, q in fn if q.endswith(".write"))]
                    break
                if want == "raised" and wrote(sc, ne):
                    verdict = (VIOLATED, "call %d raises, but only after text was written to the file" % (i + 1))
                    where = [chk.site(e[1]) for e in wrote(sc, ne)][:3]
                    break
                written = written or r == "ok"
            else:
                r, new, ne = step(chk, sc, lambda: sc.meth(fo, "close"))
                if r != "ok":
                    verdict = (VIOLATED if r else UNDECIDED, "call %d (close) raises" % (i + 1))
                    break
                closed = True
            fs = [x for x in file_out(sc) if x.name is sym("fname", "str")]
            if op == "write" and r == "ok" and not (fs and fs[0].flushed is fs[0].out and fs[0].out is not T.EMPTY):
                verdict = (VIOLATED, "call %d: the text written is still buffered when write returns" % (i + 1))
                where = [chk.site(e[1]) for e in wrote(sc, ne)][-1:]
                break
            if op == "close" and not (fs and fs[0].closed is TRUE):
                verdict = (VIOLATED, "call %d: close leaves the file open" % (i + 1))
                break
        chk.saw(sc)
        chk.add(key, rule, verdict[0], verdict[1], where)


def modes(chk, ffi):
    rule = "modes other than r and w are refused; a file opened for reading is never written"
    sc = Scenario(chk.repo)
    m = sc.load()
    T.CONV_HOOK = first_line_hook(ffi, 0)
    fo = sc.call(sc.attr(m, "openNAFile"), sym("fname", "str"))
    T.CONV_HOOK = None
    r, new, ne = step(chk, sc, lambda: sc.meth(fo, "write"))
    chk.saw(sc)
    chk.add("mode/%d/read-then-write" % ffi, rule, PROVED if r == "raised" and not wrote(sc, ne) else VIOLATED if r == "ok" else UNDECIDED,
            "write on a file opened for reading %s" % ("raises" if r == "raised" else "does not raise"))
    bad = [e for e in sc.ip.events if e[0] == "open" and not T.is_k(e[2][1], "r")]
    chk.add("mode/%d/read-opens" % ffi, rule, PROVED if not bad else VIOLATED, "files are opened with mode 'r' only", [chk.site(e[1]) for e in bad])
    for mode in (None, "a", "r+", "rw", "W", ""):
        sc = Scenario(chk.repo)
        m = sc.load()
        d, _ = na_dict(sc, ffi, "pos", None)
        if mode is None:
            t = sym("mode", "str")
            sc.assume(T.neg(T.eq(t, K("r"))), T.neg(T.eq(t, K("w"))))
        else:
            t = K(mode)
        r, new, ne = step(chk, sc, lambda: sc.call(sc.attr(m, "openNAFile"), sym("fname", "str"), t, d))
        chk.saw(sc)
        real = [x for x in new if x[1] not in ("TypeError",)]
        st = PROVED if r == "raised" and real else VIOLATED if r == "ok" else UNDECIDED
        chk.add("mode/%d/%s" % (ffi, "any other" if mode is None else repr(mode)), rule, st,
                "opening with mode %s %s" % ("other than r and w" if mode is None else repr(mode), "raises" if r == "raised" else "does not raise"),
                [chk.site(x[3]) for x in new[-2:]])


def files(chk, ffi):
    rule = "files opened on the way are closed again"
    for what in ("with_read", "with_write"):
        sc = Scenario(chk.repo)
        dm = drive(sc)
        T.CONV_HOOK = first_line_hook(ffi, 0)
        a = [sym("fname", "str")]
        if what == "with_write":
            a.append(na_dict(sc, ffi, "pos", None)[0])
        r, new, ne = step(chk, sc, lambda: sc.call(sc.attr(dm, what), *a))
        T.CONV_HOOK = None
        chk.saw(sc)
        fs = [x for x in sc.st.heap.values() if type(x).__name__ == "HFile"]
        left = [x for x in fs if x.closed is not TRUE]
        st = UNDECIDED if r != "ok" else PROVED if not left else VIOLATED if all(x.closed is FALSE for x in left) else UNDECIDED
        chk.add("files/%d/%s" % (ffi, what), rule, st, "%d file(s) opened, %d left open after the with block" % (len(fs), len(left)),
                [chk.site(e[1]) for e in sc.ip.events if e[0] == "open"][:4])
        if what == "with_write" and r == "ok":
            opens = [e for e in sc.ip.events if e[0] == "open"]
            ok = len(opens) == 1 and opens[0][2][0] is sym("fname", "str") and T.is_k(opens[0][2][1], "w")
            chk.add("files/%d/one-output" % ffi, "writing opens exactly the named file", PROVED if ok else VIOLATED,
                    "opened: %s" % [(T.show(e[2][0]), T.show(e[2][1])) for e in opens][:4], [chk.site(e[1]) for e in opens][:4])
        if what == "with_read" and r == "ok":
            opens = [e for e in sc.ip.events if e[0] == "open"]
            ok = all(e[2][0] is sym("fname", "str") and T.is_k(e[2][1], "r") for e in opens)
            chk.add("files/%d/reads-only" % ffi, "reading opens nothing but the named file, for reading", PROVED if ok else VIOLATED,
                    "opened: %s" % [(T.show(e[2][0]), T.show(e[2][1])) for e in opens][:4], [chk.site(e[1]) for e in opens][:4])
    # leaving the block because of an error closes the file and lets the error out
    sc = Scenario(chk.repo)
    m = sc.load()
    d, _ = na_dict(sc, ffi, "pos", None)
    fo = sc.call(sc.attr(m, "openNAFile"), sym("fname", "str"), K("w"), d)
    out = {}

    def leave():
        out["r"] = sc.meth(fo, "__exit__", T.obj("cls", "ValueError"), sym("exc"), sym("tb"))
    r, new, ne = step(chk, sc, leave)
    chk.saw(sc)
    fs = file_out(sc)
    falsy = r == "ok" and (out["r"] is NONE or T.is_k(out["r"], False))
    chk.add("files/%d/exit" % ffi, "leaving a with block by an exception closes the file and lets the exception out",
            PROVED if falsy and fs and fs[0].closed is TRUE else VIOLATED if r == "ok" and fs and (fs[0].closed is FALSE or T.is_k(out["r"], True)) else UNDECIDED,
            "result %s" % (T.show(out["r"]) if r == "ok" else r))


def one(chk, kind, ffi, *a):
    {"h": histories, "m": modes, "f": files}[kind](chk, ffi, *a)


def run(chk):
    n = 5 if chk.thorough else 3
    items = []
    for f in FFIS:
        items += [("h", f, k) for k in range(1, n + 1)] + [("m", f), ("f", f)]
        items += [("h", f, k, h) for k in range(1, (n if chk.thorough else 2) + 1) for h in range(1, len(HOW))]
    parallel(chk, one, items)
