"""What is written can be read back."""
from ._na import *
from ..xconv import number_text
from .c29 import lines_of, then

METHOD = ("the reader is interpreted abstractly on files of known structure whose cells are symbols, the writer on the dictionary that was read, the reader again on the text terms that were written; "
          "the two dictionaries are compared entry by entry, the texts of a first and a second writing piece by piece")
LEVEL = "other"
ASSUMPTIONS = ["structures, names and axis values are those of the files listed in nastatic/props/_na.py and below; cell values are arbitrary", "the number format keeps the numbers: the text of a number is read as that number"]
RULE = "a file written from a dictionary gives that dictionary again when it is read"
AGAIN = "writing what was read back gives the same text"
WHERE = [("nappy.na_file.na_file", "NAFile.write"), ("nappy.na_file.na_file", "NAFile.readData"), ("nappy.na_file.na_core", "NACore.getNADict")]
NOT_CHOSEN = ("2310", "2160", "2160, numbers only")    # without an index in the dictionary

OPTS = {"": {}, "/tabs": {"delimiter": "\t"}, "/one blank": {"delimiter": " ", "float_format": "%.10g"}, "/wide": {"float_format": "%24.16e"}}


def stations(labels, counts, naux=3):
    """a file of format 2160: records with a name, numbers, texts, and lines of values"""
    head = ["Me", "My place", "My probe", "My mission", "1 1", "2001 2 3 2004 5 6", "0", "12", "time (s)", "station", "2", "1 0.5", "-9 -99", "first (K)", "second"]
    aux = ["5", "2", "1 1 0.25", "99 999 -1", "8 5", "zzzzzzzz", "zzzzz", "number of times", "height (m)", "width (m)", "day", "remark"] if naux == 3 else ["1", "0", "1", "99", "number of times"]
    head += aux + ["1", "a special line", "2", "normal", "more of it"]
    L = [K("%d 2160\n" % (len(head) + 1))] + [K(x + "\n") for x in head]
    num = lambda *at: T.fmt(K("%.10g"), sym("%s%s" % (at[0], list(at[1:])), "real"))
    for m, (l, k) in enumerate(zip(labels, counts)):
        L.append(K(l + "\n"))
        L.append(T.cat(K("%d " % k), num("p", m), K(" "), num("q", m), K("\n")) if naux == 3 else K("%d\n" % k))
        if naux == 3:
            L += [K("day %d\n" % m), K("r %d\n" % m)]
        for j in range(k):
            L.append(T.cat(K("%d " % (j * j)), num("a", m, j), K(" "), num("b", m, j), K("\n")))
    return L


def doc_lines(name):
    if name in docs():
        return docs()[name].lines()
    return MORE[name]()


MORE = {"2160": lambda: stations(["Oxford", "New York", "x"], [2, 1, 3]), "2160, numbers only": lambda: stations(["A", "B (old)"], [1, 2], 1)}


def edited(d, what):
    """a dictionary as a user may make it"""
    out = dict(d)
    if what == "bare":
        for k in ("NLHEAD", "FFI"):
            out.pop(k, None)
    if what == "bare but for the index":
        out.pop("NLHEAD", None)
    if what in ("no comments",):
        out.update(NSCOML=0, SCOM=[], NNCOML=0, NCOM=[])
    if what == "blank comments":
        out.update(NSCOML=4, SCOM=["", "first", "", "last  one"], NNCOML=3, NCOM=["x  =  1", "", ""])
    if what == "many comments":
        out.update(NSCOML=12, SCOM=["line %d" % i for i in range(12)], NNCOML=11, NCOM=["note %d" % i for i in range(11)])
    if what == "whole numbers":
        for k in ("VMISS", "VSCAL", "AMISS", "ASCAL"):
            if k in out and not any(isinstance(x, str) for x in out[k]):
                out[k] = [int(x) if float(x) == int(x) else x for x in out[k]]
    if what == "other texts":
        out.update(ONAME="Smith, J.; Jones, K. (both)", ORG="12", SNAME="1 2 3", MNAME="a = \"b\": 'c' d")
        if d["FFI"] == 2160:
            out["X"] = [["station %d (old), 1" % m] + list(x[1:]) for m, x in enumerate(d["X"])]
            for a in range(int(d["NAUXV"] - d["NAUXC"]), int(d["NAUXV"])):
                out["A"] = out["A"][:a] + [["text %d: a \"b\" c" % m for m in range(len(d["X"]))]] + out["A"][a + 1:]
        out["VNAME"] = ["v %d: 50%% of it, \"x\" (m s-1)" % i for i in range(len(out["VNAME"]))]
    if what == "long numbers":
        for k, n in (("VSCAL", 0), ("ASCAL", 1)):
            if k in out:
                out[k] = [(0.123456789, 1234567.5, -0.25, 1e-12, 1e+20)[(i + n) % 5] for i in range(len(out[k]))]
        out["DX"] = [out["DX"][0]] + [3600.000125] * (len(out["DX"]) - 1) if d["FFI"] not in (1020, 2160, 2310) else out["DX"]
    if what == "volumes":
        out.update(IVOL=3, NVOL=12, DATE=[1999, 12, 31], RDATE=[2024, 2, 29])
    return out


EDITS = ["bare", "bare but for the index", "no comments", "blank comments", "many comments", "whole numbers", "long numbers", "other texts", "volumes"]


def load(repo, lines):
    c = Conv(repo)
    T.CONV_HOOK = as_written
    c.sc.ip.known_text["in.na"] = lines
    return c


def as_written(kind, v):
    """known numbers are read as they are written, with a known format; others as what they are"""
    if kind == "float" and v.op == "fmt" and is_k(v.args[1]) and isinstance(kv(v.args[1]), (int, float)) and is_k(v.args[0]):
        try:
            return K(float(kv(v.args[0]) % kv(v.args[1])))
        except (ValueError, TypeError):
            return None
    return number_text(kind, v)


def read_in(c, name):
    """the dictionary of a file"""
    fo = c.sc.meth(c.np, "openNAFile", K(name))
    c.sc.meth(fo, "readData")
    return c.sc.meth(fo, "getNADict")


def write_out(c, name, d, opts):
    fo = c.sc.meth(c.np, "openNAFile", K(name), K("w"), d)
    c.sc.meth(fo, "write", **{k: c.val(v) for k, v in opts.items()})
    c.sc.meth(fo, "close")


def value(c, t):
    """an entry as nested lists of leaves"""
    t2 = c.sc.ip.freeze(t, c.sc.st)
    return leaves(t2)


def leaves(t):
    if t.op == "seq" or isinstance(t.ty, tuple):
        if t.op != "seq" or any(g.op != "it" for g in t.args):
            raise Odd("a list of unknown length: %s" % str(t)[:80])
        return [leaves(g.args[0]) for g in t.args]
    if t.op == "tup":
        return [leaves(x) for x in t.args]
    if t.op == "list" and len(t.args) == 1:
        return leaves(t.args[0])
    return kv(t) if is_k(t) else t


def same(a, b):
    """None, or the place of the first difference; Odd when it cannot be told"""
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)):
            return "%s instead of %s" % (str(b)[:60], str(a)[:60])
        if len(a) != len(b):
            return "%d values instead of %d" % (len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y)
            if r:
                return "[%d] %s" % (i, r)
        return None
    ok = same_value(b, a) if not (isinstance(a, str) or isinstance(b, str)) else squeeze(a) == squeeze(b) if isinstance(a, str) and isinstance(b, str) else False
    if isinstance(a, Term) and isinstance(b, str) or isinstance(b, Term) and isinstance(a, str):
        raise Odd("%s against %s" % (str(a)[:50], str(b)[:50]))
    if ok is None:
        raise Odd("%s against %s" % (str(a)[:50], str(b)[:50]))
    return None if ok else "%s instead of %s" % (str(b)[:60], str(a)[:60])


def squeeze(s):
    return " ".join(s.split())


def as_val(v):
    return [as_val(x) for x in v] if isinstance(v, list) else v


def dictionary(c, d):
    return {k: value(c, v) for k, v in hdict(c, d).items()}


def one(chk, name, opt, edit=None):
    key = name + opt + ("/" + edit if edit else "")
    where = anchor(chk, *WHERE)
    c = load(chk.repo, doc_lines(name))
    box = {}

    def first():
        box["d"] = read_in(c, "in.na")
        box["before"] = dictionary(c, box["d"])
        if edit:
            box["before"] = edited(box["before"], edit)
            box["d"] = c.val({k: as_val(v) for k, v in box["before"].items()})
        write_out(c, "out.na", box["d"], OPTS[opt])
    try:
        c.run(first)
        if not followed(chk, c, key, RULE):
            return
        out = c.files()["out.na"]
        e = load(chk.repo, lines_of(out))

        def second():
            box["d2"] = read_in(e, "in.na")
            box["after"] = dictionary(e, box["d2"])
            write_out(e, "out.na", box["d2"], OPTS[opt])
        e.run(second)
        if not followed(chk, e, key + "/read back", RULE):
            return
        a, b = box["before"], box["after"]
        bad = []
        for k in sorted(set(a) | (set(b) - {"NLHEAD", "FFI"} if edit else set(b))):
            if edit and k == "NLHEAD":
                continue
            if k not in b or k not in a:
                bad.append("%s is %s" % (k, "lost" if k in a else "new"))
                continue
            r = same(a[k], b[k])
            if r:
                bad.append("%s%s" % (k, r if r.startswith("[") else " is " + r))
        chk.add(key, RULE, VIOLATED if bad else PROVED, "; ".join(bad)[:300] or "%d entries" % len(a), where)
        t1, t2 = [show(l) for l in out.lines()], [show(l) for l in e.files()["out.na"].lines()]
        if not bad and edit not in ("whole numbers", "long numbers"):
            n = [i for i, (p, q) in enumerate(zip(t1, t2)) if p != q]
            chk.add(key + "/again", AGAIN, PROVED if t1 == t2 else VIOLATED, "%d lines" % len(t1) if t1 == t2 else "line %s: %s instead of %s" % (n[:1], t2[n[0]] if n else len(t2), t1[n[0]] if n else len(t1)), where)
    except (Odd, Unknown) as x:
        chk.add(key, RULE, UNDECIDED, str(x)[:160])


def run(chk):
    parallel(chk, one, [(n, o) for n in list(docs()) for o in OPTS] + [(n, o) for n in MORE for o in OPTS] +
             [(n, "", e) for n in list(docs()) + list(MORE) for e in EDITS if not (e == "bare" and n in NOT_CHOSEN) and "odd" not in n])
