from ._na import *
from . import c12

METHOD = ("the conversion of NASA Ames files to CSV is interpreted abstractly on files of known structure whose cells are symbols; the text written is read by an independent reader "
          "of the layouts and compared item by item with the file that was read")
LEVEL = "other"
ASSUMPTIONS = ["structures, names and axis values are those of the files listed in nastatic/props/_na.py; cell values are arbitrary", "the text of a number is read as that number"]
RULE = "the CSV file holds every header item and every value of the NASA Ames file in its place, separated by commas, and nothing else"
WHERE = [("nappy.nappy_api", "convertNAToCSV"), ("nappy.na_file.na_file", "NAFile.write"), ("nappy.na_file.na_file", "NAFile.readData")]


def near(a, b):
    a = a[0] if isinstance(a, tuple) else a
    b = kv(b) if isinstance(b, Term) and is_k(b) else b
    if isinstance(a, Term) or isinstance(b, Term):
        return a is b
    try:
        return abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(b)))
    except (TypeError, ValueError):
        return str(a) == str(b)


def all_near(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))


def differences(p, doc, first_line_only=False):
    """What of the file read is not in the file written"""
    bad = []

    def same(what, got, want):
        ok = all_near(got, want) if isinstance(want, (list, tuple)) else near(got, want)
        if not ok:
            bad.append("%s is %s instead of %s" % (what, str(got)[:100], str(want)[:100]))
    bad += p.problems
    same("FFI", p.FFI, doc.ffi)
    same("ONAME, ORG, SNAME, MNAME", [p.ONAME, p.ORG, p.SNAME, p.MNAME], list(doc.head))
    same("IVOL, NVOL", [p.IVOL, p.NVOL], doc.vols)
    same("DATE", p.DATE, doc.date)
    same("RDATE", p.RDATE, doc.rdate)
    fast = doc.xs[1:][::-1]
    same("XNAME", p.XNAME, [n for n, _ in fast] + [doc.xs[0][0]])
    if doc.ffi in (2010, 3010, 4010):
        imp = list(doc.implied or [None] * (len(doc.xs) - 1))[::-1]
        nd = [len(v) if k is None else k for (_, v), k in zip(fast, imp)]
        same("NX", p.NX, [len(v) for _, v in fast])
        same("NXDEF", p.NXDEF, nd)
        for k, ((n, v), d) in enumerate(zip(fast, nd)):
            same("axis %r" % n, p.X[k], v[:d])
    if doc.ffi == 1020:
        same("NVPM", p.NVPM, doc.nvpm)
    same("DX", p.DX, doc.dx())
    same("NV", p.NV, len(doc.V))
    same("VSCAL", p.VSCAL, [c.scal for c in doc.V])
    same("VMISS", p.VMISS, [c.miss for c in doc.V])
    same("VNAME", p.VNAME, [c.name for c in doc.V])
    same("NAUXV", p.NAUXV, len(doc.A))
    if doc.A and not bad:
        same("ASCAL", p.ASCAL, [c.scal for c in doc.A])
        same("AMISS", p.AMISS, [c.miss for c in doc.A])
        same("ANAME", p.ANAME, [c.name for c in doc.A])
    same("special comments", p.SCOM, doc.scom)
    same("normal comments", p.NCOM, doc.ncom)
    if not bad:
        x0 = doc.xs[0][1][::doc.nvpm or 1]
        same("first axis", [v[0] for v in p.x0], x0)
        for k, col in enumerate(doc.A):
            same("auxiliary variable %r" % col.name, [v[0] for v in p.aux[k]], [col.raw((m,)) for m in range(len(x0))])
        if doc.ffi == 2110:
            same("second axis", [v[0] for m, v in p.x1], [v for r in doc.xs[1][1] for v in r])
        for k, col in enumerate(doc.V):
            idx = doc.indexes()
            if set(p.cells[k]) != set(idx):
                bad.append("variable %r has %d values instead of %d" % (col.name, len(p.cells[k]), len(idx)))
            else:
                same("variable %r" % col.name, [p.cells[k][i][0] for i in idx], [col.raw(i) for i in idx])
    return bad


def one(chk, name, opt=None):
    doc = docs()[name]
    key = "%s%s" % (name, "/" + opt if opt else "")
    where = anchor(chk, *WHERE)
    c = run_na(chk.repo, doc, "convertNAToCSV", "out.csv", **({opt: True} if opt else {}))
    if not followed(chk, c, key, RULE):
        return
    fs = c.files()
    if list(fs) != ["out.csv"]:
        chk.add(key, RULE, VIOLATED, "writes the files %s" % list(fs), where)
        return
    o = fs["out.csv"]
    if not o.closed:
        chk.add(key + "/closed", RULE, VIOLATED, "the file is not closed", where)
    try:
        if opt == "no_header":
            w = run_na(chk.repo, doc, "convertNAToCSV", "out.csv")
            full = w.files()["out.csv"].lines()
            p = parse(w.files()["out.csv"], ",")
            a, b = [show(l) for l in o.lines()], [show(l) for l in full[p.NLHEAD:]]
            chk.add(key, RULE, PROVED if a == b else VIOLATED, "%d lines of data" % len(a) if a == b else "the data section differs: %s instead of %s" % (a[:2], b[:2]), where)
            return
        p = parse(o, ",", anno=opt == "annotation")
        bad = differences(p, doc)
        for l in o.lines():
            if not opt and any(ch == " " for ch in strip_(l)[:1]):
                bad.append("a line starts with a blank")
    except Odd as e:
        chk.add(key, RULE, UNDECIDED, str(e)[:160])
        return
    except Bad as e:
        chk.add(key, RULE, UNDECIDED if T.has_unk(o.text) else VIOLATED, str(e)[:160], where)
        return
    chk.add(key, RULE, VIOLATED if bad else PROVED, "; ".join(bad)[:300] or "%d header lines, %d records" % (p.NLHEAD, len(p.x0)), where)


def run(chk):
    parallel(chk, one, [(n, o) for n in docs() for o in (None, "annotation", "no_header")])
