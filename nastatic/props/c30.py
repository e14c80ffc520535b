"""The label of an annotated line names the item that the line holds."""
import configparser
from .c25 import *

METHOD = ("the annotated writing of files of known structure with symbolic cells is interpreted abstractly; the label of every line of the text is compared with the text that the configuration has for the item "
          "which the published layout puts on that line")
LEVEL = "other"
ASSUMPTIONS = ["structures and names are those of the files listed in nastatic/props/_na.py and c25.py", "nappy/config/annotations.ini says what each item is called"]
RULE = "the label of a line is the configured text for its item, numbered where an item has several lines"
WHERE = [("nappy.utils.common_utils", "getAnnotation"), ("nappy.utils.common_utils", "annotateLines"), ("nappy.na_file.na_file", "NAFile.write")]


def texts(repo):
    p = configparser.ConfigParser()
    p.optionxform = str
    with open(os.path.join(repo, "nappy", "config", "annotations.ini")) as fh:
        p.read_string(fh.read())
    return dict(p.items("annotations"))


def items(d):
    """[(item, number or None or "any")] of the header lines of a dictionary, by the published layout"""
    n = lambda k: d.get(k) or 0
    out = [(x, None) for x in ("NLHEAD_FFI", "ONAME", "ORG", "SNAME", "MNAME", "IVOL_NVOL", "DATE_RDATE", "DX")]
    ffi, niv = int(d["FFI"]), {1: 1, 2: 2, 3: 3, 4: 4}[int(d["FFI"]) // 1000]
    many = lambda k, m: [(k, i + 1) for i in range(int(m))] if m > 1 else [(k, "any")] * int(m)
    if ffi == 1020:
        out.append(("NVPM", None))
    if ffi in (2010, 3010, 4010):
        out += [("NX", None), ("NXDEF", None)] + [("X", "any")] * (niv - 1)
    if ffi == 2160:
        out.append(("LENX", None))
    out += many("XNAME", niv) + [("NV", None), ("VSCAL", None), ("VMISS", None)] + many("VNAME", n("NV"))
    if ffi != 1001:
        out.append(("NAUXV", None))
        chars = int(n("NAUXC")) if ffi == 2160 else 0
        if ffi == 2160:
            out.append(("NAUXC", None))
        if n("NAUXV"):
            out += [("ASCAL", None), ("AMISS", None)]
            if chars:
                out += [("LENA", None)] + many("AMISS", chars)
            out += many("ANAME", n("NAUXV"))
    out += [("NSCOML", None)] + many("SCOM", n("NSCOML")) + [("NNCOML", None)] + many("NCOM", n("NNCOML"))
    return out


def label(line, delim):
    """the first column of a line"""
    s = ""
    for p in line:
        if not isinstance(p, str):
            break
        s += p
    return s.split(delim)[0] if delim in s else None


def named(chk, key, c, fname, delim, d):
    where = anchor(chk, *WHERE)
    T_ = texts(chk.repo)
    lines = c.files()[fname].lines()
    want = items(d)
    if len(lines) <= len(want):
        chk.add(key, RULE, VIOLATED, "%d lines" % len(lines), where)
        return
    want = want + [("Data", None)] * (len(lines) - len(want))
    bad = None
    for i, (l, (item, k)) in enumerate(zip(lines, want)):
        got = label(l, delim)
        text = T_.get(item)
        if text is None:
            bad = "annotations.ini has no text for %s" % item
            break
        text = text.strip()
        ok = {text} if k is None else {"%s %d" % (text, k)} if k != "any" else {text} | {"%s %d" % (text, j) for j in range(1, 4)}
        if got is None or got.strip() not in ok:
            bad = "line %d (%s) has the label %r instead of %r" % (i + 1, item, got, sorted(ok)[0])
            break
    chk.add(key, RULE, VIOLATED if bad else PROVED, bad or "%d lines" % len(lines), where)


def one(chk, name, how):
    key = "%s/%s" % (name, how)
    c = load(chk.repo, doc_lines(name))
    box = {}

    def go():
        d = read_in(c, "in.na")
        if how in ("many comments", "blank comments"):
            ed = edited(dictionary(c, d), how)
            d = c.val({k: as_val(v) for k, v in ed.items()})
        box["d"] = dictionary(c, d)
        if how == "to CSV":
            c.sc.meth(c.np, "convertNAToCSV", K("in.na"), K("out.na"), annotation=TRUE)
        else:
            write_out(c, "out.na", d, {"annotation": True, "delimiter": {"bars": "|"}.get(how, "\t")})
    try:
        c.run(go)
        if not followed(chk, c, key, RULE):
            return
        named(chk, key, c, "out.na", {"bars": "|", "to CSV": ","}.get(how, "\t"), box["d"])
    except (Odd, Unknown) as x:
        chk.add(key, RULE, UNDECIDED, str(x)[:160])


def run(chk):
    t = texts(chk.repo)
    twice = sorted(k for k in t if list(t.values()).count(t[k]) > 1)
    chk.add("texts", "no two items have the same label", VIOLATED if twice else PROVED, ", ".join(twice) or "%d texts" % len(t), anchor(chk, WHERE[0]))
    parallel(chk, one, [(n, h) for n in list(docs()) + list(MORE) for h in ("bars", "many comments", "blank comments", "to CSV")])
