from ._conv import *
from . import c14
from .c15 import names_of

METHOD = ("every option of every conversion function is given in turn to the conversion code, interpreted abstractly over library models; the files written are read by an "
          "independent reader and compared, term by term, with those written without the option")
LEVEL = "other"
ASSUMPTIONS = ["the models of numpy, xarray, cf_xarray and cftime in /verif/ref/xstub", "structures are those of the data sets listed in nastatic/props/_conv.py; "
               "cell values are arbitrary", "delimiters are those the documentation names: blanks, tab and comma"]
RULE = "each option of a conversion has its documented effect, and no other, whatever the FFI of the files"
WHERE = [("nappy.nappy_api", "convertNCToNA"), ("nappy.nappy_api", "convertNCToCSV"), ("nappy.nappy_api", "convertXarrayObjectsToNA"), ("nappy.nappy_api", "convertXarrayObjectsToCSV"),
         ("nappy.nc_interface.xarray_to_na", "XarrayToNA.writeNAFiles"), ("nappy.nc_interface.nc_to_na", "NCToNA._readXarrayFile")]
SHAPES = ["two on one axis", "2-D", "2-D regular, missing", "2-D, auxiliary, rest, single", "3-D and auxiliary", "4-D time", "time axis", "seven rows", "coarser axis", "time on the second axis"]
HEAD = ("FFI", "NLHEAD", "ONAME", "ORG", "SNAME", "MNAME", "IVOL", "NVOL", "DATE", "RDATE", "DX", "XNAME", "NV", "VSCAL", "VNAME", "NAUXV", "SCOM", "NCOM")


def same_file(p, q, spec=True):
    """What differs between two parsed files, or None"""
    for a in HEAD:
        if str(getattr(p, a)) != str(getattr(q, a)):
            return "%s is %s instead of %s" % (a, str(getattr(p, a))[:80], str(getattr(q, a))[:80])
    if p.NAUXV and str(p.ANAME) != str(q.ANAME):
        return "ANAME is %s instead of %s" % (p.ANAME, q.ANAME)
    if len(p.x0) != len(q.x0):
        return "%d records instead of %d" % (len(p.x0), len(q.x0))
    a = [(("x",), v) for v in p.x0] + [(("V", k), (i, v)) for k, c in enumerate(p.cells) for i, v in sorted(c.items())] + [(("A", k), v) for k, c in enumerate(p.aux) for v in c]
    b = [(("x",), v) for v in q.x0] + [(("V", k), (i, v)) for k, c in enumerate(q.cells) for i, v in sorted(c.items())] + [(("A", k), v) for k, c in enumerate(q.aux) for v in c]
    if len(a) != len(b):
        return "%d values instead of %d" % (len(a), len(b))
    for (w, v), (_, u) in zip(a, b):
        if w[0] == "V":
            if v[0] != u[0]:
                return "shape"
            v, u = v[1], u[1]
        if not same_value(v[0], u[0]) or (spec and v[1] != u[1]):
            return "%s holds %s (%s) instead of %s (%s)" % (w, str(v[0])[:50], v[1], str(u[0])[:50], u[1])
    return None


def specs(p):
    """the formats of the floating-point items of the data section"""
    out = {}
    for w, vs in [("x", p.x0)] + [("variable %d" % k, list(c.values())) for k, c in enumerate(p.cells)] + [("auxiliary variable %d" % k, c) for k, c in enumerate(p.aux)]:
        for v in vs:
            if isinstance(v[0], int):
                continue
            out.setdefault(w, set()).add(v[1])
    return out


def out_of(entry):
    return "out.csv" if "csv" in entry else "out.na"


def delim_of(entry):
    return "," if "csv" in entry else "    "


def base(chk, data, entry, key, **kw):
    c = run_nc(chk.repo, data, entry, out_of(entry), **kw)
    if not followed(chk, c, key, RULE):
        return None, None
    P = parsed(chk, c, key, RULE, kw.get("delimiter", delim_of(entry)), anno=bool(kw.get("annotation")))
    return c, P


def verdict(chk, key, bad, good):
    chk.add(key, RULE, VIOLATED if bad else PROVED, bad or good, anchor(chk, *WHERE))


def one(chk, name, entry, opt):
    data = datasets()[name]
    key = "%s/%s/%s" % (entry, name, opt)
    c0, P0 = base(chk, data, entry, key + " (plain)")
    if P0 is None:
        return
    if opt == "delimiter":
        for d in (",", "\t", "  "):
            c, P = base(chk, data, entry, key, delimiter=d)
            if P is None:
                continue
            bad = None
            if sorted(P) != sorted(P0):
                bad = "the files are %s instead of %s" % (sorted(P), sorted(P0))
            for f in P:
                if not bad:
                    bad = same_file(P[f], P0[f])
                    n = c.files()[f]
                    for i, l in enumerate(n.lines()[P[f].NLHEAD:]):
                        s = split_at(l, d)
                        if not bad and s is None:
                            bad = "line %d of the data in %s is not separated by %r: %s" % (i, f, d, show(l)[:80])
            verdict(chk, key + " %r" % d, bad, "%d files, the same items" % len(P))
    elif opt == "float_format":
        for ff in ("%.3f", "%12.4e", "%s"):
            c, P = base(chk, data, entry, key, float_format=ff)
            if P is None:
                continue
            bad = None
            if sorted(P) != sorted(P0):
                bad = "the files are %s instead of %s" % (sorted(P), sorted(P0))
            for f in P:
                if not bad:
                    bad = same_file(P[f], P0[f], spec=False) if ff == "%s" else None
                for w, s in specs(P[f]).items():
                    odd = [x for x in s if x != ff and not (ff == "%s" and x is None)]
                    if odd and not bad:
                        bad = "%s of %s is written with %s instead of %s" % (w, f, odd[0], ff)
            verdict(chk, key + " %r" % ff, bad, "%d files" % len(P))
    elif opt == "annotation":
        c, P = base(chk, data, entry, key, annotation=True)
        if P is None:
            return
        bad = None
        for f in P0:
            bad = bad or (same_file(P[f], P0[f]) if f in P else "%s was not written" % f)
        for f in P:
            for i, l in enumerate(c.files()[f].lines()[:P[f].NLHEAD]):
                lab = show(strip_(split_at(l, delim_of(entry), 1)[0]))
                if not bad and not lab:
                    bad = "line %d of %s has no annotation" % (i + 1, f)
        verdict(chk, key, bad, "the same items after the annotation")
    elif opt == "no_header":
        c = run_nc(chk.repo, data, entry, out_of(entry), no_header=True)
        if not followed(chk, c, key, RULE):
            return
        bad = None
        fs, f0 = c.files(), c0.files()
        if sorted(fs) != sorted(f0):
            bad = "the files are %s instead of %s" % (sorted(fs), sorted(f0))
        for f in f0:
            if bad:
                break
            try:
                a = [show(l) for l in fs[f].lines()]
            except Odd as e:
                chk.add(key, RULE, UNDECIDED, str(e)[:150])
                return
            b = [show(l) for l in f0[f].lines()[P0[f].NLHEAD:]]
            if a != b:
                bad = "%s holds %d lines, its data section %d" % (f, len(a), len(b)) if len(a) != len(b) else "%s does not hold the data section as it is" % f
        verdict(chk, key, bad, "the data section alone")
    elif opt == "only_return_file_names":
        c = run_nc(chk.repo, data, entry, out_of(entry), only_return_file_names=True)
        if not followed(chk, c, key, RULE):
            return
        ns, want = names_of(c), sorted(P0)
        if ns is None:
            chk.add(key, RULE, UNDECIDED, "the names returned are not followed")
            return
        bad = "files were written: %s" % sorted(c.files()) if c.files() else None
        if not bad and sorted(ns) != want:
            bad = "it returns %s, the files would be %s" % (ns, want)
        verdict(chk, key, bad, "returns %s and writes nothing" % ns)
        # with other options: the names returned are those that the same call would return after writing
        for more in ({"size_limit": 1}, {"size_limit": 2}, {"size_limit": 50}, {"no_header": True}, {"var_ids": [v.name for v in data.vars][:1]}, {"na": None}, {"na": "dir.d/o"}):
            kk = "%s %s" % (key, sorted(more.items()))
            out = more.get("na", out_of(entry))
            more = {k: v for k, v in more.items() if k != "na"}
            if "var_ids" in more and not [v for v in data.vars if v.name in more["var_ids"] and v.axes]:
                continue
            a = run_nc(chk.repo, data, entry, out, **more)
            b = run_nc(chk.repo, data, entry, out, only_return_file_names=True, **more)
            if not followed(chk, a, kk, RULE) or not followed(chk, b, kk, RULE):
                continue
            x, y = names_of(a), names_of(b)
            if x is None or y is None:
                chk.add(kk, RULE, UNDECIDED, "the names returned are not followed")
            else:
                bad = "files were written: %s" % sorted(b.files()) if b.files() else None
                if not bad and (x != y or sorted(x) != sorted(a.files())):
                    bad = "it returns %s, the files would be %s" % (y, sorted(a.files()))
                verdict(chk, kk, bad, "returns %s and writes nothing" % y)
    elif opt in ("var_ids", "exclude_vars"):
        ids = [v.name for v in data.vars if v.axes]
        sing = [v.name for v in data.vars if not v.axes]
        pick = [[i] for i in ids] + ([ids[::2], ids[1:]] if len(ids) > 2 else [])
        for sel in pick:
            asked = sel if opt == "var_ids" else [i for i in ids + sing if i not in sel]
            if not [i for i in asked if i in ids]:
                continue
            forms = [sel] if opt == "exclude_vars" or len(sel) > 1 else [sel, sel[0]]
            for form in forms:
                kk = "%s %s" % (key, form)
                c = run_nc(chk.repo, data, entry, out_of(entry), **{opt: form})
                if followed(chk, c, kk, RULE):
                    c14.check_places(chk, c, data, kk, delim_of(entry), only=asked, rule=RULE, where=WHERE)
    elif opt == "both":
        ids = [v.name for v in data.vars if v.axes]
        every = [v.name for v in data.vars]
        for inc in (every, ids[:2], ids[-2:], ids[::2]):
            for exc in ids:
                asked = [i for i in inc if i != exc]
                if not [i for i in asked if i in ids]:
                    continue
                kk = "%s %s but not %s" % (key, inc, exc)
                c = run_nc(chk.repo, data, entry, out_of(entry), var_ids=inc, exclude_vars=[exc])
                if followed(chk, c, kk, RULE):
                    c14.check_places(chk, c, data, kk, delim_of(entry), only=asked, rule=RULE, where=WHERE)
    elif opt == "ffi refused":
        # an FFI the data cannot be written to is refused, not replaced
        for ffi in (1001, 1010, 2010, 2110, 2310, 3010, 4010):
            c = run_nc(chk.repo, data, entry, out_of(entry), requested_ffi=ffi)
            chk.saw(c.sc)
            if c.status == "raises":
                chk.add("%s %d" % (key, ffi), RULE, PROVED, "refused")
                continue
            if c.status != "ok":
                chk.add("%s %d" % (key, ffi), RULE, UNDECIDED, "not followed")
                continue
            P = parsed(chk, c, key, RULE, delim_of(entry))
            if P is not None:
                odd = [f for f in P if P[f].FFI != ffi]
                verdict(chk, "%s %d" % (key, ffi), odd and "FFI %d was asked for, %s has %d" % (ffi, odd[0], P[odd[0]].FFI), "written as asked")


def split_at(l, d, n=None):
    """the items of a line around the exact delimiter; None when an item is empty or holds a blank"""
    out, cur, i, k = [], [], 0, 0
    D = list(d)
    while i < len(l):
        if l[i:i + len(D)] == D and (n is None or k < n):
            out.append(cur)
            cur, k = [], k + 1
            i += len(D)
        else:
            cur.append(l[i])
            i += 1
    out.append(cur)
    if n is not None:
        return out
    if out and not strip_(out[-1]):
        out.pop()          # a delimiter at the end of the line
    for it in out:
        it = strip_(it)
        if not it or any(isinstance(c, str) and (c.isspace() or c == ",") for c in it):
            return None
    return out


def run(chk):
    items = []
    for e in ("nc", "xr", "csv", "xrcsv"):
        for o in ("delimiter", "float_format", "annotation", "no_header", "only_return_file_names", "var_ids", "exclude_vars", "both"):
            if o == "delimiter" and "csv" in e or o in ("only_return_file_names", "var_ids", "exclude_vars", "both") and "xr" in e:
                continue
            for n in (SHAPES if e in ("nc", "xr") or chk.tier != "quick" else SHAPES[:6:2]):
                items.append((n, e, o))
    items += [(n, "ds", o) for n in SHAPES[:6:2] for o in ("delimiter", "float_format", "annotation", "no_header")]
    items += [(n, e, "ffi refused") for n in ("two on one axis", "2-D", "2-D regular", "3-D and auxiliary") for e in ("nc", "xr", "ds")]
    parallel(chk, one, items)
