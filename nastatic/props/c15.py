from ._conv import *

METHOD = ("the conversion code is interpreted abstractly, over library models, with every size limit from 1 to the number of rows and beyond, and without; the text "
          "terms of the volumes are read by an independent reader and joined, and compared cell by cell with the file written without a limit")
LEVEL = "other"
ASSUMPTIONS = ["the models of numpy, xarray, cf_xarray and cftime in /verif/ref/xstub", "structures and axis values are those of the data sets listed in "
               "nastatic/props/_conv.py; cell values are arbitrary"]
RULE = "the volumes written under a size limit hold the rows of the whole file once each and in order, say which volume of how many they are, and are listed once each"
WHERE = [("nappy.nc_interface.xarray_to_na", "XarrayToNA._writeNAFileSubsetsWithinSizeLimit"), ("nappy.utils.common_utils", "modifyNADictCopy"),
         ("nappy.nc_interface.xarray_to_na", "XarrayToNA.writeNAFiles")]
DELIM = {"ds": "    ", "nc": "    ", "xr": "    ", "csv": ",", "xrcsv": ","}
SAME = ("FFI", "NLHEAD", "ONAME", "ORG", "SNAME", "MNAME", "XNAME", "DX", "NV", "VSCAL", "VNAME", "SCOM", "NCOM")


def names_of(c):
    """the file names a conversion returned, or None"""
    ip = c.sc.ip
    r = c.result
    try:
        w = ip.aslist(r, c.sc.st)
    except Exception:
        return None
    out = []
    for g in segs_of(w):
        if g.op != "it" or g.args[0].op != "K":
            return None
        out.append(kv(g.args[0]))
    return out


def one(chk, name, entry, limit):
    data = datasets().get(name) or located()[name]
    key = "%s/%s/%d" % (entry, name, limit)
    ext = "csv" if "csv" in entry else "na"
    out = "dir.d/out.%s" % ext
    whole = run_nc(chk.repo, data, entry, out)
    if not followed(chk, whole, key + " whole", RULE):
        return
    W = parsed(chk, whole, key + " whole", RULE, DELIM[entry])
    c = run_nc(chk.repo, data, entry, out, size_limit=limit)
    if not followed(chk, c, key, RULE):
        return
    P = parsed(chk, c, key, RULE, DELIM[entry])
    if P is None or W is None:
        return
    where = anchor(chk, *WHERE)
    names = names_of(c)
    files = c.files()
    if names is None:
        chk.add(key, RULE, UNDECIDED, "the list of files returned is not followed")
    elif sorted(names) != sorted(P):
        chk.add(key + " list", RULE, VIOLATED, "the conversion returns %s, it writes %s" % (names, sorted(P)), where)
    else:
        chk.add(key + " list", RULE, PROVED, "returns %s" % names)
    left = dict(P)
    for fn, w in W.items():
        k = "%s/%s" % (key, fn)
        base, e = fn.rsplit(".", 1)
        n = len(w.x0)
        if w.FFI != 1001 or n <= limit:
            vols = [fn] if fn in left else []
            want = 1
        else:
            vols = [f for f in (names if names is not None and set(names) == set(P) else sorted(left)) if f in left and f != fn and f.startswith(base) and f.endswith("." + e) and f not in W]
            want = -(-n // limit)
        if len(vols) != want:
            chk.add(k, RULE, VIOLATED, "%d volumes were written for %s (%d rows, at most %d each): %s; the files are %s" % (len(vols), fn, n, limit, vols, sorted(P)), where)
            continue
        bad = None
        x0, cells = [], [dict() for _ in range(w.NV)]
        for i, f in enumerate(vols):
            p = left.pop(f)
            if p.problems or not files[f].closed:
                bad = "%s: %s" % (f, "; ".join(p.problems) or "not closed")
                break
            if want > 1 and len(p.x0) > limit:
                bad = "%s has %d rows" % (f, len(p.x0))
                break
            if (p.IVOL, p.NVOL) != (i + 1, want):
                bad = "%s says it is volume %s of %s, it is volume %d of %d" % (f, p.IVOL, p.NVOL, i + 1, want)
                break
            for a in SAME:
                if str(getattr(p, a)) != str(getattr(w, a)):
                    bad = "%s of %s is %s, of the whole file %s" % (a, f, str(getattr(p, a))[:60], str(getattr(w, a))[:60])
            if str(p.VMISS) != str(w.VMISS):
                bad = "VMISS of %s is %s" % (f, p.VMISS)
            if bad:
                break
            off = len(x0)
            x0 += p.x0
            if w.FFI == 1001:
                for kk in range(w.NV):
                    for idx, v in p.cells[kk].items():
                        cells[kk][(idx[0] + off,)] = v
            else:
                cells = p.cells
        if bad is None:
            if [str(v) for v in x0] != [str(v) for v in w.x0]:
                bad = "the volumes give the independent variable %s, the whole file %s" % ([v[0] for v in x0], [v[0] for v in w.x0])
            for kk in range(w.NV):
                if bad is None and (set(cells[kk]) != set(w.cells[kk]) or any(str(cells[kk][i]) != str(w.cells[kk][i]) for i in cells[kk])):
                    d = [i for i in sorted(set(cells[kk]) | set(w.cells[kk])) if str(cells[kk].get(i)) != str(w.cells[kk].get(i))][:1]
                    bad = "row %s of variable %d is %s in the volumes, %s in the whole file" % (d, kk, str(cells[kk].get(d[0]))[:60], str(w.cells[kk].get(d[0]))[:60])
        chk.add(k, RULE, VIOLATED if bad else PROVED, bad or "%d rows in %d volumes" % (n, want), where)
    for f in left:
        chk.add("%s/%s" % (key, f), RULE, VIOLATED, "%s holds nothing of the whole files" % f, where)


def run(chk):
    D = datasets()
    items = [("no fill value", "nc", k) for k in range(1, 6)]
    items += [("seven rows", "nc", k) for k in ((1, 2, 3, 5, 6, 7, 8) if chk.tier == "quick" else range(1, 9))]
    items += [("seven rows", e, k) for e in ("csv", "xr", "xrcsv") for k in (2, 3)]
    items += [("seven rows", "ds", k) for k in (2, 3)] + [(n, "ds", 2) for n in located()]
    items += [(n, e, 2) for n in ("two on one axis", "time axis", "coarser axis", "same shape, other axis", "2-D", "3-D and auxiliary", "2-D, auxiliary, rest, single", "many shapes") for e in ("nc", "xrcsv")]
    parallel(chk, one, items)
