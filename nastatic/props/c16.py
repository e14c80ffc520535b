from ._conv import *

METHOD = ("the conversion code is interpreted abstractly, over library models, on data sets with symbolic cells; every text term written is read by an independent "
          "reader of the NASA Ames layouts, and every count and increment it states is compared with what follows")
LEVEL = "other"
ASSUMPTIONS = ["the models of numpy, xarray, cf_xarray and cftime in /verif/ref/xstub", "structures, names and axis values are those of the data sets listed in "
               "nastatic/props/_conv.py; cell values are arbitrary"]
RULE = "every file a conversion writes follows the layout its FFI prescribes: header length, counts, increments and number of records are those of the file"
WHERE = [("nappy.nc_interface.na_content_collector", "NAContentCollector._defineNAVars"), ("nappy.nc_interface.na_content_collector", "NAContentCollector._appendAxisDefinition"),
         ("nappy.nc_interface.na_content_collector", "NAContentCollector._defineNAComments"), ("nappy.na_file.na_file", "NAFile.write")]
DELIM = {"ds": "    ", "nc": "    ", "xr": "    ", "csv": ",", "xrcsv": ","}


def well_formed(p, o, data):
    """What is wrong with a parsed file (a list), and how many things were looked at"""
    bad = list(p.problems)
    n = 1
    if not o.closed:
        bad.append("the file is not closed")
    fixed = {1001: 1, 1010: 1, 1020: 1, 2010: 2, 2110: 2, 2310: 2, 3010: 3, 4010: 4}
    if p.FFI not in fixed:
        bad.append("FFI %s" % p.FFI)
        return bad, n
    if p.NV < 1:
        bad.append("no variable")
    for s in p.VSCAL + (p.ASCAL if p.NAUXV else []):
        n += 1
        if not same_value(s, 1):
            bad.append("a scale factor is %s" % s)
    ax = axes_of(p)
    steps = [None, p.DX[0]] if p.FFI == 2310 else list(p.DX)[::-1]      # the header gives the fastest axis first
    for a, d in zip(ax, steps):
        n += 1
        if d is None or not all(isinstance(v, (int, float)) for v in a):
            continue
        if len(a) < 2:
            continue
        diffs = {round(a[i + 1] - a[i], 9) for i in range(len(a) - 1)}
        if isinstance(d, (int, float)):
            if d != 0 and diffs != {round(float(d), 9)}:
                bad.append("DX is %s, the values are %s" % (d, a))
            if d == 0 and len(diffs) == 1:
                bad.append("DX is 0 though the values %s are evenly spaced" % a)
    if p.FFI in (2010, 3010, 4010):
        for k in range(p.NIV - 1):
            n += 1
            if not (1 <= p.NXDEF[k] <= p.NX[k]):
                bad.append("NXDEF %s of NX %s" % (p.NXDEF[k], p.NX[k]))
    if p.FFI in (2110, 2310):
        xs = getattr(p, "x1", None)
        for m, col in enumerate(p.aux[0]):
            n += 1
            if not isinstance(col[0], (int, float)):
                bad.append("record %d does not say how many points it has" % m)
    if p.FFI == 2310:
        for m in range(len(p.x0)):
            n += 1
            if not p.aux[2][m][0]:
                bad.append("record %d has increment %s" % (m, p.aux[2][m][0]))
    # as many records as the variables have points on the first axis
    first = len(p.x0) * (p.NVPM if p.FFI == 1020 else 1)
    if data is not None and first not in {len(v.axes[0].vals) for v in data.vars if v.axes}:
        bad.append("%d records" % first)
    for k, c in enumerate(p.cells):
        n += 1
        if len(c) != len(p.cells[0]):
            bad.append("variable %d has %d values, the first %d" % (k, len(c), len(p.cells[0])))
    return bad, n


def one(chk, name, entry, kw=None):
    data = datasets().get(name) or located()[name]
    kw = kw or {}
    key = "%s/%s%s" % (entry, name, "/%s" % kw if kw else "")
    ext = "csv" if "csv" in entry else "na"
    c = run_nc(chk.repo, data, entry, "out.%s" % ext, **kw)
    if not followed(chk, c, key, RULE):
        return
    files = c.files()
    P = parsed(chk, c, key, RULE, kw.get("delimiter", DELIM[entry]))
    if P is None:
        return
    where = anchor(chk, *WHERE)
    if not P:
        chk.add(key, RULE, VIOLATED, "no file was written", where)
    for fn, p in P.items():
        bad, n = well_formed(p, files[fn], data)
        if not bad and kw.get("requested_ffi") and p.FFI != kw["requested_ffi"]:
            bad = ["FFI %s was asked for, %s was written" % (kw["requested_ffi"], p.FFI)]
        if not bad and (p.IVOL, p.NVOL) != (1, 1):
            bad = ["it says it is volume %s of %s" % (p.IVOL, p.NVOL)]
        chk.add("%s/%s" % (key, fn), RULE, VIOLATED if bad else PROVED, "; ".join(bad)[:300] or "FFI %d, %d header lines, %d records, %d statements about itself" % (p.FFI, p.NLHEAD, len(p.x0), n), where)


FFIS = [("2-D", 2110), ("2-D regular", 2110), ("2-D regular", 2310), ("2-D regular", 2010), ("2-D regular, missing", 2310), ("time on the second axis", 2110), ("two on one axis", 1001)]


def run(chk):
    items = [(n, e) for n in datasets() for e in ("nc", "csv", "xr", "xrcsv")] + [(n, "ds") for n in datasets()]
    items += [(n, e) for n in located() for e in ("nc", "csv", "ds")]
    items += [(n, e, {"requested_ffi": f}) for n, f in FFIS for e in ("nc", "csv", "xr", "xrcsv")]
    parallel(chk, one, items)
