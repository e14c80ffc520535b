from ._conv import *

METHOD = ("the conversion code is interpreted abstractly, over library models, on data sets whose present cells are symbols and whose missing cells differ from "
          "variable to variable; every missing cell of the files written is compared with the missing value its own column declares")
LEVEL = "other"
ASSUMPTIONS = ["the models of numpy, xarray, cf_xarray and cftime in /verif/ref/xstub", "which cells are missing and what fill values are declared is that of the "
               "data sets listed in nastatic/props/_conv.py; the other cells are arbitrary"]
RULE = "a missing cell is written as the missing value its own column declares, a declared fill value is that missing value, and nothing else is changed"
WHERE = [("nappy.nc_interface.na_content_collector", "NAContentCollector._defineNAVars"), ("nappy.nc_interface.na_content_collector", "NAContentCollector._defineNAAuxVars"),
         ("nappy.nc_interface.xarray_utils", "getArrayAsList"), ("nappy.nc_interface.xarray_utils", "getMissingValue")]


def one(chk, name, entry, kw=None):
    data = datasets()[name]
    key = "%s/%s%s" % (entry, name, "/%s" % kw if kw else "")
    c = run_nc(chk.repo, data, entry, **(kw or {}))
    if not followed(chk, c, key, RULE):
        return
    P = parsed(chk, c, key, RULE)
    if P is None:
        return
    where = anchor(chk, *WHERE)
    cellmap = {t.args[0]: v.name for v in data.vars for t in v.cells().values() if t is not None}
    for fn, p in P.items():
        for kind, k, cells in columns(p):
            o = owner_of(data, cellmap, cells.values())
            if o is None:
                continue
            v = data.var(o)
            decl = (p.VMISS if kind == "V" else p.AMISS)[k]
            kk = "%s/%s %s" % (key, fn, o)
            if v.fill is not None and not same_value(decl, v.fill):
                chk.add(kk, RULE, VIOLATED, "variable %s declares the fill value %s, column %d of %s the missing value %s" % (o, v.fill, k, fn, decl), where)
                continue
            n, st = 0, PROVED
            for idx, t in v.cells().items():
                if idx not in cells:
                    continue
                x = cells[idx]
                if t is None:
                    n += 1
                    s = same_value(x, decl)
                    if s and isinstance(x, (int, float)) and isinstance(decl, (int, float)):
                        s = x == decl          # read back, they have to match
                    if s is None or s is False:
                        st = UNDECIDED if s is None else VIOLATED
                        chk.add(kk, RULE, st, "cell %s of %s is missing and written as %s; its missing value is %s" % (list(idx), o, str(x)[:60], decl), where)
                        break
            if st == PROVED:
                chk.add(kk, RULE, PROVED, "%d missing cells, missing value %s" % (n, decl))


def run(chk):
    items = [(n, e, None) for n, d in datasets().items() for e in API + ("ds",) if any(v.nan or v.fill is not None for v in d.vars)]
    items += [("2-D", "nc", {"requested_ffi": 2110}), ("2-D regular, missing", "nc", {"requested_ffi": 2310}), ("2-D regular, missing", "xr", {"requested_ffi": 2110})]
    items += [("long fill values", e, {"float_format": f}) for e in API for f in ("%.3f", "%12.4e", "%s")]
    parallel(chk, one, items)
