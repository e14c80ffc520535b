from ._conv import *

METHOD = ("the conversion code is interpreted abstractly, over library models, on data sets of 20 structures whose cells are symbols; the text terms of "
          "the files written are read back by an independent reader of the layouts and every cell, coordinate and name is traced to its variable")
LEVEL = "other"
ASSUMPTIONS = ["the models of numpy, xarray, cf_xarray and cftime in /verif/ref/xstub", "names, coordinates and the pattern of missing cells are those of the "
               "data sets listed in nastatic/props/_conv.py; the data values are arbitrary"]
RULE = "every variable is in exactly one place of the output, complete, against its own coordinates"
WHERE = [("nappy.nc_interface.na_content_collector", "NAContentCollector._analyseVariables"), ("nappy.nc_interface.na_content_collector", "NAContentCollector._defineNAVars"),
         ("nappy.nc_interface.xarray_to_na", "XarrayToNA.convert")]


BOUNDS = ("x_b", "y_b")


def bounds():
    """Axes with bounds: the variables that hold them are part of the axis, not data."""
    x = Axis("x", [1., 2., 4.], LN("distance", bounds="x_b"))
    y = Axis("y", [1., 2.], LN("height", bounds="y_b"))
    n = Axis("bnds", [0., 1.], LN("side"))
    D = {}
    D["bounds"] = Data([Var("x_b", [x, n], LN("edges")), Var("a", [x], LN("first")), Var("b", [x], LN("second"))])
    D["bounds of two axes"] = Data([Var("a", [x, y], LN("first")), Var("x_b", [x, n], LN("edges")), Var("y_b", [y, n], LN("edges")), Var("b", [x], LN("second"))])
    return D


def one(chk, name, entry):
    data = datasets().get(name) or mixed().get(name) or located().get(name) or bounds()[name]
    key = "%s/%s" % (entry, name)
    c = run_nc(chk.repo, data, entry)
    if not followed(chk, c, key, RULE):
        return
    check_places(chk, c, data, key, only=[v.name for v in data.vars if v.name not in BOUNDS] if name.startswith("bounds") else None)


def check_places(chk, c, data, key, delim="    ", only=None, rule=RULE, where=WHERE):
    RULE = rule
    P = parsed(chk, c, key, RULE, delim)
    if P is None:
        return
    where = anchor(chk, *where)
    cellmap = {}
    for v in data.vars:
        for t in v.cells().values():
            if t is not None:
                cellmap[t.args[0]] = v.name
    places = {v.name: [] for v in data.vars}
    for fn, p in P.items():
        for kind, k, cells in columns(p):
            o = owner_of(data, cellmap, cells.values())
            if o is not None:
                places[o].append((fn, kind, k, cells, p))
        for l in p.SCOM + p.NCOM:
            for v in data.vars:
                if not v.axes and l.strip().startswith(("Variable %s:" % v.name, "Variable %s:" % best_name(v))):
                    at = p.SCOM.index(l) if l in p.SCOM else -1
                    blk = []
                    for m in p.SCOM[at + 1:]:
                        if "Variable " in m or m.strip().startswith("=="):
                            break
                        blk.append(m.strip())
                    if any(m.startswith("value =") for m in blk):
                        places[v.name].append((fn, "single", at, blk, p))
    for v in data.vars:
        k = "%s/%s" % (key, v.name)
        got = places[v.name]
        if only is not None and v.name not in only:
            chk.add(k, RULE, PROVED if not got else VIOLATED, "%s" % ("left out as asked" if not got else "written although it was not asked for"), where)
            continue
        if len(got) != 1:
            chk.add(k, RULE, VIOLATED, "variable %s is in %d places of the output: %s" % (v.name, len(got), [(g[0], g[1]) for g in got]), where)
            continue
        fn, kind, col, cells, p = got[0]
        if not v.axes:
            ok = kind == "single" and "value = %s" % v.value in cells
            chk.add(k, RULE, PROVED if ok else VIOLATED, "its value %s is%s among the comments of %s" % (v.value, "" if ok else " not", fn), where)
            continue
        want = v.cells()
        bad = unk = None
        if set(cells) != set(want):
            bad = "it has %d cells, the file gives %d" % (len(want), len(cells))
        else:
            for idx, t in want.items():
                if t is None:
                    continue
                s = same_value(cells[idx], t)
                if s is None:
                    unk = idx
                elif not s:
                    bad = "cell %s is %s in the file" % (list(idx), str(cells[idx])[:60])
                    break
        if bad:
            chk.add(k, RULE, VIOLATED, "variable %s (%s of %s): %s" % (v.name, kind, fn, bad), where)
            continue
        if unk is not None:
            chk.add(k, RULE, UNDECIDED, "cell %s is not followed" % (unk,))
            continue
        # its name
        nm = (p.VNAME if kind == "V" else p.ANAME)[col]
        if nm != best_name(v):
            chk.add(k, RULE, VIOLATED, "variable %s is named %r in %s instead of %r" % (v.name, nm, fn, best_name(v)), where)
            continue
        # its coordinates
        ax = axes_of(p)
        names = [p.XNAME[0]] if p.NIV == 1 else p.XNAME[::-1]
        n = len(v.axes)
        for i, a in enumerate(v.axes):
            av = ax[i] if i < len(ax) else None
            if av is None or len(av) != len(a.vals) or not all(same_value(x, y) for x, y in zip(av, a.vals)):
                chk.add(k, RULE, VIOLATED, "variable %s: axis %s is %s, the file %s gives %s" % (v.name, a.name, a.vals, fn, str(av)[:80]), where)
                break
            if names[i] != best_name(a):
                chk.add(k, RULE, VIOLATED, "variable %s: axis %s is named %r in %s" % (v.name, a.name, names[i], fn), where)
                break
        else:
            if kind == "V" and n != len(ax):
                chk.add(k, RULE, VIOLATED, "variable %s has %d axes, the file %d" % (v.name, n, len(ax)), where)
            else:
                chk.add(k, RULE, PROVED, "%s of %s: %d cells, %d axes" % (kind, fn, len(want), n))


def run(chk):
    parallel(chk, one, [(n, e) for n in datasets() for e in API] + [(n, "xr") for n in mixed()] + [(n, "nc") for n in bounds()]
             + [(n, "ds") for n in datasets()] + [(n, e) for n in located() for e in ("nc", "ds")])
