"""Shared by the conversion checks: the data sets, and what is asked of the files written."""
from ..engine import *
from ..engine import parallel
from ..xconv import *
from .. import terms as T
from ..terms import *
from ..xconv import show

X = lambda n=3: Axis("x", [float(i) for i in range(n)], {"long_name": "distance", "units": "km"})
Y = lambda: Axis("y", [10., 20., 40., 50.], {"long_name": "height", "units": "m"})
Z = lambda n=5: Axis("lev", [float(i + 1) for i in range(n)], {"long_name": "layer"})
TM = lambda n=4: Axis("time", [6. * i for i in range(n)], {"standard_name": "time", "long_name": "time"}, time="hours since 2000-01-01 00:00:00")
LN = lambda s, **kw: dict({"long_name": s}, **kw)


def datasets():
    """name -> (description, what it is about)"""
    D = {}
    x, y, z, t = X(), Y(), Z(), TM()
    D["two on one axis"] = Data([Var("a", [x], LN("first", units="K"), nan=[(1,)], fill=-99.), Var("b", [x], LN("second"), nan=[(2,)], fill=-77.)], {"title": "T"})
    D["no fill value"] = Data([Var("a", [y], LN("first"), nan=[(0,), (3,)]), Var("b", [y], LN("second"))])
    D["missing_value"] = Data([Var("a", [x], LN("first"), nan=[(0,)], fill=-5., fillkey="missing_value"), Var("b", [x], LN("second"), nan=[(1,)], fill=-6.)])
    D["long fill values"] = Data([Var("a", [y, z], LN("first"), nan=[(1, 2)], fill=9.969209968386869e+36), Var("b", [y], LN("second"), nan=[(2,)], fill=-1234.56789012345),
                                  Var("c", [x], LN("third"), nan=[(0,)], fill=-9999.123456789), Var("d", [x], LN("fourth"), nan=[(0,)], fill=-1e300 / 3)])
    D["time axis"] = Data([Var("a", [t], LN("first"), nan=[(1,)], fill=-99.), Var("b", [t], LN("second"))])
    D["irregular time"] = Data([Var("a", [Axis("time", [0., 6., 24.], LN("time", standard_name="time"), time="days since 1999-12-31")], LN("first"))])
    D["time on the second axis"] = Data([Var("a", [x, TM()], LN("first"), nan=[(1, 2)], fill=-99.), Var("b", [x], LN("second"))])
    D["irregular time on the second axis"] = Data([Var("a", [y, Axis("time", [0., 6., 24.], LN("time", standard_name="time"), time="days since 1999-12-31")], LN("first"))])
    D["time under another name"] = Data([Var("a", [Axis("t", [0., 6., 12., 18.], LN("epoch", standard_name="time"), time="hours since 2000-01-01 00:00:00"), y], LN("first"), fill=-99.)])
    D["time without a date"] = Data([Var("a", [Axis("time", [0., 1., 3.], LN("time of flight", standard_name="time", units="s"))], LN("first"), nan=[(1,)], fill=-99.),
                                     Var("b", [Axis("time", [0., 1., 3.], LN("time of flight", standard_name="time", units="s")), y], LN("second"))])
    D["falling axes"] = Data([Var("a", [Axis("z", [9., 6., 3.], LN("depth", units="m")), Axis("p", [850., 700., 550., 400.], LN("pressure", units="hPa"))], LN("first"), nan=[(1, 2)], fill=-99.),
                              Var("b", [Axis("z", [9., 6., 3.], LN("depth", units="m"))], LN("second"), nan=[(0,)], fill=-98.)])
    D["2-D"] = Data([Var("a", [x, y], LN("first", units="K"), nan=[(1, 2)], fill=-99.), Var("b", [x, y], LN("second"), nan=[(0, 0)], fill=-98.)])
    D["2-D regular, missing"] = Data([Var("a", [y, z], LN("first"), nan=[(0, 1)], fill=-3.), Var("b", [y], LN("second"), nan=[(3,)], fill=-2.), Var("c", [y], LN("third"), nan=[(1,)], fill=-1.)])
    D["2-D regular"] = Data([Var("a", [y, z], LN("first"))])
    D["2-D, auxiliary, rest, single"] = Data([
        Var("c", [z], LN("other")), Var("a", [x, y], LN("first"), nan=[(1, 2)], fill=-99.), Var("b", [x], LN("second"), nan=[(2,)], fill=-77.),
        Var("e", [x], LN("fourth"), nan=[(0,)], fill=-76.), Var("s", value=3.5, attrs=LN("single"))], {"title": "T"})
    D["3-D and auxiliary"] = Data([Var("a", [x, y, z], LN("first"), nan=[(2, 1, 3)], fill=-9.), Var("b", [x], LN("second"), nan=[(1,)], fill=-8.)])
    w = Axis("w", [0.5, 1.5], LN("width"))
    D["4-D"] = Data([Var("a", [w, x, y, Z(2)], LN("first"), nan=[(1, 2, 3, 1)], fill=-9.)])
    D["4-D time"] = Data([Var("a", [TM(2), w, y, Z(2)], LN("first")), Var("b", [TM(2)], LN("second"), nan=[(1,)], fill=-8.)])
    D["same shape, other axis"] = Data([Var("a", [x], LN("first")), Var("b", [Axis("u", [0., 1., 2.], LN("elsewhere"))], LN("second")),
                                        Var("c", [Axis("v", [0., 1., 9.], LN("distance", units="km"))], LN("third")), Var("d", [x], LN("fourth"))])
    D["second axis differs"] = Data([Var("a", [x, y], LN("first")), Var("b", [x, Axis("p", [10., 20., 40., 51.], LN("height", units="m"))], LN("second")), Var("c", [x, y], LN("third"))])
    D["numbered"] = Data([Var("a", [x], LN("first", nasa_ames_var_number=1), nan=[(1,)], fill=-99.), Var("b", [x], LN("second", nasa_ames_var_number=0), fill=-7.),
                          Var("c", [x], LN("third")), Var("d", [x], LN("fourth", nasa_ames_var_number=2))])
    D["numbered twice"] = Data([Var("a", [x], LN("first", nasa_ames_var_number=0)), Var("b", [x], LN("second", nasa_ames_var_number=0))])
    D["numbered auxiliary"] = Data([Var("a", [x, y], LN("first", nasa_ames_var_number=0)), Var("b", [x], LN("second", nasa_ames_aux_var_number=1)), Var("c", [x], LN("third", nasa_ames_aux_var_number=0), nan=[(0,)], fill=-4.)])
    D["coarser axis"] = Data([Var("a", [Axis("x", [0., 1., 2., 3.], LN("distance"))], LN("first")), Var("b", [Axis("xc", [0., 2.], LN("distance"))], LN("second")), Var("s", value=1.5, attrs=LN("single"))])
    D["coarser axis, same units"] = Data([Var("a", [Axis("x", [0., 1., 2., 3.], LN("distance", units="km"))], LN("first")), Var("b", [Axis("xc", [0., 2.], LN("distance", units="km"))], LN("second")), Var("c", [Axis("x", [0., 1., 2., 3.], LN("distance", units="km"))], LN("third"))])
    D["coarser axis, 2-D"] = Data([Var("b", [Axis("xc", [0., 2.], LN("distance"))], LN("second")), Var("a", [Axis("x", [0., 1., 2., 3.], LN("distance")), y], LN("first")),
                                   Var("c", [Axis("x", [0., 1., 2., 3.], LN("distance"))], LN("third"))])
    one = Axis("k", [7.], LN("only"))
    D["one point"] = Data([Var("a", [one], LN("first")), Var("b", [x, one], LN("second")), Var("c", [one, y], LN("third"))])
    D["singles"] = Data([Var("s", value=3.5, attrs=LN("single", units="m")), Var("a", [x], LN("first")), Var("r", value=-2., attrs=LN("other single"))])
    D["singles, plain"] = Data([Var("a", [x], {"long_name": "first"}), Var("s", value=3.5, attrs=LN("single"))], {"comment": "a comment"})
    D["named like a single"] = Data([Var("p0", value=3.5, attrs=LN("press")), Var("a", [x], LN("first")), Var("press", [x], LN("pressure"))])
    r = Axis("r", [0., 1., 2., 4., 5., 7., 8.], LN("row"))
    D["seven rows"] = Data([Var("a", [r], LN("first"), nan=[(1,), (6,)], fill=-99.), Var("b", [r], LN("second"), nan=[(4,)], fill=-98.), Var("c", [r], LN("third"))], {"title": "T"})
    D["odd texts"] = Data([Var("a", [x], LN("speed (m per day) of ice", units="m")), Var("b", [x], LN("ratio a/b, wet", units="%")), Var("c", [x], LN("NO2: total; (all)", units="1/m")), Var("d", [x], LN("flag: 1 = good, 2 = bad")),
                           Var("e", [Axis("q", [1., 2., 4.], LN("height (mean) of it", units="m"))], LN("other (m) thing", units="K"))],
                          {"title": "A: title; (with) 50% [more], #1", "institution": "Smith, J.; Jones, K.", "source": "a = b"})
    D["many shapes"] = Data([Var("a", [x], LN("first")), Var("b", [y], LN("second")), Var("c", [x, y], LN("third")), Var("d", [x, y, z], LN("fourth")),
                             Var("e", [z], LN("fifth")), Var("f", [y, x], LN("sixth")), Var("g", [x, y], LN("seventh"))])
    return D


API = ("nc", "xr")


def located():
    """Data sets with coordinates that are not axes."""
    x, y, z, t = X(), Y(), Z(), TM()
    D = {}
    D["coordinates of the rows"] = Data([Var("a", [x], LN("first"), nan=[(1,)], fill=-99.), Var("b", [x], LN("second"))], {"title": "T"},
                                        coords=[Var("h", [x], LN("altitude above", units="m")), Var("q", [x], LN("quality"), nan=[(0,)], fill=-1.), Var("s", value=4.5, attrs=LN("season"))])
    D["coordinates of the cells"] = Data([Var("a", [x, y], LN("first"), nan=[(1, 2)], fill=-99.), Var("b", [x], LN("second"))],
                                         coords=[Var("lo", [x, y], LN("east", units="degrees")), Var("la", [x, y], LN("north", units="degrees")), Var("h", [x], LN("hour")), Var("m", [x], LN("month")), Var("d", [x], LN("day"))])
    D["coordinates in time"] = Data([Var("a", [t, x, y], LN("first")), Var("b", [t], LN("second"), nan=[(3,)], fill=-8.), Var("c", [y], LN("third"))],
                                    coords=[Var("lo", [x, y], LN("east")), Var("la", [x, y], LN("north")), Var("n", [t], LN("number")), Var("w", [y], LN("width")), Var("s", value=1.5, attrs=LN("single")), Var("r", value=-1.5, attrs=LN("other"))])
    return D


def mixed():
    """Data sets of xarray objects that could not share one NetCDF file: axes of one name that differ."""
    D = {}
    u = lambda n, vals, **kw: Axis(n, vals, LN("axis " + n, **kw))
    t, x, y, w = u("t", [1., 2.]), u("x", [0., 1., 3.]), u("y", [0., 5.]), u("w", [2., 3.])
    for rank, axes in ((1, [x]), (2, [t, x]), (3, [t, x, y]), (4, [t, x, y, w])):
        for i in range(rank):
            for how in ("values", "units"):
                o = axes[i]
                alt = Axis(o.name, [v if v is not o.vals[-1] else v + 0.5 for v in o.vals] if how == "values" else list(o.vals),
                           dict(o.attrs, units="km") if how == "units" else dict(o.attrs))
                D["rank %d, axis %d has other %s" % (rank, i, how)] = Data(
                    [Var("a", axes, LN("first")), Var("b", [alt if k == i else q for k, q in enumerate(axes)], LN("second")), Var("c", axes, LN("third"))])
    D["auxiliary on another axis of the name"] = Data([Var("a", [x, y], LN("first")), Var("b", [u("x", [0., 1., 4.])], LN("second")), Var("c", [x], LN("third"))])
    D["longer axis of the name"] = Data([Var("b", [u("x", [0., 1., 3., 4., 5.])], LN("second")), Var("a", [x, y], LN("first")), Var("c", [u("x", [0., 1.])], LN("third"))])
    D["equal ranks, larger later"] = Data([Var("a", [t, y], LN("first")), Var("b", [x, y], LN("second")), Var("c", [t, y], LN("third")), Var("d", [t], LN("fourth")), Var("e", [x], LN("fifth"))])
    D["transposed"] = Data([Var("a", [t, y], LN("first")), Var("b", [y, t], LN("second"))])
    return D


def run_nc(repo, data, entry="nc", out="out.na", c=None, **kw):
    c = c or Conv(repo)
    if entry == "nc":
        c.put("in.nc", data)
        c.api("convertNCToNA", "in.nc", out, **kw)
    elif entry == "ds":
        mod = c.sc.load("nappy.nc_interface.xarray_to_na")
        ds = c.dataset(data)
        made = {k: c.val(v) for k, v in kw.items() if k in ("requested_ffi", "na_items_to_override")}
        more = {k: c.val(v) for k, v in kw.items() if k not in made}

        def go():
            o = c.sc.meth(mod, "XarrayDatasetToNA", ds, **made)
            c.sc.meth(o, "convert")
            c.sc.meth(o, "writeNAFiles", K(out), **more)
            return c.sc.attr(o, "output_files_written")
        c.run(go)
    elif entry == "csv":
        c.put("in.nc", data)
        c.api("convertNCToCSV", "in.nc", out, **kw)
    else:
        vs = c.list_([c.var(v) for v in data.vars])
        if data.coords:
            for v in segs_of(c.sc.ip.aslist(vs, c.sc.st)):
                c.sc.meth(c.xs, "attach", v.args[0], c.list_([c.var(x) for x in data.coords]))
        ga = c.list_([T.tup(K(k), c.val(v)) for k, v in data.gattrs.items()])
        c.api("convertXarrayObjectsToNA" if entry == "xr" else "convertXarrayObjectsToCSV", vs, ga, out, **kw)
    return c


def followed(chk, c, key, rule, want=None):
    """The run came to an end; otherwise say so."""
    chk.saw(c.sc)
    if c.status == "raises":
        chk.add(key, rule, VIOLATED, "the conversion raises %s: %s" % (c.raised[1], str(c.raised[2])[:120]), c.where())
        return False
    if c.status != "ok":
        chk.add(key, rule, UNDECIDED, "the conversion was not followed to its end")
        return False
    return True


def parsed(chk, c, key, rule, delim="    ", anno=False, viol=True, skip=()):
    """name -> Parsed for every file written, or None"""
    out = {}
    fs = c.files()
    for name, o in fs.items():
        if name in skip:
            continue
        try:
            out[name] = parse(o, delim, anno)
        except Odd as e:
            chk.add(key, rule, UNDECIDED, "%s: %s" % (name, str(e)[:160]))
            return None
        except Bad as e:
            odd = T.has_unk(o.text)
            chk.add(key, rule, UNDECIDED if odd or not viol else VIOLATED, "%s: %s" % (name, str(e)[:160]), sites(chk, c, "write"))
            return None
    return out


def sites(chk, c, event="write", limit=4):
    out = []
    for e in c.sc.ip.events:
        if e[0] == event and isinstance(e[1], tuple) and len(e[1]) == 3:
            s = "%s:%s %s" % (chk.tree(e[1][0])[0], e[1][2], e[1][1])
            if s not in out:
                out.append(s)
    return out[:limit]


def anchor(chk, *names):
    """where the named functions are in the current source"""
    out = []
    for mod, qual in names:
        n = chk.func_node(mod, qual)
        if n is not None:
            out.append("%s:%d %s" % (chk.tree(mod)[0], n.lineno, qual))
    return out


def owner_of(data, cellmap, cells):
    """the variable whose cells a column holds"""
    for v in cells:
        if isinstance(v, Term):
            for s in syms(v):
                if s in cellmap:
                    return cellmap[s]
    return None


def columns(P):
    """[(kind, k, {index: value})] of a parsed file"""
    out = []
    for k, d in enumerate(P.cells):
        out.append(("V", k, {i: v[0] for i, v in d.items()}))
    for k, col in enumerate(P.aux):
        out.append(("A", k, {(i,): v[0] for i, v in enumerate(col)}))
    return out


def axes_of(P):
    """values of the axes a file gives, slowest first; the implied ones expanded"""
    first = [v[0] for v in P.x0]
    if P.FFI in (2010, 3010, 4010):
        rest = []
        for k in range(P.NIV - 1):
            xs = list(P.X[k])
            if P.NXDEF[k] < P.NX[k]:
                for i in range(P.NXDEF[k], P.NX[k]):
                    xs.append(xs[0] + i * P.DX[k])
            rest.append(xs)
        return [first] + rest[::-1]
    if P.FFI == 2110:
        x1 = [v[0] for m, v in getattr(P, "x1", []) if m == 0]
        return [first, x1]
    if P.FFI == 2310:
        n, a, d = [P.aux[k][0][0] for k in range(3)]
        return [first, [a + i * d for i in range(int(n))]]
    if P.FFI == 1020:
        xs = []
        for v in first:
            for j in range(P.NVPM):
                xs.append(v + j * P.DX[0])
        return [xs]
    return [first]


def best_name(v):
    n = v.attrs.get("long_name")
    u = v.attrs.get("units") or getattr(v, "time", None)
    return "%s (%s)" % (n, u) if u else n
