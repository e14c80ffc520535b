"""Calls do not affect one another, and leave what they are given as it was."""
from ._na import *
from .c15 import names_of
from ..heap import HObj

METHOD = ("effect analysis by abstract interpretation: the whole abstract heap (caller's arguments, module attributes, configuration, class attributes, default arguments) is compared, as normal forms, before and after every "
          "public call; and the output of every call after every other call, in one process, with its output alone")
LEVEL = "other"
ASSUMPTIONS = ["the models of numpy, xarray, cf_xarray and cftime in /verif/ref/xstub", "data sets, files and arguments are those listed in nastatic/props/c20.py; cell values are arbitrary",
               "configuration that is read on first use (a module attribute that was None) may be kept"]
KEEP = "a call leaves its arguments and the state of the package as they were"
ALONE = "the result of a call does not depend on earlier calls"
AGAIN = "a converter gives the same result when it is asked again"


def nc_data(which):
    x, y, t = X(), Y(), Axis("time", [0., 6., 12.], {"long_name": "time", "units": "hours since 2000-01-01 00:00:00"}, time="hours since 2000-01-01 00:00:00")
    s = Axis("s", [0., 1., 2., 4., 5.], LN("station"))
    return {"two": Data([Var("air", [x], LN("first", units="K"), nan=[(1,)], fill=-99.), Var("wind", [x], LN("second"))], {"title": "T", "source": "S", "comment": "c1\nc2", "institution": "I", "zone": "z"}),
            "comments": Data([Var("air", [x], LN("first", units="K", special="s1"), fill=-9.), Var("one", [], LN("single"), value=3.5)], {"title": "U", "history": "h1\nh2", "comment": "###NASA Ames Special Comments follow###\ns\n###NASA Ames Special Comments end###"}),
            "grid": Data([Var("air", [x, y], LN("first"), nan=[(1, 0)]), Var("wind", [x], LN("second")), Var("rain", [y], LN("third"))], {"title": "V"}),
            "time": Data([Var("air", [t], LN("first"))], {"title": "W"}),
            "rows": Data([Var("air", [s], LN("first")), Var("wind", [s], LN("second"), nan=[(2,)])], {"title": "R"})}[which]


def na_doc(which):
    return docs()[which]


OVER = {"ONAME": "Me", "SCOM": ["mine", "also"], "NCOM": ["ncom"], "DATE": [2001, 2, 3], "VNAME": ["p", "q"]}
# kind -> list of (source, keyword arguments)
CALLS = {
    "nc-na": [("two", {}), ("two", {"na_items_to_override": OVER, "exclude_vars": ["nothing"]}), ("comments", {"na_items_to_override": {"NCOM": "n1\nn2", "ORG": "Here"}}), ("grid", {"var_ids": ["air", "wind"], "annotation": True}),
              ("time", {"delimiter": ","}), ("rows", {"size_limit": 2}), ("grid", {"requested_ffi": 2110})],
    "nc-csv": [("two", {"na_items_to_override": {"SCOM": ["x"]}}), ("grid", {"no_header": True})],
    "xr-na": [("two", {"na_items_to_override": OVER}), ("grid", {}), ("comments", {}), ("rows", {"size_limit": 3, "float_format": "%.2f"})],
    "xr-csv": [("two", {"annotation": True}), ("time", {})],
    "na-nc": [("1001", {}), ("1010", {"rename_variables": {"second": "other"}, "global_attributes": [("zone", "z"), ("title", "mine")], "mode": "a"}), ("2010", {"variables": ["second"]}), ("1001, unscaled", {"time_units": "hours since 2000-01-01 00:00:00"})],
    "na-csv": [("1001", {}), ("2010", {"annotation": True}), ("2310", {"no_header": True})],
    "read": [("1001", {}), ("3010, implied", {}), ("1020, aux", {})],
}
API = {"nc-na": "convertNCToNA", "nc-csv": "convertNCToCSV", "xr-na": "convertXarrayObjectsToNA", "xr-csv": "convertXarrayObjectsToCSV", "na-nc": "convertNAToNC", "na-csv": "convertNAToCSV", "read": "readXarrayObjectsFromNA"}
ALL = [(k, i) for k in CALLS for i in range(len(CALLS[k]))]


def snapshot(c):
    return {oid: o.with_(**{a: dict(b) for a, b in o.__dict__.items() if isinstance(b, dict)}) if isinstance(o, HObj) else o for oid, o in c.sc.st.heap.items()}


def changes(c, h0):
    """what differs in the objects that existed before, apart from the models' own records"""
    out = []
    w = c.sc.attr(c.xr, "WRITTEN")
    mine = {w.args[0]} if w.op == "ref" else set()
    for oid, o in h0.items():
        n = c.sc.st.heap.get(oid)
        if n is o or oid in mine or n is None:
            continue
        if not isinstance(o, HObj):
            out.append((oid, "value", o, n))
            continue
        for k, v in o.__dict__.items():
            b = n.__dict__.get(k)
            if k == "owner" or b is v:
                continue
            if isinstance(v, dict):
                for x in list(v) + [y for y in b if y not in v]:
                    p, q = v.get(x), b.get(x)
                    if p is q or isinstance(q, Term) and T.show(q).startswith("mod("):
                        continue
                    if isinstance(oid, tuple) and p is NONE:
                        continue
                    if isinstance(p, Term) and isinstance(q, Term) and c.sc.ip.freeze(p, c.sc.st) is c.sc.ip.freeze(q, c.sc.st) and p.op not in ("ref", "path") and q.op not in ("ref", "path"):
                        continue
                    out.append((oid, "%s[%s]" % (k, x if not isinstance(x, Term) else T.show(x)), p, q))
                if list(v) != [y for y in b if y in v] and o.kind == "dict":
                    out.append((oid, "order", None, None))
            else:
                out.append((oid, k, v, b))
    return out


def say(x):
    return "nothing" if x is None else T.show(x)[:80] if isinstance(x, Term) else str(x)[:80]


def place(chk, c):
    """stores of the analysed code into objects it did not make"""
    out = []
    for e in c.sc.ip.events[getattr(c, "nev", 0):]:
        if e[0] in ("global-write", "mutate-owned"):
            out.append(str(chk.site(e[1]) if isinstance(e[1], tuple) and len(e[1]) == 3 else e[1:3]))
    return sorted(set(out))[:4]


def prepare(c, kind, i, tag):
    """files and arguments of a call -> a function that makes it"""
    src, kw = CALLS[kind][i]
    given = {k: c.val(v) for k, v in kw.items()}
    np = c.np
    name = API[kind]
    if kind.startswith("nc"):
        c.put(tag + ".nc", nc_data(src))
        args = [K(tag + ".nc"), K(tag + "-out." + kind[3:])]
    elif kind.startswith("xr"):
        d = nc_data(src)
        args = [c.list_([c.var(v) for v in d.vars]), c.list_([T.tup(K(k), c.val(v)) for k, v in d.gattrs.items()]), K(tag + "-out." + kind[3:])]
    else:
        put_doc(c, tag + ".na", na_doc(src))
        args = [K(tag + ".na")] + ([K(tag + "-out." + kind[3:])] if kind != "read" else [])
    return lambda: c.run(lambda: c.sc.meth(np, name, *args, **given))


def result(c, before):
    """what a call wrote and returned"""
    out = {}
    st = c.sc.st
    for n, o in c.files().items():
        if n not in before:
            out["file " + n] = o.text
            out["closed " + n] = o.closed
    for n, m, ds in c.netcdf():
        if kv(n) not in before:
            out["data set %s %s" % (kv(n), kv(m))] = c.sc.ip.freeze(ds, st)
    if c.status == "ok":
        out["returned"] = c.frozen()
    else:
        out["status"] = K(str(c.status))
    return out


def seen(c):
    return set(c.files()) | {kv(n) for n, m, d in c.netcdf()}


def alike(a, b):
    """True, False or None"""
    if a is b:
        return True
    if T.has_unk(a) or T.has_unk(b):
        return None
    if a.ty == "str" and b.ty == "str":
        try:
            return show(pieces(a)) == show(pieces(b))
        except Odd:
            return None
    return T.show(a) == T.show(b)


def compare(chk, key, rule, ra, rb, where):
    bad = und = None
    for k in list(ra) + [x for x in rb if x not in ra]:
        a, b = ra.get(k), rb.get(k)
        if a is None or b is None:
            bad = bad or "%s: %s" % (k, "only with the earlier call" if a is None else "only without the earlier call")
            continue
        s = alike(a, b)
        if s is None:
            und = und or "%s is not followed" % k
        elif not s:
            x, y = T.show(a), T.show(b)
            i = next((j for j, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            bad = bad or "%s differs: ...%s / ...%s" % (k, x[max(0, i - 40):i + 60], y[max(0, i - 40):i + 60])
    chk.add(key, rule, VIOLATED if bad else UNDECIDED if und else PROVED, bad or und or "%d outputs identical" % len(ra), where if bad else ())


def keeps(chk, c, call, key):
    h0 = snapshot(c)
    call()
    chk.saw(c.sc)
    if c.status is None:
        chk.add(key, KEEP, UNDECIDED, "not followed to its end")
        return
    ch = changes(c, h0)
    odd = [x for x in ch if any(isinstance(t, Term) and T.has_unk(t) for t in x[2:])]
    bad = [x for x in ch if x not in odd]
    what = "; ".join("%s of %s: %s -> %s" % (x[1], x[0] if isinstance(x[0], tuple) else "object " + str(x[0]).split("#")[0], say(x[2]), say(x[3])) for x in (bad or odd)[:3])
    chk.add(key, KEEP, VIOLATED if bad else UNDECIDED if odd else PROVED, what or "%d objects unchanged" % len(h0), place(chk, c) if bad else ())


def pair(chk, kind, i, partners):
    base = Conv(chk.repo)
    call = prepare(base, kind, i, "b")
    keeps(chk, base, call, "%s/%s/first call" % (kind, i))
    rb = result(base, set())
    for k2, j in partners:
        c = Conv(chk.repo)
        key = "%s/%s/after %s/%s" % (kind, i, k2, j)
        prepare(c, k2, j, "a")()
        if c.status is None:
            chk.add(key, ALONE, UNDECIDED, "the earlier call was not followed to its end")
            continue
        before = seen(c)
        call = prepare(c, kind, i, "b")
        keeps(chk, c, call, key)
        compare(chk, key, ALONE, rb, result(c, before), anchor(chk, ("nappy.nappy_api", API[kind])))


def again(chk, how, which):
    """one converter object, asked twice"""
    c = Conv(chk.repo)
    sc = c.sc
    kw = {"annotation": {"annotation": TRUE}, "csv": {"delimiter": K(",")}, "override": {}}.get(how, {})
    if how in ("twice", "override", "csv", "convert first"):
        d = nc_data(which)
        opts = {"na_items_to_override": c.val({k: v for k, v in OVER.items() if k != "VNAME" or which in ("two", "rows")})} if how == "override" else {}
        mk = lambda: sc.meth(sc.load("nappy.nc_interface.xarray_to_na"), "XarrayToNA", c.list_([c.var(v) for v in d.vars]), c.list_([T.tup(K(k), c.val(v)) for k, v in d.gattrs.items()]), **opts)
        write = lambda o, n: sc.meth(o, "writeNAFiles", K(n), **kw)
        ext = ".na"
    else:
        put_doc(c, "in.na", na_doc(which))
        mk = lambda: sc.meth(sc.load("nappy.nc_interface.na_to_nc"), "NAToNC", K("in.na"))
        write = lambda o, n: sc.meth(o, "writeNCFile", K(n))
        ext = ".nc"

    def go():
        o = mk()
        if how == "convert first":
            sc.meth(o, "convert")
            sc.meth(o, "convert")
        write(o, "one" + ext)
        write(o, "two" + ext)
        return NONE
    c.run(go)
    chk.saw(sc)
    key = "again/%s/%s" % (how, which)
    if c.status != "ok":
        chk.add(key, AGAIN, UNDECIDED if c.status is None else VIOLATED, "not followed to its end" if c.status is None else "raises %s" % str(c.raised[1:3]), c.where())
        return
    a, b = {}, {}
    for n, o in c.files().items():
        if n.startswith(("one", "two")):
            (a if n.startswith("one") else b)[n[3:]] = o.text
    for n, m, ds in c.netcdf():
        (a if kv(n).startswith("one") else b)[kv(n)[3:]] = sc.ip.freeze(ds, sc.st)
    compare(chk, key, AGAIN, a, b, anchor(chk, ("nappy.nc_interface.xarray_to_na", "XarrayToNA.writeNAFiles")) if ext == ".na" else anchor(chk, ("nappy.nc_interface.na_to_nc", "NAToNC.writeNCFile")))


def opened(chk, p, others):
    """two file objects in use at one time"""
    D = docs()

    def view(c, f):
        st = c.sc.st
        o = st.heap[f.args[0]]
        return {k: c.sc.ip.freeze(v, st) for k, v in o.attrs.items() if k not in ("file", "filename", "na_dict")}

    def start(c, n, d):
        put_doc(c, n, D[d])
        return c.sc.meth(c.np, "openNAFile", K(n))
    a = Conv(chk.repo)
    box = {}

    def alone():
        box["f"] = start(a, "p.na", p)
        a.sc.meth(box["f"], "readData")
        return NONE
    a.run(alone)
    for q in others:
        c = Conv(chk.repo)
        key = "open together/%s/%s" % (p, q)

        def both():
            box["p"] = start(c, "p.na", p)
            g = start(c, "q.na", q)
            c.sc.meth(box["p"], "readData")
            c.sc.meth(g, "readData")
            return NONE
        c.run(both)
        chk.saw(c.sc)
        if a.status != "ok" or c.status != "ok":
            bad = "raises" in (a.status, c.status) and a.status != c.status and None not in (a.status, c.status)
            chk.add(key, ALONE, VIOLATED if bad else UNDECIDED, "not followed to its end: %s alone, %s together" % (a.status, c.status))
            continue
        compare(chk, key, ALONE, view(a, box["f"]), view(c, box["p"]), anchor(chk, ("nappy.nappy_api", "openNAFile")))


def go(chk, what, *a):
    {"pair": pair, "again": again, "opened": opened}[what](chk, *a)


def run(chk):
    items = []
    for k, i in ALL:
        items.append(("pair", k, i, tuple(ALL)))
    for how in ("twice", "override", "csv", "convert first"):
        for w in ("two", "comments", "grid", "rows", "time"):
            items.append(("again", how, w))
    for w in ("1001", "1010", "2010", "3010", "1020"):
        items.append(("again", "nc", w))
    names = sorted(docs())
    few = ("1001", "1001, three alike", "1010", "1020", "2010", "2110", "2310", "3010, implied", "4010")
    for p in names:
        items.append(("opened", p, few if chk.tier != "thorough" else tuple(names)))
    parallel(chk, go, items)
