"""The output follows from the input: not from the order of sets, the clock, the machine or chance."""
from ._na import *
from .c20 import result, compare, prepare, CALLS, API as KINDS
from ..interp import Interp

METHOD = ("non-interference by abstract interpretation: every conversion is interpreted twice, with the items of every set given in opposite orders, and the outputs are compared as normal forms; "
          "and every value that comes from the clock, the environment, the process or chance is a marked term that is looked for in the outputs")
LEVEL = "other"
ASSUMPTIONS = ["the models of numpy, xarray, cf_xarray and cftime in /verif/ref/xstub; xarray itself keeps the order of variables and coordinates",
               "data sets, files and arguments are those listed in nastatic/props/_conv.py, _na.py and c20.py; cell values are arbitrary"]
ORDER = "the output does not depend on the order in which Python gives the items of a set"
CLOCK = "nothing but the history and the revision date comes from outside the input"
VOLATILE = ("call:time.", "call:datetime.", "call:random.", "call:numpy.random", "call:secrets.", "call:uuid.", "call:os.getpid", "call:os.getlogin", "call:os.getcwd", "call:os.uname", "call:os.urandom",
            "call:os.environ", "call:os.times", "call:os.getuid", "call:socket.", "call:platform.", "call:getpass.", "call:tempfile.", "call:locale.", "call:os.path.getmtime", "call:os.path.getctime",
            "call:os.stat", "call:id", "call:hash", "call:object.__hash__")
NAMES = ("now", "strftime", "id", "hash")


def outside(t):
    """the parts of a value that do not come from the input"""
    out = set()
    for x in T.subterms(t):
        if x.op == "sym" and str(x.args[0]).startswith("now."):
            out.add("the clock")
        elif x.op == "app" and isinstance(x.args[0], str) and (x.args[0].startswith(VOLATILE) or x.args[0] in NAMES):
            out.add("the clock" if x.args[0] in ("now", "strftime") else x.args[0].replace("call:", "") + "()")
    return out


def stray(name, t):
    """a place of an output that holds what it should not; None"""
    if name.startswith("file "):
        try:
            lines = Out(name, t, TRUE, TRUE).lines()
        except Odd:
            bad = outside(t) - {"the clock"}
            return "%s holds %s" % (name, sorted(bad)[0]) if bad else None
        for i, l in enumerate(lines):
            bad = set()
            for p in l:
                for x in p if isinstance(p, (list, tuple)) else [p]:
                    if isinstance(x, Term):
                        bad |= outside(x)
            if bad == {"the clock"} and (i == 6 or "Converted to" in show(l) and "nappy" in show(l)):
                continue
            if bad:
                return "line %d of %s holds %s: %s" % (i + 1, name[5:], sorted(bad)[0], show(l)[:80])
        return None
    for x in T.subterms(t):
        if x.op in ("tuple", "tup") and len(x.args) == 2 and is_k(x.args[0], "history"):
            t = T.subst(t, {x.args[1]: K("history")})
    bad = outside(t)
    return "%s holds %s" % (name, sorted(bad)[0]) if bad else None


def twice(chk, key, make, where):
    got = []
    for o in ("up", "down"):
        Interp.set_order = o
        c = make()
        chk.saw(c.sc)
        if c.status is None:
            chk.add(key, ORDER, UNDECIDED, "not followed to its end")
            return
        got.append(result(c, set()))
    where = [x for x in sites(chk, c, "a set") if "xstub" not in x] + where
    compare(chk, key, ORDER, got[0], got[1], where)
    bad = [s for s in (stray(n, t) for n, t in got[0].items()) if s]
    chk.add(key + "/clock", CLOCK, VIOLATED if bad else PROVED, bad[0] if bad else "%d outputs" % len(got[0]), where if bad else ())


def many():
    """Data sets with several of everything that is written in a row."""
    x, y, z = X(), Y(), Z()
    G = {"title": "T", "project": "a project", "zone": "north", "Conventions": "CF-1.0", "licence": "free", "references": "a book", "source": "a model", "institution": "here", "comment": "a comment", "area": "all"}
    A = lambda n, **k: LN(n, units="m", standard_name="air", cell_methods="mean", valid_min=1., valid_max=2., comment="rough", zz="last", aa="first of all", **k)
    D = {}
    D["attributes"] = Data([Var("a", [x], A("first"), fill=-99.), Var("b", [x], A("second")), Var("s", value=3.5, attrs=A("single")), Var("q", value=2.5, attrs=A("other single"))], G)
    D["attributes, 2-D"] = Data([Var("v%d" % i, [x, y], A("name %d" % i)) for i in (3, 1, 2)] + [Var("w%d" % i, [x], A("aux %d" % i)) for i in (5, 4, 6)] + [Var("r", [y, z], A("rest"))], dict(reversed(list(G.items()))))
    return D


def one(chk, what, name, entry, kw):
    if what == "set":
        data = datasets().get(name) or mixed().get(name) or many().get(name) or located()[name]
        twice(chk, "%s/%s%s" % (entry, name, "/%s" % sorted(kw.items()) if kw else ""), lambda: run_nc(chk.repo, data, entry, "out.csv" if "csv" in entry else "out.na", **kw),
              anchor(chk, ("nappy.nc_interface.xarray_to_na", "XarrayDatasetToNA.__init__" if entry == "ds" else "XarrayToNA.convert"), ("nappy.nc_interface.na_content_collector", "NAContentCollector.collectNAContent")))
    elif what == "doc":
        doc = docs()[name]
        fn, args = {"nc": ("convertNAToNC", ("out.nc",)), "csv": ("convertNAToCSV", ("out.csv",)), "read": ("readXarrayObjectsFromNA", ())}[entry]
        twice(chk, "%s/%s%s" % (entry, name, "/%s" % sorted(kw.items()) if kw else ""), lambda: run_na(chk.repo, doc, fn, *args, **kw), anchor(chk, ("nappy.nappy_api", fn)))
    else:
        def make():
            c = Conv(chk.repo)
            prepare(c, entry, name, "b")()
            return c
        twice(chk, "%s/%s" % (entry, name), make, anchor(chk, ("nappy.nappy_api", KINDS[entry])))


def run(chk):
    items = [("set", n, e, {}) for n in datasets() for e in ("nc", "ds")]
    items += [("set", n, e, {}) for n in many() for e in ("nc", "ds", "csv", "xr")]
    items += [("set", n, e, {}) for n in located() for e in ("nc", "ds", "csv")]
    items += [("set", n, "xr", {}) for n in mixed()] + [("set", n, e, {}) for n in ("two on one axis", "2-D, auxiliary, rest, single", "many shapes", "numbered") for e in ("xr", "xrcsv", "csv")]
    over = {"ONAME": "Me", "ORG": "Here", "SCOM": ["mine", "also"], "NCOM": ["one", "two"], "SNAME": "s", "MNAME": "m", "NVOL": 3}
    for n in ("two on one axis", "2-D, auxiliary, rest, single", "seven rows"):
        for e in ("nc", "ds"):
            items += [("set", n, e, {"na_items_to_override": over}), ("set", n, e, {"size_limit": 2}), ("set", n, e, {"annotation": True, "float_format": "%.2f"})]
        items += [("set", n, "nc", {"var_ids": ["b", "a"]}), ("set", n, "nc", {"exclude_vars": ["c", "e"]}), ("set", n, "nc", {"only_return_file_names": True})]
    items += [("set", "2-D", e, {"requested_ffi": f}) for e in ("nc", "ds") for f in (2010, 2110)]
    for n, d in docs().items():
        items += [("doc", n, e, {}) for e in (("csv",) if d.ffi in (2110, 2160, 2310) else ("nc", "csv", "read"))]
    items += [("doc", "1001, three alike", "nc", {"rename_variables": {"ozone": "o3", "b": "c", "d": "e"}}), ("doc", "1001, three alike", "nc", {"global_attributes": [("z", "1"), ("a", "2"), ("m", "3")]}),
              ("doc", "1001, twelve", "nc", {"variables": ["var 3", "var 1", "var 10"]})]
    items += [("call", i, k, {}) for k in CALLS for i in range(len(CALLS[k]))]
    parallel(chk, one, items)
