"""Names of the files that conversions write."""
from ._na import *
from .c15 import names_of

METHOD = ("the conversions are interpreted abstractly, over library models, for input and output names of many forms; the names opened for writing and the names returned are compared with "
          "those that the documented naming rule gives")
LEVEL = "other"
ASSUMPTIONS = ["the models of numpy, xarray, cf_xarray and cftime in /verif/ref/xstub", "file names are those listed in nastatic/props/c23.py; cell values are arbitrary"]
RULE = "output goes to the file named, or to the input's name with the format's extension, one file each, and exactly these names are returned"
WHERE = [("nappy.utils.common_utils", "getFileNameWithNewExtension"), ("nappy.nc_interface.xarray_to_na", "XarrayToNA.constructNAFileNames"), ("nappy.nc_interface.xarray_to_na", "XarrayToNA.writeNAFiles"),
         ("nappy.nappy_api", "convertNCToNA"), ("nappy.nappy_api", "convertNCToCSV"), ("nappy.nappy_api", "convertNAToNC"), ("nappy.nappy_api", "convertNAToCSV")]
# stem of the output name when none is given
STEMS = {"in.%s": "in", "a.b.%s": "a.b", "dir/in.%s": "dir/in", "dir.d/in.%s": "dir.d/in", "dir.d/in": "dir.d/in", "in": "in", "/abs/some.where/in.%s": "/abs/some.where/in", "./in.%s": "./in",
         "../up/in.%s": "../up/in", "in file.%s": "in file", "UPPER.%s": "UPPER", "in-2001_02.%s": "in-2001_02", "in.txt": "in", "in.dat": "in", "d/in.%s.%s": "d/in.%s", "%s.%s": "%s", "in.longish": "in.longish"}
GIVEN = ["out.%s", "out", "d.x/out", "d/out.v1.%s", "out.txt", "/abs/d/out.%s", "out file.%s", "out.longish", "in.%s.%s"]


def data():
    x, y, z = X(), Y(), Z()
    D = {}
    D[1] = Data([Var("a", [x], LN("first")), Var("b", [x], LN("second"))])
    D[2] = Data([Var("a", [x], LN("first")), Var("b", [y], LN("second"))])
    D[3] = Data([Var("a", [x], LN("first")), Var("b", [y], LN("second")), Var("c", [z, x], LN("third"))])
    D[12] = Data([Var("v%d" % i, [Axis("x%d" % i, [0., 1., 3. + i], LN("axis"))], LN("variable %d" % i)) for i in range(12)])
    return D


def split_name(n):
    """stem and extension, as a path is split"""
    d, s, b = n.rpartition("/")
    i = b.rfind(".")
    return (d + s + b[:i], b[i:]) if i > 0 else (n, "")


def numbered(n, k):
    if k == 1:
        return [n]
    s, e = split_name(n)
    return ["%s_%d%s" % (s, i + 1, e) for i in range(k)]


def fill(pat, ext):
    return pat.replace("%s", ext)


def judge(chk, key, want, got, returned):
    bad = None
    if got != want:
        bad = "it writes %s instead of %s" % (got, want)
    elif returned != want:
        bad = "it returns %s, the files are %s" % (returned, want)
    chk.add(key, RULE, VIOLATED if bad else PROVED, bad or "%s" % want, anchor(chk, *WHERE))


def one(chk, kind, pat, n):
    src, dst = {"nc-na": ("nc", "na"), "nc-csv": ("nc", "csv"), "na-nc": ("na", "nc"), "na-csv": ("na", "csv"), "xr-na": (None, "na"), "xr-csv": (None, "csv")}[kind.split("/")[0]]
    key = "%s/%s/%s" % (kind, fill(pat, src if kind.endswith("default") else dst), n)
    c = Conv(chk.repo)
    default = kind.endswith("default")
    inp = fill(pat, src) if default else "in." + str(src)
    want = fill(STEMS[pat], src) + "." + dst if default else fill(pat, dst)
    args = [] if default else [want]
    kw = {"mode": "a"} if kind.endswith("append") else {}
    if src == "nc":
        c.put(inp, data()[n])
        c.api("convertNCToNA" if dst == "na" else "convertNCToCSV", inp, *args)
    elif src == "na":
        put_doc(c, inp, docs()["1001, unscaled"])
        c.api("convertNAToNC" if dst == "nc" else "convertNAToCSV", inp, *args, **kw)
    else:
        d = data()[n]
        vs = c.list_([c.var(v) for v in d.vars])
        c.api("convertXarrayObjectsToNA" if dst == "na" else "convertXarrayObjectsToCSV", vs, c.list_([]), *args)
    if not followed(chk, c, key, RULE):
        return
    if dst == "nc":
        try:
            out = c.netcdf()
            got = [kv(a) for a, m, d in out]
            modes = [kv(m) for a, m, d in out]
        except Exception:
            chk.add(key, RULE, UNDECIDED, "the NetCDF files written are not followed")
            return
        if modes != [kw.get("mode", "w")]:
            chk.add(key + "/mode", RULE, VIOLATED, "the file is written with mode %s instead of %s" % (modes, kw.get("mode", "w")), anchor(chk, *WHERE))
        returned = [kv(c.result)] if is_k(c.result) else None
        judge(chk, key, [want], got, returned)
        return
    got = list(c.files())
    if kind.startswith("na-csv"):
        r = plain(c, c.result)
        returned = [want] if is_k(r) and kv(r) in (True, None, want) else None       # it reports success only
        judge(chk, key, [want], got, returned)
        return
    returned = names_of(c)
    if returned is None:
        chk.add(key, RULE, UNDECIDED, "the names returned are not followed")
        return
    judge(chk, key, numbered(want, n), got, returned)


def run(chk):
    jobs = []
    for k in ("nc-na", "nc-csv"):
        jobs += [(k + "/default", p, n) for p in STEMS for n in ((1, 3) if p != "in.%s" else (1, 2, 3, 12))]
    for k in ("na-nc", "na-csv"):
        jobs += [(k + "/default", p, 1) for p in STEMS]
    for k in ("nc-na", "nc-csv", "xr-na", "xr-csv"):
        jobs += [(k, p, n) for p in GIVEN for n in ((1, 3) if p != "out.%s" else (1, 2, 3, 12))]
    for k in ("na-nc", "na-csv"):
        jobs += [(k, p, 1) for p in GIVEN]
    jobs += [("na-nc/append", "out.%s", 1)]
    parallel(chk, one, jobs)
