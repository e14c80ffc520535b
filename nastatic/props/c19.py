from .c18 import *

METHOD = ("the conversion is interpreted abstractly twice, with and without overriding metadata, over library models and symbolic cells; the two sets of files are read by an "
          "independent reader and compared item by item")
LEVEL = "other"
ASSUMPTIONS = ["the models of numpy, xarray, cf_xarray and cftime in /verif/ref/xstub", "data sets and overriding items are those listed in nastatic/props/c19.py; cell values are arbitrary"]
RULE = "overriding metadata replaces exactly the permitted items given, in every file, and changes nothing else"
WHERE = [("nappy.nc_interface.xarray_to_na", "XarrayToNA.writeNAFiles"), ("nappy.nc_interface.xarray_to_na", "XarrayToNA._cleanWrapComments")]
FIELDS = ("FFI", "ONAME", "ORG", "SNAME", "MNAME", "IVOL", "NVOL", "DATE", "RDATE", "DX", "NVPM", "NX", "NXDEF", "X", "XNAME", "NV", "VSCAL", "VMISS", "VNAME", "NAUXV", "ASCAL", "AMISS", "ANAME", "SCOM", "NCOM")
START = {"SCOM": "==== Special Comments follow ====", "NCOM": "==== Normal Comments follow ===="}


def data():
    x, y = X(), Y()
    D = {}
    D["one"] = Data([Var("a", [x], LN("first", units="K"), nan=[(1,)], fill=-99.), Var("b", [x], LN("second"))], {"title": "T", "source": "S", "institution": "I", "comment": "c 1\nc 2"})
    D["bare"] = Data([Var("a", [x], LN("first"))])
    D["aux"] = Data([Var("a", [x, y], LN("first")), Var("b", [x], LN("second")), Var("c", [x], LN("third"))], {"title": "T", "comment": "cc"})
    D["time"] = Data([Var("a", [TM()], LN("first")), Var("b", [TM()], LN("second"))], {"history": "made", "source": "S"})
    D["special"] = Data([Var("a", [x], LN("first"))], {"comment": "==== Special Comments follow ====\nspecial one\n==== Special Comments end ====\n==== Normal Comments follow ====\nnormal one\n==== Normal Comments end ===="})
    D["two files"] = Data([Var("a", [x], LN("first")), Var("b", [y], LN("second"))], {"title": "T", "zone": "Z"})
    D["rows"] = Data([Var("a", [Axis("r", [0., 1., 2., 4., 5.], LN("row"))], LN("first"))], {"title": "T", "zone": "Z"})
    D["five files"] = Data([Var("v%d" % i, [Axis("x%d" % i, [0., 1., 3. + i], LN("axis %d" % i))], LN("variable %d" % i)) for i in range(5)], {"title": "T", "comment": "c"})
    return D


EARLIER = {"ONAME": "Earlier name", "ORG": "Earlier place", "SNAME": "Earlier source", "MNAME": "Earlier mission", "DATE": [1901, 2, 3], "RDATE": [1904, 5, 6],
           "SCOM": ["earlier special"], "NCOM": ["earlier normal"]}


def cases():
    """[(data, override, options)]"""
    out = []
    S = {"ONAME": "Our own, name", "ORG": "My Organisation", "SNAME": "Sonde (type 2)", "MNAME": "Mission = x"}
    for d in ("one", "bare", "two files", "aux"):
        for k, v in S.items():
            out.append((d, {k: v}, {}))
        out.append((d, dict(S), {}))
    for d in ("one", "time", "two files"):
        out.append((d, {"DATE": "1987 11 30"}, {}))
        out.append((d, {"RDATE": [2011, 4, 5]}, {}))
        out.append((d, {"DATE": [1987, 1, 2], "RDATE": "2011 12 13", "MNAME": "M2"}, {}))
    for d in ("one", "bare", "special", "two files", "time"):
        for k in ("SCOM", "NCOM"):
            out.append((d, {k: ["new 1", "new 2"]}, {}))
            out.append((d, {k: "only one"}, {}))
        out.append((d, {"SCOM": ["s new"], "NCOM": ["n new 1", "n new 2", "n new 3"], "SNAME": "X"}, {}))
    out.append(("one", {"VNAME": "n1 n2"}, {}))
    out.append(("one", {"VNAME": ["name one (K)", "name two"]}, {}))
    out.append(("aux", {"ANAME": "p q"}, {}))
    out.append(("aux", {"ANAME": ["p (m)", "q"], "VNAME": ["v"]}, {}))
    for d in ("one", "aux"):
        out.append((d, {"FFI": 2110, "NV": 7, "DX": [3.0], "IVOL": 4, "NVOL": 9, "XNAME": ["other"], "VMISS": [1.0], "NIV": 3, "X": [1.0], "V": []}, {}))
        out.append((d, {"NSCOML": 7, "NNCOML": 3, "NLHEAD": 3, "unheard": "of", "oname": "lower", "ONAME": "upper"}, {}))
    out.append(("rows", {"ONAME": "Me", "NCOM": ["new"]}, {"size_limit": 2}))
    out.append(("one", {"ONAME": "Me", "SCOM": ["new"]}, {"float_format": "%.3f"}))
    out.append(("one", {}, {}))
    for k, v in dict(S, DATE=[1987, 1, 2], SCOM=["new 1"], NCOM="new 1\nnew 2").items():
        out.append(("five files", {k: v}, {}))
    for d in ("one", "bare", "two files"):
        for over in ({}, {"ONAME": "Our own"}, {"NCOM": ["new"]}):
            out.append((d, over, {"earlier": True}))
    return out


def expected(p0, over):
    """the fields of the file with the overriding items applied to those without"""
    want = {f: getattr(p0, f, None) for f in FIELDS}
    for k, v in over.items():
        if k in ("ONAME", "ORG", "SNAME", "MNAME"):
            want[k] = v
        elif k in ("DATE", "RDATE"):
            want[k] = [int(i) for i in (v.split() if isinstance(v, str) else v)]
        elif k in ("VNAME", "ANAME"):
            want[k] = v.split() if isinstance(v, str) else list(v)
        elif k in ("SCOM", "NCOM"):
            new = v.split("\n") if isinstance(v, str) else list(v)
            old = list(want[k])
            want[k] = old[:1] + new + old[1:] if old and old[0] == START[k] else new + old
    if "VNAME" in over and want["NAUXV"] == 0 and want["FFI"] in (1001, 1010, 2110):
        n = want["NCOM"][-1:]
        if n == [",".join(p0.XNAME[:1] * (p0.FFI != 1010) + p0.VNAME)]:
            want["NCOM"][-1] = ",".join(p0.XNAME[:1] * (p0.FFI != 1010) + want["VNAME"])
    return want


def differs(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) != len(b) or any(differs(x, y) for x, y in zip(a, b))
    if isinstance(a, Term) or isinstance(b, Term):
        return a is not b
    return a != b


def unclear(v):
    if isinstance(v, (list, tuple)):
        return any(unclear(x) for x in v)
    return isinstance(v, Term) and (T.has_unk(v) or any(x.op in ("ite", "seq") for x in T.subterms(v)))


def one(chk, n, entry):
    d, over, opt = cases()[n]
    key = "%s/%s/%s%s" % (d, entry, ",".join(sorted(over)) or "nothing", "".join(" %s=%s" % kv_ for kv_ in sorted(opt.items())))
    opt = dict(opt)
    key = "%d/%s" % (n, key)
    where = anchor(chk, *WHERE)
    delim = "," if entry == "csv" else "    "
    out = "out.csv" if entry == "csv" else "out.na"
    got = []
    earlier = opt.pop("earlier", False)
    for o in ({}, over):
        c = None
        if earlier and len(got) == 1:
            # a conversion made before, in the same process, with metadata of its own
            c = run_nc(chk.repo, data()["one"], "nc", out="earlier.na", na_items_to_override=dict(EARLIER))
            if not followed(chk, c, key, RULE):
                return
        c = run_nc(chk.repo, data()[d], entry, out=out, c=c, na_items_to_override=dict(o), **opt)
        if not followed(chk, c, key, RULE):
            return
        ps = parsed(chk, c, key, RULE, delim=delim, skip=("earlier.na",))
        if ps is None:
            return
        got.append(ps)
    a, b = got
    if list(a) != list(b) or not a:
        chk.add(key, RULE, VIOLATED, "the files are %s instead of %s" % (list(b), list(a)), where)
        return
    for f in a:
        want = expected(a[f], over)
        und = [k for k in FIELDS if unclear(getattr(b[f], k, None)) or unclear(getattr(a[f], k, None))]
        bad = ["%s is %s instead of %s" % (k, str(getattr(b[f], k, None))[:100], str(want[k])[:100]) for k in FIELDS if k not in und and differs(getattr(b[f], k, None), want[k])]
        if not bad and differs([[t for t, s in r] for r in a[f].rows], [[t for t, s in r] for r in b[f].rows]):
            bad.append("the data differ")
        if b[f].problems:
            bad.append(b[f].problems[0])
        if not over and b[f].ORG != BADC:
            bad.append("ORG is %r" % b[f].ORG)
        if bad or und:
            chk.add(key + "/" + f, RULE, VIOLATED if bad else UNDECIDED, bad[0] if bad else "%s is not decided" % und[0], where)
        else:
            chk.add(key + "/" + f, RULE, PROVED)


def run(chk):
    jobs = [(n, e) for n in range(len(cases())) for e in ("nc", "xr", "csv") + (("ds",) if n % 4 == 0 else ())]
    parallel(chk, one, jobs)
