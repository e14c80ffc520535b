"""The command-line tools against the functions of the API."""
from ._na import *
from .c15 import names_of

METHOD = ("each command-line tool is interpreted abstractly, over library models, with listed argument vectors, and so is the API function with the documented meaning of those arguments; "
          "the text terms (or data sets) written and the names reported must be the same terms")
LEVEL = "other"
ASSUMPTIONS = ["the models of numpy, xarray, cf_xarray and cftime in /verif/ref/xstub; getopt splits arguments as documented", "argument vectors and data sets are those listed in nastatic/props/c13.py; cell values are arbitrary"]
RULE = "a command-line option has the effect of the API argument it stands for, and a command that cannot be understood writes nothing"


def nc_data():
    x, y = X(), Y()
    r = Axis("r", [0., 1., 2., 4., 5.], LN("row"))
    return {"plain": Data([Var("air", [x], LN("first", units="K"), nan=[(1,)], fill=-99.), Var("wind", [x], LN("second")), Var("o3", [x], LN("third"))], {"title": "T", "comment": "c1"}),
            "two files": Data([Var("air", [x], LN("first")), Var("wind", [y], LN("second")), Var("o3", [x], LN("third"))], {"title": "T"}),
            "grid": Data([Var("air", [x, y], LN("first")), Var("wind", [x], LN("second")), Var("o3", [x, y], LN("third"))], {"title": "T"}),
            "rows": Data([Var("air", [r], LN("first")), Var("wind", [r], LN("second"))], {"title": "T"})}


# option -> (arguments, keywords of the API)
NC = {"out": (["-o", "d/o.na"], {"out": "d/o.na"}), "one variable": (["-v", "air"], {"var_ids": ["air"]}), "variables": (["-v", "air,wind"], {"var_ids": ["air", "wind"]}),
      "ffi": (["--ffi=2110"], {"requested_ffi": 2110}), "ffi apart": (["--ffi", "2110"], {"requested_ffi": 2110}), "format": (["-f", "%.3f"], {"float_format": "%.3f"}), "format joined": (["-f%12.4e"], {"float_format": "%12.4e"}),
      "limit": (["-l", "2"], {"size_limit": 2}), "exclude": (["-e", "wind"], {"exclude_vars": ["wind"]}), "exclude two": (["-e", "o3,wind"], {"exclude_vars": ["o3", "wind"]}),
      "overwrite": (["--overwrite-metadata=ONAME,Me"], {"na_items_to_override": {"ONAME": "Me"}}),
      "overwrite two": (["--overwrite-metadata", "ONAME,Me and you,MNAME,A mission"], {"na_items_to_override": {"ONAME": "Me and you", "MNAME": "A mission"}}),
      "overwrite three": (["--overwrite-metadata=ONAME,Me,MNAME,A mission,SNAME,A source"], {"na_items_to_override": {"ONAME": "Me", "MNAME": "A mission", "SNAME": "A source"}}),
      "variables in another order": (["-v", "o3,wind,air"], {"var_ids": ["o3", "wind", "air"]}),
      "names": (["--names-only"], {"only_return_file_names": True}), "no header": (["--no-header"], {"no_header": True}), "annotated": (["--annotated"], {"annotation": True})}
NA = {"out": (["-o", "d/o.nc"], {"out": "d/o.nc"}), "append": (["-m", "a"], {"mode": "a"}), "write": (["-m", "w"], {"mode": "w"}), "attribute": (["-g", "zone,here"], {"global_attributes": [("zone", "here")]}),
      "attributes": (["-g", "zone,here,title,Of mine"], {"global_attributes": [("zone", "here"), ("title", "Of mine")]}), "rename": (["-r", "air,alpha"], {"rename_variables": {"air": "alpha"}}),
      "three attributes": (["-g", "zone,here,title,Of mine,level,3"], {"global_attributes": [("zone", "here"), ("title", "Of mine"), ("level", "3")]}),
      "rename three": (["-r", "air,alpha,wind,beta,o3,gamma"], {"rename_variables": {"air": "alpha", "wind": "beta", "o3": "gamma"}}),
      "rename two": (["-r", "air,alpha,wind,beta"], {"rename_variables": {"air": "alpha", "wind": "beta"}}), "time": (["-t", "hours since 2003-04-30 10:00:00", "-n"], {"time_units": "hours since 2003-04-30 10:00:00", "time_warning": False}),
      "no warning": (["-n"], {"time_warning": False})}
WRONG = [["-x"], ["--unheard-of"], ["-i"], []]


def jobs():
    out = []
    for tool in ("nc2na", "nc2csv"):
        opts = dict(NC)
        if tool == "nc2na":
            opts["comma"] = (["-d", ","], {"delimiter": ","})
            opts["tab"] = (["-d", "\t"], {"delimiter": "\t"})
        for d in ("plain", "two files", "grid", "rows"):
            for o in [None] + sorted(opts):
                if o and o.startswith("ffi") and d != "grid" or o == "limit" and d not in ("rows", "plain"):
                    continue
                out.append((tool, d, [opts[o]] if o else [], o or "nothing"))
        for a in ("out", "exclude", "no header", "annotated", "format", "overwrite"):
            for b in ("limit", "names", "comma", "one variable", "annotated", "overwrite two", "no header"):
                if a != b and b in opts and not (a.startswith("over") and b.startswith("over")):
                    out.append((tool, "rows", [opts[a], opts[b]], "%s, %s" % (a, b)))
                    out.append((tool, "rows", [opts[b], opts[a]], "%s, %s" % (b, a)))
    for d in ("in.na", "dir.d/in.na", "in.dat", "a.b.na"):
        for o in [None] + sorted(NA):
            if d == "in.na" or o in (None, "rename"):
                out.append(("na2nc", d, [NA[o]] if o else [], o or "nothing"))
    for a in ("out", "append", "attribute", "rename two"):
        for b in ("attributes", "rename", "time", "no warning", "out"):
            if a != b and a[:6] != b[:6]:
                out.append(("na2nc", "in.na", [NA[a], NA[b]], "%s, %s" % (a, b)))
    return out


def setup(repo, tool, d, timeless=False):
    c = Conv(repo)
    if tool == "na2nc":
        x = ("time", [0., 6., 12.]) if timeless else ("height (m)", [1., 2., 4.])
        put_doc(c, d, Doc(1001, [x], [Col("a", "air (K)", 1., -1., [(0,)]), Col("b", "wind", 1., -2.), Col("c", "o3", 1., -3.)], scom=["s1"]))
    else:
        c.put("in.nc", nc_data()[d])
    return c


def cli(c, tool, argv, how):
    if how == "argv":
        c.sc.ip.argv = [tool] + argv
        return c.run(lambda: c.sc.meth(c.sc.load("nappy.script." + tool), tool))
    return c.run(lambda: c.sc.meth(c.sc.load("nappy.script." + tool), tool, c.list_([K(x) for x in argv])))


def written(c):
    """name -> content term"""
    out = {}
    for n, o in c.files().items():
        out[n] = (o.text, o.closed)
    for n, m, ds in c.netcdf():
        out["%s %s" % (kv(n), kv(m))] = (c.sc.ip.freeze(ds, c.sc.st), True)
    return out


def place(chk, tool):
    return anchor(chk, ("nappy.script." + tool, "parseArgs"), ("nappy.script." + tool, tool))


def same_content(a, b):
    if a is b or T.eq(a, b) is TRUE:
        return True
    if a.ty == "str" and b.ty == "str":
        try:
            return show(pieces(a)) == show(pieces(b)) or (None if T.has_unk(a) or T.has_unk(b) else False)
        except Odd:
            return None
    if T.has_unk(a) or T.has_unk(b):
        return None
    return str(a) == str(b)


def one(chk, n):
    tool, d, opts, label = jobs()[n]
    kw = {}
    argv = ["-i", d if tool == "na2nc" else "in.nc"]
    for a, k in opts:
        argv += a
        kw.update(k)
    timeless = any("time_units" in k for _, k in opts)
    out = kw.pop("out", None)
    api = {"nc2na": "convertNCToNA", "nc2csv": "convertNCToCSV", "na2nc": "convertNAToNC"}[tool]
    args = [argv[1]]
    if out:
        args.append(out)
    elif tool == "na2nc":
        args.append((d[:-3] if d.endswith(".na") else d) + ".nc")
    key = "%s/%s/%s" % (tool, d, label)
    b = setup(chk.repo, tool, d, timeless).api(api, *args, **kw)
    for how in ("list", "argv"):
        for v in (argv, argv[2:] + argv[:2]):
            a = cli(setup(chk.repo, tool, d, timeless), tool, list(v), how)
            chk.saw(a.sc)
            kk = "%s/%s" % (key, " ".join(v) if how == "list" else "from the command line")
            if how == "argv" and v is not argv:
                continue
            if a.status is None or b.status is None:
                chk.add(kk, RULE, UNDECIDED, "not followed to its end")
                continue
            if a.status != b.status:
                chk.add(kk, RULE, VIOLATED, "the tool %s, the function %s" % tuple("raises %s" % (x.raised[1],) if x.status == "raises" else "comes to an end" for x in (a, b)), place(chk, tool))
                continue
            wa, wb = written(a), written(b)
            bad = und = None
            if list(wa) != list(wb):
                bad = "the tool writes %s, the function %s" % (list(wa), list(wb))
            else:
                for f in wa:
                    s = same_content(wa[f][0], wb[f][0])
                    if s is None:
                        und = "%s is not followed" % f
                    elif not s:
                        bad = "%s is not the file that the function writes" % f
                    elif wa[f][1] is not wb[f][1]:
                        bad = "%s is not left in the same state" % f
            if a.status == "ok" and not bad:
                ra, rb = (names_of(x) if x.result is not None and x.result.op == "ref" else x.frozen() for x in (a, b))
                if isinstance(ra, list) and isinstance(rb, list) and ra != rb:
                    bad = "the tool returns %s, the function %s" % (ra, rb)
                said = printed(a)
                for nme in (rb if isinstance(rb, list) else []):
                    if said is not None and nme not in said:
                        bad = bad or "%s is not among the names that the tool shows" % nme
            chk.add(kk, RULE, VIOLATED if bad else UNDECIDED if und else PROVED, bad or und or "the same %d file(s)" % len(wa), place(chk, tool) if bad else ())


def printed(c):
    """what was printed, or None"""
    out = []
    for e in c.sc.ip.events[c.nev:]:
        if e[0] == "print":
            for a in e[2:]:
                for x in (a if isinstance(a, tuple) else (a,)):
                    if not isinstance(x, Term) or not is_k(x):
                        return None
                    out.append(str(kv(x)))
    return out


def wrong(chk, tool, n):
    good = ["-i", "in.na" if tool == "na2nc" else "in.nc"]
    argv = WRONG[n] if WRONG[n] in (["-i"], []) else good + WRONG[n]
    c = cli(setup(chk.repo, tool, "in.na" if tool == "na2nc" else "plain"), tool, list(argv), "list")
    chk.saw(c.sc)
    key = "%s/refused/%s" % (tool, " ".join(argv) or "no arguments")
    w = written(c)
    bad = "it writes %s" % list(w) if w else None if c.status == "raises" else "it comes to an end as if all was well" if c.status == "ok" else None
    if c.status is None and not bad:
        chk.add(key, RULE, UNDECIDED, "not followed to its end")
        return
    chk.add(key, RULE, VIOLATED if bad else PROVED, bad or "ends with %s" % c.raised[1], place(chk, tool))


def go(chk, *a):
    (wrong if len(a) > 1 else one)(chk, *a)


def run(chk):
    parallel(chk, go, [(n,) for n in range(len(jobs()))] + [(t, n) for t in ("nc2na", "nc2csv", "na2nc") for n in range(len(WRONG))])
