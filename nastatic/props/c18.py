import datetime
from ._na import *

METHOD = ("both directions of conversion are interpreted abstractly, over library models; the header lines written (and the attributes set) are compared line by line "
          "with the attributes (and header lines) of the input, each of which must be found in the place that the mapping of the configuration file gives it")
LEVEL = "other"
ASSUMPTIONS = ["the models of numpy, xarray, cf_xarray and cftime in /verif/ref/xstub", "attributes are those of the listed data sets and files; the present moment is arbitrary"]
RULE = "metadata arrives, whole and once, in the header item or attribute that stands for it"
TO_NA = [("nappy.nc_interface.na_content_collector", "NAContentCollector._defineNAGlobals"), ("nappy.nc_interface.na_content_collector", "NAContentCollector._defineNAComments"),
         ("nappy.nc_interface.na_content_collector", "NAContentCollector._defineGeneralHeader"), ("nappy.nc_interface.xarray_to_na", "XarrayToNA.writeNAFiles")]
TO_NC = [("nappy.nc_interface.na_to_xarray", "NADictToXarrayObjects._mapNACommentsToGlobalAttributes"), ("nappy.nc_interface.na_to_nc", "NAToNC.writeNCFile")]
NOW = [sym("now." + c, "int") for c in "Ymd"]
HP = {"==== Special Comments follow ====", "==== Special Comments end ====", "==== Normal Comments follow ====", "==== Normal Comments end ====",
      "=== Data Section begins on the next line ===", "== Singleton Variables defined in the source file follow ==", "== Singleton Variables defined in the source file end ==",
      "== Variable attributes from source (NetCDF) file follow ==", "== Variable attributes from source (NetCDF) file end ==",
      "=== Additional Global Attributes defined in the source file ===", "=== Additional Variable Attributes defined in the source file ==="}
LONG = "a fairly long value of an attribute, " * 6 + "that ends here"
MAPPED = {"source", "title", "institution", "comment", "history", "first_valid_date_of_data", "file_format_index", "no_of_nasa_ames_header_lines", "total_files_in_set", "file_number_in_set"}
BADC = "Data held at British Atmospheric Data Centre (BADC), Rutherford Appleton Laboratory, UK."


def to_na():
    """name -> (data, day of the first value or None)"""
    x, y = X(), Y()
    day = lambda ep, n, unit: (lambda t: [t.year, t.month, t.day])(datetime.datetime.strptime(ep, "%Y-%m-%d %H:%M:%S") + datetime.timedelta(**{unit: n}))
    tx = lambda vals, units, cal="standard", name="time": Axis(name, vals, LN("time", standard_name="time"), time=units, calendar=cal)
    a = lambda *ax, **k: Var("a", list(ax), LN("first", units="K", **k))
    D = {}
    D["plain"] = Data([a(x)], {"title": "The title", "source": "The source", "institution": "The institute"}), None
    D["other attributes"] = Data([a(x)], {"Conventions": "CF-1.6", "references": "http://some.where/else?x=1", "project": "P: the project = 3", "level": 2, "version": 1.5, "long": LONG, "title": LONG}), None
    D["read from NetCDF"] = Data([Var("a", [x], LN("first", units="K", level=NpInt(3)))], {"level": NpInt(2), "title": "T", "project": "P", "total_files_in_set": NpInt(3), "no_of_nasa_ames_header_lines": NpInt(77)}), None
    D["only a source"] = Data([a(x)], {"source": "Model  (version 3), run 7"}), None
    D["two institutes"] = Data([a(x)], {"institution": "A B (C) (ONAME from NASA Ames file); D; E (ORG from NASA Ames file)."}), None
    D["half of two institutes"] = Data([a(x)], {"institution": "A B (ONAME from NASA Ames file)"}), None
    D["comment"] = Data([a(x)], {"comment": "one line"}), None
    D["comment of several lines"] = Data([a(x)], {"comment": "first line\nsecond: line\n\nlast line", "title": "T", "zone": "Z"}), None
    D["comment of a NASA Ames file"] = Data([a(x)], {"comment": "==== Special Comments follow ====\nspecial one\nspecial two\n==== Special Comments end ====\n==== Normal Comments follow ====\nnormal one\nnormal two\n==== Normal Comments end ===="}), None
    D["many lines"] = Data([a(x)], dict([("comment", "\n".join("comment line %d of very many lines that go on for a while" % i for i in range(130)))] + [("att%d" % i, "value %d" % i) for i in range(40)])), None
    odd = ["=x= sampled twice", "== two", "-----", "# hash", "a: b = c; d", "100 % of 5%s %d", "say \"so\", 'it'", "12", "0", "x (y) [z]", "a, b,c", "end."]
    D["comment of odd lines"] = Data([a(x)], {"comment": "\n".join(odd)}), None
    D["odd attributes"] = Data([Var("a", [x], dict(LN("first", units="K"), **{"n%d" % i: o for i, o in enumerate(odd)}))], dict([("n%d" % i, o) for i, o in enumerate(odd)] + [("title", "5% of = x: y"), ("source", "= s"), ("institution", "# 1, 100%")])), None
    D["history"] = Data([a(x)], {"history": "made by hand"}), None
    D["history of several lines, comment"] = Data([a(x)], {"history": "2001-02-03 made\nHistory: changed\n  indented", "comment": "c1\nc2", "other": "o"}), None
    D["numbers of a NASA Ames file"] = Data([a(x, y)], {"file_format_index": 1001, "no_of_nasa_ames_header_lines": 77, "total_files_in_set": 3, "file_number_in_set": 2, "title": "T"}), None
    D["date given"] = Data([a(x)], {"first_valid_date_of_data": [1998, 7, 6]}), [1998, 7, 6]
    D["values of several lines"] = Data([a(x)], {"title": "title, line 1\ntitle, line 2", "source": "source 1\nsource 2", "institution": "inst 1\ninst 2", "note": "note 1\nnote 2"}), None
    D["variable attributes"] = Data([Var("a", [x], LN("first", units="K", valid_max=4.5, valid_min=-3, cell_methods="time: mean (interval: 1 day)", comment="about a")),
                                     Var("b", [x], {"standard_name": "air_pressure", "units": "hPa", "long_name": "pressure", "flag": 1})], {"title": "T"}), None
    D["variable attributes, numbered"] = Data([Var("a", [x], LN("first", nasa_ames_var_number=1, note="na")), Var("b", [x], LN("second", nasa_ames_var_number=0, note="nb"))]), None
    D["singles"] = Data([Var("s", value=3.5, attrs=LN("single", units="m")), Var("a", [x], LN("first")), Var("r", value=-2., attrs=LN("other single", note="nr"))], {"comment": "cc"}), None
    D["two files"] = Data([a(x, y), Var("c", [Z()], LN("other", note="nc"))], {"title": "T", "comment": "cc", "zone": "Z"}), None
    D["day"] = Data([a(tx([0., 6.], "hours since 1999-12-31 18:00:00"))]), day("1999-12-31 18:00:00", 0, "hours")
    D["next day"] = Data([a(tx([7., 13.], "hours since 1999-12-31 18:00:00"))], {"first_valid_date_of_data": [1998, 7, 6]}), day("1999-12-31 18:00:00", 7, "hours")
    D["leap day"] = Data([a(tx([59.5, 60.5], "days since 2000-01-01 00:00:00"))]), [2000, 2, 29]
    D["no leap day"] = Data([a(tx([59.5, 60.5], "days since 2000-01-01 00:00:00", "noleap"))]), [2000, 3, 1]
    D["30 days a month"] = Data([a(tx([59.5, 60.5], "days since 2000-01-01 00:00:00", "360_day"), y)]), [2000, 2, 30]
    D["backwards"] = Data([a(tx([-1., 0.], "seconds since 1970-01-01 00:00:00"))]), [1969, 12, 31]
    D["time is not first"] = Data([a(x, tx([0., 6.], "hours since 1999-12-31 18:00:00"))]), None
    return D


def lines_of(text):
    return [l.strip() for l in str(text).split("\n") if l.strip()]


def expect(p, data, day):
    """[(what, wrong?)] of the parsed file of data"""
    bad = []
    g = data.gattrs
    one = lambda s: " ".join(str(s).split())

    def head(item, got, want):
        if one(got) != one(want):
            bad.append("%s is %r instead of %r" % (item, got[:80], want[:80]))
    if "title" in g:
        head("MNAME", p.MNAME, g["title"])
    if "source" in g:
        head("SNAME", p.SNAME, g["source"])
    if "institution" in g:
        m = re.match(r"(.*) \(ONAME from NASA Ames file\); (.*) \(ORG from NASA Ames file\)\.$", g["institution"])
        head("ONAME", p.ONAME, m.group(1) if m else g["institution"])
    head("ORG", p.ORG, BADC)
    if [d for d in p.RDATE] != NOW:
        bad.append("RDATE is %s instead of the day of the conversion" % (p.RDATE,))
    if p.DATE != (day or [999, 999, 999]):
        bad.append("DATE is %s instead of %s" % (p.DATE, day or [999] * 3))
    if (p.IVOL, p.NVOL) != (1, 1):
        bad.append("file %s of %s" % (p.IVOL, p.NVOL))
    # normal comments
    want, scom = [], []
    for k, v in g.items():
        if k not in MAPPED:
            vs = lines_of("%s:   %s" % (k, v))
            want += vs
        elif k == "comment":
            mode = None
            for l in lines_of(v):
                if l in HP:
                    mode = "s" if l.startswith("==== Special") and "follow" in l else None
                else:
                    (scom if mode else want).append(l)
        elif k == "history":
            want += [re.sub(r"^History:\s*", "", l) for l in lines_of(v)]
    names = [n for n in p.VNAME]
    rest = [l.strip() for l in p.NCOM if l.strip() and l.strip() not in HP]
    heads = [p.XNAME[0]] + names if p.FFI in (1001, 2110) else names
    if rest and p.NAUXV == 0 and p.FFI in (1001, 1010, 2110) and rest[-1] == ",".join(heads):
        rest.pop()
    gone, extra = compare(want, rest, "history" in g)
    bad += ["%r is not in the normal comments" % l[:80] for l in gone[:1]] + ["the normal comments have a line %r" % l[:80] for l in extra[:1]]
    if "history" in g and not any("Converted to NASA Ames" in l and "now.Y" in l for l in rest):
        bad.append("the history does not record the conversion")
    # special comments: attributes of the variables of this file, under their names
    rest = [l.strip() for l in p.SCOM if l.strip() and l.strip() not in HP]
    mine = [v for v in data.vars if v.axes and best(v) in p.VNAME] + [v for v in data.vars if not v.axes]
    blocks = [[]]
    for l in rest:
        if re.match(r"Variable .+?: ", l):
            blocks.append([])
        blocks[-1].append(l)
    if blocks[0] != scom:
        bad.append("the special comments begin with %s instead of %s" % (blocks[0][:2], scom[:2]))
    for v in mine:
        hit = [b for b in blocks[1:] if b[0].split(": ", 1)[1] == best(v) or not v.axes and b[0].split(": ", 1)[1] == v.attrs["long_name"]]
        if len(hit) != 1:
            bad.append("%d blocks of special comments are about %r" % (len(hit), v.name))
            continue
        got = hit[0][1:]
        w = ["%s = %s" % (k, x) for k, x in v.attrs.items() if k not in ("nasa_ames_var_number", "nasa_ames_aux_var_number")]
        if not v.axes:
            w.append("value = %s" % v.value)
        gone, extra = compare(w, got)
        bad += ["%r of variable %s is not in the special comments" % (l, v.name) for l in gone[:1]] + ["the special comments say %r of variable %s" % (l[:80], v.name) for l in extra[:1]]
    if len(blocks) - 1 != len(mine):
        bad.append("the special comments are about %d variables instead of %d" % (len(blocks) - 1, len(mine)))
    return bad


def best(v):
    return best_name(v)


def compare(want, got, history=False):
    """lines that are missing and lines that are new"""
    got = list(got)
    gone = []
    for l in want:
        k = next((i for i, x in enumerate(got) if " ".join(x.split()) == " ".join(l.split())), None)
        if k is None and history:
            k = next((i for i, x in enumerate(got) if " ".join(re.sub(r"^History:\s*", "", x).split()) == " ".join(l.split())), None)
        if k is None:
            gone.append(l)
        else:
            got.pop(k)
    return gone, [x for x in got if not (history and "Converted to NASA Ames" in x)]


def na_docs():
    d = {}
    mk = lambda **k: Doc(1001, [("height (m)", [1., 2., 4.])], [Col("a", "first (K)"), Col("b", "second")], **k)
    d["plain"] = mk(scom=["special 1", "special 2"], ncom=["normal 1", "normal 2"])
    d["no comments"] = mk()
    d["special only"] = mk(scom=["special: 1"])
    d["normal only"] = mk(ncom=["n1", "n2", "height first second"])
    odd = ["=x= sampled twice", "== two", "==== own heading ====", "-----", "# hash", "  indented line", "a: b = c; d", "100 % of 5%s %d", "say \"so\", 'it'", "Special Comments", "12", "0", "x (y) [z]", "a, b,c", "end."]
    d["odd lines"] = mk(scom=odd, ncom=odd[::-1])
    d["odd lines, special"] = mk(scom=odd)
    d["odd lines, normal"] = mk(ncom=odd)
    d["alike"] = mk(scom=["same", "other", "same"], ncom=["same", "same"])
    d["many"] = mk(scom=["special comment %d, %s" % (i, "which is long " * 9) for i in range(25)], ncom=["normal comment %d, %s" % (i, "which is long " * 9) for i in range(30)])
    d["late"] = mk(date=(1987, 11, 30), rdate=(2010, 1, 9), vols=(2, 7), head=("An Owner; of it", "Org (UK)", "Source: instrument", "Mission = x"))
    d["from NetCDF"] = mk(scom=["==== Special Comments follow ====", "s1", "=== Additional Variable Attributes defined in the source file ===", "  Variable a: first (K)", "    note = n", "==== Special Comments end ===="],
                          ncom=["==== Normal Comments follow ====", "zone:   Z", "==== Normal Comments end ====", "=== Data Section begins on the next line ===", "height (m),first (K),second"])
    d["2010"] = Doc(2010, [("t (s)", [0., 1., 3.]), ("height (m)", [10., 20.])], [Col("a", "first (K)")], [Col("p", "aux (m)")], scom=["s1"], ncom=["n1"], vols=(1, 2))
    return d


def gattrs(c, entry):
    if entry == "convertNAToNC":
        return [hdict(c, c.sc.attr(ds, "attrs")) for n, m, ds in c.netcdf()]
    out = {}
    for pair in seq_items(c, seq_items(c, c.result)[2]):
        k, v = seq_items(c, pair)
        out[kv(k)] = v
    return [out]


def text_of(t):
    if isinstance(t, Term) and t.ty == "str" and any(isinstance(x, Term) and (x.op != "fmt" or any(y.op == "sym" and not y.args[0].startswith("now") for y in T.subterms(x))) for x in pieces(t)):
        return None
    return show(pieces(t)) if isinstance(t, Term) and t.ty == "str" else str(kv(t)) if isinstance(t, Term) and is_k(t) else None


def numbers(c, t):
    try:
        t = c.sc.ip.aslist(t, c.sc.st) if t.op == "ref" else t
        out = []
        for x in [g.args[0] if g.op == "it" else unk("item") for g in segs_of(t)] if t.op == "seq" else seq_items(c, t):
            x = plain(c, x)
            out.append(kv(x) if is_k(x) else None)
        return out
    except Odd:
        return None


def expect_nc(c, doc, g):
    bad, und = [], []

    def val(k):
        if k not in g:
            bad.append("there is no attribute %r" % k)
            return None
        t = text_of(plain(c, g[k]))
        if t is None:
            und.append("%s: %s" % (k, str(g[k])[:80]))
        return t
    oname, org, sname, mname = doc.head
    for k, w in (("source", sname), ("title", mname)):
        t = val(k)
        if t is not None and t != w:
            bad.append("%s is %r instead of %r" % (k, t, w))
    t = val("institution")
    if t is not None and t != "%s (ONAME from NASA Ames file); %s (ORG from NASA Ames file)." % (oname, org):
        bad.append("institution is %r" % t)
    t = val("history")
    if t is not None and ("%04d-%02d-%02d" % tuple(doc.rdate) not in t or "now.Y" not in t):
        bad.append("history is %r" % t[:100])
    t = val("comment")
    if t is not None:
        got = {"s": [], "n": [], None: []}
        mode = None
        for l in lines_of(t):
            if l in HP:
                mode = {"==== Special Comments follow ====": "s", "==== Normal Comments follow ====": "n"}.get(l)
            else:
                got[mode].append(l)
        for m, w, what in (("s", doc.scom, "special"), ("n", doc.ncom, "normal")):
            w = [l.strip() for l in w if l.strip() and l.strip() not in HP]
            if got[m] != w:
                bad.append("the %s comments are %s instead of %s" % (what, got[m][:4], w[:4]))
        if got[None]:
            bad.append("comment holds %r" % got[None][0])
    if "first_valid_date_of_data" not in g:
        bad.append("the date is lost")
    else:
        v = g["first_valid_date_of_data"]
        t = text_of(v)
        n = numbers(c, v) if t is None else [int(x) for x in re.findall(r"\d+", t)]
        if n is None or None in n:
            und.append("date %s" % str(v)[:80])
        elif n != list(doc.date):
            bad.append("the date is %s instead of %s" % (n, list(doc.date)))
    for k, w in (("file_format_index", doc.ffi), ("file_number_in_set", doc.vols[0]), ("total_files_in_set", doc.vols[1])):
        t = val(k)
        if t is not None and t != str(w):
            bad.append("%s is %s instead of %s" % (k, t, w))
    return bad, und


def add(chk, key, bad, und, where):
    if bad:
        chk.add(key, RULE, VIOLATED, bad[0], where)
    elif und:
        chk.add(key, RULE, UNDECIDED, und[0])
    else:
        chk.add(key, RULE, PROVED)


def run(chk):
    jobs = [("na", n, e) for n in to_na() for e in API + ("ds",)] + [("nc", n, e) for n in na_docs() for e in ("convertNAToNC", "readXarrayObjectsFromNA")] + [("user", n, "convertNAToNC") for n in ("plain", "2010")]

    parallel(chk, one, jobs)


def one(chk, kind, n, e):
    where = anchor(chk, *TO_NA)
    key = "%s/%s/%s" % (kind, n, e)
    if kind == "na":
        data, day = to_na()[n]
        c = run_nc(chk.repo, data, e)
        if not followed(chk, c, key, RULE):
            return
        ps = parsed(chk, c, key, RULE)
        if ps is None:
            return
        if not ps:
            chk.add(key, RULE, VIOLATED, "no file is written", where)
        for f, p in ps.items():
            try:
                add(chk, key + "/" + f, expect(p, data, day), [], where)
            except Odd as o:
                chk.add(key + "/" + f, RULE, UNDECIDED, str(o)[:160])
    else:
        doc = na_docs()[n]
        kw = {} if e != "convertNAToNC" else {"nc_file": "out.nc"}
        if kind == "user":
            kw["global_attributes"] = [("project", "mine"), ("licence", "free")]
        c = run_na(chk.repo, doc, e, **kw)
        if not followed(chk, c, key, RULE):
            return
        try:
            gs = gattrs(c, e)
            if not gs:
                chk.add(key, RULE, VIOLATED, "nothing is written", anchor(chk, *TO_NC))
            for i, g in enumerate(gs):
                bad, und = expect_nc(c, doc, g)
                if kind == "user":
                    for k, w in kw["global_attributes"]:
                        if k not in g or text_of(g[k]) != w:
                            bad.append("the attribute %s given by the user is %s" % (k, g.get(k)))
                add(chk, "%s/%d" % (key, i), bad, und, anchor(chk, *TO_NC))
        except Odd as o:
            chk.add(key, RULE, UNDECIDED, str(o)[:160])
