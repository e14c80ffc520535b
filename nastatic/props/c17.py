from ._na import *

METHOD = ("reading and converting NASA Ames files is interpreted abstractly, over library models, on files of known structure whose cells are symbols; the arrays that come out are "
          "compared cell by cell with the symbols of the file, under the scale factor and missing value of their own column")
LEVEL = "other"
ASSUMPTIONS = ["the models of numpy and xarray in /verif/ref/xstub", "structures, names and axis values are those of the files listed in nastatic/props/_na.py; "
               "cell values are arbitrary", "the text of a number is read as that number"]
RULE = "every variable of the file comes out once, with its own values scaled, except missing ones, on the axes of the file"
WHERE = [("nappy.nc_interface.na_to_xarray", "NADictToXarrayObjects._convertNAToXarrayVariable"), ("nappy.nc_interface.na_to_xarray", "NADictToXarrayObjects._convertNAAuxToXarrayVariable"),
         ("nappy.nc_interface.na_to_xarray", "NADictToXarrayObjects._convertNAIndVarToXarrayAxis"), ("nappy.nc_interface.na_to_nc", "NAToNC.writeNCFile")]


KINDS = ("longitude", "latitude", "level", "time")


def unasked(t):
    """the value if the user is asked for units and gives none"""
    known = {x: K("") for x in T.subterms(t) if x.op == "app" and x.args[0] == "input"} if isinstance(t, Term) else {}
    return T.subst(t, known) if known else t


def plainly(name):
    """a name without the characters that a safe name may have in place of others"""
    return re.sub(r"[^a-z0-9]+", "_", str(name).lower()).strip("_")


def outputs(c, entry):
    """[(dataset name or None, Arr)] of all arrays that come out"""
    if entry == "convertNAToNC":
        out = []
        for n, m, ds in c.netcdf():
            vs = hdict(c, c.sc.attr(ds, "_vars"))
            for k, v in vs.items():
                a = arr(c, v)
                a.key = k
                out.append(a)
        return out
    if entry == "getXarrayVariableFromNA":
        return [arr(c, c.result)]
    r = seq_items(c, c.result)
    out = []
    for part in r[:2]:
        out += [arr(c, v) for v in seq_items(c, part)]
    return out


def cols_of(doc):
    return [("V", k, col) for k, col in enumerate(doc.V)] + [("A", k, col) for k, col in enumerate(doc.A)]


def check(chk, key, c, doc, entry, want=None, rename=None):
    where = anchor(chk, *WHERE)
    try:
        outs = outputs(c, entry)
    except Odd as e:
        chk.add(key, RULE, UNDECIDED, str(e)[:160])
        return
    want = cols_of(doc) if want is None else want
    rename = rename or {}
    used = set()
    for kind, k, col in want:
        kk = "%s/%s%d" % (key, kind, k)
        raws = {}
        shape = doc.shape if kind == "V" else (doc.shape[0] // (doc.nvpm or 1),)
        for idx in grid(shape):
            raws[idx] = col.raw(idx)
        mine = {t for t in raws.values() if t.op == "sym"}
        hits = [a for a in outs if any(s in mine for x in a.cells.values() for s in free(x))]
        if len(hits) != 1:
            odd = any(T.has_unk(x) for a in outs for x in a.cells.values())
            chk.add(kk, RULE, UNDECIDED if odd else VIOLATED, "the values of %r are in %d arrays" % (col.name, len(hits)), where)
            continue
        a = hits[0]
        used.add(id(a))
        bad, und = [], []
        if a.shape != shape:
            bad.append("has the shape %s instead of %s" % (a.shape, shape))
        else:
            for idx, raw in raws.items():
                r = scaled(a.cells[idx], raw, col)
                if r is None:
                    und.append("cell %s: %s" % (list(idx), str(a.cells[idx])[:80]))
                elif not r:
                    bad.append("cell %s is %s for %s with scale factor %s and missing value %s" % (list(idx), str(a.cells[idx])[:80], raw, col.scal, col.miss))
        base, units = name_of(col.name)
        got = a.attrs.get("units")
        if units and not same_text(got, units) or not units and got is not None and not same_text(got, ""):
            bad.append("units are %s instead of %r" % (got, units))
        fv = a.encoding.get("_FillValue") or a.attrs.get("_FillValue")
        if fv is None or is_k(fv) and kv(fv) != col.miss:
            bad.append("fill value is %s instead of %s" % (fv, col.miss))
        elif not is_k(fv):
            und.append("fill value %s" % str(fv)[:60])
        if not is_k(a.name):
            und.append("name %s" % str(a.name)[:60])
        elif len(base) < 60:
            safe = base.lower().replace(" ", "_")
            ok = [rename[safe].lower().replace(" ", "_")] if safe in rename else [safe]
            if not any(re.match(re.escape(plainly(o)) + r"(_\d+)?$", plainly(kv(a.name))) if entry == "convertNAToNC" else plainly(kv(a.name)) == plainly(o) for o in ok):
                bad.append("is called %s instead of %s" % (a.name, ok[0]))
        num = a.attrs.get("nasa_ames_var_number" if kind == "V" else "nasa_ames_aux_var_number")
        num = plain(c, num)
        if num is None:
            bad.append("does not say which variable of the file it is")
        elif is_k(num) and kv(num) != k:
            bad.append("is numbered %s instead of %d" % (num, k))
        # axes
        axes = doc.xs if kind == "V" else doc.xs[:1]
        if len(a.dims) != len(axes):
            bad.append("has %d axes instead of %d" % (len(a.dims), len(axes)))
        else:
            for (xn, xv), d in zip(axes, a.dims):
                own = kind == "A" and doc.ffi == 1020        # one value for each record
                xv = xv[::doc.nvpm] if own else xv
                cs = [q for q in a.coords if str(getattr(q.name, "args", [None])[0]) == d]
                xb, xu = name_of(xn)
                if len(cs) != 1:
                    bad.append("axis %s has %d coordinates" % (d, len(cs)))
                    continue
                vals = [cs[0].cells[i] for i in sorted(cs[0].cells)]
                if any(not is_k(v) for v in vals):
                    und.append("axis values %s" % str(vals)[:60])
                elif len(vals) != len(xv) or any(abs(kv(p) - q) > 1e-9 for p, q in zip(vals, xv)):
                    bad.append("axis %s holds %s instead of %s" % (d, [kv(v) for v in vals], xv))
                if plainly(d) != plainly(xb) and not (d in KINDS and d in xb.lower()) and not own:
                    bad.append("axis %r is called %r" % (xn, d))
                cs[0].attrs = {k: unasked(v) for k, v in cs[0].attrs.items()}
                if xu and not same_text(cs[0].attrs.get("units"), xu):
                    bad.append("axis %s has units %s instead of %r" % (d, cs[0].attrs.get("units"), xu))
                if not same_text(cs[0].attrs.get("long_name"), xn):
                    bad.append("axis %s has long name %s instead of %r" % (d, cs[0].attrs.get("long_name"), xn))
        if bad:
            chk.add(kk, RULE, VIOLATED, "%r %s" % (col.name, bad[0]), where)
        elif und:
            chk.add(kk, RULE, UNDECIDED, "%r: %s" % (col.name, und[0]))
        else:
            chk.add(kk, RULE, PROVED, "%r: %d cells, %d axes" % (col.name, len(raws), len(axes)))
    extra = [a for a in outs if id(a) not in used]
    names = [str(getattr(a, "key", a.name)) for a in outs]
    if extra:
        chk.add(key + "/others", RULE, VIOLATED, "an array %s comes out that was not asked for or has no values of its own" % extra[0].name, where)
    elif len(set(names)) != len(names) and entry == "convertNAToNC":
        chk.add(key + "/others", RULE, VIOLATED, "names are used twice: %s" % names, where)
    else:
        chk.add(key + "/others", RULE, PROVED, "%d arrays" % len(outs))


def one(chk, name, entry):
    doc = docs()[name]
    key = "%s/%s" % (entry, name)
    args = ("out.nc",) if entry == "convertNAToNC" else ()
    c = run_na(chk.repo, doc, entry, *args, **({"time_warning": False} if args else {}))
    if not followed(chk, c, key, RULE):
        return
    check(chk, key, c, doc, entry)


def select(chk, name, entry):
    """variables, aux_variables and rename_variables select and rename exactly the variables named"""
    doc = docs()[name]
    cols = cols_of(doc)
    V, A = [x for x in cols if x[0] == "V"], [x for x in cols if x[0] == "A"]
    if entry == "getXarrayVariableFromNA":
        for how, arg in (("index", len(V) - 1), ("name", V[-1][2].name)):
            key = "%s/%s/%s" % (entry, name, how)
            c = run_na(chk.repo, doc, entry, arg)
            if followed(chk, c, key, RULE):
                check(chk, key, c, doc, entry, [V[-1]])
        return
    cases = [("variables by name", {"variables": [V[-1][2].name]}, [V[-1]] + A, None),
             ("variables by index", {"variables": [len(V) - 1]}, [V[-1]] + A, None),
             ("variables by index text", {"variables": [str(len(V) - 1)]}, [V[-1]] + A, None),
             ("all in another order", {"variables": [v[2].name for v in V[::-1]]}, V + A, None),
             ("renamed", {"rename_variables": {name_of(V[0][2].name)[0].lower().replace(" ", "_"): "New_Name"}}, V + A, {name_of(V[0][2].name)[0].lower().replace(" ", "_"): "New_Name"})]
    if A:
        cases += [("auxiliary by name", {"aux_variables": [A[-1][2].name]}, V + [A[-1]], None), ("auxiliary by index", {"aux_variables": [len(A) - 1]}, V + [A[-1]], None),
                  ("auxiliary renamed", {"rename_variables": {name_of(A[0][2].name)[0].lower().replace(" ", "_"): "Other"}}, V + A, {name_of(A[0][2].name)[0].lower().replace(" ", "_"): "Other"})]
    for what, kw, want, ren in cases:
        key = "%s/%s/%s" % (entry, name, what)
        c = run_na(chk.repo, doc, entry, "out.nc", time_warning=False, **kw)
        if followed(chk, c, key, RULE):
            check(chk, key, c, doc, entry, want, ren)
    for what, kw in (("unknown variable", {"variables": ["nothing"]}), ("unknown auxiliary", {"aux_variables": ["nothing"]})):
        if "aux" in what and not A:
            continue
        key = "%s/%s/%s" % (entry, name, what)
        c = run_na(chk.repo, doc, entry, "out.nc", time_warning=False, **kw)
        chk.saw(c.sc)
        chk.add(key, "a variable that the file has not is refused", PROVED if c.status == "raises" else VIOLATED if c.status == "ok" else UNDECIDED,
                "refused" if c.status == "raises" else "not refused", anchor(chk, *WHERE[:2]))


def refused(chk, name, entry):
    """formats that have no mapping are refused, not converted to something else"""
    key = "%s/%s" % (entry, name)
    c = run_na(chk.repo, docs()[name], entry, *(("out.nc",) if entry == "convertNAToNC" else ()))
    chk.saw(c.sc)
    end = c.status == "raises" or c.status is None and c.raised is not None
    chk.add(key, "a format that has no mapping is refused", PROVED if end else VIOLATED if c.status == "ok" else UNDECIDED,
            "refused" if end else "not refused", anchor(chk, ("nappy.nc_interface.na_to_xarray", "NADictToXarrayObjects.__init__")))


def obligation(chk, what, name, entry):
    {"one": one, "select": select, "refused": refused}[what](chk, name, entry)


def run(chk):
    D = docs()
    jobs = [("one" if d.ffi not in (2110, 2310) else "refused", n, e) for e in ("convertNAToNC", "readXarrayObjectsFromNA") for n, d in D.items()]
    jobs += [("select", n, e) for n in ("1001", "1001, three alike", "1001, twelve", "1010", "2010", "3010") for e in ("convertNAToNC", "getXarrayVariableFromNA")]
    parallel(chk, obligation, jobs)
