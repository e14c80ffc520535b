"""There and back: NASA Ames to NetCDF and back, and NetCDF to NASA Ames and back."""
from ._na import *
from ._conv import datasets
from ..xconv import NpInt

METHOD = ("both directions are interpreted abstractly, one after the other, over library models: the arrays and attributes that one writes are what the other reads (as NetCDF keeps them, by a model of it), "
          "the text terms that one writes are the lines that the other reads; cells are symbols that are followed through the whole chain")
LEVEL = "other"
ASSUMPTIONS = ["the models of numpy, xarray, cf_xarray and cftime in /verif/ref/xstub; NetCDF keeps values, attributes, dimensions and fill values (NaN and the fill value are one)",
               "cells that are not listed as missing do not equal a missing value, scaled or not; text of a number is read as that number", "structures are those of the files and data sets listed in nastatic/props/_na.py and _conv.py"]
RULE = "a file converted there and back has the same variables, values, axes and descriptions"
AGAIN = "going there and back a second time changes nothing"
WHERE = [("nappy.nc_interface.na_to_xarray", "NADictToXarrayObjects.convert"), ("nappy.nc_interface.xarray_to_na", "XarrayToNA.convert"), ("nappy.nc_interface.na_content_collector", "NAContentCollector.collectNAContent")]


class Kept(Var):
    """a variable as it is found in a NetCDF file"""
    def __init__(self, name, axes, attrs, cells, fill):
        Var.__init__(self, name, axes, attrs, fill=fill)
        self.kept = cells

    def cells(self):
        return dict(self.kept)


class Numbers(list):
    """an array of integers held by an attribute"""


class KeptConv(Conv):
    def val(self, v):
        if isinstance(v, Numbers):
            return self.sc.meth(self.sc.load("numpy"), "asarray", self.list_([K(x) for x in v]))
        return Conv.val(self, v)


CLOCK = {"now.Y": 2024, "now.m": 7, "now.d": 9, "now.H": 15, "now.M": 8, "now.S": 30}


def then(t):
    """a text in which the day of conversion is a certain one"""
    known = {x: K(CLOCK[x.args[0]]) for x in T.subterms(t) if x.op == "sym" and x.args[0] in CLOCK}
    return T.subst(t, known) if known else t


def generic(t):
    """the cell of a number that is not a missing value"""
    known = {}
    for x in T.subterms(t):
        if x.op in ("eq", "ne", "cmp", "lt", "le", "isnan") or x.ty == "bool":
            ss = free(x)
            if x.op == "eq" and len(ss) == 1 and len(x.args) == 2 and (is_k(x.args[0]) or is_k(x.args[1])):
                known[x] = K(False)
    return T.subst(t, known) if known else t


def attr_value(c, t):
    """an attribute as it is found again"""
    if t.op == "ref":
        xs = seq_items(c, t) if c.sc.st.heap[t.args[0]].__class__.__name__ == "HList" else None
        if xs is not None:
            return Numbers([kv(plain(c, x)) for x in xs])
        p = plain(c, t)
        if is_k(p):
            return NpInt(kv(p))
        raise Odd("attribute %s" % str(t)[:60])
    t = then(t)
    if is_k(t) and isinstance(kv(t), int) and not isinstance(kv(t), bool):
        return NpInt(kv(t))
    return t


def attrs_of(c, d):
    return {k: attr_value(c, v) for k, v in d.items()}


def kept(c):
    """the data set that convertNAToNC wrote, as it is found in the file"""
    n, m, ds = c.netcdf()[-1]
    axes, out = {}, []
    for k, v in hdict(c, c.sc.attr(ds, "_vars")).items():
        a = arr(c, v)
        mine = []
        for d in a.dims:
            cs = [q for q in a.coords if is_k(q.name) and kv(q.name) == d]
            if len(cs) != 1:
                raise Odd("axis %s has %d coordinates" % (d, len(cs)))
            q = cs[0]
            vals = [kv(q.cells[i]) for i in sorted(q.cells)]
            at = attrs_of(c, q.attrs)
            u = at.get("units")
            u = kv(u) if isinstance(u, Term) and is_k(u) else None
            if any(isinstance(x, Term) and x is NONE for x in at.values()):
                raise Odd("axis %s has an attribute that is None" % d)
            time = u if isinstance(u, str) and " since " in u else None
            if time:
                del at["units"]
            if d not in axes:
                axes[d] = Axis(d, vals, at, time=time)
            elif axes[d].vals != vals:
                raise Odd("axis %s is there twice" % d)
            mine.append(axes[d])
        fv = a.encoding.get("_FillValue") or a.attrs.get("_FillValue")
        fill = kv(fv) if fv is not None and is_k(fv) else None
        cells = {}
        for idx, t in a.cells.items():
            t = generic(t)
            cells[idx] = None if is_k(t) and (kv(t) == fill or kv(t) != kv(t)) else t
        out.append(Kept(k, mine, attrs_of(c, a.attrs), cells, fill))
    return Data(out, attrs_of(c, hdict(c, c.sc.attr(ds, "attrs"))))


def back(repo, data, **kw):
    c = KeptConv(repo)
    c.put("mid.nc", data)
    c.api("convertNCToNA", "mid.nc", "back.na", **kw)
    return c


def lines_of(out):
    """the lines of a file written, for reading"""
    ls, cur_ = [], []
    for p in pieces(then(out.text)):
        if isinstance(p, str):
            if cur_ and is_k(cur_[-1]):
                cur_[-1] = K(kv(cur_[-1]) + p)
            else:
                cur_.append(K(p))
        else:
            cur_.append(p)
        if p == "\n" and isinstance(p, str):
            ls.append(T.cat(*cur_))
            cur_ = []
    return ls + ([T.cat(*cur_)] if cur_ else [])


def there(repo, lines):
    c = Conv(repo)
    c.sc.ip.known_text["in.na"] = lines
    c.api("convertNAToNC", "in.na", "mid.nc", time_warning=False)
    return c


def read(chk, c, key, rule):
    c.files_ = c.files
    c.files = lambda: {f: Out(o.name, then(o.text), o.closed, o.flushed) for f, o in c.files_().items()}
    return parsed(chk, c, key, rule)


def same_name(a, b):
    return (norm(name_of(a)[0]), squeeze(name_of(a)[1])) == (norm(name_of(b)[0]), squeeze(name_of(b)[1]))


def squeeze(s):
    return " ".join(str(s).split())


def values_of(p):
    """[(name, missing value, scale, {index: value}, kind)] of the columns of a file"""
    out = []
    for k in range(p.NV):
        out.append((p.VNAME[k], p.VMISS[k], p.VSCAL[k], {i: v[0] for i, v in p.cells[k].items()}, "V"))
    for k in range(p.NAUXV):
        out.append((p.ANAME[k], p.AMISS[k], p.ASCAL[k], {(i,): v[0] for i, v in enumerate(p.aux[k])}, "A"))
    return out


def axes_of(p):
    """[(name, values)] slowest first"""
    x0 = [v[0] for v in p.x0]
    if p.FFI == 1020:
        n = p.NVPM
        x0 = [x0[i // n] + (i % n) * p.DX[-1] for i in range(len(x0) * n)]
    out = [(p.XNAME[-1], x0)]
    if p.FFI in (2010, 3010, 4010):
        for k in range(p.NIV - 1)[::-1]:
            v = list(p.X[k])
            while len(v) < p.NX[k]:
                v.append(v[0] + len(v) * p.DX[k])
            out.append((p.XNAME[k], v))
    return out


def sub(xs, ys, strip=True):
    """the first line of xs that is not found, in order, in ys"""
    ys = [squeeze(y) for y in ys]
    for x in xs:
        x = squeeze(x)
        if x not in ys:
            return x
        ys = ys[ys.index(x) + 1:]
    return None


def norm(name):
    return re.sub(r"[^a-z0-9]+", "_", name.lower()).strip("_")


def first(chk, key, doc, P):
    """the files P against the file they come from"""
    where = anchor(chk, *WHERE)
    places = []
    for kind, k, col in cols_of(doc):
        kk = "%s/%s%d" % (key, kind, k)
        shape = doc.shape if kind == "V" else (doc.shape[0] // (doc.nvpm or 1),)
        want = {i: col.raw(i) for i in grid(shape)}
        mine = {s for t in want.values() for s in free(t)}
        hits = [(f, n, x) for f, p in P.items() for n, x in enumerate(values_of(p)) if any(isinstance(t, Term) and set(free(t)) & mine for t in x[3].values())]
        bad = None
        if not mine:
            chk.add(kk, RULE, PROVED, "all values are missing or given")
            continue
        if len(hits) != 1:
            chk.add(kk, RULE, VIOLATED, "the values of %r are in %d places" % (col.name, len(hits)), where)
            continue
        f, n, (name, miss, scal, cells, kind2) = hits[0]
        p = P[f]
        places.append((f, kind2, n, kind, k))
        base, units = name_of(col.name)
        b2, u2 = name_of(name)
        if len(base) < 60 and (norm(b2) != norm(base) or squeeze(u2) != squeeze(units)):
            bad = "is called %r" % name
        for i, raw in want.items():
            if bad:
                break
            got = cells.get(i)
            if got is None:
                bad = "has no value at %s" % (list(i),)
            elif is_k(raw) and kv(raw) == col.miss:
                ok = same_value(got, miss)
                bad = None if ok else "is missing at %s, it comes back as %s" % (list(i), str(got)[:60])
            else:
                w = raw if not is_k(raw) else kv(raw)
                w = T.pmul(w, K(float(col.scal))) if isinstance(w, Term) else w * col.scal
                g = T.pmul(got, K(float(scal))) if isinstance(got, Term) else got * scal
                ok = same_value(g, w)
                if ok is None:
                    chk.add(kk, RULE, UNDECIDED, "cell %s: %s" % (list(i), str(got)[:100]))
                    break
                bad = None if ok else "comes back at %s as %s instead of %s" % (list(i), str(g)[:80], str(w)[:60])
        else:
            if not bad and set(cells) != set(want):
                bad = "has the shape of %s" % sorted(cells)[-1:]
            if not bad and float(miss) != float(col.miss):
                bad = "has the missing value %s instead of %s" % (miss, col.miss)
            ax = axes_of(p)[:1] if kind2 == "A" else axes_of(p)
            xs = [(n2, v[::doc.nvpm] if kind == "A" and doc.nvpm else v) for n2, v in (doc.xs if kind == "V" else doc.xs[:1])]
            if not bad and len(ax) != len(xs):
                bad = "has %d axes instead of %d" % (len(ax), len(xs))
            for (an, av), (xn, xv) in zip(ax, xs):
                if bad:
                    break
                if squeeze(an) not in (squeeze(xn), squeeze(xn) + " (Not known)"):
                    bad = "is on the axis %r instead of %r" % (an, xn)
                elif not (len(av) == len(xv) and all(same_value(q, r) for q, r in zip(av, xv))):
                    bad = "is on an axis with the values %s instead of %s" % (av, xv)
            chk.add(kk, RULE, VIOLATED if bad else PROVED, "%r %s" % (col.name, bad or "%d cells" % len(want)), where)
            continue
        if bad:
            chk.add(kk, RULE, VIOLATED, "%r %s" % (col.name, bad), where)
    bad = None
    for kind in "VA":
        for f in P:
            ns = [(n, k) for g, k2, n, kd, k in places if g == f and kd == kind]
            if sorted(ns) != sorted(ns, key=lambda x: x[1]):
                bad = "the variables of %s are in the order %s" % (f, [k for n, k in sorted(ns)])
    chk.add(key + "/order", "variables come back in the order of the file", VIOLATED if bad else PROVED, bad or "in order", where)
    bad = None
    for f, p in P.items():
        for nm, got, want in (("ONAME", p.ONAME, doc.head[0]), ("SNAME", p.SNAME, doc.head[2]), ("MNAME", p.MNAME, doc.head[3])):
            if squeeze(got) != want:
                bad = bad or "%s is %r instead of %r" % (nm, got, want)
        for nm, got, want in (("SCOM", p.SCOM, doc.scom), ("NCOM", p.NCOM, doc.ncom)):
            lost = sub(want, got)
            if lost is not None:
                bad = bad or "the comment line %r is not in %s, or out of order" % (lost, nm)
            for w in want:
                if len([g for g in got if squeeze(g) == squeeze(w)]) > len([g for g in want if squeeze(g) == squeeze(w)]):
                    bad = bad or "the comment line %r is repeated in %s" % (w, nm)
        if " since " not in p.XNAME[-1] and list(p.DATE) != list(doc.date):
            bad = bad or "DATE is %s instead of %s" % (p.DATE, list(doc.date))
        if p.problems:
            bad = bad or p.problems[0]
        if (p.IVOL, p.NVOL) != (1, 1):
            bad = bad or "says it is volume %s of %s" % (p.IVOL, p.NVOL)
    chk.add(key + "/header", "the header items and comments come back", VIOLATED if bad else PROVED, bad or "%d files" % len(P), where)


def second(chk, key, P, c):
    """each file converted there and back again"""
    where = anchor(chk, *WHERE)
    for f, p in P.items():
        k = "%s/again/%s" % (key, f)
        n = there(chk.repo, lines_of(c.files()[f]))
        if not followed(chk, n, k + " to NetCDF", AGAIN):
            continue
        b = back(chk.repo, kept(n), **({"requested_ffi": 1010} if False else {}))
        if not followed(chk, b, k + " back", AGAIN):
            continue
        Q = read(chk, b, k, AGAIN)
        if Q is None:
            continue
        if len(Q) != 1:
            chk.add(k, AGAIN, VIOLATED, "%d files come back: %s" % (len(Q), sorted(Q)), where)
            continue
        q = list(Q.values())[0]
        bad = None
        A, B = sorted(values_of(p), key=lambda x: x[0].lower()), sorted(values_of(q), key=lambda x: x[0].lower())
        if len(A) != len(B) or not all(same_name(x[0], y[0]) for x, y in (zip(values_of(p), values_of(q)) if p.FFI == q.FFI else zip(A, B))):
            bad = "the variables are %s instead of %s" % ([x[0] for x in values_of(q)], [x[0] for x in values_of(p)])
        for x, y in zip(values_of(p) if p.FFI == q.FFI else A, values_of(q) if p.FFI == q.FFI else B):
            if bad:
                break
            if x[1] != y[1] or x[2] != y[2]:
                bad = "%s has the missing value and scale %s instead of %s" % (x[0], y[1:3], x[1:3])
            elif set(x[3]) != set(y[3]):
                bad = "%s has another shape" % x[0]
            for i in x[3]:
                if not bad and not same_value(y[3][i], x[3][i]):
                    bad = "%s holds %s instead of %s at %s" % (x[0], str(y[3][i])[:60], str(x[3][i])[:60], list(i))
        if not bad and [(squeeze(a), v) for a, v in axes_of(p)] != [(squeeze(a), v) for a, v in axes_of(q)]:
            bad = "the axes are %s instead of %s" % (axes_of(q), axes_of(p))
        for nm in ("ONAME", "ORG", "SNAME", "MNAME"):
            if not bad and squeeze(getattr(p, nm)) != squeeze(getattr(q, nm)):
                bad = "%s is %r instead of %r" % (nm, getattr(q, nm), getattr(p, nm))
        if not bad and list(p.DATE) != list(q.DATE):
            bad = "DATE is %s instead of %s" % (q.DATE, p.DATE)
        marks = ("====", "=== ", "== ")
        for nm in ("SCOM", "NCOM"):
            lost = sub([l for l in getattr(p, nm) if not l.strip().startswith(marks)], getattr(q, nm))
            if not bad and lost is not None:
                bad = "the comment line %r is not in %s, or out of order" % (lost, nm)
        chk.add(k, AGAIN, VIOLATED if bad else PROVED, bad or "%d columns" % len(A), where)


def cols_of(doc):
    return [("V", k, col) for k, col in enumerate(doc.V)] + [("A", k, col) for k, col in enumerate(doc.A)]


def na(chk, name):
    doc = docs()[name]
    if not doc.scom and not doc.ncom:
        doc.scom, doc.ncom = ["first special", "second special"], ["a normal comment", "another one: 5"]
    key = "na/%s" % name
    c = Conv(chk.repo)
    put_doc(c, "in.na", doc)
    c.api("convertNAToNC", "in.na", "mid.nc", time_warning=False)
    if not followed(chk, c, key + " to NetCDF", RULE):
        return
    try:
        data = kept(c)
    except Odd as e:
        chk.add(key, RULE, UNDECIDED, str(e)[:160])
        return
    b = back(chk.repo, data)
    if not followed(chk, b, key + " back", RULE):
        return
    P = read(chk, b, key, RULE)
    if P is None:
        return
    first(chk, key, doc, P)
    try:
        second(chk, key, P, b)
    except Odd as e:
        chk.add(key + "/again", AGAIN, UNDECIDED, str(e)[:160])


def nc(chk, name):
    data = datasets()[name]
    key = "nc/%s" % name
    where = anchor(chk, *WHERE)
    c = Conv(chk.repo)
    c.put("in.nc", data)
    c.api("convertNCToNA", "in.nc", "out.na")
    if not followed(chk, c, key + " to NASA Ames", RULE):
        return
    outs = []
    for f, o in c.files().items():
        n = there(chk.repo, lines_of(o))
        if not followed(chk, n, "%s/%s back" % (key, f), RULE):
            return
        try:
            d = kept(n)
        except Odd as e:
            chk.add("%s/%s" % (key, f), RULE, UNDECIDED, str(e)[:160])
            return
        outs += [(f, v, d) for v in d.vars]
    for v in data.vars:
        if not v.axes:
            continue
        want = v.cells()
        mine = {t for t in want.values() if t is not None}
        hits = [(f, w, d) for f, w, d in outs if any(t is not None and set(free(t)) & mine for t in w.cells().values())]
        kk = "%s/%s" % (key, v.name)
        if len(hits) != 1:
            chk.add(kk, RULE, VIOLATED, "the values of %s are in %d variables" % (v.name, len(hits)), where)
            continue
        f, w, d = hits[0]
        got = w.cells()
        bad, und = None, None
        if set(got) != set(want):
            bad = "has another shape"
        for i, t in want.items():
            if bad:
                break
            if t is None or got[i] is None:
                bad = None if got[i] is t else "is %s at %s" % ("not missing" if t is None else "missing", list(i))
            else:
                ok = same_value(got[i], t)
                bad = None if ok or ok is None else "is %s at %s" % (str(got[i])[:80], list(i))
                und = und or (str(got[i])[:80] if ok is None else None)
        if not bad and (w.fill is None or w.fill != v.miss):
            bad = "has the fill value %s instead of %s" % (w.fill, v.miss)
        u = w.attrs.get("units")
        u = kv(u) if isinstance(u, Term) and is_k(u) else u
        if not bad and (u or "") != v.attrs.get("units", ""):
            bad = "has the units %r instead of %r" % (u, v.attrs.get("units", ""))
        ln = w.attrs.get("long_name")
        ln = kv(ln) if isinstance(ln, Term) and is_k(ln) else ln
        if not bad and norm(str(ln)) != norm(v.attrs["long_name"]):
            bad = "is called %r instead of %r" % (ln, v.attrs["long_name"])
        if not bad and len(w.axes) != len(v.axes):
            bad = "has %d axes" % len(w.axes)
        for p, q in zip(w.axes, v.axes):
            if bad:
                break
            if not (len(p.vals) == len(q.vals) and all(same_value(r, s) for r, s in zip(p.vals, q.vals))):
                bad = "is on an axis with the values %s instead of %s" % (p.vals, q.vals)
            elif (p.time or "") != (q.time or ""):
                bad = "is on an axis with the time units %r instead of %r" % (p.time, q.time)
            elif not q.time:
                pu = p.attrs.get("units")
                pu = kv(pu) if isinstance(pu, Term) and is_k(pu) else pu
                if q.attrs.get("units") and pu != q.attrs["units"]:
                    bad = "is on an axis with the units %r instead of %r" % (pu, q.attrs["units"])
        chk.add(kk, RULE, VIOLATED if bad else UNDECIDED if und else PROVED, "%s %s" % (v.name, bad or und or "%d cells" % len(want)), where)


def go(chk, what, name):
    (na if what == "na" else nc)(chk, name)


def run(chk):
    jobs = [("na", n) for n, d in docs().items() if d.ffi not in (2110, 2310)] + [("nc", n) for n in datasets()]
    parallel(chk, go, jobs)
