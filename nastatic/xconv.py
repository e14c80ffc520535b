"""Conversions: data sets of known structure with arbitrary data go through the API, abstractly.

A description (Axis, Var, Data) gives the structure: the names, the coordinates, the attributes, which cells are missing.
The data cells are symbols.  The conversion is interpreted on it with the library models of ref/xstub, and what it writes is
read back here by a reader of the file layout that is independent of nappy's."""
import os
import re
from . import terms as T
from .terms import *
from .heap import *
from .scen import Scenario
from .teval import Ev, EvErr, Unknown

REF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref")
EXTRA = {"xarray": "xstub/xarray.py", "numpy": "xstub/numpy.py", "cftime": "xstub/cftime.py", "cf_xarray": "xstub/cf_xarray.py", "xscen": "xscen.py"}


class Axis(object):
    def __init__(self, name, vals, attrs=None, time=None, calendar="standard"):
        self.name, self.vals, self.attrs, self.time, self.calendar = name, list(vals), dict(attrs or {}), time, calendar


class Var(object):
    """nan: the missing cells, as index tuples; fill: encoded fill value; value: the value of a rank-zero variable."""
    def __init__(self, name, axes=(), attrs=None, nan=(), fill=None, fillkey="_FillValue", value=None):
        self.name, self.axes, self.attrs, self.nan = name, list(axes), dict(attrs or {}), set(nan)
        self.fill, self.fillkey, self.value = fill, fillkey, value

    @property
    def shape(self):
        return tuple(len(a.vals) for a in self.axes)

    @property
    def miss(self):
        return -1.e20 if self.fill is None else self.fill

    def cells(self):
        """index tuple -> term"""
        out = {}

        def go(shape, idx):
            if not shape:
                out[idx] = None if idx in self.nan else sym("%s%s" % (self.name, list(idx)), "real")
                return
            for i in range(shape[0]):
                go(shape[1:], idx + (i,))
        go(self.shape, ())
        return out


class NpInt(object):
    """an integer held by a numpy scalar, as attributes read from NetCDF are"""
    def __init__(self, v):
        self.v = v

    def __str__(self):
        return str(self.v)


class Data(object):
    """coords: the variables that are coordinates of others without being one of their axes"""
    def __init__(self, vars, gattrs=None, bounds=(), coords=()):
        self.main, self.coords, self.gattrs = list(vars), list(coords), dict(gattrs or {})
        self.vars = self.main + self.coords

    def var(self, name):
        return [v for v in self.vars if v.name == name][0]


def const(v):
    return K(v) if not isinstance(v, (list, tuple)) else None


class Conv(object):
    """One abstract run of the conversion code."""
    def __init__(self, repo, extra=None):
        self.sc = sc = Scenario(repo)
        sc.ip.extra = {k: os.path.join(REF, v) for k, v in EXTRA.items()}
        sc.ip.extra.update(extra or {})
        sc.ip.unroll = True
        sc.ip.known_text = {}
        T.CONV_HOOK = number_text
        self.np = sc.load("nappy")
        self.xs = sc.load("xscen")
        self.xr = sc.load("xarray")
        self.boundary = set(sc.st.heap)
        self.result = None
        self.status = None      # "ok", "raises" or None
        self.raised = None

    def list_(self, items):
        return self.sc.ip.new_list(seq(*[it(x) for x in items]), self.sc.st)

    def val(self, v):
        """a Python value as an abstract value"""
        if isinstance(v, Term):
            return v
        if isinstance(v, NpInt):
            return self.sc.meth(self.sc.load("numpy"), "int32", K(v.v))
        if isinstance(v, list):
            return self.list_([self.val(x) for x in v])
        if isinstance(v, tuple):
            return T.tup(*[self.val(x) for x in v])
        if isinstance(v, dict):
            oid = new_oid("din")
            self.sc.st.heap[oid] = HDict({self.val(k): self.val(x) for k, x in v.items()})
            return ref(oid)
        return K(v)

    def axis(self, a):
        if not hasattr(self, "_axes"):
            self._axes = {}
        if a not in self._axes:
            sc = self.sc
            if a.time:
                self._axes[a] = sc.meth(self.xs, "time_axis", K(a.name), self.val(a.vals), K(a.time), K(a.calendar), self.val(a.attrs))
            else:
                self._axes[a] = sc.meth(self.xs, "axis", K(a.name), self.val(a.vals), self.val(a.attrs))
        return self._axes[a]

    def var(self, v):
        sc = self.sc
        attrs = self.val(v.attrs)
        if not v.axes:
            return sc.meth(self.xs, "single", K(v.name), self.val(v.value), attrs)
        cells = v.cells()

        def nest(shape, idx):
            if not shape:
                c = cells[idx]
                return self.nan() if c is None else c
            return self.list_([nest(shape[1:], idx + (i,)) for i in range(shape[0])])
        return sc.meth(self.xs, "var", K(v.name), self.list_([self.axis(a) for a in v.axes]), nest(v.shape, ()), attrs,
                       NONE if v.fill is None else K(v.fill), K(v.fillkey))

    def nan(self):
        return self.sc.attr(self.sc.load_again("numpy"), "nan") if hasattr(self.sc, "load_again") else self.sc.attr(obj("mod", "numpy"), "nan")

    def dataset(self, d):
        vs = [self.var(v) for v in d.main]
        if d.coords:
            cs = self.list_([self.var(v) for v in d.coords])
            for v in vs:
                self.sc.meth(self.xs, "attach", v, cs)
        return self.sc.meth(self.xs, "dataset", self.list_(vs), self.val(d.gattrs))

    def put(self, name, d):
        self.sc.meth(self.xr, "_put", K(name), self.dataset(d))

    def put_text(self, name, lines):
        """a text file that can be read"""
        self.sc.ip.known_text[name] = [x if isinstance(x, Term) else K(x + "\n") for x in lines]

    # ------------------------------------------------------------------ running
    def run(self, fn):
        """Call fn(); record whether it came to an end, always raises, or was not followed."""
        ip = self.sc.ip
        n = len(ip.raises)
        self.nev = len(ip.events)
        self.outer = set(self.sc.st.heap)
        try:
            self.result = fn()
            self.status = "ok"
        except Dead:
            new = ip.raises[n:]
            self.raised = new[-1] if new else None
            known = new and not any(T.has_unk(c) or c.op != "K" for x in new for c in x[0])
            self.status = "raises" if known else None
        return self

    def api(self, name, *args, **kw):
        return self.run(lambda: self.sc.meth(self.np, name, *[self.val(a) for a in args], **{k: self.val(v) for k, v in kw.items()}))

    def frozen(self):
        return self.sc.ip.freeze(self.result, self.sc.st)

    def where(self):
        r = self.raised
        return ["%s:%s %s" % (r[3][0], r[3][2], r[3][1])] if r is not None and len(r) > 3 and isinstance(r[3], tuple) else []

    # ------------------------------------------------------------------ what was written
    def files(self):
        """name -> Out, in order of opening (the last file of a name stands)"""
        out = {}
        for oid, o in self.sc.st.heap.items():
            if isinstance(o, HFile) and o.mode.op == "K" and "w" in str(kv(o.mode)) and o.name.op == "K":
                out[kv(o.name)] = Out(kv(o.name), o.out, o.closed, o.flushed)
        return out

    def netcdf(self):
        """[(name, mode, dataset ref)] in order"""
        w = self.sc.ip.aslist(self.sc.attr(self.xr, "WRITTEN"), self.sc.st)
        return [g.args[0].args for g in segs_of(w) if g.op == "it"]

    def unmodelled(self):
        return sorted(self.sc.ip.notes)


# ---------------------------------------------------------------------- text
class Odd(Exception):
    """the text is not followed well enough to be read"""


def pieces(text):
    """A text term as a list of characters (str) and atoms (Term)."""
    out = []
    for p in T.cat_parts(text):
        if p.op == "K":
            out.extend(kv(p))
        elif p.op == "ite" or T.has_unk(p):
            raise Odd("text depends on a condition that is not decided: %s" % str(p)[:120])
        else:
            out.append(unstrip(p))
    return out


def unstrip(p):
    """stripping blanks and commas off a formatted number changes nothing"""
    while p.op == "strip" or (p.op == "app" and p.args and p.args[0] == "strip"):
        inner = [x for x in p.args if isinstance(x, Term)]
        inner = inner[-1]
        if inner.op == "K" or inner.op == "cat":
            break
        p = inner
    return p


def split_nl(ps):
    lines, cur_ = [], []
    for p in ps:
        if p == "\n" and isinstance(p, str):
            lines.append(cur_)
            cur_ = []
        else:
            cur_.append(p)
    if cur_:
        lines.append(cur_)
    return lines


def strip_(ps):
    ps = list(ps)
    while ps and isinstance(ps[0], str) and ps[0].isspace():
        ps.pop(0)
    while ps and isinstance(ps[-1], str) and ps[-1].isspace():
        ps.pop()
    return ps


def split_on(ps, delim):
    """tokens of a line"""
    out, cur_ = [], []
    if delim.strip() == "":
        for p in ps:
            if isinstance(p, str) and p.isspace():
                if cur_:
                    out.append(cur_)
                cur_ = []
            else:
                cur_.append(p)
        if cur_:
            out.append(cur_)
        return out
    i, d = 0, list(delim)
    while i < len(ps):
        if ps[i:i + len(d)] == d:
            out.append(strip_(cur_))
            cur_ = []
            i += len(d)
        else:
            cur_.append(ps[i])
            i += 1
    out.append(strip_(cur_))
    return out


def show(ps):
    return "".join(p if isinstance(p, str) else "<%s>" % str(p)[:60] for p in ps)


def num(tok):
    """(value, format) of a token: the value is a Python number, or a Term"""
    if all(isinstance(c, str) for c in tok):
        s = "".join(tok)
        try:
            return (int(s) if re.match(r"^[+-]?\d+$", s) else float(s)), None
        except ValueError:
            return s, None
    if len(tok) == 1:
        a = tok[0]
        spec = None
        if a.op == "fmt":
            spec, a = a.args[0], a.args[1]
            spec = kv(spec) if isinstance(spec, Term) and spec.op == "K" else spec
        if a.op == "K":
            return kv(a), spec
        return a, spec
    return T.cat(*[K(c) if isinstance(c, str) else c for c in tok]), None


class Out(object):
    """A file written."""
    def __init__(self, name, text, closed, flushed):
        self.name, self.text, self.closed, self.flushed = name, text, closed, flushed

    def lines(self):
        return split_nl(pieces(self.text))


class Parsed(object):
    pass


def parse(out, delim="    ", anno=False):
    """Read a file of FFI 1001, 1010, 1020, 2010, 2110, 2310, 3010, 4010 by its layout."""
    L = out.lines()
    if anno:
        # the annotation column comes first
        L2 = []
        for l in L:
            toks = split_on(l, delim) if delim.strip() else None
            k = 0
            while k < len(l) and l[k:k + len(delim)] != list(delim):
                k += 1
            L2.append(l[k + len(delim):])
        L = L2
    P = Parsed()
    P.problems = []
    pos = [0]

    def line():
        if pos[0] >= len(L):
            raise Bad("the file ends after line %d" % pos[0])
        pos[0] += 1
        return L[pos[0] - 1]

    def text():
        return show(line())

    def ints(n=None):
        v = [num(t)[0] for t in split_on(line(), delim)]
        if n is not None and len(v) != n:
            raise Bad("line %d holds %d items instead of %d" % (pos[0], len(v), n))
        return v

    def nums(n):
        return ints(n)

    def count():
        v = ints()
        if len(v) == 1 and isinstance(v[0], Term):
            raise Odd("count on line %d is not decided: %s" % (pos[0], str(v[0])[:100]))
        if len(v) != 1 or not isinstance(v[0], int):
            raise Bad("line %d is not a count: %s" % (pos[0], show(L[pos[0] - 1])))
        return v[0]
    a = ints(2)
    if any(isinstance(x, Term) for x in a):
        raise Odd("the first line is not decided: %s" % str(a)[:100])
    P.NLHEAD, P.FFI = a
    P.ONAME, P.ORG, P.SNAME, P.MNAME = text(), text(), text(), text()
    P.IVOL, P.NVOL = ints(2)
    d = [num(t)[0] for g in split_on(line(), delim) for t in split_on(g, " ")]
    if len(d) != 6:
        raise Bad("line %d holds %d items instead of 6" % (pos[0], len(d)))
    P.DATE, P.RDATE = d[:3], d[3:]
    ffi = P.FFI
    niv = ffi // 1000
    P.NIV = niv
    if ffi in (1001, 1010, 1020, 2010, 3010, 4010, 2110):
        P.DX = nums(niv)
    elif ffi == 2310:
        P.DX = nums(1)
    else:
        raise Bad("FFI %s" % ffi)
    if ffi == 1020:
        P.NVPM = count()
    if ffi in (2010, 3010, 4010):
        P.NX = nums(niv - 1)
        P.NXDEF = nums(niv - 1)
        P.X = []
        for k in range(niv - 1):
            xs = []
            while len(xs) < P.NXDEF[k]:
                v = ints()
                if not v:
                    raise Bad("line %d is empty" % pos[0])
                xs += v
            P.X.append(xs)
    P.XNAME = [text() for _ in range(niv)]
    P.NV = count()
    P.VSCAL, P.VMISS = nums(P.NV), nums(P.NV)
    P.VNAME = [text() for _ in range(P.NV)]
    P.NAUXV = 0
    if ffi != 1001:
        P.NAUXV = count()
        if P.NAUXV > 0:
            P.ASCAL, P.AMISS = nums(P.NAUXV), nums(P.NAUXV)
            P.ANAME = [text() for _ in range(P.NAUXV)]
    P.NSCOML = count()
    P.SCOM = [text() for _ in range(P.NSCOML)]
    P.NNCOML = count()
    P.NCOM = [text() for _ in range(P.NNCOML)]
    if pos[0] != P.NLHEAD:
        P.problems.append("NLHEAD is %s but the header has %d lines" % (P.NLHEAD, pos[0]))
    # body: rows of tokens
    rows = [[num(t) for t in split_on(l, delim)] for l in L[pos[0]:]]
    P.rows = rows
    P.body = L[pos[0]:]
    parse_body(P)
    return P


class Bad(Exception):
    """the file does not follow its layout"""


def parse_body(P):
    ffi, NV, NA = P.FFI, P.NV, P.NAUXV
    rows = list(P.rows)
    P.cells = []         # per variable: {index: (value, format)}
    P.aux = [[] for _ in range(NA)]
    P.x0 = []
    V = [dict() for _ in range(NV)]
    flat = []
    if ffi in (1001,):
        for r in rows:
            if len(r) != 1 + NV:
                raise Bad("a data record holds %d items instead of %d" % (len(r), 1 + NV))
            m = len(P.x0)
            P.x0.append(r[0])
            for k in range(NV):
                V[k][(m,)] = r[1 + k]
    else:
        # a record is a run of items, whatever the lines are
        items = [x for r in rows for x in r]
        i = 0
        m = 0

        def take(n):
            nonlocal i
            if i + n > len(items):
                raise Bad("the data ends inside record %d" % m)
            v = items[i:i + n]
            i += n
            return v
        if ffi in (2010, 3010, 4010):
            shape = tuple(reversed(P.NX))
        while i < len(items):
            P.x0.append(take(1)[0])
            if ffi in (1010, 2010, 3010, 4010):
                for k, v in enumerate(take(NA)):
                    P.aux[k].append(v)
                if ffi == 1010:
                    for k, v in enumerate(take(NV)):
                        V[k][(m,)] = v
                else:
                    # the first dimension given on file varies fastest
                    for k in range(NV):
                        for idx in grid(shape):
                            V[k][(m,) + idx] = take(1)[0]
            elif ffi == 1020:
                for k, v in enumerate(take(NA)):
                    P.aux[k].append(v)
                for k in range(NV):
                    for j, v in enumerate(take(P.NVPM)):
                        V[k][(m * P.NVPM + j,)] = v
            elif ffi == 2110:
                ax = take(NA)
                for k, v in enumerate(ax):
                    P.aux[k].append(v)
                for j in range(int(ax[0][0])):
                    x1 = take(1)[0]
                    P.x1 = getattr(P, "x1", []) + [(m, x1)]
                    for k, v in enumerate(take(NV)):
                        V[k][(m, j)] = v
            elif ffi == 2310:
                ax = take(NA)
                for k, v in enumerate(ax):
                    P.aux[k].append(v)
                for k in range(NV):
                    for j, v in enumerate(take(int(ax[0][0]))):
                        V[k][(m, j)] = v
            m += 1
    P.cells = V


def grid(shape):
    """index tuples, the first index varying slowest"""
    if not shape:
        yield ()
        return
    for i in range(shape[0]):
        for r in grid(shape[1:]):
            yield (i,) + r


# ---------------------------------------------------------------------- comparing
def same_value(a, b):
    """Is the written value the expected one?  True, False, or None when it cannot be told."""
    if isinstance(a, Term) and T.has_unk(a):
        return None
    if not isinstance(a, Term) and not isinstance(b, Term):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
            return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1.0)
        return a == b
    ta, tb = a if isinstance(a, Term) else K(a), b if isinstance(b, Term) else K(b)
    if ta is tb:
        return True
    # numerically, on values that tell all symbols apart
    for salt in (0, 1, 2):
        try:
            env = {s: valuation(s, salt) for s in syms(ta) | syms(tb)}
            va, vb = Ev(env)(ta), Ev(env)(tb)
        except (EvErr, Unknown):
            return None
        if isinstance(va, (int, float)) and isinstance(vb, (int, float)):
            if abs(va - vb) > 1e-9 * max(abs(va), abs(vb), 1.0):
                return False
        elif va != vb:
            return False
    return True


def syms(t):
    return {x.args[0] for x in T.subterms(t) if x.op == "sym"}


def valuation(name, salt):
    h = 0
    for c in "%s/%d" % (name, salt):
        h = (h * 131 + ord(c)) % 1000003
    return 1.5 + h / 7.0


# ---------------------------------------------------------------------- NASA Ames text
def number_text(kind, v):
    """The number that a formatted number denotes (formats are taken to keep the value: rounding is out of scope)"""
    if kind == "float" and v.op == "fmt" and v.args[1].ty in ("real", "int"):
        return K(float(kv(v.args[1]))) if is_k(v.args[1]) else v.args[1]
    return None


class Col(object):
    """A column of a file: its name as written, scale, missing value; its cells are symbols, except where given."""
    def __init__(self, id, name, scal=1.0, miss=-9999.9, gone=(), fixed=None):
        self.id, self.name, self.scal, self.miss, self.gone, self.fixed = id, name, scal, miss, set(gone), fixed

    def raw(self, idx):
        if self.fixed is not None:
            return K(self.fixed[idx[0]])
        return K(float(self.miss)) if idx in self.gone else sym("%s%s" % (self.id, list(idx)), "real")


class Doc(object):
    """A NASA Ames file: xs = [(name, values)] slowest axis first; for FFI 1020 the values are all of them and nvpm says how many share a record;
    implied: the number of values given in the header for each of the other axes, or None for all."""
    def __init__(self, ffi, xs, V, A=(), nvpm=None, implied=None, scom=(), ncom=(), head=("Me", "My place", "My probe", "My mission"), date=(2001, 2, 3), rdate=(2004, 5, 6), vols=(1, 1)):
        self.ffi, self.xs, self.V, self.A, self.nvpm = ffi, xs, list(V), list(A), nvpm
        self.implied, self.scom, self.ncom, self.head, self.date, self.rdate, self.vols = implied, list(scom), list(ncom), head, date, rdate, vols

    @property
    def shape(self):
        return tuple(len(v) for _, v in self.xs)

    def dx(self):
        step = lambda v: (v[1] - v[0]) if len(v) > 1 and len({round(v[i + 1] - v[i], 9) for i in range(len(v) - 1)}) == 1 else 0
        first = step(self.xs[0][1])
        if self.ffi == 2110:
            return [0, first]
        return [step(v) for _, v in (self.xs[1:][::-1] if self.ffi != 2310 else [])] + [first]

    def indexes(self):
        """of the cells of a primary variable"""
        if self.ffi in (2110, 2310):
            return [(m, j) for m in range(len(self.xs[0][1])) for j in range(self.A[0].fixed[m])]
        return list(grid(self.shape))

    def lines(self, head_delim=" ", delim=" ", spec="%.10g"):
        s = lambda items: head_delim.join(str(i) for i in items)
        ffi = self.ffi
        niv = len(self.xs)
        L = []
        L += list(self.head)
        L += [s(self.vols), s(list(self.date) + list(self.rdate))]
        fast = self.xs[1:][::-1]              # fastest first
        L += [s(self.dx())] + ([str(self.nvpm)] if ffi == 1020 else [])
        if ffi in (2010, 3010, 4010):
            imp = list(self.implied or [None] * (niv - 1))[::-1]
            nd = [len(v) if k is None else k for (_, v), k in zip(fast, imp)]
            L += [s([len(v) for _, v in fast]), s(nd)]
            for (_, v), k in zip(fast, nd):
                L += [s(v[:k])]
        L += [n for n, _ in fast] + [self.xs[0][0]]
        L += [str(len(self.V)), s([c.scal for c in self.V]), s([c.miss for c in self.V])] + [c.name for c in self.V]
        if ffi != 1001:
            L += [str(len(self.A))]
            if self.A:
                L += [s([c.scal for c in self.A]), s([c.miss for c in self.A])] + [c.name for c in self.A]
        L += [str(len(self.scom))] + self.scom + [str(len(self.ncom))] + self.ncom
        L = [s([len(L) + 1, ffi])] + L
        out = [K(x + "\n") for x in L]

        def row(items):
            ts = []
            for i in items:
                ts += [K(delim), fmt(K(spec), i) if isinstance(i, Term) else K(str(i))]
            out.append(T.cat(*(ts[1:] + [K("\n")])))
        fmt = lambda sp, v: T.fmt(sp, v) if not is_k(v) else K(kv(sp) % kv(v))
        x0 = self.xs[0][1]
        if ffi == 1001:
            for m, x in enumerate(x0):
                row([x] + [c.raw((m,)) for c in self.V])
        elif ffi == 1010:
            for m, x in enumerate(x0):
                row([x] + [c.raw((m,)) for c in self.A])
                row([c.raw((m,)) for c in self.V])
        elif ffi == 1020:
            for m in range(len(x0) // self.nvpm):
                row([x0[m * self.nvpm]] + [c.raw((m,)) for c in self.A])
                for c in self.V:
                    row([c.raw((m * self.nvpm + j,)) for j in range(self.nvpm)])
        elif ffi == 2110:
            for m, x in enumerate(x0):
                row([x] + [c.raw((m,)) for c in self.A])
                for j, x1 in enumerate(self.xs[1][1][m]):
                    row([x1] + [c.raw((m, j)) for c in self.V])
        elif ffi == 2310:
            for m, x in enumerate(x0):
                row([x] + [c.raw((m,)) for c in self.A])
                for c in self.V:
                    row([c.raw((m, j)) for j in range(self.A[0].fixed[m])])
        else:
            for m, x in enumerate(x0):
                row([x] + [c.raw((m,)) for c in self.A])
                for c in self.V:
                    for pre in grid(self.shape[1:-1]):
                        row([c.raw((m,) + pre + (j,)) for j in range(self.shape[-1])])
        return out


def put_doc(c, name, doc, **kw):
    c.sc.ip.known_text[name] = doc.lines(**kw)


class Arr(object):
    """A DataArray as plain values: cells {index: Term}, coords [(name, [values], attrs)], attrs and encoding {key: Term}"""


def hdict(c, v):
    h = c.sc.st.heap[v.args[0]] if v.op == "ref" else None
    if not isinstance(h, HDict):
        raise Odd("not a dictionary: %s" % str(v)[:60])
    if h.base is not None or any(k.op != "K" for k in h.items):
        raise Odd("keys of a dictionary are not known")
    return {kv(k): x for k, x in h.items.items()}


def seq_items(c, v):
    """the elements of a list or tuple, or None"""
    w = c.sc.ip.aslist(v, c.sc.st) if v.op != "tuple" else v
    if w.op == "tuple":
        return list(w.args)
    gs = segs_of(w)
    return [g.args[0] for g in gs] if all(g.op == "it" for g in gs) else None


def arr(c, v, coords=True):
    ip, st, at = c.sc.ip, c.sc.st, c.sc.attr
    a = Arr()
    a.name = at(v, "name")
    a.dims = [kv(d) for d in seq_items(c, at(v, "dims"))]
    a.shape = tuple(kv(d) for d in seq_items(c, at(v, "shape")))
    flat = ip.freeze(at(at(v, "_arr"), "flat"), st)
    if flat.op != "seq" or any(g.op != "it" for g in flat.args):
        raise Odd("cells are not known one by one: %s" % str(flat)[:80])
    cells = [g.args[0] for g in segs_of(flat)]
    idx = list(grid(a.shape))
    if len(idx) != len(cells):
        raise Odd("shape does not fit")
    a.cells = dict(zip(idx, cells))
    a.attrs = hdict(c, at(v, "attrs"))
    a.encoding = hdict(c, at(v, "encoding"))
    a.coords = [arr(c, x, False) for x in seq_items(c, at(v, "_coords"))] if coords else []
    return a
