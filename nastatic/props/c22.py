"""Axes and variables are recognised for what they are."""
from ._na import *
from ..teval import Ev, EvErr, Unknown

METHOD = ("the functions of xarray_utils are interpreted abstractly on axes whose values are symbols: the verdict of each is extracted as a formula over all values, and compared with the documented rule; "
          "attributes that decide (standard_name, axis, units, positive, encoding) are enumerated")
LEVEL = "other"
ASSUMPTIONS = ["the models of numpy, xarray, cf_xarray and cftime in /verif/ref/xstub", "axes of up to seven values (twelve for the coarser ones); the values are any numbers"]
RULE = "axes are the same exactly when names, units and all values are"
MOD = "nappy.nc_interface.xarray_utils"


class Case(object):
    def __init__(self, chk):
        self.chk = chk
        self.c = Conv(chk.repo)
        self.m = self.c.sc.load(MOD)

    def axis(self, name, vals, attrs=None, time=None):
        c = self.c
        if time:
            return c.sc.meth(c.xs, "time_axis", K(name), c.val(list(vals)), K(time), K("standard"), c.val(attrs or {}))
        return c.sc.meth(c.xs, "axis", K(name), c.val(list(vals)), c.val(attrs or {}))

    def call(self, fn, *args, **kw):
        c = self.c
        c.run(lambda: c.sc.meth(self.m, fn, *[c.val(a) for a in args], **{k: c.val(v) for k, v in kw.items()}))
        self.chk.saw(c.sc)
        return c


def sym_(n):
    return T.sym(n, "real")


def truth(t, env):
    if is_k(t):
        return kv(t)
    return Ev(dict(env))(t)


def decide(chk, key, rule, case, fn, args, kw, envs, want):
    """The verdict of fn(*args, **kw) for each valuation against want(env)."""
    where = anchor(chk, (MOD, fn))
    c = case.call(fn, *args, **kw)
    if c.status == "raises":
        chk.add(key, rule, VIOLATED, "raises %s" % str(c.raised[1:3])[:150], c.where() or where)
        return
    if c.status != "ok":
        chk.add(key, rule, UNDECIDED, "not followed to its end")
        return
    r = c.result
    if r.op == "ref":
        r = plain(c, r)
    for env in envs:
        try:
            got = truth(r, env)
        except (EvErr, Unknown) as e:
            chk.add(key, rule, UNDECIDED, "%s: %s" % (str(e)[:80], str(r)[:80]))
            return
        chk.valuations += 1
        w = want(env)
        if type(got) is not type(w) and (isinstance(w, (bool, str)) or w is None) or got != w:
            chk.add(key, rule, VIOLATED, "the answer is %r, it should be %r%s" % (got, w, " with " + ", ".join("%s=%r" % x for x in sorted(env.items())) if env else ""), where)
            return
    chk.add(key, rule, PROVED, "%s, %d valuations" % (str(r)[:80], len(envs)))


def spread(n, base=1.5):
    """values that rise, not evenly"""
    return [base + i * 2 + (i % 3) * 0.25 for i in range(n)]


def same(chk, n, how):
    """axes of n symbolic values each"""
    case = Case(chk)
    p, q = ["p%d" % i for i in range(n)], ["q%d" % i for i in range(n)]
    A = {"long_name": "one", "units": "km"}
    B = {"long_name": "other", "units": "km"}
    names = ("x", "x")
    equal = True
    if how == "other name":
        names, equal = ("x", "y"), False
    elif how == "other units":
        B["units"], equal = "m", False
    elif how == "units in other case":
        B["units"], equal = "KM", False
    elif how == "no units in the first":
        del A["units"]
        equal = False
    elif how == "no units in the second":
        del B["units"]
        equal = False
    elif how == "no units":
        del A["units"], B["units"]
    elif how == "other attributes":
        B.update(note="n", positive="up")
    elif how == "latitude under two names":
        names, equal = ("lat", "latitude"), False
        A.update(units="degrees_north")
        B.update(units="degrees_north")
    a, b = case.axis(names[0], [sym_(s) for s in p], A), case.axis(names[1], [sym_(s) for s in q], B)
    v = spread(n)
    envs = [dict(list(zip(p, v)) + list(zip(q, v)))]
    for k in range(n):
        for d in (1.0, -2.0, 1e-9):
            w = list(v)
            w[k] = w[k] + d
            envs.append(dict(list(zip(p, v)) + list(zip(q, w))))
    if n > 1:
        envs += [dict(list(zip(p, v)) + list(zip(q, v[::-1]))), dict(list(zip(p, v)) + list(zip(q, [x + 1 for x in v]))), dict(list(zip(p, v)) + list(zip(q, [-x for x in v]))),
                 dict(list(zip(p, v)) + list(zip(q, [2 * x for x in v]))), dict(list(zip(p, [0.] * n)) + list(zip(q, [0.] * n)))]
    want = lambda env: equal and all(env[s] == env[t] for s, t in zip(p, q))
    decide(chk, "same/%d values/%s" % (n, how), RULE, case, "areAxesIdentical", (a, b), {}, envs, want)
    if how == "other name":
        case = Case(chk)
        a, b = case.axis(names[0], [sym_(s) for s in p], A), case.axis(names[1], [sym_(s) for s in q], B)
        decide(chk, "same/%d values/%s, names not asked" % (n, how), RULE, case, "areAxesIdentical", (a, b), {"check_id": False}, envs, lambda env: all(env[s] == env[t] for s, t in zip(p, q)))


def lengths(chk, n, m):
    case = Case(chk)
    a, b = case.axis("x", [sym_("p%d" % i) for i in range(n)], {"units": "km"}), case.axis("x", [sym_("p%d" % i) for i in range(m)], {"units": "km"})
    envs = [dict(("p%d" % i, float(i + 1)) for i in range(max(n, m)))]
    decide(chk, "same/lengths %d and %d" % (n, m), RULE, case, "areAxesIdentical", (a, b), {}, envs, lambda env: False)


COARSE = "an axis is coarser exactly when its values are every n-th of the finer one's"


def coarse(chk, n, m, units):
    case = Case(chk)
    p, q = ["p%d" % i for i in range(n)], ["q%d" % i for i in range(m)]
    a = case.axis("xc", [sym_(s) for s in p], {"units": "km"})
    b = case.axis("x", [sym_(s) for s in q], {"units": "km"} if units else {"units": "m"})
    v = spread(m)
    fine = dict(zip(q, v))
    picks = []
    if m % n == 0:
        k = m // n
        picks.append([v[i * k] for i in range(n)])
        for j in range(n):
            w = [v[i * k] for i in range(n)]
            w[j] = w[j] + 0.5
            picks.append(w)
        for o in range(1, k):
            picks.append([v[i * k + o] for i in range(n)])
    picks += [v[:n], v[m - n:], v[::-1][:n]]
    envs = [dict(list(zip(p, w)) + list(fine.items())) for w in picks]

    def want(env):
        if not units or m % n:
            return False
        k = m // n
        return k if all(env[p[i]] == env[q[i * k]] for i in range(n)) else False
    decide(chk, "coarser/%d of %d%s" % (n, m, "" if units else ", other units"), COARSE, case, "isAxisRegularlySpacedSubsetOf", (a, b), {}, envs, want)


EVEN = "an axis is uniformly spaced exactly when all its steps are equal"


def even(chk, name):
    vals = {"one": [4.], "two": [1., 3.], "even": [1., 2., 3., 4.], "even, falling": [8., 6., 4., 2.], "last is off": [1., 2., 3., 5.], "first is off": [0., 2., 3., 4.], "middle is off": [0., 1., 2.5, 3., 4.],
            "two middle ones exchanged": [0., 2., 1., 3.], "symmetric": [0., 1., 3., 4.], "one in the middle repeated": [0., 1., 1., 3.], "all alike": [2., 2., 2.], "there and back": [0., 1., 0.],
            "halves": [-1., -.5, 0., .5, 1.], "slightly off": [0., 1., 2.000001, 3.], "long": [float(i) for i in range(12)], "long, last step": [float(i) for i in range(11)] + [20.],
            "long, late": [float(i) for i in range(9)] + [9.5, 10.]}[name]
    case = Case(chk)
    a = case.axis("x", vals, {"units": "km"})
    steps = {vals[i + 1] - vals[i] for i in range(len(vals) - 1)}
    decide(chk, "even/%s" % name, EVEN, case, "isUniformlySpaced", (a,), {}, [{}], lambda env: len(steps) < 2)
    if name in ("even", "last is off", "middle is off", "there and back"):
        case = Case(chk)
        a = case.axis("time", vals, {"standard_name": "time"}, time="days since 2000-01-01")
        decide(chk, "even/%s/time" % name, EVEN, case, "isUniformlySpaced", (a,), {}, [{}], lambda env: len(steps) < 2)


EVEN_N = ("one", "two", "even", "even, falling", "last is off", "first is off", "middle is off", "two middle ones exchanged", "symmetric", "one in the middle repeated", "all alike", "there and back", "halves", "slightly off",
          "long", "long, last step", "long, late")
KIND = "a coordinate is time, level, latitude or longitude exactly when its attributes or values say so"
LATS = {"nothing": {}, "long name": {"long_name": "latitude"}, "standard name": {"standard_name": "latitude"}, "other standard name": {"standard_name": "longitude"}, "degrees north": {"units": "degrees_north"},
        "degrees east": {"units": "degrees_east"}, "degrees": {"units": "degrees"}, "axis X": {"axis": "X"}, "axis Y": {"axis": "Y"}, "axis Z": {"axis": "Z"}, "axis T": {"axis": "T"}, "up": {"positive": "up"},
        "down": {"positive": "down"}, "positive of something": {"positive": "east"}, "time": {"standard_name": "time"}, "projection": {"standard_name": "projection_x_coordinate"}, "height": {"standard_name": "altitude", "positive": "up"},
        "rotated": {"standard_name": "grid_latitude", "units": "degrees"}}


def kinds(chk, name):
    at = LATS[name]
    sn, u = at.get("standard_name"), at.get("units")
    want = {"is_latitude": sn == "latitude" or u == "degrees_north" or at.get("long_name") == "latitude", "is_longitude": sn == "longitude" or u == "degrees_east",
            "is_level": at.get("axis") == "Z" or at.get("positive") in ("up", "down"), "is_time": sn == "time" or at.get("axis") == "T"}
    for fn, w in sorted(want.items()):
        case = Case(chk)
        a = case.axis("q", [1., 2., 4.], at)
        decide(chk, "kind/%s/%s" % (fn, name), KIND, case, fn, (a,), {}, [{}], lambda env: bool(w))
    for by in (False, True):
        case = Case(chk)
        a = case.axis("q", [1., 2., 4.], at, time="days since 2000-01-01")
        decide(chk, "kind/is_time/%s, dates%s" % (name, ", by values" if by else ""), KIND, case, "is_time", (a,), {"test_by_values": by}, [{}], lambda env: True)


MISS = "the missing value of a variable is the one that its own encoding gives"
ENC = {"none": ({}, -1e20), "fill": ({"_FillValue": -99.}, -99.), "missing": ({"missing_value": -5.}, -5.), "zero": ({"_FillValue": 0.}, 0.), "zero, missing": ({"missing_value": 0}, 0), "both": ({"missing_value": -5., "_FillValue": -6.}, -6.),
       "other": ({"_fill_value": 7.}, 7.), "unrelated": ({"dtype": "f4", "scale_factor": 2.}, -1e20), "one": ({"_FillValue": 1}, 1), "positive": ({"_FillValue": 1e36}, 1e36)}


def missing(chk, name):
    enc, want = ENC[name]
    case = Case(chk)
    c = case.c
    a = case.axis("q", [1., 2., 4.], {})
    c.sc.meth(c.xs, "encode", a, c.val(enc))
    decide(chk, "missing/%s" % name, MISS, case, "getMissingValue", (a,), {}, [{}], lambda env: want)


NAME = "the name in a header is the best of the names, with the units once"
NAMES = {"long name": ({"long_name": "air temperature", "standard_name": "temp", "units": "K"}, "air temperature (K)"), "standard name": ({"standard_name": "temp", "title": "t", "units": "K"}, "temp (K)"),
         "title": ({"title": "a title", "short_name": "s"}, "a title"), "own name": ({"units": "K"}, "q (K)"), "no units": ({"long_name": "air"}, "air"), "empty units": ({"long_name": "air", "units": ""}, "air"),
         "blank units": ({"long_name": "air", "units": "  "}, "air"), "padded units": ({"long_name": "air", "units": " K "}, "air (K)"), "units in the name": ({"long_name": "air (K)", "units": "K"}, "air (K)"),
         "other units in the name": ({"long_name": "air (wet)", "units": "K"}, "air (wet) (K)"), "units that begin alike": ({"long_name": "rate (m s-1)", "units": "m"}, "rate (m s-1) (m)"), "units of a number": ({"long_name": "n", "units": "1"}, "n (1)"),
         "parentheses of nothing": ({"long_name": "air ()"}, "air"), "name that ends like the units": ({"long_name": "level K", "units": "K"}, "level K (K)")}


def names(chk, name):
    at, want = NAMES[name]
    case = Case(chk)
    a = case.axis("q", [1., 2., 4.], at)
    r = case.call("getBestName", a)
    key = "name/%s" % name
    where = anchor(chk, (MOD, "getBestName"))
    if r.status != "ok" or not is_k(r.result):
        chk.add(key, NAME, VIOLATED if r.status == "raises" else UNDECIDED, str(r.raised or r.result)[:150], where)
        return
    got = " ".join(kv(r.result).split())
    chk.add(key, NAME, PROVED if got == want else VIOLATED, "%r%s" % (got, "" if got == want else " instead of %r" % want), where)


def time_name(chk, n):
    case = Case(chk)
    a = case.axis("time", [1., 2., 4.], [{"long_name": "time"}, {}, {"standard_name": "time"}][n], time="days since 2000-01-01")
    r = case.call("getBestName", a)
    ok = r.status == "ok" and is_k(r.result) and kv(r.result).strip() == "time (days since 2000-01-01)"
    chk.add("name/time %d" % n, NAME, PROVED if ok else UNDECIDED if r.status is None or r.status == "ok" and not is_k(r.result) else VIOLATED, str(r.result)[:100], anchor(chk, (MOD, "getBestName")))


STEP = "the step between two values of an axis is their difference, in the units of the axis"


def steps(chk, i, j):
    case = Case(chk)
    vals = [sym_("p%d" % k) for k in range(4)]
    a = case.axis("x", vals, {"units": "km"})
    env = dict(("p%d" % k, v) for k, v in enumerate((1., 4., 9., -3.)))
    decide(chk, "step/%d %d" % (i, j), STEP, case, "get_interval", (a, i, j), {}, [env], lambda e: e["p%d" % j] - e["p%d" % i])
    case = Case(chk)
    decide(chk, "step/list %d %d" % (i, j), STEP, case, "get_interval", (vals, i, j), {}, [env], lambda e: e["p%d" % j] - e["p%d" % i])
    case = Case(chk)
    tv = [0., 6., 24., 30.]
    a = case.axis("time", tv, {"standard_name": "time"}, time="hours since 2000-01-01")
    decide(chk, "step/time %d %d" % (i, j), STEP, case, "get_interval", (a, i, j), {}, [{}], lambda e: tv[j] - tv[i])


def go(chk, what, *a):
    globals()[what](chk, *a)


def run(chk):
    jobs = [("same", n, h) for n in (1, 2, 4, 7) for h in ("alike", "other name", "other units", "units in other case", "no units in the first", "no units in the second", "no units", "other attributes", "latitude under two names")]
    jobs += [("lengths", n, m) for n, m in ((1, 2), (2, 1), (3, 5), (4, 2), (6, 7))]
    jobs += [("coarse", n, m, u) for u in (True, False) for n, m in ((1, 1), (1, 3), (2, 2), (2, 4), (3, 6), (2, 6), (3, 12), (2, 3), (3, 5), (4, 6), (4, 2))]
    jobs += [("even", n) for n in EVEN_N] + [("kinds", n) for n in LATS] + [("missing", n) for n in ENC] + [("names", n) for n in NAMES] + [("time_name", n) for n in range(3)]
    jobs += [("steps", i, j) for i, j in ((0, 1), (1, 2), (2, 3), (0, 3), (2, 1))]
    parallel(chk, go, jobs)
