"""NASA Ames files of known structure with arbitrary cells, for the conversions that read them."""
import re
from ._conv import *
from ..xconv import Doc, Col, put_doc, arr, seq_items, hdict, Odd, grid

T3 = ("time (hours since 2000-01-01)", [0., 6., 12.])
A1 = lambda **k: Col("a", "Temperature (K)", 0.5, -99., [(1,)], **k)
B1 = lambda: Col("b", "second", 1.0, -9999.9)


def docs():
    d = {}
    d["1001"] = Doc(1001, [T3], [A1(), B1()], scom=["special 1", "special 2"], ncom=["normal"])
    d["1001, one variable"] = Doc(1001, [("Depth (m)", [5., 1., -3., -4.5])], [Col("a", "Air Pressure (hPa)", 10., 999., [(0,), (3,)])])
    d["1001, one record"] = Doc(1001, [T3[0:1] + ([7.],)], [A1(), B1()])
    d["1001, three alike"] = Doc(1001, [("height (m)", [1., 2.])], [Col("a", "ozone (ppb)", 2., -1.), Col("b", "ozone (ppm)", 4., -2., [(1,)]), Col("c", "ozone", 8., -3.)])
    d["1001, long name"] = Doc(1001, [T3], [Col("a", "x" * 70, 3., -5., [(2,)]), B1()])
    d["1001, integers"] = Doc(1001, [T3], [Col("a", "count", 1, 9999, [(0,)]), Col("b", "Flag", 2, -1)])
    d["1001, zero missing"] = Doc(1001, [T3], [Col("a", "rain (mm)", 0.1, 0.0, [(0,), (2,)]), Col("b", "snow (mm)", 0.2, -9.0)])
    d["1001, twelve"] = Doc(1001, [("t", [0., 1.])], [Col("v%d_" % k, "var %d" % k, k + 1., -9. - k) for k in range(12)])
    d["1010"] = Doc(1010, [T3], [A1(), B1()], [Col("p", "Aux One (m)", 4., -1., [(2,)]), Col("q", "aux two (hPa)", 0.25, -2., [(0,)])])
    U = lambda n, m, nan=(): Col(n, n + " (m)", 1.0, m, list(nan))
    d["1001, unscaled"] = Doc(1001, [("height (m)", [1., 2., 4.])], [U("a", -1., nan=[(0,)]), U("b", -2., nan=[(1,)]), U("c", 1e20, nan=[(2,)])])
    d["1010, unscaled"] = Doc(1010, [("height (m)", [1., 2., 4.])], [U("a", -1., nan=[(0,)]), U("b", -2.)], [U("p", -3., nan=[(0,)]), U("q", -4., nan=[(1,)]), U("r", -5., nan=[(2,)])])
    d["2010, unscaled"] = Doc(2010, [("t (s)", [0., 1., 3.]), ("height (m)", [10., 20.])], [U("a", -1., nan=[(1, 0)]), U("b", -2., nan=[(2, 1)])], [U("p", -3.), U("q", -4., nan=[(1,)])])
    d["1010, more auxiliary"] = Doc(1010, [("height (m)", [1., 2.])], [Col("a", "a", 2., -1.)], [Col("p%d_" % k, "aux %d" % k, k + 1., -9. - k) for k in range(11)])
    d["1010, same names"] = Doc(1010, [("height (m)", [1., 2., 4.])], [Col("a", "flag", 1., -1.), Col("b", "flag", 2., -2.), Col("c", "flag", 3., -3.)],
                                [Col("p", "count (1)", 1., -3.), Col("q", "count (1)", 2., -4., [(1,)]), Col("r", "flag", 4., -5.)])
    d["1010, no aux"] = Doc(1010, [T3], [A1(), B1()])
    d["1020"] = Doc(1020, [("t (s)", [0., 1., 2., 3., 4., 5.])], [Col("a", "first (K)", 0.5, -99., [(1,), (4,)]), B1()], nvpm=3)
    d["1020, aux"] = Doc(1020, [("t (s)", [0., 1., 2., 3.])], [Col("a", "first (K)", 0.5, -99., [(1,)])], [Col("p", "aux (m)", 4., -1.)], nvpm=2)
    d["2010"] = Doc(2010, [("t (s)", [0., 1., 3.]), ("height (m)", [10., 20.])], [Col("a", "first (K)", 0.5, -99., [(1, 0)]), B1()], [Col("p", "aux (m)", 4., -1., [(1,)])])
    d["2010, implied"] = Doc(2010, [("t (s)", [0., 1., 2.]), ("height (m)", [10., 20., 30., 40.])], [Col("a", "first (K)", 0.5, -99., [(1, 0)]), B1()], implied=[1])
    d["3010"] = Doc(3010, [("t (s)", [0., 1.]), ("latitude (degrees_north)", [-30., 0., 45.]), ("longitude (degrees_east)", [10., 20.])],
                    [Col("a", "first (K)", 0.5, -99., [(1, 0, 1), (0, 2, 0)]), B1()], [Col("p", "aux (m)", 4., -1.), Col("q", "aux two", 2., -8., [(0,)])])
    d["3010, implied"] = Doc(3010, [("t (s)", [0., 1.]), ("lat (deg)", [-30., 0., 30.]), ("lon (deg)", [5., 7., 9., 11.])], [Col("a", "first (K)", 0.5, -99., [(1, 0, 1)])], implied=[1, 1])
    d["4010"] = Doc(4010, [("t (s)", [0., 1.]), ("level (hPa)", [1000., 500.]), ("latitude (deg)", [-30., 0., 45.]), ("longitude (deg)", [10., 20.])],
                    [Col("a", "first (K)", 0.5, -99., [(1, 0, 2, 1)]), B1()], [Col("p", "aux (m)", 4., -1.)])
    d["4010, one implied"] = Doc(4010, [("t (s)", [0., 1.]), ("level (hPa)", [1000., 500.]), ("lat (deg)", [-30., 0., 30.]), ("lon (deg)", [10., 20., 50.])],
                                 [Col("a", "first (K)", 0.5, -99., [(1, 0, 2, 1)])], implied=[None, 1, None])
    d["2010, falling"] = Doc(2010, [("t (s)", [9., 6., 3.]), ("pressure (hPa)", [850., 700., 550., 400.])], [Col("a", "first (K)", 0.5, -99., [(1, 0)]), B1()], [Col("p", "aux (m)", 4., -1., [(1,)])], implied=[1])
    d["1020, falling"] = Doc(1020, [("t (s)", [3., 2.5, 2., 1.5, 1., 0.5, 0., -0.5])], [Col("a", "first (K)", 0.5, -99., [(1,), (6,)]), B1()], [Col("p", "aux (m)", 4., -1., [(1,)])], nvpm=4)
    d["4010, others implied"] = Doc(4010, [("t (s)", [0., 1.]), ("level (hPa)", [1000., 750., 500.]), ("lat (deg)", [-30., 0., 45.]), ("lon (deg)", [20., 15., 10.])],
                                    [Col("a", "first (K)", 0.5, -99., [(1, 0, 2, 1)])], implied=[1, None, 1])
    d["1001, odd texts"] = Doc(1001, [("distance (along track) (km h-1)", [0., 1., 3.])],
                               [Col("a", "ozone (in air) (ppb)", 2., -1., [(1,)]), Col("b", "ratio a/b, wet (%)", 1., -2.), Col("c", "NO2: total", 1., -3.), Col("d", "speed (m per day) (m)", 1., -4.), Col("e", "O'Neil \"index\" #2 (1/m)", 1., -5.)],
                               head=("Smith, J.; Jones, K.", "Institute: B (North); 50%", "Probe #2 \"x\" (old)", "Mission [A] - 2, part 1"),
                               scom=["flag 10: good", "flag 1", "other; (a) [b], c", "a = b", "flag 1", "= x =", "100% of it"], ncom=["a, b, c", "note: x = 5 (%)", "note", "History of it", "note"])
    d["2010, odd texts"] = Doc(2010, [("t, the time-like one (s)", [0., 1., 3.]), ("height (above (mean) sea) (m)", [10., 20.])],
                               [Col("a", "first (K) of two (K)", 0.5, -99., [(1, 0)]), B1()], [Col("p", "aux (m) (mm)", 4., -1., [(1,)])],
                               head=("A (B); C (D)", "x (ORG)", "1", "2.5"), scom=["a", "ab", "a"], ncom=["ab", "a"])
    d["1001, elapsed time"] = Doc(1001, [("elapsed time (s)", [0., 1., 3.])], [A1(), B1()], scom=["special 1"], ncom=["normal"])
    d["2010, elapsed time"] = Doc(2010, [("elapsed time (days)", [0., 1., 3.]), ("height (m)", [6., 12.])], [Col("a", "first (K)", 0.5, -99., [(1, 0)]), B1()])
    d["2010, lead time"] = Doc(2010, [("height (m)", [0., 1., 3.]), ("lead time (hours)", [6., 12.])], [Col("a", "first (K)", 0.5, -99., [(1, 0)]), B1()])
    d["2110"] = Doc(2110, [("t (s)", [0., 1., 3.]), ("height (m)", [[10., 20.], [5.], [1., 2., 7.]])], [Col("a", "first (K)", 0.5, -99., [(1, 0)]), B1()],
                    [Col("n", "number of heights", 1, 99, fixed=[2, 1, 3]), Col("p", "aux (m)", 4., -1., [(1,)])])
    d["2310"] = Doc(2310, [("t (s)", [0., 1., 2.]), ("height (m)", None)], [Col("a", "first (K)", 0.5, -99., [(1, 0)]), B1()],
                    [Col("n", "number of heights", 1, 99, fixed=[2, 1, 3]), Col("o", "first height", 1., 999., fixed=[10., 5., 1.]), Col("d", "step (m)", 1., 999., fixed=[10., 10., 2.5]), Col("p", "aux (m)", 4., -1., [(1,)])])
    return d


def run_na(repo, doc, entry, *args, **kw):
    c = Conv(repo)
    put_doc(c, "in.na", doc)
    c.api(entry, "in.na", *args, **kw)
    return c


def name_of(full):
    m = re.match(r"\s*(.*\S)\s*\(([^()]*)\)\s*$", full)
    return (m.group(1), m.group(2)) if m else (full.strip(), "")


def scaled(cell, raw, col):
    """Is the cell the raw number scaled, unless it is the missing value? True, False or None (not decided)"""
    if is_k(raw):
        want = kv(raw)
        return kv(cell) == want if is_k(cell) else None if T.has_unk(cell) or free(cell) else False
    if T.has_unk(cell):
        return None
    if any(s is not raw for s in free(cell)):
        return None if any(x.op in ("ref", "struct", "path") for x in T.subterms(cell)) else False
    got = []
    for w in (2.5, 7.0, 0.0, -3.0, 1000.0, float(col.miss)):
        v = T.subst(cell, {raw: K(w)})
        if not is_k(v):
            return None
        want = w if w == col.miss else w * col.scal
        if abs(kv(v) - want) > 1e-9 * max(1, abs(want)):
            return False
    return True


def free(t):
    return [s for s in T.subterms(t) if s.op == "sym"]


def same_text(t, s):
    return t is not None and is_k(t) and str(kv(t)) == s


def plain(c, t):
    """a number that may be held by a numpy scalar"""
    if t is not None and not is_k(t):
        t = c.sc.ip.freeze(t, c.sc.st)
        if t.op == "struct":
            for it_ in t.args[1]:
                if is_k(it_.args[0], "v"):
                    return it_.args[1]
    return t
