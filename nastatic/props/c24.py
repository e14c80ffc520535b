"""The verdict of comparing two NASA Ames files."""
import itertools
import re
from ._na import *
from ..teval import Ev, EvErr, Unknown

METHOD = ("the comparison is interpreted abstractly on pairs of files whose numbers are symbols; the verdict is obtained as a formula over the symbols (identical files must give the formula True) and "
          "evaluated against the documented rule on valuations that make the numbers equal, near and different")
LEVEL = "other"
ASSUMPTIONS = ["structures of the files and places of differences are those listed in nastatic/props/c24.py", "formulas that are not constant are compared with the rule on the listed valuations"]
RULE = "two files compare as equal exactly when each selected section has the same number of lines and equal values in them"
CLI = "an option of the command stands for its documented argument"
SYM = ("p", "q", "r", "s", "o")


def doc(spec="%.10g", delim=" ", cells=("p", "q", "r", "s"), scom=("special text", "2 5 =="), missing="-9.5", extra=(), aux=None, rows=None, note=None):
    """lines of a small file of FFI 1001 with 2 variables and 2 records (or as told)"""
    L = ["Me", "My place", "My probe", "My mission", "1 1", "2001 2 3 2004 5 6", "0", "time (s)", "2", "1 1", "%s -8" % missing, "first (K)", "second"]
    L = [delim.join(l.split()) if not re.search("[a-zA-Z]", l) else l for l in L]
    L += [str(len(scom))] + list(scom) + [str(len(extra))] + list(extra)
    L = [delim.join([str(len(L) + 1), "1001"])] + L
    out = [K(l + "\n") for l in L]
    cs = list(cells)
    k = 0
    for i, t in enumerate(("1.5", "3")):
        ts = [K(t)]
        for j in range(2):
            ts += [K(delim), number(cs[k], spec)]
            k += 1
        if rows is not None and rows.get(i):
            ts += [K(delim + rows[i])]
        out.append(T.cat(*(ts + [K("\n")])))
    if note:
        out.append(K(note + "\n"))
    return out


def number(c, spec):
    return K(c) if not c.isalpha() else T.fmt(K(spec), T.sym(c, "real"))


def text(line, env):
    ps = []
    for p in T.cat_parts(line):
        if p.op == "K":
            ps.append(kv(p))
        else:
            ps.append(kv(p.args[0]) % env[p.args[1].args[0]])
    return "".join(ps)


def values(tok):
    try:
        return float(tok)
    except ValueError:
        return tok


def alike(a, b, clever, approx, d1, d2):
    a, b = a.strip(), b.strip()
    if a == b:
        return True
    x, y = a.split(d1), b.split(d2)
    if len(x) != len(y):
        return (len(x) == 1 and x[0].split() == y) or (len(y) == 1 and y[0].split() == x)
    if not clever:
        return x == y
    for s, t in zip(x, y):
        u, v = values(s), values(t)
        if isinstance(u, float) and isinstance(v, float):
            if u != v and not (approx and abs(u - v) <= 0.01 * max(abs(u), abs(v))):
                return False
        elif s != t:
            return False
    return True


def expected(A, B, env, header=True, body=True, number_clever=True, approx_equal=False, delimiter_1=None, delimiter_2=None):
    la, lb = [text(l, env) for l in A], [text(l, env) for l in B]
    ha, hb = int(la[0].split(delimiter_1)[0]), int(lb[0].split(delimiter_2)[0])
    for on, x, y in ((header, la[:ha], lb[:hb]), (body, la[ha:], lb[hb:])):
        if on and (len(x) != len(y) or not all(alike(s, t, number_clever, approx_equal, delimiter_1, delimiter_2) for s, t in zip(x, y))):
            return False
    return True


def cases():
    A = doc()
    out = {"the same": (A, doc())}
    for k in range(4):
        cs = list(SYM[:4])
        cs[k] = "o"
        out["one value, place %d" % k] = (A, doc(cells=cs))
        cs[k] = "-9.5"
        out["a missing value, place %d" % k] = (A, doc(cells=cs))
    out["values exchanged"] = (A, doc(cells=("q", "p", "r", "s")))
    out["records exchanged"] = (A, doc(cells=("r", "s", "p", "q")))
    out["all values"] = (doc(cells=("1", "2", "3", "4")), doc(cells=("5", "6", "7", "8")))
    out["last record missing in the second"] = (A, A[:-1])
    out["last record missing in the first"] = (A[:-1], A)
    out["no record in the second"] = (A, A[:-2])
    out["a number more in the second"] = (A, doc(rows={1: "7"}))
    out["a number more in the first"] = (doc(rows={0: "7"}), A)
    out["a number more in both, different"] = (doc(rows={1: "7"}), doc(rows={1: "8"}))
    cut = [K("".join(kv(p) for p in T.cat_parts(doc(cells="1234")[-1])).split()[0] + "\n")]
    out["more: record of which the first number is left"] = (doc(cells="1234"), doc(cells="1234")[:-1] + cut)
    out["more: record that begins with another number"] = (doc(cells="1234"), doc(cells="1234")[:-1] + [K("9 3 4\n")])
    out["more: record without its first number"] = (doc(cells="1234"), doc(cells="1234")[:-1] + [K("3 4\n")])
    out["more: blank record"] = (doc(cells="1234"), doc(cells="1234")[:-1] + [K("\n")])
    out["text in a record"] = (doc(rows={1: "abc"}), doc(rows={1: "abd"}))
    out["text for a number"] = (doc(rows={1: "1"}), doc(rows={1: "x"}))
    out["a line more in the second"] = (A, doc(note="9 9 9"))
    out["spaces"] = (doc(cells="1234"), doc(cells="1234")[:-1] + [K("   3    3\t4  \n")])
    out["two records differ"] = (doc(cells="1234"), doc(cells="1738"))
    out["two records and a line differ"] = (doc(cells="1234", note="5 5 5"), doc(cells="1738", note="6 6 6"))
    out["both values of a record differ"] = (doc(cells="1234"), doc(cells="7834"))
    out["other notation"] = (doc(cells=("5.000", "1e2", "-0.5", "7")), doc(cells=("5", "100", "-.5", "7.0")))
    out["other notation and other values"] = (doc(cells=("5.000", "1e2", "-0.5", "7")), doc(cells=("5", "100", "-.5", "7.5")))
    out["near"] = (doc(cells=("100", "-200", "1e-9", "0")), doc(cells=("100.5", "-201", "1.005e-9", "0")))
    out["opposite sign"] = (doc(cells=("-100", "2", "3", "4")), doc(cells=("100", "2", "3", "4")))
    out["opposite sign, other way"] = (doc(cells=("1", "2", "3", "0.001")), doc(cells=("1", "2", "3", "-0.001")))
    out["near zero"] = (doc(cells=("0", "2", "3", "4")), doc(cells=("1e-12", "2", "3", "4")))
    out["far, small"] = (doc(cells=("1e-12", "2", "3", "4")), doc(cells=("3e-12", "2", "3", "4")))
    out["first larger"] = (doc(cells=("1", "2", "103", "4")), doc(cells=("1", "2", "100", "4")))
    out["second larger"] = (doc(cells=("1", "2", "100", "4")), doc(cells=("1", "2", "103", "4")))
    out["far and near"] = (doc(cells=("1", "200", "300", "4")), doc(cells=("2", "201", "301", "4")))
    out["header text"] = (A, doc(scom=("special Text", "2 5 ==")))
    out["header text, last line"] = (doc(extra=("a note",)), doc(extra=("another note",)))
    out["header numbers"] = (A, doc(missing="-9"))
    out["header notation"] = (A, doc(missing="-9.50"))
    out["header near"] = (A, doc(missing="-9.52"))
    out["header line more in the second"] = (A, doc(extra=("a note",)))
    out["header line more in the first"] = (doc(extra=("a note",)), A)
    out["header text and values"] = (A, doc(scom=("special Text", "2 5 =="), cells=("p", "o", "r", "s")))
    B = doc(delim=",")
    out["commas"] = (A, B)
    out["commas, one value"] = (A, doc(delim=",", cells=("p", "q", "r", "o")))
    out["commas, other notation"] = (doc(cells=("5.000", "1", "1", "1")), doc(delim=",", cells=("5", "1", "1", "1")))
    out["commas, header numbers"] = (A, doc(delim=",", missing="-9"))
    return out


OPTIONS = [{}, {"header": False}, {"body": False}, {"number_clever": False}, {"approx_equal": True}, {"header": False, "approx_equal": True}, {"header": False, "number_clever": False}, {"body": False, "approx_equal": True}, {"body": False, "number_clever": False}]
VALUES = [{"p": 1., "q": 2., "r": 3., "s": 4., "o": v} for v in (1., 2., 3., 4., -4., 4.02, 4.2, 1.005, 0., 1e20)] + [dict(zip(SYM, v)) for v in
          ((5., 5., 5., 5., 5.), (5., 5., 5., 5., 7.), (0., 0., 0., 0., 1e-9), (-100., -100., -100., -100., -100.5), (1., 2., 1., 2., 2.), (-9.5, -9.5, -9.5, -9.5, 3.), (1.5, -9.5, 3., 3., 3.))]


def one(chk, name):
    A, B = cases()[name]
    for swap in (False, True):
        for o in OPTIONS:
            if "header" in name and o in ({"number_clever": False}, {"approx_equal": True}):
                continue        # what both sections together say is asked once; each section is asked with these options too
            if swap and not ("more" in name or "commas" in name or "missing" in name):
                continue
            kw = dict(o)
            if name.startswith("commas"):
                if kw and swap:
                    continue
                kw["delimiter_1" if swap else "delimiter_2"] = ","
            x, y = (B, A) if swap else (A, B)
            verdict(chk, "%s%s/%s" % (name, ", exchanged" if swap else "", "+".join("%s=%s" % k for k in sorted(o.items())) or "defaults"), x, y, kw)


def verdict(chk, key, A, B, kw):
    key = re.sub(r"[^\w=./+]+", "-", key)
    c = Conv(chk.repo)
    c.put_text("a.na", A)
    c.put_text("b.na", B)
    m = c.sc.load("nappy.utils.compare_na")
    c.run(lambda: c.sc.meth(m, "compareNA", K("a.na"), K("b.na"), **{k: c.val(v) for k, v in kw.items()}))
    chk.saw(c.sc)
    where = anchor(chk, ("nappy.utils.compare_na", "compNAFiles"), ("nappy.utils.compare_na", "compareSections"))
    if c.status == "raises":
        chk.add(key, RULE, VIOLATED, "raises %s" % str(c.raised[1:3])[:150], c.where())
        return
    if c.status != "ok":
        chk.add(key, RULE, UNDECIDED, "not followed to its end")
        return
    r = c.result
    used = {s.args[0] for l in A + B for s in free(l)}
    n = 0
    for env in VALUES if used else VALUES[:1]:
        want = expected(A, B, env, **kw)
        if r.op == "K":
            got = kv(r)
        else:
            try:
                got = Ev({k: v for k, v in env.items()})(r)
            except (EvErr, Unknown) as e:
                chk.add(key, RULE, UNDECIDED, "the verdict is not followed: %s" % str(e)[:120])
                return
        chk.valuations += 1
        n += 1
        if got is not True and got is not False or got != want:
            chk.add(key, RULE, VIOLATED, "the verdict is %s, it should be %s%s" % (got, want, " with " + ", ".join("%s=%g" % x for x in env.items() if x[0] in used) if used else ""), where)
            return
    chk.add(key, RULE, PROVED, "%s, %d valuations" % (T.show(r)[:100], n))


COMMANDS = {("-h",): {"body": False}, ("--header-only",): {"body": False}, ("-b",): {"header": False}, ("--body-only",): {"header": False}, ("-n",): {"number_clever": False}, ("--number-strict",): {"number_clever": False},
            ("-a",): {"approx_equal": True}, ("--approx-equal",): {"approx_equal": True}, ("-1", ","): {"delimiter_1": ","}, ("--delimiter-2=;",): {"delimiter_2": ";"}, ("-2", ","): {"delimiter_2": ","}, ("--delimiter-1=,",): {"delimiter_1": ","},
            (): {}, ("-b", "-a", "-2", ","): {"header": False, "approx_equal": True, "delimiter_2": ","}, ("-n", "-h"): {"number_clever": False, "body": False}}
DEFAULTS = {"header": True, "body": True, "number_clever": True, "approx_equal": False, "delimiter_1": None, "delimiter_2": None}


def commands(chk, n):
    argv, kw = sorted(COMMANDS.items())[n]
    A, B = doc(cells=("5.000", "2", "3", "4"), delim=kw.get("delimiter_1") or " "), doc(cells=("5", "2.01", "3", "4"), missing="-9.51", delim=kw.get("delimiter_2") or " ")
    c = Conv(chk.repo)
    m = c.sc.load("nappy.utils.compare_na")
    c.run(lambda: c.sc.meth(m, "parseArgs", c.list_([K(x) for x in argv + ("a.na", "b.na")])))
    chk.saw(c.sc)
    key = "command/" + "+".join(argv)
    if c.status != "ok":
        chk.add(key, CLI, VIOLATED if c.status == "raises" else UNDECIDED, str(c.raised and c.raised[1:3])[:100], c.where())
        return
    r = c.frozen()
    got = None
    try:
        files, d = r.args
        names = [kv(g.args[0]) for g in segs_of(files)] if files.op == "seq" else None
        got = {kv(x.args[0]): kv(x.args[1]) for x in d.args[0]}
    except Exception:
        names = None
    if got is None or names is None:
        chk.add(key, CLI, UNDECIDED, T.show(r)[:150])
        return
    want = dict(DEFAULTS, **kw)
    bad = "gives %s instead of %s" % ({k: got.get(k) for k in want if got.get(k) != want[k]}, {k: want[k] for k in want if got.get(k) != want[k]}) if any(got.get(k, DEFAULTS[k]) != want[k] for k in want) else \
        "names the files %s" % names if names != ["a.na", "b.na"] else None
    chk.add(key, CLI, VIOLATED if bad else PROVED, bad or str(kw), anchor(chk, ("nappy.utils.compare_na", "parseArgs")))


def go(chk, *a):
    (commands if a[0] == "command" else one)(chk, *(a[1:]))


def run(chk):
    parallel(chk, go, [("case", n) for n in cases()] + [("command", n) for n in range(len(COMMANDS))])
