from ._rw import *
from ..engine import parallel
from ..scen import Scenario
from .c08 import step

METHOD = ("the file object the public open call returns is resolved for every format (class dispatch followed through the dynamic import), and the "
          "choice of format for a dictionary without one is followed for symbolic dictionaries of every shape")
LEVEL = "other"
ASSUMPTIONS = ["a dictionary without a format index is told apart by the shape of its first unbounded coordinate, as the source documents"]

# (shape of dictionary, extra conditions, expected format)
SHAPES = [
    ("1001", 1001, "pos"), ("1010", 1010, "pos"), ("1010/no-aux", 1010, "zero"), ("1020", 1020, "pos"), ("1020/no-aux", 1020, "zero"),
    ("2010", 2010, "pos"), ("2010/no-aux", 2010, "zero"), ("2010/one-point", 2010, "pos"), ("2110", 2110, "pos"), ("2160", 2160, "pos"),
    ("2310", 2310, "pos"), ("3010", 3010, "pos"), ("3010/no-aux", 3010, "zero"), ("4010", 4010, "pos"), ("4010/no-aux", 4010, "zero"),
]
RULE_C = "the format chosen for a dictionary without one fits its shape"
RULE_D = "the file object returned belongs to the format"


def shaped(sc, ffi, aux, name):
    d, P = na_dict(sc, ffi, aux, "na_dict")
    M = sym("M", "int")
    if name.endswith("one-point"):
        # exactly one point along the unbounded axis
        o = sc.st.heap[d.args[0]]
        x = sc.st.heap[o.items[K("X")].args[0]]
        first = sc.boxed(T.seq(it(sym("x0", "real"))), "na_dict")
        rest = [g.args[0] for g in T.segs_of(x.content)][1:]
        sc.st.heap[o.items[K("X")].args[0]] = x.with_(content=T.seq(it(first), *[it(r) for r in rest]))
    elif ffi in (2010, 3010, 4010):
        sc.assume(ge0(add(M, K(-2))))
    else:
        sc.assume(ge0(add(M, K(-1))))
    if ffi == 2110:
        sc.assume(ge0(add(T.get(sym("NX", ("seq", "int")), ZERO), K(-2))))
    return d


def cls_of(sc, v):
    o = sc.st.heap.get(v.args[0]) if v.op == "ref" else None
    return str(o.cls) if o is not None and hasattr(o, "cls") else None


def cls_ok(c, ffi):
    return c is not None and re.search(r"(?<!\d)%d(?!\d)" % ffi, c) is not None


def choose(chk, name, ffi, aux):
    for entry in ("chooseFFI", "openNAFile"):
        sc = Scenario(chk.repo)
        m = sc.load()
        d = shaped(sc, ffi, aux, name)
        o = sc.st.heap[d.args[0]]
        o.items.pop(K("FFI"))
        out = {}
        key = "choose/%s/%s" % (name, entry)

        def go():
            if entry == "chooseFFI":
                out["r"] = sc.call(sc.attr(m, "chooseFFI"), d)
            else:
                out["fo"] = sc.call(sc.attr(m, "openNAFile"), sym("fname", "str"), K("w"), d)
                out["r"] = sc.st.heap[d.args[0]].items.get(K("FFI"), NONE)
        r, new, ne = step(chk, sc, go)
        chk.saw(sc)
        where = sorted({"%s:%s %s" % (chk.tree(a)[0], getattr(chk.func_node(a, b), "lineno", 0), b) for a, b in sc.ip.funcs if "FFI" in b})[:4]
        if r != "ok":
            chk.add(key, RULE_C, VIOLATED if r else UNDECIDED, "a dictionary of the shape of FFI %s makes %s raise %s" % (
                name, entry, (new[-1][2] or new[-1][1]) if new else ""), [chk.site(x[3]) for x in new[-2:]] + where)
            continue
        v = out["r"]
        if v.op == "K" or v is NONE:
            st = PROVED if T.is_k(v, ffi) else VIOLATED
        else:
            # feasible alternatives under the facts of the scenario
            st = UNDECIDED if unks(v) else None
            if st is None:
                st = AGREES
                for var in O.variants(ffi, "thorough"):
                    dd = O.sample(ffi, var)
                    if ffi in O.AUX and (dd["NAUXV"] == 0) != (aux == "zero"):
                        continue
                    chk.valuations += 1
                    env = env_of(ffi, dd)
                    if env.get("M", 1) < (2 if ffi in O.GRID else 1) or (ffi == 2110 and dd["NX"][0] < 2):
                        continue
                    try:
                        x = Ev(env)(v)
                    except (EvErr, Unknown):
                        st = UNDECIDED
                        continue
                    if x != ffi:
                        st = VIOLATED
                        break
        chk.add(key, RULE_C, st, "%s gives %s for a dictionary of the shape of FFI %s" % (entry, T.show(v)[:80], name), where)
        if entry == "openNAFile":
            c = cls_of(sc, out["fo"])
            chk.add("class/%s/w" % name, RULE_D, PROVED if cls_ok(c, ffi) else VIOLATED if c else UNDECIDED, "class %s" % c)


def explicit(chk, ffi):
    """the format given in the dictionary is used as it is; reading uses the first line"""
    sc = Scenario(chk.repo)
    m = sc.load()
    d, P = na_dict(sc, 1001, "pos", None)
    sc.st.heap[d.args[0]].items[K("FFI")] = K(ffi)
    out = {}

    def go():
        out["fo"] = sc.call(sc.attr(m, "openNAFile"), sym("fname", "str"), K("w"), d)
    r, new, ne = step(chk, sc, go)
    chk.saw(sc)
    c = cls_of(sc, out["fo"]) if r == "ok" else None
    chk.add("explicit/%d" % ffi, RULE_D, PROVED if cls_ok(c, ffi) else VIOLATED if c or r == "raised" else UNDECIDED,
            "a dictionary with FFI %d is written by class %s" % (ffi, c), [chk.site(x[3]) for x in new[-2:]])
    for ign in (0, "IGN"):
        sc = read_scenario(chk.repo, ffi, ign, data=False)
        chk.saw(sc)
        c = cls_of(sc, sc.fo) if sc.fo is not None else None
        chk.add("read/%d%s" % (ffi, "/ignored-lines" if ign else ""), RULE_D, PROVED if cls_ok(c, ffi) else VIOLATED if c else UNDECIDED,
                "a file announcing FFI %d is read by class %s" % (ffi, c), [chk.site(x[3]) for x in sc.ip.raises[-1:]] if not c else [])
        if c:
            v = attr_term(sc, "FFI")
            chk.add("read/%d%s/FFI" % (ffi, "/ignored-lines" if ign else ""), RULE_D,
                    PROVED if v is not None and T.is_k(v, ffi) else UNDECIDED if v is None or v.op != "K" else VIOLATED, "attribute FFI = %s" % T.show(v)[:60])


def unknown(chk, ffi):
    rule = "an unsupported format index is refused"
    sc = read_scenario(chk.repo, ffi, 0, data=False)
    chk.saw(sc)
    chk.add("unknown/%d/r" % ffi, rule, PROVED if sc.fo is None else VIOLATED, "opening a file announcing FFI %d %s" % (
        ffi, "raises" if sc.fo is None else "is accepted by class %s" % cls_of(sc, sc.fo)))
    sc = Scenario(chk.repo)
    m = sc.load()
    d, P = na_dict(sc, 1001, "pos", None)
    sc.st.heap[d.args[0]].items[K("FFI")] = K(ffi)
    r, new, ne = step(chk, sc, lambda: sc.call(sc.attr(m, "openNAFile"), sym("fname", "str"), K("w"), d))
    chk.saw(sc)
    chk.add("unknown/%d/w" % ffi, rule, PROVED if r == "raised" else VIOLATED if r == "ok" else UNDECIDED, "opening for writing with FFI %d: %s" % (ffi, r))
    for niv in (0, 5, 7):
        sc = Scenario(chk.repo)
        m = sc.load()
        d, P = na_dict(sc, 1001, "pos", None)
        sc.st.heap[d.args[0]].items.pop(K("FFI"))
        sc.st.heap[d.args[0]].items[K("NIV")] = K(niv)
        r, new, ne = step(chk, sc, lambda: sc.call(sc.attr(m, "chooseFFI"), d))
        chk.saw(sc)
        chk.add("unknown/niv%d" % niv, rule, PROVED if r == "raised" else VIOLATED if r == "ok" else UNDECIDED, "%d independent variables: %s" % (niv, r))


def one(chk, kind, *a):
    {"c": choose, "e": explicit, "u": unknown}[kind](chk, *a)


def run(chk):
    parallel(chk, one, [("c",) + s for s in SHAPES] + [("e", f) for f in FFIS] + [("u", f) for f in (1011, 2020, 9999, 0)])
