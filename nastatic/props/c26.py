from ._rw import *
from ..engine import parallel
from .c08 import step

METHOD = ("the normal form of the result of every information call on a file object that was just read is compared with the attribute (or the "
          "elements with the same index of the parallel attributes) it stands for")
LEVEL = "other"
ASSUMPTIONS = ["the file follows its layout", "units are written in parentheses in the name, as the README documents"]
RULE = "an information call answers from its own field, at the index asked for"

SIMPLE = [
    ("getNumHeaderLines", ["NLHEAD"]), ("getFFI", ["FFI"]), ("getOriginator", ["ONAME"]), ("getOrganisation", ["ORG"]), ("getOrg", ["ORG"]),
    ("getSource", ["SNAME"]), ("getMission", ["MNAME"]), ("getVolumes", ["IVOL", "NVOL"]), ("getFileDates", ["DATE", "RDATE"]),
    ("getNormalComments", ["NCOM"]), ("getSpecialComments", ["SCOM"]),
]
INDEXED = [("getMissingValue", "VMISS"), ("getScaleFactor", "VSCAL"), ("getAuxMissingValue", "AMISS"), ("getAuxScaleFactor", "ASCAL")]
TUPLES = [("getVariable", "variable", True), ("getIndependentVariable", "independent", True), ("getAuxVariable", "auxiliary", True),
          ("getVariables", "variables", False), ("getIndependentVariables", "independents", False), ("getAuxVariables", "auxiliaries", False)]


def same(chk, sc, key, ffi, a, b, env, where):
    """two terms over the text of the same file"""
    if view_read(a) is view_read(b):
        chk.add(key, RULE, PROVED, "identical normal forms", where)
        if not chk.thorough:
            return
    unk = None
    n = 0
    for label, d, lines, nh, g in read_cases(ffi, 0, chk.thorough):
        for i in env(d):
            chk.valuations += 1
            mk = lambda: Ev({"fname": "f.na", "i": i}, fileof=lambda nm: lines)
            try:
                want = mk()(b)
            except (EvErr, Unknown):
                continue
            try:
                v = mk()(a)
            except Unknown as e:
                unk = str(e)
                continue
            except EvErr as e:
                if unks(a):
                    unk = str(e)
                    continue
                if want is None and d.get("NAUXV") == 0:
                    continue        # no auxiliary variables: the item is absent
                v = "error: %s" % str(e)[:80]
            n += 1
            if not deep_eq(v, want):
                chk.add(key, RULE, VIOLATED, "FFI %d, %s, index %s: gives %s, its field is %s" % (ffi, label, i, str(v)[:140], str(want)[:140]), where)
                return
    if view_read(a) is not view_read(b):
        chk.add(key, RULE, UNDECIDED if unk or not n else AGREES, "%s" % (unk or "same answer on %d witness files" % n)[:150], where)


def one(chk, ffi):
    sc = read_scenario(chk.repo, ffi, 0, nat=True)
    chk.saw(sc)
    if not sc.completed:
        chk.add("calls/%d" % ffi, RULE, UNDECIDED, "the read was not followed to its end")
        return
    o = na_instance(sc)
    sc.ip.extra = {"naacc": os.path.join(REF, "naacc.py")}
    ref = sc.load("naacc")
    none = lambda d: [0]
    i = sc.int_("i")

    def node(name):
        return sorted({"%s:%d %s" % (chk.tree(a)[0], getattr(chk.func_node(a, b), "lineno", 0), b) for a, b in sc.ip.funcs if b.split(".")[-1] == name})

    def get(name, *args):
        out = {}

        def go():
            out["r"] = sc.ip.freeze(sc.meth(sc.fo, name, *args), sc.st)
        r, new, ne = step(chk, sc, go)
        chk.saw(sc)
        if r != "ok":
            chk.add("calls/%d/%s" % (ffi, name), RULE, VIOLATED if r and new and not any(c.op != "K" for x in new for c in x[0]) else UNDECIDED,
                    "the call always raises: %s" % (new[-1][1:3],) if r else "not followed", [chk.site(x[3]) for x in new[-2:]])
            return None
        return out["r"]

    for name, fields in SIMPLE:
        a = get(name)
        if a is None:
            continue
        b = [attr_term(sc, f) for f in fields]
        b = b[0] if len(b) == 1 else T.seq(*[it(x) for x in b])
        same(chk, sc, "calls/%d/%s" % (ffi, name), ffi, a, b, none, node(name))
    for name, f in INDEXED:
        if name.startswith("getAux") and ffi not in O.AUX:
            continue
        a = get(name, i)
        if a is None:
            continue
        b = T.get(attr_term(sc, f), i)
        same(chk, sc, "calls/%d/%s" % (ffi, name), ffi, a, b, lambda d: range(min(3, len(d.get(f) or []))), node(name))
    for name, rf, idx in TUPLES:
        if "Aux" in name and ffi not in O.AUX and idx:
            continue
        args = (i,) if idx else ()
        a = get(name, *args)
        if a is None:
            continue
        try:
            b = sc.ip.freeze(sc.call(sc.attr(ref, rf), sc.fo, *args), sc.st)
        except Dead:
            chk.add("calls/%d/%s" % (ffi, name), RULE, UNDECIDED, "the reference was not followed")
            continue
        cnt = {"getVariable": "NV", "getIndependentVariable": "NIV", "getAuxVariable": "NAUXV"}.get(name)
        same(chk, sc, "calls/%d/%s" % (ffi, name), ffi, a, b, (lambda d: range(d.get(cnt) or (ffi // 1000 if cnt == "NIV" else 0))) if cnt else none, node(name))
    for f in head_attrs(ffi) + data_attrs(ffi):
        a = get("__getitem__", K(f))
        if a is not None:
            same(chk, sc, "calls/%d/[%s]" % (ffi, f), ffi, a, attr_term(sc, f), none, node("__getitem__"))
    # the dictionary of the whole file
    d = get("getNADict")
    if d is None:
        return
    if d.op == "ref":
        pass
    out = {}

    def go():
        out["d"] = sc.meth(sc.fo, "getNADict")
    step(chk, sc, go)
    h = sc.st.heap.get(out["d"].args[0]) if out["d"].op == "ref" else None
    if h is None or not hasattr(h, "items"):
        chk.add("dict/%d" % ffi, RULE, UNDECIDED, "the dictionary was not followed")
        return
    for k in head_attrs(ffi) + data_attrs(ffi):
        key = "dict/%d/%s" % (ffi, k)
        rule = "the dictionary of a file read holds every documented item"
        v = h.items.get(K(k))
        a = attr_term(sc, k)
        if v is None:
            # items of a file without auxiliary variables may be absent
            chk.add(key, rule, VIOLATED if h.base is None and k not in ("ASCAL", "AMISS", "ANAME") else UNDECIDED, "no entry %s in the dictionary" % k, node("getNADict"))
            continue
        same(chk, sc, key, ffi, sc.ip.freeze(v, sc.st), a, none, node("getNADict"))


def run(chk):
    parallel(chk, one, [(f,) for f in FFIS])
