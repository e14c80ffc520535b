from ._rw import *
from ..engine import parallel
from ..scen import Scenario

METHOD = ("the conditions under which the reader raises, as normal forms over the symbolic text of the file, are compared with those of the "
          "reference description (every fixed-length line checked, every list checked for surplus and for end of file, blank lines inside "
          "data rejected); every reading loop must leave at the end of the file")
LEVEL = "other"
ASSUMPTIONS = ["the number of header lines announced by the file is the true one"]
RULE = "the reader rejects what the layout forbids"


def canon(t):
    """placeholders of the analysis renamed in order of appearance"""
    m = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Term):
            return x
        if x.op == "sym" and "~" in str(x.args[0]):
            n = str(x.args[0]).split("~")[0]
            m.setdefault(x, "%s~c%d" % (n, len(m)))
            return sym(m[x], x.ty)
        a = tuple(go(y) for y in x.args)
        if all(p is q for p, q in zip(a, x.args)):
            return x
        return T.mk(x.op, a, x.ty)
    return go(view_read(t))


def malformed(ffi, thorough):
    """(description, lines): conformant files with one defect each"""
    for var in [v for v in O.variants(ffi) if v != "long"]:
        d = O.sample(ffi, var)
        for wrap in (0, 2) if thorough else (0,):
            lines, n = emit(ffi, d, 0, wrap, False)
            for i in range(len(lines)):
                x = lines[i].rstrip("\n")
                w = x.split()
                where = "line %d (%s)" % (i + 1, "header" if i < n else "data")
                if w:
                    yield var, where + " lacks its last value", lines[:i] + ["  ".join(w[:-1]) + "\n"] + lines[i + 1:]
                    yield var, where + " has one value too many", lines[:i] + [x + " 9\n"] + lines[i + 1:]
                if i >= n and (thorough or i < n + 3 or i > len(lines) - 3):
                    yield var, "blank line before " + where, lines[:i] + ["  \n"] + lines[i:]
                yield var, "file ends before " + where, lines[:i]


def rejects(raises, attrs, lines):
    """(True|False|None, why)"""
    mk = lambda: Ev({"fname": "f.na", "IGN": 0}, fileof=lambda nm: lines)
    ev = mk()
    r = true_raise_list(raises, ev)
    if r:
        return True, r
    for a in attrs.values():
        if a is None:
            continue
        try:
            ev(a)
        except EvErr as e:
            if unks(a):
                return None, str(e)
            return True, str(e)
        except Unknown as e:
            return None, str(e)
    # a condition that could not be evaluated leaves the question open
    for path, exc, msg, site in raises:
        for c in path:
            try:
                if not ev(c):
                    break
            except EvErr:
                break
            except Unknown as e:
                return None, str(e)
    return False, None


def one(chk, ffi):
    sc = read_scenario(chk.repo, ffi, 0, nat=False)
    chk.saw(sc)
    raises = list(sc.ip.raises)
    names = head_attrs(ffi) + data_attrs(ffi)
    attrs = {k: (lambda v: None if v is None else view_read(v))(attr_term(sc, k)) for k in names} if sc.fo is not None and na_instance(sc) is not None else {}
    for e in sc.ip.events:
        if e[0] == "token-collect":
            chk.add("loop/%d/%s:%d" % (ffi, e[1][1], e[1][2]), "a reading loop ends at the end of the file",
                    PROVED if T.is_k(e[2][2], True) else VIOLATED, "token loop, overflow policy %s" % kv(e[2][1]), [chk.site(e[1])])
        elif e[0] in ("no-eof-exit", "loop-forever"):
            chk.add("loop/%d/%s:%d" % (ffi, e[1][1], e[1][2]), "a reading loop ends at the end of the file", VIOLATED,
                    "no path leaves this loop once the file is exhausted: a truncated file is read for ever", [chk.site(e[1])])
    s2 = Scenario(chk.repo)
    s2.load()
    rattrs = {}
    try:
        rattrs = {k: view_read(v) for k, v in ref_read(s2, ffi, 0).items() if k in names}
    except Dead:
        pass
    rraises = list(s2.ip.raises)
    have = {canon(r[0][-1]): r for r in raises if r[0]}
    need = {}
    for r in rraises:
        need.setdefault(canon(r[0][-1]), r)
    missing = []
    for k, (c, r) in enumerate(need.items()):
        if c in have:
            chk.add("rejects/%d/%d" % (ffi, k), RULE, PROVED, "raised under exactly this condition: %s" % T.show(c)[:120], [chk.site(have[c][3])])
        else:
            missing.append((k, c))
    if missing or chk.thorough:
        n = bad = 0
        unk = None
        for var, what, lines in malformed(ffi, chk.thorough):
            if chk.left() < 60:
                break
            rr, _ = rejects(rraises, rattrs, lines)
            if not rr:
                continue
            chk.valuations += 1
            cr, why = rejects(raises, attrs, lines)
            if cr is None:
                unk = why
            elif cr is False:
                bad = 1
                chk.add("rejects/%d/witness" % ffi, RULE, VIOLATED, "FFI %d, %s: %s, and the file is read without an error" % (ffi, var, what),
                        sorted({chk.site(r[3]) for r in raises})[:6])
                break
            else:
                n += 1
        for k, c in missing:
            if not bad:
                chk.add("rejects/%d/%d" % (ffi, k), RULE, UNDECIDED if unk or not n else AGREES,
                        "no identical condition; %s" % (unk or "rejects the same %d malformed files as the layout" % n))


def run(chk):
    parallel(chk, one, [(f,) for f in FFIS])
