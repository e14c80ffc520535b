"""Reader and writer scenarios, and the comparison of what they extract with the published layout."""
import math
import re
from . import terms as T
from .terms import *
from .scen import Scenario, na_dict, FFIS
from .interp import AnalysisError, Dead
from . import oracle as O
from .teval import Ev, EvErr, Unknown, Cursor


# ------------------------------------------------------------------ scenarios
class W(object):
    pass


def instances(sc):
    return [x for x in sc.st.heap.values() if type(x).__name__ == "HInst"]


def na_instance(sc):
    """The object the public open call returned (heap record)."""
    return sc.st.heap.get(sc.fo.args[0]) if sc.fo is not None and sc.fo.op == "ref" else None


def write_scenario(repo, ffi, aux="pos", annotation=False, no_header=False, warm=None):
    sc = Scenario(repo)
    m = sc.load()
    T.FMT.add(sym("FF", "str"))
    d, P = na_dict(sc, ffi, aux)
    if warm if warm is not None else (annotation and no_header):
        # another file was written before in the same process (settings are loaded and cached)
        d0, _ = na_dict(sc, ffi, aux, None)
        f0 = sc.call(sc.attr(m, "openNAFile"), sym("fname0", "str"), K("w"), d0)
        sc.meth(f0, "write", delimiter=sym("D", "str"), float_format=sym("FF", "str"), annotation=K(True))
    D = sym("D", "str")
    FF = sym("FF", "str")
    T.FMT.add(FF)
    sc.fo = None
    sc.P = P
    sc.d = d
    sc.d0 = dict_state(sc, d)
    sc.nev = len(sc.ip.events)
    sc.completed = False
    try:
        sc.fo = sc.call(sc.attr(m, "openNAFile"), sym("fname", "str"), K("w"), d)
        sc.meth(sc.fo, "write", delimiter=D, float_format=FF, annotation=K(annotation), no_header=K(no_header))
        sc.completed = True
    except Dead:
        pass
    sc.out = [x for x in file_out(sc) if x.name is sym("fname", "str")]
    return sc


def dict_state(sc, d):
    """content of every entry of a dictionary of the scenario"""
    o = sc.st.heap[d.args[0]]
    r = {kv(k): sc.ip.freeze(v, sc.st) for k, v in o.items.items()}
    if o.base is not None:
        r[None] = o.base
    return r


def file_out(sc):
    """The text written to files opened for writing: [(name term, out term)]"""
    out = []
    for x in sc.st.heap.values():
        if type(x).__name__ == "HFile" and getattr(x, "out", None) is not None:
            out.append(x)
    return out


def first_line_hook(ffi, ign):
    def hook(kind, v):
        if kind == "int" and v.op == "get" and is_k(v.args[1], 1) and (v.args[0].op == "tokens" or v.args[0].op == "app" and v.args[0].args[0] == "re.split"):
            c = v.args[0]
            while c.op in ("tokens", "decomment", "line", "strip") or c.op == "app" and c.args[0] in ("re.split", "decomment", "replace", "re.sub"):
                c = (c.args[1][{"re.split": 1, "re.sub": 2}.get(c.args[0], 0)]) if c.op == "app" else c.args[2] if c.op == "strip" else c.args[0]
            if c.op == "cur" and all(s.op == "ln" for s in c.args[1:]):
                n = T.ZERO
                for s in c.args[1:]:
                    n = T.add(n, s.args[0])
                if is_k(n, ign) or n is ign:
                    return K(ffi)
        return None
    return hook


def read_scenario(repo, ffi, ign=0, data=True, more=None, nat=False):
    sc = Scenario(repo)
    T.CONV_NAT = nat
    m = sc.load()
    ignt = K(ign) if isinstance(ign, int) else sc.int_(ign)
    T.CONV_HOOK = first_line_hook(ffi, ign if isinstance(ign, int) else ignt)
    sc.fo = None
    sc.completed = False
    try:
        sc.fo = sc.call(sc.attr(m, "openNAFile"), sym("fname", "str"), K("r"), K(None), ignt)
        if data:
            sc.meth(sc.fo, "readData")
        if more is not None:
            more(sc)
        sc.completed = True
    except Dead:
        pass
    finally:
        T.CONV_HOOK = None
    return sc


def attr_term(sc, name):
    o = na_instance(sc)
    if o is None:
        return None
    v = o.attrs.get(name)
    if v is None:
        return None
    return sc.ip.freeze(v, sc.st)


# ------------------------------------------------------------------ valuations
def env_of(ffi, d, **kw):
    """Values for the free symbols of scen.na_dict."""
    e = {}
    for k in ("NV", "ONAME", "ORG", "SNAME", "MNAME", "IVOL", "NVOL", "DATE", "RDATE", "VSCAL", "VMISS",
              "VNAME", "NSCOML", "NNCOML", "SCOM", "NCOM", "DX", "XNAME", "V", "NVPM", "LENX", "NAUXC", "ANAME"):
        if k in d:
            e[k] = d[k]
    e["NLHEAD"] = 7777
    e["NAUXV"] = d.get("NAUXV", 0)
    if ffi in O.AUX:
        e["ASCAL"], e["AMISS"], e["A"] = d["ASCAL"], d["AMISS"], d["A"]
        if ffi == 2160:
            R = d["NAUXV"] - d["NAUXC"]
            e["NAUXR"] = R
            e["LENAc"] = d["LENA"][R:]
            e["AMISSr"], e["AMISSc"] = d["AMISS"][:R], d["AMISS"][R:]
            e["Ar"], e["Ac"] = d["A"][:R], d["A"][R:]
    if ffi in (1001, 1010, 1020):
        e["X"] = d["X"]
        e["M"] = len(d["X"])
    elif ffi in O.GRID:
        e["M"] = len(d["X"][0])
        for k, x in enumerate(d["NX"]):
            e["NX%d" % k] = x
            e["NXDEF%d" % k] = d["NXDEF"][k]
        for k, x in enumerate(d["X"]):
            e["X%d" % k] = x
    else:
        e["M"] = len(d["X"])
        e["NX"] = d["NX"]
        e["Xm"] = [x[0] for x in d["X"]]
        e["Xs"] = [x[1][0] for x in d["X"]] if ffi == 2310 else [x[1] for x in d["X"]]
    e.update(kw)
    return e


# ------------------------------------------------------------------ tokens
def split_line(s, D, header):
    if D.strip() and not header:
        parts = s.split(D.strip())
        return [p.strip() for p in parts]
    if D.strip():
        s = s.replace(D.strip(), " ")
    return s.split()


def forms(v, FF):
    if isinstance(v, str):
        return {v.strip()}
    out = {str(v)}
    try:
        out.add((FF % v).strip())
    except (TypeError, ValueError):
        pass
    if v is None:
        out.add("None")
    return out


def tok_eq(tok, v, FF):
    fs = forms(v, FF)
    if tok in fs:
        return True
    if isinstance(v, str) or v is None:
        return False
    try:
        t = float(tok)
    except ValueError:
        return False
    for f in fs | {repr(v)}:
        try:
            if t == float(f):
                return True
        except ValueError:
            pass
    return False


def match_records(lines, recs, D, FF, header, strict=False):
    """None when the lines carry exactly the records, else a description of the first difference."""
    i = 0
    for label, kind, items in recs:
        if kind == "text":
            if i >= len(lines):
                return label, "line missing"
            if lines[i].strip() != items[0].strip():
                return label, "line %d holds %r, the layout requires %r" % (i + 1, lines[i], items[0])
            i += 1
            continue
        got = []
        first = i
        while True:
            if i >= len(lines):
                if not items:
                    break
                return label, "the text ends before the %d value(s) of %s" % (len(items), label)
            if not items:
                # a record of no values is one line without values, or no line at all
                if split_line(lines[i], D, header) in ([], [""]):
                    i += 1
                break
            got.extend(split_line(lines[i], D, header))
            i += 1
            if len(got) >= len(items) or kind == "line":
                break
        if len(got) != len(items) and items:
            return label, "line %d holds %d value(s) %s, the layout requires %d" % (first + 1, len(got), got[:8], len(items))
        for k, (t, v) in enumerate(zip(got, items)):
            if strict and isinstance(v, float) and t != (FF % v).strip() and tok_eq(t, v, FF):
                return label, "line %d, value %d is %r, the number format asked for gives %r" % (first + 1, k + 1, t, (FF % v).strip())
            if not tok_eq(t, v, FF):
                return label, "line %d, value %d is %r, the layout requires %r" % (first + 1, k + 1, t, v)
    if i < len(lines):
        return "end", "surplus line %d: %r" % (i + 1, lines[i])
    return None


STYLES = [("  ", "%8.3f"), (",", "%s"), (", ", "%.2f"), ("    ", "%g")]


def split_text(s):
    if s and not s.endswith("\n"):
        return s.split("\n"), False
    return s.split("\n")[:-1], True


# ------------------------------------------------------------------ file emitter (for the reader)
REMARKED = ("ONAME", "ORG", "SNAME", "MNAME", "XNAME", "VNAME", "ANAME")


def emit(ffi, d, ign=0, wrap=0, comments=False, blank_tail=0, annotate=None):
    """Lines (with line ends) of a conformant file for the description d."""
    hdr = []

    def put(out, rec, k):
        label, kind, items = rec
        if kind == "text":
            out.append(items[0] + (" {%s}%s" % (label, " \t"[:k % 3]) if comments and label in REMARKED else ""))
            return
        toks = [str(int(x)) if isinstance(x, float) and x == int(x) and label in ("NX A",) else str(x) for x in items]
        if kind == "line" or not wrap or len(toks) <= 1:
            parts = [toks]
        else:
            n = wrap if (k % 2 == 0) else max(1, len(toks) - 1)
            parts = [toks[i:i + n] for i in range(0, len(toks), n)]
        for j, p in enumerate(parts):
            c = ""
            if comments and (k + j) % 2 == 0 and p and label not in ("X",) or (comments and label in ("X", "V") and p and ffi != 2160):
                c = "  {%s}%s" % (label, "  "[:k % 3])
            sep = "\t" if comments and kind == "line" and k % 2 else "  "
            out.append((" " if sep == "\t" else "") + sep.join(p) + c)

    recs = O.header(ffi, d)
    for k, r in enumerate(recs):
        if r[2] or r[1] == "line":
            put(hdr, r, k)
    body = []
    for k, r in enumerate(O.data(ffi, d)):
        if r[2]:
            put(body, r, k)
    n = len(hdr) + 1
    first = "%d %d" % (n, ffi)
    if comments:
        first += " {counts}"
    lines = [("preamble 0", "")[k % 2] for k in range(ign)] + [first] + hdr + body + [""] * blank_tail
    return [x + "\n" for x in lines], n


def deep_eq(a, b, tol=1e-9):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
            return False
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, bool) != isinstance(b, bool):
        pass
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


HEAD_ATTRS = ["NLHEAD", "FFI", "NIV", "ONAME", "ORG", "SNAME", "MNAME", "IVOL", "NVOL", "DATE", "RDATE", "DX", "XNAME",
              "NV", "VSCAL", "VMISS", "VNAME", "NSCOML", "SCOM", "NNCOML", "NCOM"]


def head_attrs(ffi):
    a = list(HEAD_ATTRS)
    if ffi in O.AUX:
        a += ["NAUXV", "ASCAL", "AMISS", "ANAME"]
    if ffi == 2160:
        a += ["NAUXC", "LENX", "LENA"]
    if ffi == 1020:
        a += ["NVPM"]
    if ffi in O.GRID:
        a += ["NX", "NXDEF"]
    return a


def data_attrs(ffi):
    a = ["X", "V"]
    if ffi in O.AUX:
        a += ["A"]
    if ffi in O.VLEN:
        a += ["NX"]
    return a


def expected(ffi, d, name, ign=0):
    """Value of the documented attribute after reading a file for d (None: do not compare)."""
    if name == "NLHEAD":
        return None
    if name in ("ASCAL", "AMISS", "ANAME") and d.get("NAUXV") == 0:
        return None
    return d.get(name)


# ------------------------------------------------------------------ views
def is_dec(y):
    return y.op == "app" and y.args[0] == "decomment"


def view_read(t, _m=None):
    """Style-free view of what a reader takes from the file.

    A trailing {...} annotation is removed once or more, before or after stripping
    blanks: the same text.  `maybe(c, x)` (attribute only set under c) and
    `c ? x : None` (attribute initialised to None) are the same observation."""
    _m = {} if _m is None else _m

    def go(x):
        if not isinstance(x, Term):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        r = _m.get(x)
        if r is None:
            if x.op == "maybe":
                r = T.ite(go(x.args[0]), go(x.args[1]), NONE)
            elif x.op == "strip" and x.args[0] == "b" and x.args[1] is None:
                y = x.args[2]
                dec = False
                while is_dec(y) or (y.op == "strip" and y.args[1] is None):
                    if y.op == "app":
                        dec = True
                        y = y.args[1][0]
                    else:
                        y = y.args[2]
                y = go(y)
                r = T.mk("strip", ("b", None, T.app("decomment", y, ty="str") if dec else y), "str")
            else:
                r = x
                a = tuple(go(y) for y in x.args)
                if any(p is not q for p, q in zip(a, x.args)):
                    r = T.mk(x.op, a, x.ty) if x.op in T._BINDERS else T.rebuild(x.op, a, x.ty)
            _m[x] = r
        return r
    return go(t)


class NoView(Exception):
    """The text is put together in a way the token view does not describe."""


NL = K("\n")


def tokens_view(out, D, FF, annotated=False, strict=False):
    """The written text as a sequence of values, text items and line ends.

    Separators, padding and number formats disappear; two values without a
    separator between them give a `glued` mark, so that nothing is lost."""
    items = flat(out, D, FF, strict)
    if annotated:
        items, _ = drop_labels(items, "start")
    marked, _ = check_sep(items, "start")
    return build(marked)


def flat(t, D, FF, strict=False):
    """-> list of ("v", term) ("txt", term) ("sep",) ("nl",) ("lab", s) ("rep", n, j, items)"""
    if t is D:
        return [("sep", "column")]
    if t.op == "cat":
        r = []
        for x in t.args:
            r += flat(x, D, FF, strict)
        return r
    if t.op == "K":
        return const_items(kv(t))
    if t.op == "fmt":
        f, v = t.args[0], t.args[1]
        f = kv(f) if isinstance(f, Term) and f.op == "K" else f
        if v.ty == "str":
            return [("txt", v)]
        if strict and f is not FF:
            # a number that does not go through the number format asked for
            return [("v", T.app("otherformat", v, f if isinstance(f, Term) else K(f)))]
        return [("v", v)]
    if t.op == "srep":
        n, b, body = t.args
        j = fresh("j", "int", nat=True)
        return [("rep", n, j, flat(T.subst(body, {b: j}), D, FF, strict))]
    if t.op == "strip":
        side, chars, x = t.args
        ch = kv(chars) if isinstance(chars, Term) else chars
        if ch is not None and set(ch) - set(" ,\t\n"):
            raise NoView("strips %r" % (ch,))
        it_ = flat(x, D, FF, strict)
        if (ch is None or "\n" in ch) and any(i[0] == "nl" for i in it_):
            raise NoView("strips line ends")
        if any(i[0] == "rep" and has_nl(i[3]) for i in it_):
            raise NoView("strips several lines")
        # only separators are removed at the ends; leaving them in place changes nothing in the view
        return it_ + [("weak",)] if it_ else it_
    if t.ty == "str" and t.op in ("sym", "get", "ite", "strslice", "app"):
        return [("txt", t)]
    raise NoView("text part %s" % t.op)


def has_nl(items):
    return any(i[0] == "nl" or (i[0] == "rep" and has_nl(i[3])) for i in items)


def const_items(s):
    r = []
    for part in re.findall(r"\n|[ \t,]+|[^\n]+?(?=\n|$)", s):
        if part == "\n":
            r.append(("nl",))
        elif not part.strip(" \t,"):
            r.append(("sep",))
        else:
            m = re.match(r"^([ \t]*)(.*?)([ \t]*)$", part)
            if m.group(1):
                r.append(("sep",))
            w = m.group(2)
            if re.match(r"^[-+]?\d+$", w):
                r.append(("v", K(int(w))))
            else:
                r.append(("lab", w))
            if m.group(3):
                r.append(("sep",))
    return r


def drop_labels(items, state):
    """Every line starts with a label and one separator: take both away."""
    out = []
    for i in items:
        if state == "start":
            if i[0] == "rep":
                body, st = drop_labels(i[3], "start")
                if st != "start":
                    raise NoView("annotation inside a repeated part")
                out.append(("rep", i[1], i[2], body))
                continue
            if i[0] != "lab":
                out.append(("bad", "line without annotation"))
            state = "label"
            continue
        if state == "label":
            if i == ("sep", "column"):
                state = "line"
                continue
            if i[0] in ("lab", "v", "weak", "sep"):
                continue
            out.append(("bad", "annotation column not closed"))
            state = "line"
        if i[0] == "nl":
            out.append(i)
            state = "start"
            continue
        if i[0] == "rep" and has_nl(i[3]):
            body, st = drop_labels(i[3], state)
            out.append(("rep", i[1], i[2], body))
            if st != state:
                raise NoView("annotation changes inside a repeated part")
            continue
        out.append(i)
    return out, state


def check_sep(items, state):
    out = []
    for i in items:
        if i[0] in ("v", "txt", "lab"):
            if state == "tok":
                out.append(("bad", "no separator"))
            out.append(i)
            state = "tok"
        elif i[0] == "sep":
            if state == "tok":
                state = "sep"
        elif i[0] == "weak":
            pass
        elif i[0] == "nl":
            out.append(i)
            state = "start"
        elif i[0] == "bad":
            out.append(i)
        elif i[0] == "rep":
            b1, s1 = check_sep(i[3], state)
            if s1 != state:
                b2, s2 = check_sep(i[3], s1)
                if s2 != s1:
                    raise NoView("separators alternate in a repeated part")
                if b2 != b1:
                    b1 = [("bad", "no separator between repetitions")] + b2
            out.append(("rep", i[1], i[2], b1))
            state = s1 if s1 == "tok" or state != "tok" else "tok"
    return out, state


def build(items):
    segs = []
    for i in items:
        if i[0] == "v":
            segs.append(it(i[1]))
        elif i[0] in ("txt",):
            segs.append(it(T.app("text", i[1], ty="str")))
        elif i[0] == "lab":
            segs.append(it(T.app("label", K(i[1]), ty="str")))
        elif i[0] == "nl":
            segs.append(it(NL))
        elif i[0] == "bad":
            segs.append(it(T.app("malformed", K(i[1]), ty="str")))
        elif i[0] == "rep":
            segs.append(T.rep(i[1], i[2], *[g for g in T.segs_of(build(i[3]))]))
    return T.seq(*merge_peeled(segs))


def merge_peeled(segs):
    """x[lo:i], x[i] -> x[lo:i+1];  {f(j) : j < n}, f(n) -> {f(j) : j < n + 1}"""
    out = []
    flatsegs = []
    for s in segs:
        flatsegs += [s] if s.op != "spl" or s.args[0].op != "seq" else list(s.args[0].args)
    for s in flatsegs:
        out.append(s)
        while True:
            if len(out) >= 2 and out[-1].op == "it" and out[-2].op == "spl" and out[-2].args[0].op == "slice":
                t, lo, i = out[-2].args[0].args[:3]
                if out[-1].args[0] is T.get(t, i) and T.nonneg(T.add(i, T.pneg(lo))):
                    out[-2:] = [T.spl(T.slice_(t, lo, T.add(i, K(1))))]
                    continue
            hit = False
            for k in range(1, 7):
                if len(out) <= k:
                    break
                r = out[-1 - k]
                if r.op == "rep" and len(r.args) - 2 == k:
                    n, b = r.args[0], r.args[1]
                    if T.nonneg(n) and all(T.subst(g, {b: n}) is o for g, o in zip(r.args[2:], out[-k:])):
                        j = fresh("j", "int", nat=True)
                        out[-1 - k:] = [T.rep(T.add(n, K(1)), j, *[T.subst(g, {b: j}) for g in r.args[2:]])]
                        hit = True
                        break
            if not hit:
                break
    return out
