"""Models of Python builtins, string/list/dict/file methods and external libraries.

A model never runs code of the analysed repository; it gives the abstract meaning of
a primitive in terms of `terms.py`.  Whatever is not modelled becomes an uninterpreted
application (deterministic) or an `unk` term (unknown)."""
import getopt
import ast
import builtins as _bi
import configparser
import operator as _op
import os
import re
import string

from . import terms as T
from .terms import *
from .heap import *

try:
    import re._parser as sre_parse
except ImportError:  # pragma: no cover
    import sre_parse

PURE_NONE_EXT = ("logging.", "warnings.", "traceback.")


def asint(v):
    if v.ty == "int":
        return v
    if v.ty == "bool":
        return K(int(kv(v))) if v.op == "K" else T.ite(v, ONE, ZERO)
    return T.mk("conv", ("int", v), "int") if v.ty == "any" else v


def clock_text(f):
    """strftime of the present moment: its fields are symbols"""
    w = {"Y": 4, "m": 2, "d": 2, "H": 2, "M": 2, "S": 2, "y": 2, "j": 3}
    out, i = [], 0
    while i < len(f):
        if f[i] == "%" and f[i + 1:i + 2] in w:
            out.append(T.fmt(K("%%.%dd" % w[f[i + 1]]), T.sym("now.%s" % f[i + 1], "int")))
            i += 2
        elif f[i] == "%":
            return T.app("strftime", K(f), ty="str")
        else:
            out.append(K(f[i]))
            i += 1
    return T.cat(*out)


def split_directives(s):
    """Constant format text -> list of ('lit', text) / ('dir', '%..x') or None."""
    out = []
    pos = 0
    for m in re.finditer(r"%(?:%|[-+ #0]*(?:\d+|\*)?(?:\.(?:\d+|\*))?[hlL]?[diouxXeEfFgGcrsa])", s):
        if m.start() > pos:
            out.append(("lit", s[pos:m.start()]))
        d = m.group()
        if d == "%%":
            out.append(("lit", "%"))
        else:
            if "*" in d:
                return None
            out.append(("dir", d))
        pos = m.end()
    if pos < len(s):
        out.append(("lit", s[pos:]))
    if any(k == "lit" and "%" in t and t != "%" for k, t in out):
        return None
    return out


_rx = {}


def regex_needs_control_char(pat):
    """True when no ordinary text line can match (a literal control character is required)."""
    try:
        p = sre_parse.parse(pat)
    except Exception:
        return False
    for op, av in p:
        if str(op) == "LITERAL" and av < 9:
            return True
    return False


def regex_kind(pat):
    """Recognise the meaning of a few regular expressions structurally."""
    if pat in _rx:
        return _rx[pat]
    r = None
    try:
        p = [(str(o), a) for o, a in sre_parse.parse(pat)]
        if len(p) == 1 and p[0][0] == "MAX_REPEAT":
            lo, hi, sub = p[0][1]
            sub = [(str(o), a) for o, a in sub]
            if lo == 1 and len(sub) == 1 and sub[0][0] == "IN" and [(str(o), str(a)) for o, a in sub[0][1]] == \
                    [("CATEGORY", "CATEGORY_SPACE")]:
                r = "blanks"
        # ^(.+)\{[^{}]*\}\s*$   ( '^' inside the class is harmless )
        if r is None and len(p) >= 5:
            ops = [o for o, _ in p]
            if ops[-1] == "AT" and "SUBPATTERN" in ops:
                q = p[1:] if ops[0] == "AT" else p
                if len(q) >= 5 and q[0][0] == "SUBPATTERN" and q[1] == ("LITERAL", 123):
                    g = [(str(o), a) for o, a in q[0][1][3]]
                    okg = len(g) == 1 and g[0][0] == "MAX_REPEAT" and g[0][1][0] == 1 and str(list(g[0][1][2])[0][0]) == "ANY"
                    cls = q[2]
                    okc = False
                    if cls[0] == "MAX_REPEAT" and cls[1][0] == 0 and str(cls[1][1]) == "MAXREPEAT":
                        inner = [(str(o), a) for o, a in cls[1][2]]
                        if len(inner) == 1 and inner[0][0] == "IN":
                            mem = [(str(o), a) for o, a in inner[0][1]]
                            lits = {a for o, a in mem if o == "LITERAL"}
                            okc = mem[0][0] == "NEGATE" and {123, 125} <= lits <= {123, 125, 94}
                    okr = q[3] == ("LITERAL", 125) and q[4][0] == "MAX_REPEAT" and q[4][1][0] == 0
                    if okg and okc and okr and ops[-1] == "AT":
                        r = "decomment"
    except Exception:
        r = None
    _rx[pat] = r
    return r


def regex_wants(pat):
    """Punctuation that every match of the pattern holds (a set)."""
    out = set()
    try:
        for op, av in sre_parse.parse(pat):
            if str(op) == "LITERAL" and chr(av) in "{}()[]<>&=;:_/":
                out.add(chr(av))
    except Exception:
        pass
    return out


def known_match(pat, x, how="match"):
    """Does a constant pattern match a text?  (True/False, match) or None when it cannot be told."""
    if pat.op == "app" and pat.args[0] == "search":
        pat, how = pat.args[1][0], "search"
    if not (is_k(pat) and isinstance(kv(pat), str)):
        return None
    if is_k(x) and isinstance(kv(x), str):
        try:
            m = getattr(re, how)(kv(pat), kv(x))
        except re.error:
            return None
        return (m is not None), m
    if x.op == "cat":
        parts = T.cat_parts(x)
        if all(p.op == "K" or p.op == "fmt" and p.args[1].ty in ("int", "real") for p in parts):
            text = "".join(kv(p) for p in parts if p.op == "K")
            if any(ch not in text for ch in regex_wants(kv(pat))):
                return False, None
    return None


# decomment(line): the text of a header line without a trailing {...} remark
def _ite_hook(c, a, b):
    """ite(matches(P, x), group(P, x, 1), x) -> decomment(x) for the published comment pattern."""
    if c.op == "app" and c.args[0] == "matches":
        pat, x = c.args[1][0], c.args[1][1]
        if is_k(pat) and b is x and a.op == "app" and a.args[0] == "regroup" and a.args[1][0] is pat and a.args[1][1] is x \
                and is_k(a.args[1][2], 1):
            return T.app("decomment", x, ty="str") if regex_kind(kv(pat)) == "decomment" else T.app("decomment", x, pat, ty="str")
    return None


_old_ite = T.ite


def _ite(c, a, b):
    if c.op == "not" and c.args[0].op == "app":
        c, a, b = c.args[0], b, a
    r = _ite_hook(c, a, b)
    if r is not None:
        return r
    return _old_ite(c, a, b)


T.ite = _ite


def strs(*vs):
    return all(v.op == "K" and isinstance(kv(v), str) for v in vs)


DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Mod": "mod", "FloorDiv": "floordiv", "Pow": "pow", "BitOr": "or", "BitAnd": "and"}



class NoValue(Exception):
    pass


PURE_STR = set("removeprefix removesuffix partition rpartition casefold capitalize title center ljust rjust zfill translate index rindex find rfind count startswith endswith swapcase expandtabs isidentifier isdecimal "
               "istitle isprintable isascii isalnum isdigit isspace isalpha isnumeric isupper islower rsplit splitlines replace".split())
PURE_SET = set("issubset issuperset isdisjoint union intersection difference symmetric_difference copy".split())
PURE_EXT = set("itertools.product itertools.accumulate itertools.zip_longest itertools.combinations itertools.permutations itertools.pairwise itertools.compress itertools.repeat math.floor math.ceil math.isnan math.isclose math.fabs math.sqrt "
               "math.log10 math.log math.gcd math.trunc math.fsum math.isfinite math.isinf math.modf math.copysign textwrap.dedent textwrap.wrap operator.sub operator.truediv operator.eq operator.ne operator.lt operator.gt operator.le operator.ge "
               "operator.not_ operator.contains operator.concat os.path.isabs os.path.commonprefix posixpath.join".split())


class Models(object):
    def __init__(self, ip):
        self.ip = ip
        self.fileno = 0

    # ------------------------------------------------------------- formatting
    def fmtv(self, spec, v, st):
        v = self.ip.freeze(v, st)
        if v.op == "struct":
            v = self.scalar_of(v, not (is_k(spec) and kv(spec) in ("%s", "%r")))
        if self.ip.unroll and is_k(spec) and kv(spec) in ("%s", "%d", "%r") and v.op == "K":
            try:
                return K(kv(spec) % kv(v))
            except (TypeError, ValueError):
                pass
        return T.fmt(spec, v)

    def scalar_of(self, v, numeric):
        """the number in a library object that holds one (printed as the number, except by the text of a DataArray)"""
        while v.op == "struct":
            name = getattr(v.args[0].args[0], "name", "") if v.args[0].op == "cls" else ""
            if name == "DataArray" and not numeric:
                return T.app("text of DataArray", v)
            d = {kv(p.args[0]): p.args[1] for p in v.args[1]}
            w = d.get("_arr") if name == "DataArray" else d.get("_v") if name == "ndarray" else d.get("v") if name == "int32" else None
            if w is None or isinstance(w.ty, tuple) or w.op == "maybe":
                return v
            v = w
        return v

    def format_value(self, x, spec, st):
        if spec is None or is_k(spec, ""):
            return self.to_str(x, st)
        if x.op == "maybe":
            x = x.args[1]
        x = self.ip.freeze(x, st)
        if is_k(spec) and x.op == "K":
            try:
                return K(format(kv(x), kv(spec)))
            except (ValueError, TypeError):
                pass
        return T.fmt(T.cat(K("%"), spec), x)

    def to_str(self, x, st):
        if x.op == "maybe":
            x = x.args[1]
        if x.op == "K":
            return K(str(kv(x)))
        if x.ty == "str":
            return x
        x = self.ip.freeze(x, st)
        if x.op == "ite":
            return T.ite(x.args[0], self.to_str(x.args[1], st), self.to_str(x.args[2], st))
        if x.op == "struct":
            y = self.scalar_of(x, False)
            if y is not x:
                return self.to_str(y, st)
        return T.fmt(K("%s"), x)

    def percent(self, f, rhs, st, node):
        """Printf formatting of template term f."""
        ip = self.ip
        parts = []          # ('lit', term) ('dir', spec term) ('rep', n, i, parts)

        def flat(t, out):
            for p in T.cat_parts(t):
                if p.op == "K":
                    d = split_directives(kv(p))
                    if d is None:
                        return False
                    for k, txt in d:
                        out.append((k, K(txt)))
                elif p.op == "srep":
                    n, i, b = T.open_srep(p)
                    sub = []
                    if not flat(b, sub):
                        return False
                    if any(k != "lit" for k, *_ in sub):
                        out.append(("rep", n, i, sub))
                    else:
                        out.append(("lit", p))
                elif p in FMT:
                    out.append(("dir", p))
                elif p.op == "ite" and p.ty == "str":
                    s1, s2 = [], []
                    if not flat(p.args[1], s1) or not flat(p.args[2], s2):
                        return False
                    if [x for x in s1 if x[0] != "lit"] or [x for x in s2 if x[0] != "lit"]:
                        return False
                    out.append(("lit", p))
                else:
                    out.append(("lit", p))
            return True
        if f.op == "ite" and f.ty == "str":
            return T.ite(f.args[0], self.percent(f.args[1], rhs, st, node), self.percent(f.args[2], rhs, st, node))
        if not flat(f, parts):
            return unk("format template", "str")

        def count(ps):
            n = ZERO
            for p in ps:
                if p[0] == "dir":
                    n = add(n, ONE)
                elif p[0] == "rep":
                    n = add(n, pmul(p[1], count(p[3])))
            return n
        # %(name)s not supported
        if rhs.op == "maybe":
            rhs = rhs.args[1]
        if rhs.op == "tuple":
            vals = seq(*[it(x) for x in rhs.args])
        elif isinstance(rhs.ty, tuple) and rhs.op not in ("ref", "path"):
            vals = rhs
        elif rhs.ty == "any" and rhs.op not in ("K",) and rhs.op not in ("ref", "path"):
            # may be a tuple or a single value; decided by the number of directives
            vals = seq(it(rhs))
        else:
            vals = seq(it(rhs))
        need, have = count(parts), T.length(vals)
        ok = T.decide(T.eq(need, have)) if need.ty == "int" and have.ty == "int" else None
        if ok is False:
            ip.event("format-arity", need, have)
            ip.do_raise(st, "TypeError", K("format string needs a different number of values"), node)
        if ok is None:
            ip.event("format-arity?", need, have)

        def render(ps, off, env_i):
            out = []
            for p in ps:
                if p[0] == "lit":
                    out.append(p[1])
                elif p[0] == "dir":
                    v = T.get(vals, off)
                    if ip.unroll and v.op == "K" and is_k(p[1]) and (kv(v) is None or isinstance(kv(v), str)) and kv(p[1])[-1:] in tuple("diouxXeEfFgG"):
                        ip.do_raise(st, "TypeError", K("%s format: a number is required, not %s" % (kv(p[1]), type(kv(v)).__name__)), node)
                    out.append(self.fmtv(p[1], v, st))
                    off = add(off, ONE)
                else:
                    n, i, sub = p[1], p[2], p[3]
                    w = count(sub)
                    with T.assume(ge0(add(n, K(-1), pneg(i)))):
                        body, _ = render(sub, add(off, pmul(w, i)), None)
                    out.append(T.srep(n, i, body))
                    off = add(off, pmul(w, n))
            return T.cat(*out), off
        r, _ = render(parts, ZERO, None)
        return r

    # -------------------------------------------------------------- operators
    def binop(self, op, a, b, st, node):
        ip = self.ip
        if a.op == "maybe":
            a = a.args[1]
        if b.op == "maybe":
            b = b.args[1]
        name = op.__class__.__name__
        if a.op == "ref" or b.op == "ref":
            d = DUNDER.get(name)
            if d:
                r = ip.dunder("__%s__" % d, a, [b], st, node)
                if r is None:
                    r = ip.dunder("__r%s__" % d, b, [a], st, node)
                if r is not None:
                    return r
        if name == "Mod" and (a.ty == "str" or a in FMT):
            return self.percent(a, b, st, node)
        if name in ("BitOr", "BitAnd", "BitXor", "Sub") and a.op == "ref" and b.op == "ref" and all(isinstance(st.heap.get(x.args[0]), HList) for x in (a, b)):
            # sets and the views of dictionaries
            s = self.b_set([a], {}, st, node)
            if isinstance(st.heap.get(s.args[0]), HSet):
                m = {"BitOr": "union", "BitAnd": "intersection", "Sub": "difference", "BitXor": "symmetric_difference"}[name]
                return self.set_method(s, st.heap[s.args[0]], m, [b], {}, st, node)
        if a.op == "K" and b.op == "K" and a.ty not in ("none",) and b.ty not in ("none",):
            try:
                x, y = kv(a), kv(b)
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y if not (isinstance(x, str) and y > 10000) else None,
                     "Div": lambda: x / y, "FloorDiv": lambda: x // y, "Mod": lambda: x % y, "Pow": lambda: x ** y,
                     "BitOr": lambda: x | y, "BitAnd": lambda: x & y}.get(name, lambda: None)()
                if r is not None:
                    return K(r)
            except TypeError:
                ip.event("type-error", name, a, b)
                ip.do_raise(st, "TypeError", K("operand types"), node)
            except ZeroDivisionError:
                ip.do_raise(st, "ZeroDivisionError", None, node)
        num = ("int", "real", "bool")
        if name == "Add":
            if a.ty == "str" and b.ty == "str":
                return T.cat(a, b)
            if a.ty in num and b.ty in num:
                return padd(asint(a) if a.ty == "bool" else a, asint(b) if b.ty == "bool" else b)
            if a.op == "tuple" and b.op == "tuple":
                return T.tup(*(a.args + b.args))
            la, lb = ip.aslist(a, st), ip.aslist(b, st)
            if la is not None and lb is not None and a.ty != "str" and b.ty != "str":
                if a.op in ("ref", "path") or b.op in ("ref", "path") or a.op == "ite" or b.op == "ite":
                    return ip.new_list(T.concat(la, lb), st)
                return T.concat(la, lb)
            if (a.ty == "str" and b.ty in num + ("none",)) or (b.ty == "str" and a.ty in num + ("none",)) or \
                    (a.ty == "str" and lb is not None and b.ty != "any") or (b.ty == "str" and la is not None and a.ty != "any"):
                ip.event("type-error", "+", a, b)
                ip.do_raise(st, "TypeError", K("cannot concatenate"), node)
            if a.ty == "str" or b.ty == "str":
                # the other one must be a string for this to succeed
                f = lambda t: t if t.ty == "str" else T.app("asstr", t, ty="str")
                return T.cat(f(a), f(b))
            if la is not None and lb is None:
                return ip.new_list(T.concat(la, T.app("list", ip.freeze(b, st), ty=("seq", "any"))), st)
            if lb is not None and la is None:
                return ip.new_list(T.concat(T.app("list", ip.freeze(a, st), ty=("seq", "any")), lb), st)
            return T.app("+", ip.freeze(a, st), ip.freeze(b, st))
        if name == "Sub":
            if a.ty in num and b.ty in num:
                return psub(a, b)
            return T.app("-", ip.freeze(a, st), ip.freeze(b, st))
        if name == "Mult":
            if b.ty == "str" or b.op in ("ref", "path", "tuple") and a.ty in num:
                a, b = b, a
            if a.ty == "str" and b.ty in ("int", "bool", "any"):
                n = T.max0(asint(b))
                return T.srep(n, fresh("i", "int", nat=True), a)
            la = ip.aslist(a, st) if a.op in ("ref", "path", "tuple") or isinstance(a.ty, tuple) else None
            if la is not None and b.ty in ("int", "bool", "any"):
                n = T.max0(asint(b))
                if is_k(n) and kv(n) <= 8 or is_k(T.length(la)) and kv(T.length(la)) == 0:
                    r = seq(*[g for _ in range(kv(n) if is_k(n) else 0) for g in segs_of(la)])
                else:
                    r = seq(rep(n, fresh("i", "int", nat=True), *segs_of(la)))
                return T.tup(*[g.args[0] for g in r.args]) if a.op == "tuple" and r.op == "seq" and all(
                    g.op == "it" for g in r.args) else ip.new_list(r, st)
            if a.ty in num and b.ty in num:
                return pmul(a, b)
            return T.app("*", *sorted((ip.freeze(a, st), ip.freeze(b, st))))
        a0, b0 = a, b
        a, b = ip.freeze(a, st), ip.freeze(b, st)
        if name in ("FloorDiv", "Mod") and a.ty == "int" and b.ty == "int":
            r = T.app("//" if name == "FloorDiv" else "mod", a, b, ty="int")
            if T.nonneg(a) and T.nonneg(b):
                T.NAT.add(r)
            return r
        if name == "Div":
            if a.op == "K" and b.op == "K":
                pass
            return T.app("/", a, b, ty="real" if a.ty in num and b.ty in num else "any")
        if name in ("BitOr", "BitAnd") and a.ty == "bool" and b.ty == "bool":
            return disj(a, b) if name == "BitOr" else conj(a, b)
        op = {"Pow": _op.pow, "LShift": _op.lshift, "RShift": _op.rshift, "BitXor": _op.xor, "BitOr": _op.or_, "BitAnd": _op.and_, "FloorDiv": _op.floordiv, "Mod": _op.mod}.get(name)
        r = self.concretely(op, [a0, b0], {}, st, node)
        if r is not None:
            return r
        sym_ = {"FloorDiv": "//", "Mod": "mod", "Pow": "**"}.get(name, name)
        return T.app(sym_, a, b)

    # --------------------------------------------------------------- builtins
    def tolist(self, v, st):
        """Sequence term of all elements of any iterable."""
        ip = self.ip
        if v.op == "maybe":
            v = v.args[1]
        s = ip.aslist(v, st)
        if s is not None:
            return s
        k, a, b = ip.elem_source(v, st)
        if k == "segs":
            return b
        n, f = a, b
        if is_k(n) and kv(n) <= 200:
            return seq(*[it(f(K(j))) for j in range(kv(n))])
        i = fresh("i", "int", nat=True)
        with T.assume(ge0(add(n, K(-1), pneg(i)))):
            e = f(i)
        return seq(rep(n, i, it(e)))

    def tname(self, v, st):
        if v.op == "maybe":
            v = v.args[1]
        if v.op == "sliceobj":
            return "slice"
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if isinstance(o, HSet):
                return "set"
            if isinstance(o, HList):
                return "list"
            if isinstance(o, HDict):
                return "dict"
            if isinstance(o, HInst):
                return o.cls
            if isinstance(o, HFile):
                return "TextIOWrapper"
            if isinstance(o, HSIO):
                return "StringIO"
        if v.op == "path":
            return "list"
        if v.op == "dictv":
            return "dict"
        if v.op == "struct":
            return v.args[0]
        if isinstance(v.ty, tuple):
            return "list"
        if v.ty in ("int", "real", "str", "bool", "none", "tuple", "bytes"):
            return {"int": "int", "real": "float", "str": "str", "bool": "bool", "none": "NoneType", "tuple": "tuple",
                    "bytes": "bytes"}[v.ty]
        return None

    def type_is(self, v, b, st):
        """type(v) == b for builtin b."""
        t = self.tname(v, st)
        nm = b.args[0]
        if t is None:
            if v.op == "ite":
                return T.ite(v.args[0], self.type_is(v.args[1], b, st), self.type_is(v.args[2], b, st))
            return T._known(T.app("typeis", self.ip.freeze(v, st), K(nm), ty="bool"))
        return K(t == nm)

    def is_instance(self, v, c, st):
        ip = self.ip
        if c.op == "tuple":
            return disj(*[self.is_instance(v, x, st) for x in c.args])
        t = self.tname(v, st)
        if v.op == "ite" and t is None:
            return T.ite(v.args[0], self.is_instance(v.args[1], c, st), self.is_instance(v.args[2], c, st))
        if t is None:
            if c.op == "builtin":
                return T._known(T.app("typeis", ip.freeze(v, st), K(c.args[0]), ty="bool"))
            return T._known(T.app("isinst", ip.freeze(v, st), c, ty="bool"))
        if isinstance(t, Term):
            if c.op == "cls" and t.op == "cls":
                return K(c.args[0] in t.args[0].mro())
            if t.op == "ext" or c.op == "ext":
                if t is c or (t.op == "cls" and c in t.args[0].mro()):
                    return TRUE
                return FALSE
            return FALSE
        if c.op == "builtin":
            n = c.args[0]
            return K(n == t or n == "object" or (n == "int" and t == "bool"))
        if c.op == "ext":
            if c.args[0].endswith("abc.Sequence"):
                return K(t in ("list", "tuple", "str", "bytes"))
            if c.args[0].endswith("abc.Mapping"):
                return K(t == "dict")
            if c.args[0].endswith("Iterable"):
                return K(t in ("list", "tuple", "str", "dict", "set"))
            return FALSE
        return FALSE

    def call_builtin(self, name, args, kwargs, st, node):
        ip = self.ip
        args = [a.args[1] if a.op == "maybe" else a for a in args]
        if name == "__sym__":
            return sym(kv(args[0]) if is_k(args[0]) else "?", "real")
        if name == "__unmodelled__":
            return ip.unmodelled(args)
        m = getattr(self, "b_" + name, None)
        if m is not None:
            return m(args, kwargs, st, node)
        from .interp import EXC_NAMES
        if name in EXC_NAMES:
            return T.app("exc", K(name), *[ip.freeze(a, st) for a in args])
        if name == "hash" and ip.set_order and len(args) == 1 and "str" in str(args[0].ty) or name == "hash" and ip.set_order and args and args[0].op == "tuple":
            # one of the numbers that the hash of a text may be
            n = int.from_bytes(str(ip.freeze(args[0], st)).encode(), "big")
            return K(n if ip.set_order == "up" else -n)
        if name == "hash" and args and not (is_k(args[0]) and isinstance(kv(args[0]), (int, float))):
            return T.app("call:hash", *[ip.freeze(a, st) for a in args], ty="int")
        r = self.concretely(getattr(_bi, name, None) if name in ("min", "max", "pow", "hash", "bin", "hex", "oct", "ascii", "complex", "sorted", "sum", "divmod") else None, args, kwargs, st, node)
        if r is not None:
            return r
        return T.app("call:" + name, *[ip.freeze(a, st) for a in args])

    # ------------------------------------------------------------------ constants
    def concrete(self, v, st):
        """The Python value of an abstract value that has only one; NoValue otherwise."""
        ip = self.ip
        if v.op == "K":
            return kv(v)
        if v.op == "tuple":
            return tuple(self.concrete(x, st) for x in v.args)
        if v is NIL:
            return []
        if v.op == "seq" and all(g.op == "it" for g in v.args):
            return [self.concrete(g.args[0], st) for g in v.args]
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if isinstance(o, HSet):
                return set(self.concrete(o.content, st))
            if isinstance(o, HList):
                return self.concrete(o.content, st)
            if isinstance(o, HDict):
                d = ip.freeze(v, st)
                if d.op == "dictv" and d.args[1] is NONE:
                    return {self.concrete(p.args[0], st): self.concrete(p.args[1], st) for p in d.args[0]}
        raise NoValue()

    def abstract(self, x, st):
        ip = self.ip
        if x is None or isinstance(x, (bool, int, float, str)):
            return K(x)
        if isinstance(x, tuple):
            return T.tup(*[self.abstract(y, st) for y in x])
        if isinstance(x, list):
            return ip.new_list(seq(*[it(self.abstract(y, st)) for y in x]), st)
        if isinstance(x, (set, frozenset)):
            return ip.new_list(seq(*[it(self.abstract(y, st)) for y in sorted(x)]), st, cls=HSet)
        if isinstance(x, dict):
            oid = new_oid("d")
            st.heap[oid] = HDict({self.abstract(k, st): self.abstract(y, st) for k, y in x.items()})
            return ref(oid)
        raise NoValue()

    def concretely(self, fn, args, kwargs, st, node):
        """The result of a pure library function whose arguments are all constants, or None."""
        if fn is None or any(a.op == "star" for a in args):
            return None
        try:
            xs, ks = [self.concrete(a, st) for a in args], {k: self.concrete(a, st) for k, a in kwargs.items()}
        except (NoValue, TypeError):
            return None
        try:
            r = fn(*xs, **ks)
            return self.abstract(r, st)
        except (NoValue, MemoryError, RecursionError):
            return None
        except (ValueError, IndexError, KeyError, TypeError, ZeroDivisionError, AttributeError) as e:
            if isinstance(e, (TypeError, AttributeError)):
                return None
            self.ip.do_raise(st, type(e).__name__, K(str(e)), node)

    def b_len(self, args, kw, st, node):
        ip = self.ip
        v = args[0]
        s = ip.aslist(v, st)
        if s is not None:
            return T.length(s)
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if isinstance(o, HDict):
                if o.base is None:
                    return add(*[T.ite(x.args[0], ONE, ZERO) if x.op == "maybe" else ONE for x in o.items.values()]) if o.items else ZERO
                return T.mk("len", (ip.freeze(v, st),), "int")
            if isinstance(o, HInst) and o.cls.op == "cls":
                c, _ = o.cls.args[0].lookup("__len__")
                if c is not None:
                    return ip.call(obj("bm", (v, c)), [], {}, st, node)
        if v.op == "dictv":
            return K(len(v.args[0]))
        if v.ty in ("int", "real", "bool", "none"):
            ip.do_raise(st, "TypeError", K("object has no len()"), node)
        if v.op == "ite":
            return T.ite(v.args[0], self.b_len([v.args[1]], kw, st, node), self.b_len([v.args[2]], kw, st, node))
        return T.length(ip.freeze(v, st))

    def b_range(self, args, kw, st, node):
        xs = [asint(self.ip.freeze(a, st)) for a in args]
        if len(xs) == 1:
            xs = [ZERO, xs[0], ONE]
        elif len(xs) == 2:
            xs = xs + [ONE]
        return T.app("range", *xs)

    def b_enumerate(self, args, kw, st, node):
        start = args[1] if len(args) > 1 else kw.get("start", ZERO)
        return T.app("enumerate", args[0], start)

    def b_zip(self, args, kw, st, node):
        return T.mk("app", ("zip", tuple(args)), "any")

    def b_reversed(self, args, kw, st, node):
        s = self.ip.aslist(args[0], st)
        if s is not None:
            if args[0].op in ("ref", "path"):
                return self.ip.new_list(T.rev(s), st)
            return T.rev(s)
        return T.app("revd", args[0])

    def b_map(self, args, kw, st, node):
        ip = self.ip
        acc = ip.new_list(NIL, st, "map")
        if len(args) > 2:
            src = T.mk("app", ("zip", tuple(args[1:])), "any")
        else:
            src = args[1]
        st2_env = st.env
        st.env = dict(st.env)
        st.env["$acc"] = acc

        def body(s2, e):
            xs = list(e.args) if len(args) > 2 and e.op == "tuple" else [e]
            v = ip.call(args[0], xs, {}, s2, node)
            ip.write_list(s2.env["$acc"], lambda t: T.append(t, v), s2)
            return Flow(s2)
        fl = ip.iterate(src, st, body, node)
        if fl.fall is None:
            raise Dead()
        r = fl.fall.env["$acc"]
        st.set_from(fl.fall)
        st.env = st2_env
        T.set_facts(st.facts)
        return r

    def b_filter(self, args, kw, st, node):
        ip = self.ip
        acc = ip.new_list(NIL, st, "filter")
        st2_env = st.env
        st.env = dict(st.env)
        st.env["$acc"] = acc

        def body(s2, e):
            v = e if args[0] is NONE else ip.call(args[0], [e], {}, s2, node)
            c = ip.truth(v, s2)
            ip.write_list(s2.env["$acc"], lambda t: seq(spl(t), T.alt(c, seq(it(e)), NIL)), s2)
            return Flow(s2)
        fl = ip.iterate(args[1], st, body, node)
        if fl.fall is None:
            raise Dead()
        r = fl.fall.env["$acc"]
        st.set_from(fl.fall)
        st.env = st2_env
        T.set_facts(st.facts)
        return r

    def b_list(self, args, kw, st, node):
        if not args:
            return self.ip.new_list(NIL, st)
        return self.ip.new_list(self.tolist(args[0], st), st)

    def b_tuple(self, args, kw, st, node):
        if not args:
            return T.tup()
        s = self.tolist(args[0], st)
        if s.op == "seq" and all(g.op == "it" for g in s.args):
            return T.tup(*[g.args[0] for g in s.args])
        if args[0].op == "tuple":
            return args[0]
        return s

    def b_dict(self, args, kw, st, node):
        ip = self.ip
        r = ip.new_obj(HDict(), st, "D")
        if args:
            ip.dict_update(r, args[0], st)
        if kw:
            o = st.heap[r.args[0]]
            items = dict(o.items)
            base = o.base
            for k, v in kw.items():
                if k == "**":
                    base = v
                else:
                    items[K(k)] = v
            st.heap[r.args[0]] = o.with_(items=items, base=base)
        return r

    def b_set(self, args, kw, st, node):
        ip = self.ip
        if not args:
            return ip.new_list(NIL, st, cls=HSet)
        return self.set_of(self.tolist(args[0], st), st)

    def set_of(self, s, st):
        """The set of the items of a list: exact where equality of any two items is decided."""
        ip = self.ip
        d = self.distinct(s, st)
        if d is not None:
            return ip.new_list(seq(*[it(x) for x in d]), st, cls=HSet)
        return ip.new_list(T.app("setof", ip.freeze(s, st), ty=("seq", "any")), st, cls=HSet)

    def distinct(self, s, st):
        seen = []
        for g in segs_of(s):
            if g.op != "it":
                return None
            dup = FALSE
            for x in seen:
                dup = self.ip.equal(x, g.args[0], st)
                if dup is not FALSE:
                    break
            if dup is FALSE:
                seen.append(g.args[0])
            elif dup is not TRUE:
                return None
        return seen

    def sort_known(self, s, kw, st, node):
        """Stable sort of a list of known length whose keys are all constants (or one item)."""
        segs = segs_of(s)
        if not all(g.op == "it" for g in segs):
            return None
        els = [g.args[0] for g in segs]
        rev = kw.get("reverse", FALSE)
        if rev.op != "K":
            return None
        if len(els) < 2:
            return seq(*segs)
        keyf = kw.get("key", NONE)
        keys = els if keyf is NONE else [self.ip.call(keyf, [e], {}, st, node) for e in els]
        ks = []
        for k in keys:
            k = self.ip.freeze(k, st)
            v = self.const_key(k)
            if v is None:
                return None
            ks.append(v[0])
        try:
            idx = sorted(range(len(els)), key=lambda i: ks[i], reverse=bool(kv(rev)))
        except TypeError:
            self.ip.do_raise(st, "TypeError", K("unorderable"), node)
        return seq(*[segs[i] for i in idx])

    def const_key(self, k):
        if k.op == "K":
            return (kv(k),)
        if k.op == "tuple":
            vs = [self.const_key(x) for x in k.args]
            return None if None in vs else (tuple(v[0] for v in vs),)
        return None

    b_frozenset = b_set

    def b_str(self, args, kw, st, node):
        return self.to_str(args[0], st) if args else EMPTY

    def b_repr(self, args, kw, st, node):
        return T.app("repr", self.ip.freeze(args[0], st), ty="str")

    def b_int(self, args, kw, st, node):
        if not args:
            return ZERO
        r = self.ip.dunder("__int__", args[0], [], st, node)
        if r is not None:
            return r
        if len(args) > 1 or kw:
            r = self.concretely(int, args, kw, st, node)
            return r if r is not None else T.app("int", *[self.ip.freeze(a, st) for a in args + list(kw.values())], ty="int")
        return self.number(int, self.ip.freeze(args[0], st), st, node)

    def b_float(self, args, kw, st, node):
        if not args:
            return K(0.0)
        r = self.ip.dunder("__float__", args[0], [], st, node)
        if r is not None:
            return r
        v = self.ip.freeze(args[0], st)
        if v.ty == "int" and v.op != "K":
            return v
        return self.number(float, v, st, node)

    def number(self, kind, v, st, node):
        """int(v), float(v); a constant that is no number raises as the interpreter of Python does"""
        if v.op == "K":
            try:
                kind(T.kv(v))
            except (ValueError, TypeError) as e:
                self.ip.do_raise(st, type(e).__name__, K(str(e)), node)
        return T.conv(kind.__name__, v)

    def b_bool(self, args, kw, st, node):
        return self.ip.truth(args[0], st) if args else FALSE

    def b_type(self, args, kw, st, node):
        from .interp import builtin
        t = self.tname(args[0], st)
        if t is None:
            return T.app("type", self.ip.freeze(args[0], st))
        if isinstance(t, Term):
            return t
        return builtin(t)

    def b_isinstance(self, args, kw, st, node):
        return self.is_instance(args[0], args[1], st)

    def b_issubclass(self, args, kw, st, node):
        if args[0].op == "cls" and args[1].op == "cls":
            return K(args[1].args[0] in args[0].args[0].mro())
        return T.app("issubclass", *args, ty="bool")

    def b_callable(self, args, kw, st, node):
        if args[0].op in ("func", "cls", "bm", "builtin", "tmeth", "ext", "partial"):
            return TRUE
        return T.app("callable", self.ip.freeze(args[0], st), ty="bool")

    def b_hasattr(self, args, kw, st, node):
        ip = self.ip
        v, n = args[0], args[1]
        if is_k(n):
            name = kv(n)
            if v.op == "ref":
                o = st.heap.get(v.args[0])
                if isinstance(o, HInst):
                    if name in o.attrs:
                        a = o.attrs[name]
                        return a.args[0] if a.op == "maybe" else TRUE
                    if o.cls is not None and o.cls.op == "cls":
                        c, _ = o.cls.args[0].lookup(name)
                        if c is not None:
                            return TRUE
                        f, _ = o.cls.args[0].lookup("__getattr__")
                        if f is not None:
                            return K(ip.try_getattr(v, f, name, st, node) is not None)
                        if o.cls.args[0].ext_bases() and any(e.op == "ext" for e in o.cls.args[0].ext_bases()):
                            return T.app("hasattr", ip.freeze(v, st), n, ty="bool")
                        return FALSE
                    return T._known(T.app("hasattr", ip.freeze(v, st), n, ty="bool"))
                t = self.tname(v, st)
                if isinstance(t, str):
                    return K(hasattr({"list": [], "dict": {}, "set": set()}.get(t), name))
            if v.op == "path" or isinstance(v.ty, tuple):
                return K(hasattr([], name))
            if v.ty == "struct":
                for p in v.args[1]:
                    if kv(p.args[0]) == name:
                        return TRUE
            if v.ty in ("str", "int", "real", "bool", "none", "tuple"):
                return K(hasattr({"str": "", "int": 0, "real": 0.0, "bool": True, "none": None, "tuple": ()}[v.ty], name))
            if v.op == "mod":
                return K(ip.mod_get(v.args[0], name, st) is not None)
            if v.op == "cls":
                c, _ = v.args[0].lookup(name)
                if c is not None:
                    return TRUE
            if ("O", v, name) in st.heap:
                return TRUE
        return T._known(T.app("hasattr", ip.freeze(v, st), ip.freeze(n, st), ty="bool"))

    def b_getattr(self, args, kw, st, node):
        ip = self.ip
        v, n = args[0], args[1]
        default = args[2] if len(args) > 2 else None
        if n.op == "ite" and n.ty == "str":
            return T.ite(n.args[0], self.b_getattr([v, n.args[1]] + args[2:], kw, st, node),
                         self.b_getattr([v, n.args[2]] + args[2:], kw, st, node))
        if is_k(n):
            name = kv(n)
            if default is not None and v.op not in ("ref", "mod", "cls", "K", "path", "struct") and v.ty not in (
                    "str", "int", "real", "bool", "tuple") and not isinstance(v.ty, tuple):
                r = st.heap.get(("O", v, name))
                if r is not None:
                    return r
                h = T._known(T.app("hasattr", ip.freeze(v, st), n, ty="bool"))
                got = ip.get_attr(v, name, st, node, default)
                return T.ite(h, got, default)
            return ip.get_attr(v, name, st, node, default)
        return T.app("getattr", ip.freeze(v, st), ip.freeze(n, st), *([default] if default is not None else []))

    def b_setattr(self, args, kw, st, node):
        v, n, x = args
        if is_k(n):
            self.ip.set_attr(v, kv(n), x, st, node)
        elif v.op == "ref" and isinstance(st.heap.get(v.args[0]), HInst):
            self.ip.event("setattr-symbolic", v, n)
            o = st.heap[v.args[0]]
            st.heap[v.args[0]] = o.with_(attrs={k: unk("setattr with computed name") for k in o.attrs})
        return NONE

    def b_delattr(self, args, kw, st, node):
        v, n = args
        o = st.heap.get(v.args[0]) if v.op == "ref" else None
        if isinstance(o, HInst) and is_k(n):
            a = dict(o.attrs)
            a.pop(kv(n), None)
            st.heap[v.args[0]] = o.with_(attrs=a)
        return NONE

    def b_vars(self, args, kw, st, node):
        ip = self.ip
        if not args:
            return ip.new_obj(HDict({K(k): v for k, v in st.env.items() if not k.startswith("$") and v is not UNDEF}), st, "vars")
        return ip.get_attr(args[0], "__dict__", st, node)

    def b_locals(self, args, kw, st, node):
        return self.b_vars([], kw, st, node)

    def b_globals(self, args, kw, st, node):
        m = st.heap[("M", kv(st.env["$mod"]))]
        return self.ip.new_obj(HDict({K(k): v for k, v in m.attrs.items()}), st, "globals")

    def b_eval(self, args, kw, st, node):
        if is_k(args[0]):
            try:
                e = ast.parse(kv(args[0]), mode="eval")
            except SyntaxError:
                self.ip.do_raise(st, "SyntaxError", None, node)
            return self.ip.ev(e.body, st)
        return T.app("eval", self.ip.freeze(args[0], st))

    def b_exec(self, args, kw, st, node):
        ip = self.ip
        if is_k(args[0]):
            try:
                m = ast.parse(kv(args[0]))
            except SyntaxError:
                ip.do_raise(st, "SyntaxError", None, node)
            fl = ip.exec_block(m.body, st)
            if fl.fall is None:
                raise Dead()
            st.set_from(fl.fall)
        else:
            ip.event("exec-symbolic", args[0])
        return NONE

    def b___import__(self, args, kw, st, node):
        if is_k(args[0]) and self.ip.is_local(kv(args[0])):
            self.ip.import_module(kv(args[0]), st)
            from .interp import obj as o_
            return obj("mod", kv(args[0]).split(".")[0])
        return T.app("import", *args)

    def b_super(self, args, kw, st, node):
        ip = self.ip
        if args:
            after, inst = args[0], args[1] if len(args) > 1 else None
        else:
            after = st.env.get("$cls")
            inst = None
            f = ip.cur_func
            if f is not None and f.node.args.args:
                inst = st.env.get(f.node.args.args[0].arg)
        if inst is None or after is None:
            return unk("super")
        o = st.heap.get(inst.args[0]) if inst.op == "ref" else None
        if o is None:
            return unk("super")
        return T.mk("super", (inst, o.cls, after), "obj")

    def filetext(self, name, st):
        """cursor at the start of a file; its text may be known"""
        known = getattr(self.ip, "known_text", None)
        if known is not None and is_k(name) and kv(name) in known:
            return cur(T.ktext(known[kv(name)]))
        return cur(T.app("filelines", name, ty=("seq", "str")))

    def b_open(self, args, kw, st, node):
        ip = self.ip
        name = ip.freeze(args[0], st)
        mode = args[1] if len(args) > 1 else kw.get("mode", K("r"))
        self.fileno += 1
        oid = new_oid("file")
        ip.event("open", name, mode, oid)
        c = None
        if not is_k(mode) or "r" in kv(mode) or "+" in kv(mode):
            c = self.filetext(name, st)
        st.heap[oid] = HFile(name, mode, c)
        return ref(oid)

    def b_print(self, args, kw, st, node):
        f = kw.get("file")
        if f is not None and f is not NONE and not (f.op == "ext" and f.args[0] in ("sys.stdout", "sys.stderr")):
            sep, end = kw.get("sep"), kw.get("end")
            sep = K(" ") if sep is None or sep is NONE else sep
            end = K("\n") if end is None or end is NONE else end
            ps = []
            for a in args:
                ps += ([sep] if ps else []) + [self.b_str([a], {}, st, node)]
            return self.call_method(f, "write", [T.cat(*(ps + [end]))], {}, st, node) and NONE
        self.ip.event("print", *[self.ip.freeze(a, st) for a in args])
        return NONE

    def b_input(self, args, kw, st, node):
        return T.app("input", *[self.ip.freeze(a, st) for a in args], ty="str")

    def b_sum(self, args, kw, st, node):
        s = self.tolist(args[0], st)
        start = args[1] if len(args) > 1 else kw.get("start", ZERO)
        if start.op in ("ref",):
            # flattening a list of lists
            acc = self.ip.aslist(start, st)
            return self.ip.new_list(self.flatten(acc, s, st), st)
        r = start
        for g in segs_of(s):
            if g.op == "it" and g.args[0].ty in ("int", "real", "bool"):
                r = padd(r, g.args[0])
            elif g.op == "rep" and len(g.args) == 3 and g.args[2].op == "it" and g.args[2].args[0].ty == "int":
                n, i, ss = T.open_rep(g)
                r = padd(r, T.sum_(n, i, ss[0].args[0]))
            else:
                return T.app("sum", self.ip.freeze(s, st), start)
        return r

    def flatten(self, acc, s, st):
        ip = self.ip
        out = list(segs_of(acc)) if acc is not None else []
        for g in segs_of(s):
            if g.op == "it":
                x = ip.aslist(g.args[0], st)
                out.append(spl(x if x is not None else unk("flatten", ("seq", "any"))))
            elif g.op == "rep":
                n, i, ss = T.open_rep(g)
                inner = []
                for y in ss:
                    x = ip.aslist(y.args[0], st) if y.op == "it" else None
                    inner.append(spl(x if x is not None else unk("flatten", ("seq", "any"))))
                out.append(rep(n, i, *segs_of(seq(*inner))))
            elif g.op == "spl":
                t = g.args[0]
                n = T.length(t)
                i = fresh("i", "int", nat=True)
                e = T.get(t, i)
                if isinstance(e.ty, tuple):
                    out.append(rep(n, i, *segs_of(e)))
                else:
                    out.append(spl(unk("flatten", ("seq", "any"))))
            else:
                out.append(spl(unk("flatten", ("seq", "any"))))
        return seq(*out)

    def _minmax(self, name, args, kw, st, node):
        if len(args) == 1 and "key" not in kw:
            s = self.tolist(args[0], st)
            if s.op == "seq" and s.args and all(g.op == "it" for g in s.args):
                args = [g.args[0] for g in s.args]
            else:
                return T.app(name, self.ip.freeze(s, st))
        if all(a.op == "K" for a in args) and "key" not in kw and args:
            try:
                return K((min if name == "min" else max)([kv(a) for a in args]))
            except TypeError:
                pass
        if all(a.ty in ("int",) for a in args) and len(args) == 2:
            a, b = args
            if name == "min":
                return T.min_(a, b)
            d = T.decide(le(a, b))
            if d is not None:
                return b if d else a
            if is_k(a, 0):
                return T.max0(b)
            if is_k(b, 0):
                return T.max0(a)
            x, y = sorted((a, b))
            return T.mk("app", ("max", (x, y)), "int")
        return T.app(name, *[self.ip.freeze(a, st) for a in args])

    def b_min(self, args, kw, st, node):
        return self._minmax("min", args, kw, st, node)

    def b_max(self, args, kw, st, node):
        return self._minmax("max", args, kw, st, node)

    def b_abs(self, args, kw, st, node):
        v = args[0]
        if v.op == "K":
            return K(abs(kv(v)))
        return T.app("abs", self.ip.freeze(v, st), ty=v.ty if v.ty in ("int", "real") else "any")

    def b_round(self, args, kw, st, node):
        if all(a.op == "K" for a in args):
            return K(round(*[kv(a) for a in args]))
        return T.app("round", *[self.ip.freeze(a, st) for a in args])

    def b_divmod(self, args, kw, st, node):
        a, b = [self.ip.freeze(x, st) for x in args]
        return T.tup(self.binop(ast.FloorDiv(), a, b, st, node), self.binop(ast.Mod(), a, b, st, node))

    def b_any(self, args, kw, st, node):
        return self._anyall(args[0], st, False)

    def b_all(self, args, kw, st, node):
        return neg(self._anyall(args[0], st, True))

    def _anyall(self, src, st, negate):
        ip = self.ip
        if src.ty == "any" and src.op not in ("ref", "path", "tuple") and ip.aslist(src, st) is None:
            v = ip.freeze(src, st)
            if src.op == "app" and src.args[0] in ("zip", "enumerate", "range", "revd"):
                pass
            elif negate:
                # all(v) of an opaque array
                return neg(T._known(T.app("all", v, ty="bool")))
            else:
                return T._known(T.app("anytrue", v, ty="bool"))
        s = self.tolist(src, st)

        def tr(v):
            c = ip.truth(v, st)
            return neg(c) if negate else c

        def seg(g):
            if g.op == "it":
                return tr(g.args[0])
            if g.op == "rep":
                n, i, ss = T.open_rep(g)
                return T.any_(n, i, disj(*[seg(x) for x in ss]))
            if g.op == "alt":
                return T.ite(g.args[0], disj(*[seg(x) for x in segs_of(g.args[1])]), disj(*[seg(x) for x in segs_of(g.args[2])]))
            t = g.args[0]
            n = T.length(t)
            i = fresh("i", "int", nat=True)
            return T.any_(n, i, tr(T.get(t, i)))
        return disj(*[seg(g) for g in segs_of(s)])

    def b_sorted(self, args, kw, st, node):
        s = self.tolist(args[0], st)
        r = self.sort_known(s, kw, st, node)
        if r is not None:
            return self.ip.new_list(r, st)
        extra = []
        for k in sorted(kw):
            extra += [K(k), K(kw[k].args[0]) if kw[k].op == "builtin" else kw[k] if kw[k].op not in ("ref", "path") else self.ip.freeze(kw[k], st)]
        r = T.app("sorted", self.ip.freeze(s, st), *extra, ty=("seq", T.elem_ty(s)))
        DECL[r] = [lambda idx, s=s: T.length(s)]
        return self.ip.new_list(r, st)

    def b_iter(self, args, kw, st, node):
        v = args[0]
        if len(args) == 1 and v.op != "ref" and (v.op in ("tuple", "seq") or v is NIL) or v.op == "ref" and isinstance(st.heap.get(v.args[0]), (HList, HDict)):
            return self.ip.new_list(self.tolist(v, st), st)
        return v

    def b_next(self, args, kw, st, node):
        ip = self.ip
        v = args[0]
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if isinstance(o, (HFile, HSIO)):
                return self.call_method(v, "readline", [], {}, st, node)
        s = self.tolist(v, st)
        n = T.length(s)
        c = T.lt(ZERO, n)
        d = T.decide(c)
        if d is True:
            if v.op == "ref" and isinstance(st.heap.get(v.args[0]), HList):
                self.ip.write_list(v, lambda t: T.slice_(t, ONE, T.length(t)), st, node, "next")
            return T.get(s, ZERO)
        # first element of a filtered sequence
        segs = segs_of(s)
        dflt = args[1] if len(args) > 1 else None
        acc = dflt if dflt is not None else unk("StopIteration")
        for g in reversed(segs):
            if g.op == "alt" and g.args[2] is NIL and g.args[1].op == "seq" and len(g.args[1].args) == 1 and g.args[1].args[0].op == "it":
                acc = T.ite(g.args[0], g.args[1].args[0].args[0], acc)
            elif g.op == "it":
                acc = g.args[0]
            else:
                return T.ite(c, T.get(s, ZERO), dflt) if dflt is not None else T.get(s, ZERO)
        return acc

    def b_id(self, args, kw, st, node):
        return T.app("id", *args, ty="int")

    def b_ord(self, args, kw, st, node):
        return K(ord(kv(args[0]))) if is_k(args[0]) else T.app("ord", args[0], ty="int")

    def b_chr(self, args, kw, st, node):
        return K(chr(kv(args[0]))) if is_k(args[0]) else T.app("chr", args[0], ty="str")

    def b_format(self, args, kw, st, node):
        return self.format_value(args[0], args[1] if len(args) > 1 else None, st)

    def b_property(self, args, kw, st, node):
        from .interp import PropObj
        return obj("prop", PropObj(args[0] if args else None, args[1] if len(args) > 1 else None))

    def b_slice(self, args, kw, st, node):
        xs = list(args)
        if len(xs) == 1:
            xs = [NONE, xs[0], NONE]
        elif len(xs) == 2:
            xs = xs + [NONE]
        return T.mk("sliceobj", tuple(xs), "slice")

    def b_object(self, args, kw, st, node):
        return T.app("object")

    # ---------------------------------------------------------------- methods
    def call_method(self, v, name, args, kwargs, st, node):
        ip = self.ip
        if v.op == "maybe":
            v = v.args[1]
        args = [a.args[1] if a.op == "maybe" else a for a in args]
        if v.op == "super":
            inst = v.args[0]
            if name == "__init__":
                return NONE
            return T.app("super." + name, *[ip.freeze(a, st) for a in args])
        if v.op == "cls":
            if name == "__init__":
                return NONE
            return T.app("cls." + name, *[ip.freeze(a, st) for a in args])
        if v.op == "builtin":
            if v.args[0] == "str" and args:
                if name == "maketrans":
                    return T.app("maketrans", *args)
                return self.call_method(args[0], name, args[1:], kwargs, st, node)
            if v.args[0] == "dict" and name == "fromkeys":
                s = self.tolist(args[0], st)
                d = args[1] if len(args) > 1 else NONE
                if all(g.op == "it" for g in segs_of(s)):
                    return ip.new_obj(HDict({ip.hashable(g.args[0], st): d for g in segs_of(s)}), st, "D")
            if v.args[0] == "list" and args:
                return self.call_method(args[0], name, args[1:], kwargs, st, node)
            if v.args[0] == "object" or name in ("__init__", "__setattr__"):
                return NONE
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if isinstance(o, HSet):
                return self.set_method(v, o, name, args, kwargs, st, node)
            if isinstance(o, HList):
                return self.list_method(v, name, args, kwargs, st, node)
            if isinstance(o, HDict):
                return self.dict_method(v, o, name, args, kwargs, st, node)
            if isinstance(o, HFile):
                return self.file_method(v, o, name, args, kwargs, st, node)
            if isinstance(o, HSIO):
                return self.sio_method(v, o, name, args, kwargs, st, node)
        if v.op == "path":
            return self.list_method(v, name, args, kwargs, st, node)
        if v.op == "dictv":
            if name == "get":
                for p in v.args[0]:
                    if p.args[0] is args[0]:
                        return p.args[1]
                if v.args[1] is NONE:
                    return args[1] if len(args) > 1 else NONE
            if name == "items":
                return seq(*[it(p) for p in v.args[0]])
            if name == "keys":
                return seq(*[it(p.args[0]) for p in v.args[0]])
            if name == "values":
                return seq(*[it(p.args[1]) for p in v.args[0]])
            return T.app("dict." + name, v, *[ip.freeze(a, st) for a in args])
        if v.op == "tuple" or (isinstance(v.ty, tuple) and v.op != "ite"):
            return self.list_method(v, name, args, kwargs, st, node)
        if v.op == "ite":
            c = v.args[0]
            if v.ty == "str":
                return T.ite(c, self.call_method(v.args[1], name, args, kwargs, st, node),
                             self.call_method(v.args[2], name, args, kwargs, st, node))
            s1, s2 = st.copy(), st.copy()
            s1.assume(c)
            s2.assume(neg(c))
            T.set_facts(s1.facts)
            f1 = ip.get_attr(v.args[1], name, s1, node)
            a = ip.call(f1, args, kwargs, s1, node)
            T.set_facts(s2.facts)
            f2 = ip.get_attr(v.args[2], name, s2, node)
            b = ip.call(f2, args, kwargs, s2, node)
            s1.env["$v"], s2.env["$v"] = a, b
            j = join(c, s1, s2)
            r = j.env.pop("$v")
            j.path = st.path
            st.set_from(j)
            T.set_facts(st.facts)
            return r
        if v.ty == "str":
            return self.str_method(v, name, [ip.freeze(a, st) if not (name in ("join", "format")) else a for a in args], kwargs, st, node)
        if name in ("append", "extend", "insert", "reverse", "sort", "pop", "remove", "clear") and v.op == "get":
            ip.write_list(v, lambda t: unk("unresolved", t.ty), st, node, name)
        return T.app("mcall", ip.freeze(v, st), K(name), *[ip.freeze(a, st) for a in args])

    def str_method(self, s, name, args, kwargs, st, node):
        ip = self.ip
        if s.op == "K" and isinstance(kv(s), str) and name in PURE_STR and name != "join":
            r = self.concretely(lambda *a, **k: getattr(kv(s), name)(*a, **k), args, kwargs, st, node)
            if r is not None:
                return r
        if name in ("startswith", "endswith") and args and args[0].op == "tuple" and args[0].args:
            return disj(*[self.str_method(s, name, [x] + args[1:], kwargs, st, node) for x in args[0].args])
        a0 = args[0] if args else None
        if name == "join":
            l = self.tolist(a0, st)
            return T.join(s, ip.freeze(l, st))
        if name == "format":
            return self.str_format(s, args, kwargs, st, node)
        if strs(s) and all(a.op == "K" for a in args) and not kwargs:
            try:
                r = getattr(kv(s), name)(*[kv(a) for a in args])
            except (ValueError, TypeError, AttributeError) as e:
                ip.do_raise(st, type(e).__name__, K(name), node)
            if isinstance(r, (str, int, bool, bytes)):
                return K(r)
            if isinstance(r, list):
                return ip.new_list(seq(*[it(K(x)) for x in r]), st)
            if isinstance(r, tuple):
                return T.tup(*[K(x) for x in r])
        if name in ("strip", "rstrip", "lstrip"):
            side = {"strip": "b", "rstrip": "r", "lstrip": "l"}[name]
            ch = None
            if a0 is not None and a0 is not NONE:
                if not is_k(a0):
                    return T.app("stripsym", K(side), s, a0, ty="str")
                ch = kv(a0)
            return T.strip(side, ch, s)
        if name == "split":
            if (a0 is None or a0 is NONE) and len(args) < 2:
                return ip.new_list(T.tokens(s), st)
            if a0 is not None and is_k(a0) and isinstance(kv(a0), str) and len(args) == 1 and not kwargs:
                r = T.split_const(s, kv(a0))
                if r is not None:
                    return ip.new_list(seq(*[it(x) for x in r]), st)
            return ip.new_list(T.app("split", s, *(args + [kwargs[k] for k in sorted(kwargs)]), ty=("seq", "str")), st)
        if name == "splitlines":
            keep = a0 is not None and kv(a0) if (a0 is None or is_k(a0)) else None
            if "keepends" in kwargs:
                keep = kv(kwargs["keepends"])
            try:
                segs, tail = T.split_lines(s)
                if not is_k(tail, ""):
                    segs = list(segs) + [it(tail)]
                r = seq(*segs)
                if not keep:
                    r = self.map_seq(r, lambda x: self.chomp(x))
                return ip.new_list(r, st)
            except T.CannotSplit as e:
                ip.note("cannot split text into lines: %s" % e)
                return ip.new_list(T.app("splitlines", s, K(bool(keep)), ty=("seq", "str")), st)
        if name in ("startswith", "endswith") and a0 is not None:
            if strs(a0):
                p = T.cat_parts(s)
                e = (p[0] if name == "startswith" else p[-1]) if p else EMPTY
                if e.op == "K" and len(kv(e)) >= len(kv(a0)):
                    return K(getattr(kv(e), name)(kv(a0)))
            return T._known(T.app(name, s, *args, ty="bool"))
        if name in ("isdigit", "isspace", "isalpha", "isalnum", "isnumeric", "isupper", "islower"):
            return T._known(T.app("str." + name, s, ty="bool"))
        if name in ("find", "count", "index", "rfind", "rindex"):
            return T.app("str." + name, s, *args, ty="int")
        if name in ("partition", "rpartition"):
            return T.tup(*[T.app("str.%s%d" % (name, k), s, *args, ty="str") for k in range(3)])
        if name in ("rsplit",):
            return ip.new_list(T.app("rsplit", s, *args, ty=("seq", "str")), st)
        if name == "replace":
            if strs(args[0]) and strs(args[1]):
                if kv(args[0]) == kv(args[1]):
                    return s
            return T.app("str.replace", s, *args, ty="str")
        if name == "encode":
            return T.app("encode", s, ty="bytes")
        if name == "__len__":
            return T.length(s)
        return T.app("str." + name, s, *args, ty="str")

    def chomp(self, x):
        p = list(T.cat_parts(x))
        if p and p[-1].op == "K" and kv(p[-1]).endswith("\n"):
            p[-1] = K(kv(p[-1])[:-1])
            return T.cat(*p)
        return x

    def map_seq(self, s, f):
        out = []
        for g in segs_of(s):
            if g.op == "it":
                out.append(it(f(g.args[0])))
            elif g.op == "rep":
                n, i, ss = T.open_rep(g)
                inner = self.map_seq(seq(*ss), f)
                out.append(rep(n, i, *segs_of(inner)))
            elif g.op == "alt":
                out.append(T.alt(g.args[0], self.map_seq(g.args[1], f), self.map_seq(g.args[2], f)))
            else:
                t = g.args[0]
                n = T.length(t)
                i = fresh("i", "int", nat=True)
                out.append(rep(n, i, it(f(T.get(t, i)))))
        return seq(*out)

    def unstar(self, args, n):
        """expand the only starred argument to make n arguments, or None"""
        k = [i for i, a in enumerate(args) if a.op == "star"]
        if len(k) != 1 or n < len(args) - 1:
            return None
        t = args[k[0]].args[0]
        if not isinstance(t.ty, tuple) or t.ty[0] != "seq":
            return None
        m = n - (len(args) - 1)
        return list(args[:k[0]]) + [T.get(t, K(j)) for j in range(m)] + list(args[k[0] + 1:])

    def str_format(self, s, args, kwargs, st, node):
        if not strs(s):
            return T.app("str.format", s, *[self.ip.freeze(a, st) for a in args], ty="str")
        out = []
        auto = 0
        if any(a.op == "star" for a in args):
            # f(*values) of unknown length: as many values as there are fields
            try:
                n = sum(1 for x in string.Formatter().parse(kv(s)) if x[1] is not None)
            except ValueError:
                n = 0
            args = self.unstar(args, n)
            if args is None:
                return unk("str.format of starred values", "str")
        try:
            for lit, fld, spec, convn in string.Formatter().parse(kv(s)):
                if lit:
                    out.append(K(lit))
                if fld is None:
                    continue
                m = re.match(r"^(\w*)(.*)$", fld)
                key, rest = m.group(1), m.group(2)
                if key == "":
                    v = args[auto]
                    auto += 1
                elif key.isdigit():
                    v = args[int(key)]
                else:
                    v = kwargs[key]
                for mm in re.finditer(r"\[(\w+)\]|\.(\w+)", rest):
                    if mm.group(1) is not None:
                        k = mm.group(1)
                        v = self.ip.subscript(v, K(int(k)) if k.isdigit() else K(k), st, node)
                    else:
                        v = self.ip.get_attr(v, mm.group(2), st, node)
                if spec and "{" in spec:
                    spec_t = self.str_format(K(spec), args[auto:], kwargs, st, node)
                else:
                    spec_t = K(spec) if spec else None
                out.append(self.format_value(v, spec_t, st))
        except (IndexError, KeyError, ValueError):
            self.ip.do_raise(st, "IndexError", K("str.format arguments"), node)
        return T.cat(*out)

    def list_method(self, v, name, args, kwargs, st, node):
        ip = self.ip
        a0 = args[0] if args else None
        s = ip.aslist(v, st)
        mut = lambda f, w: ip.write_list(v, f, st, node, w)
        if name == "append":
            mut(lambda t: T.append(t, a0), "append")
            return NONE
        if name == "extend":
            xs = self.tolist(a0, st)
            mut(lambda t: T.concat(t, xs), "extend")
            return NONE
        if name == "insert":
            i = ip.freeze(a0, st)

            def f(t):
                n = T.length(t)
                if is_k(i, 0):
                    return seq(it(args[1]), spl(t))
                k = ip.clamp(i, n, ZERO, st)
                return seq(spl(T.slice_(t, ZERO, k)), it(args[1]), spl(T.slice_(t, k, n)))
            mut(f, "insert")
            return NONE
        if name == "pop":
            i = ip.freeze(a0, st) if a0 is not None else K(-1)
            n = T.length(s)
            if is_k(n, 0):
                ip.do_raise(st, "IndexError", K("pop from empty list"), node)
            k = ip.norm_idx(i, n)
            e = ip._elem(v, s, k, st, node)
            if e.op == "path":
                e = ip.new_list(ip.deref(e, st), st)
            mut(lambda t: seq(spl(T.slice_(t, ZERO, k)), spl(T.slice_(t, add(k, ONE), n))), "pop")
            return e
        if name == "reverse":
            mut(lambda t: T.rev(t), "reverse")
            return NONE
        if name == "sort":
            r = self.sort_known(s, kwargs, st, node)
            if r is not None:
                mut(lambda t: r, "sort")
                return NONE
            extra = []
            for k in sorted(kwargs):
                extra += [K(k), K(kwargs[k].args[0]) if kwargs[k].op == "builtin" else kwargs[k]]
            mut(lambda t: T.app("sorted", ip.freeze(t, st), *extra, ty=t.ty), "sort")
            return NONE
        if name == "clear":
            mut(lambda t: NIL, "clear")
            return NONE
        if name == "remove":
            def f(t):
                if all(g.op == "it" for g in segs_of(t)):
                    for k, g in enumerate(segs_of(t)):
                        d = T.decide(ip.equal(g.args[0], a0, st))
                        if d is True:
                            return seq(*(segs_of(t)[:k] + segs_of(t)[k + 1:]))
                        if d is None:
                            break
                return T.app("removed", ip.freeze(t, st), ip.freeze(a0, st), ty=t.ty)
            mut(f, "remove")
            return NONE
        if name == "copy":
            return ip.new_list(s, st)
        if name == "index":
            if all(g.op == "it" and g.args[0].op == "K" for g in segs_of(s)) and a0.op == "K":
                vals = [kv(g.args[0]) for g in segs_of(s)]
                if kv(a0) in vals:
                    return K(vals.index(kv(a0)))
                ip.do_raise(st, "ValueError", K("not in list"), node)
            r = T.app("index", ip.freeze(s, st), ip.freeze(a0, st), ty="int")
            T.NAT.add(r)
            return r
        if name == "count":
            if all(g.op == "it" and g.args[0].op == "K" for g in segs_of(s)) and a0.op == "K":
                return K([kv(g.args[0]) for g in segs_of(s)].count(kv(a0)))
            r = T.app("count", ip.freeze(s, st), ip.freeze(a0, st), ty="int")
            T.NAT.add(r)
            return r
        if name == "__getitem__":
            return ip.subscript(v, a0, st, node)
        if name == "__len__":
            return T.length(s)
        if name in ("keys", "values", "items", "lower", "upper", "strip", "split", "find", "shape", "tolist"):
            ip.event("missing-attr", "list", name)
            ip.do_raise(st, "AttributeError", K("list." + name), node)
        return T.app("list." + name, ip.freeze(s, st), *[ip.freeze(a, st) for a in args])

    def set_method(self, v, o, name, args, kwargs, st, node):
        ip = self.ip
        if name == "add":
            c = ip.contains(args[0], v, st)
            if T.decide(c) is True:
                return NONE
            if T.decide(c) is False:
                ip.write_list(v, lambda t: T.append(t, args[0]), st, node, "add")
            else:
                ip.write_list(v, lambda t: T.app("setadd", ip.freeze(t, st), ip.freeze(args[0], st), ty=("seq", "any")), st, node, "add")
            return NONE
        if name in ("remove", "discard"):
            def f(t):
                if all(g.op == "it" for g in segs_of(t)):
                    for k, g in enumerate(segs_of(t)):
                        if T.decide(ip.equal(g.args[0], args[0], st)) is True:
                            return seq(*(segs_of(t)[:k] + segs_of(t)[k + 1:]))
                return T.app("setremove", ip.freeze(t, st), ip.freeze(args[0], st), ty=("seq", "any"))
            ip.write_list(v, f, st, node, name)
            return NONE
        if name == "copy":
            return ip.new_list(o.content, st, cls=HSet)
        if name == "update":
            for a in args:
                xs = self.tolist(a, st)
                d = self.distinct(T.concat(ip.aslist(v, st), xs), st)
                if d is not None:
                    ip.write_list(v, lambda t: seq(*[it(x) for x in d]), st, node, name)
                    continue
                ip.write_list(v, lambda t: T.app("setunion", ip.freeze(t, st), ip.freeze(xs, st), ty=("seq", "any")), st, node, name)
            return NONE
        if name in ("union", "intersection", "difference"):
            mine = self.distinct(ip.aslist(v, st), st)
            for a in args:
                xs = self.tolist(a, st)
                if mine is None:
                    break
                if name == "union":
                    mine = self.distinct(T.concat(seq(*[it(x) for x in mine]), xs), st)
                    continue
                keep = []
                for x in mine:
                    c = ip.contains(x, ip.new_list(xs, st), st)
                    if c not in (TRUE, FALSE):
                        keep = None
                        break
                    if (c is TRUE) == (name == "intersection"):
                        keep.append(x)
                mine = keep
            if mine is not None:
                return ip.new_list(seq(*[it(x) for x in mine]), st, cls=HSet)
        r = self.concretely(lambda x, *a: getattr(x, name)(*a), [v] + list(args), kwargs if "kwargs" in locals() else {}, st, node if "node" in locals() else None) if name in PURE_SET else None
        if r is not None:
            return r
        return ip.new_list(T.app("set." + name, ip.freeze(v, st), *[ip.freeze(a, st) for a in args], ty=("seq", "any")), st, cls=HSet)

    def dict_items(self, o, st, f):
        segs = []
        for k, v in o.items.items():
            if v.op == "maybe":
                segs.append(T.alt(v.args[0], seq(it(f(k, v.args[1]))), NIL))
            else:
                segs.append(it(f(k, v)))
        return segs

    def dict_method(self, v, o, name, args, kwargs, st, node):
        ip = self.ip
        a0 = args[0] if args else None
        if name == "get":
            d = args[1] if len(args) > 1 else NONE
            k = ip.hashable(a0, st)
            if k in o.items:
                x = o.items[k]
                if x.op == "maybe":
                    return ip.ite_val(x.args[0], x.args[1], d, st)
                return x
            if o.base is None and (k.op == "K" or (k.op == "tuple" and all(y.op == "K" for y in k.args))):
                return d
            if o.base is not None:
                h = T._known(T.app("in", k, o.base, ty="bool"))
                return ip.ite_val(h, T.app("dictget", o.base, k), d, st)
            return ip.dict_get(v, o, a0, st, node, default=d)
        if name in ("keys", "items", "values", "__iter__"):
            f = {"keys": lambda k, x: k, "__iter__": lambda k, x: k, "items": lambda k, x: T.tup(k, x), "values": lambda k, x: x}[name]
            if o.base is not None:
                fz = o.base
                t = T.app(name, fz, ty=("seq", {"keys": "any", "items": "tuple", "values": "any", "__iter__": "any"}[name]))
                pre = self.dict_items(o, st, f)
                if not pre:
                    return ip.new_list(t, st)
                return ip.new_list(seq(spl(T.app("dictrest", t, T.tup(*o.items.keys()), ty=t.ty)), *pre), st)
            return ip.new_list(seq(*self.dict_items(o, st, f)), st)
        if name == "update":
            if args:
                ip.dict_update(v, a0, st)
            if kwargs:
                o = st.heap[v.args[0]]
                items = dict(o.items)
                for k, x in kwargs.items():
                    items[K(k)] = x
                ip._wrote(v.args[0], o, "update")
                st.heap[v.args[0]] = o.with_(items=items)
            return NONE
        if name == "copy":
            return ip.new_obj(HDict(o.items, o.base), st, "D")
        if name == "pop":
            k = ip.hashable(a0, st)
            items = dict(o.items)
            x = items.pop(k, None)
            if x is None:
                if len(args) > 1:
                    if o.base is None:
                        return args[1]
                    return T.app("dictget", o.base, k)
                if o.base is None and k.op == "K":
                    ip.do_raise(st, "KeyError", k, node)
                x = T.app("dictget", o.base or NONE, k)
            ip._wrote(v.args[0], o, "pop")
            st.heap[v.args[0]] = o.with_(items=items)
            if x.op == "maybe":
                return ip.ite_val(x.args[0], x.args[1], args[1], st) if len(args) > 1 else x.args[1]
            return x
        if name == "setdefault":
            k = ip.hashable(a0, st)
            d = args[1] if len(args) > 1 else NONE
            if k in o.items and o.items[k].op != "maybe":
                return o.items[k]
            items = dict(o.items)
            if k in items:
                x = items[k]
                val = ip.ite_val(x.args[0], x.args[1], d, st)
            elif o.base is not None:
                val = ip.ite_val(T.app("in", k, o.base, ty="bool"), T.app("dictget", o.base, k), d, st)
            else:
                val = d
            items[k] = val
            ip._wrote(v.args[0], o, "setdefault")
            st.heap[v.args[0]] = st.heap[v.args[0]].with_(items=items)
            return val
        if name == "clear":
            ip._wrote(v.args[0], o, "clear")
            st.heap[v.args[0]] = o.with_(items={}, base=None)
            return NONE
        if name == "__contains__":
            return ip.contains(a0, v, st)
        if name == "__getitem__":
            return ip.subscript(v, a0, st, node)
        if name == "__setitem__":
            ip.store_sub(v, a0, args[1], st, node)
            return NONE
        ip.event("missing-attr", "dict", name)
        if hasattr(dict, name):
            return unk("dict.%s is not modelled" % name)
        ip.do_raise(st, "AttributeError", K("dict." + name), node)

    def file_method(self, v, o, name, args, kwargs, st, node):
        ip = self.ip
        oid = v.args[0]
        if name == "write":
            s = args[0]
            if s.ty != "str":
                s = T.app("asstr", ip.freeze(s, st), ty="str")
            if o.closed is not FALSE:
                ip.event("write-closed", oid)
            ip.event("write", oid, s)
            st.heap[oid] = o.with_(out=T.cat(o.out, s))
            return T.length(s)
        if name == "writelines":
            l = ip.freeze(self.tolist(args[0], st), st)
            st.heap[oid] = o.with_(out=T.cat(o.out, T.join(EMPTY, l)))
            ip.event("write", oid, T.join(EMPTY, l))
            return NONE
        if name == "flush":
            st.heap[oid] = o.with_(flushed=o.out)
            return NONE
        if name == "close":
            st.heap[oid] = o.with_(closed=TRUE, flushed=o.out)
            return NONE
        if name == "__enter__":
            return v
        if name == "__exit__":
            st.heap[oid] = o.with_(closed=TRUE, flushed=o.out)
            return NONE
        if o.cur is None:
            if name in ("read", "readline", "readlines"):
                ip.event("read-writeonly", oid)
                return unk("read from write-only file", "str")
        if name in ("readline", "__next__"):
            r = T.line_at(o.cur)
            st.heap[oid] = o.with_(cur=T.cur_adv(o.cur, T.ln_seg(ONE)))
            return r
        if name == "readlines":
            r = T.lns(o.cur)
            st.heap[oid] = o.with_(cur=cur(T.app("eof", o.name)))
            return ip.new_list(r, st)
        if name == "read":
            ls = T.lns(o.cur)
            known = ls.op == "seq" and all(g.op == "it" and g.args[0].op == "K" for g in ls.args)
            r = T.cat(*[g.args[0] for g in ls.args]) if known else T.app("filetext", ls, ty="str")
            st.heap[oid] = o.with_(cur=cur(T.app("eof", o.name)))
            return r
        if name == "seek":
            if is_k(args[0], 0):
                c = self.filetext(o.name, st)
                st.heap[oid] = o.with_(cur=c)
                return ZERO
            st.heap[oid] = o.with_(cur=cur(unk("seek", ("seq", "str"))))
            return args[0]
        if name in ("fileno", "tell", "isatty", "readable", "writable"):
            return T.app("file." + name, o.name)
        return T.app("file." + name, o.name, *args)

    def sio_lines(self, v, st):
        o = st.heap[v.args[0]]
        if o.pos == "start":
            try:
                segs, tail = T.split_lines(o.content)
                if not is_k(tail, ""):
                    segs = list(segs) + [it(tail)]
                st.heap[v.args[0]] = o.with_(pos="end")
                return seq(*segs)
            except T.CannotSplit as e:
                self.ip.note("cannot split text into lines: %s" % e)
                return T.app("splitlines", o.content, TRUE, ty=("seq", "str"))
        if o.pos == "end":
            return NIL
        return unk("buffer position", ("seq", "str"))

    def sio_method(self, v, o, name, args, kwargs, st, node):
        ip = self.ip
        oid = v.args[0]
        if name == "write":
            s = args[0]
            if o.pos in ("end",) or is_k(o.content, ""):
                st.heap[oid] = o.with_(content=T.cat(o.content, s), pos="end")
            else:
                st.heap[oid] = o.with_(content=unk("overwrite in buffer", "str"), pos="unknown")
            return T.length(s)
        if name == "writelines":
            return self.sio_method(v, o, "write", [T.join(EMPTY, ip.freeze(self.tolist(args[0], st), st))], {}, st, node)
        if name == "getvalue":
            return o.content
        if name == "seek":
            pos = "unknown"
            if is_k(args[0], 0):
                pos = "start" if len(args) < 2 or is_k(args[1], 0) else ("end" if is_k(args[1], 2) else "unknown")
            st.heap[oid] = o.with_(pos=pos)
            return args[0]
        if name == "read":
            if o.pos == "start":
                st.heap[oid] = o.with_(pos="end")
                return o.content
            if o.pos == "end":
                return EMPTY
            return unk("buffer position", "str")
        if name == "readlines":
            return ip.new_list(self.sio_lines(v, st), st)
        if name == "readline":
            l = self.sio_lines(v, st)
            r = T.get(l, ZERO)
            rest = T.slice_(l, ONE, T.length(l))
            st.heap[oid] = o.with_(content=T.join(EMPTY, rest), pos="start")
            ip.note("readline from memory buffer")
            return r
        if name in ("close", "flush"):
            return NONE
        if name in ("__enter__",):
            return v
        if name == "truncate":
            st.heap[oid] = o.with_(content=EMPTY if args and is_k(args[0], 0) else o.content)
            return ZERO
        return unk("buffer method " + name)

    # --------------------------------------------------------------- external
    def ext_attr(self, path, name, st):
        p = path + "." + name
        consts = {"sys.version_info": None, "os.sep": K("/"), "os.linesep": K("\n"), "sys.maxsize": K(2 ** 63 - 1),
                  "string.whitespace": K(string.whitespace), "string.digits": K(string.digits),
                  "re.IGNORECASE": K(2), "re.I": K(2), "numpy.nan": T.app("nan", ty="real")}
        v = consts.get(p)
        if v is not None:
            return v
        if p == "sys.argv":
            if getattr(self.ip, "argv", None) is not None:
                return self.ip.new_list(seq(*[it(K(x)) for x in self.ip.argv]), st)
            r = T.sym("sys.argv", ("seq", "str"))
            return r
        if p == "os.environ":
            return T.mk("obj", ("os.environ",), "obj") if False else obj("ext", "os.environ")
        r = st.heap.get(("X", p))
        if r is not None:
            return r
        return obj("ext", p)

    def call_ext(self, path, args, kwargs, st, node):
        ip = self.ip
        args = [a.args[1] if a.op == "maybe" else a for a in args]
        h = ip.hooks.get("ext:" + path)
        if h is not None:
            r = h(ip, args, kwargs, st, node)
            if r is not None:
                return r
        tail = path.split(".")[-1]
        if path.startswith(PURE_NONE_EXT):
            if tail == "getLogger":
                return obj("ext", "logging.Logger")
            return NONE
        if path in ("io.StringIO", "StringIO.StringIO"):
            c = args[0] if args else EMPTY
            oid = new_oid("sio")
            st.heap[oid] = HSIO(c, "start")
            return ref(oid)
        if path in ("sys.exit", "os._exit", "exit", "quit"):
            ip.event("exit", *[ip.freeze(a, st) for a in args])
            ip.exits.append((st.path, args, ip.site(node)))
            ip.do_raise(st, "SystemExit", None, node)
        if path == "copy.deepcopy":
            return self.deepcopy(args[0], st, {})
        if path == "copy.copy":
            return self.shallow(args[0], st)
        if path.startswith("os.path."):
            return self.os_path(tail, args, st, node)
        if path == "os.environ.get" or path == "os.getenv":
            if ip.set_order and not (args and is_k(args[0]) and str(kv(args[0])).startswith("NAPPY_")):
                return T.app("call:os.environ", *[ip.freeze(a, st) for a in args], ty="str")
            return args[1] if len(args) > 1 else NONE
        if path.startswith("re."):
            return self.re_call(tail, args, kwargs, st, node)
        if path == "functools.partial":
            return T.mk("partial", ((args[0], tuple(args[1:]), tuple(sorted(kwargs.items()))),), "obj")
        if path == "functools.reduce":
            return self.reduce(args, st, node)
        if path == "importlib.import_module" and is_k(args[0]) and ip.is_local(kv(args[0])):
            ip.import_module(kv(args[0]), st)
            return obj("mod", kv(args[0]))
        if path.startswith("itertools.chain"):
            if tail == "from_iterable":
                return ip.new_list(self.flatten(NIL, self.tolist(args[0], st), st), st)
            return ip.new_list(seq(*[spl(self.tolist(a, st)) for a in args]), st)
        if path == "itertools.count":
            return T.app("range", args[0] if args else ZERO, T.app("infinity", ty="int"), ONE)
        if path == "itertools.islice" and len(args) == 2:
            s = self.tolist(args[0], st)
            return ip.new_list(T.slice_(s, ZERO, ip.clamp(args[1], T.length(s), ZERO, st)), st)
        if path == "itertools.repeat" and len(args) == 2:
            return ip.new_list(seq(rep(asint(args[1]), fresh("i", "int", nat=True), it(args[0]))), st)
        if path.startswith("operator."):
            if tail == "itemgetter" and len(args) == 1:
                return T.mk("partial", ((obj("ext", "operator.getitem_rev"), (args[0],), ()),), "obj")
            if tail == "getitem_rev":
                return ip.subscript(args[1], args[0], st, node)
            if tail == "mul":
                return self.binop(ast.Mult(), args[0], args[1], st, node)
            if tail == "add":
                return self.binop(ast.Add(), args[0], args[1], st, node)
        if path == "math.prod":
            return self.reduce([obj("ext", "operator.mul"), args[0], ONE], st, node)
        if path in ("numpy.int32", "numpy.int64", "numpy.intc") and len(args) == 1:
            return T.app("np.int32", ip.freeze(args[0], st), ty="int") if False else T.app("call:" + path, ip.freeze(args[0], st))
        if path == "time.time":
            return T.app("now", ty="real")
        if path == "time.strftime" and is_k(args[0]) and ip.unroll and len(args) < 3:
            return clock_text(kv(args[0]))
        if path == "time.strftime":
            return T.app("strftime", *[ip.freeze(a, st) for a in args], ty="str")
        if path.startswith("time.") or path.startswith("datetime."):
            return T.app("call:" + path, *[ip.freeze(a, st) for a in args])
        if path == "sys.stdout.write" or path == "sys.stderr.write":
            ip.event("print", *[ip.freeze(a, st) for a in args])
            return NONE
        if path in ("getopt.getopt", "getopt.gnu_getopt") and args:
            w = [ip.aslist(a, st) if a.op in ("ref", "path") else a for a in args]
            lists = [None if x is None else [g.args[0] for g in segs_of(x)] if x.op == "seq" and all(g.op == "it" for g in segs_of(x)) else list(x.args) if x.op == "tuple" else [] if x is NIL else None for x in w[:1] + w[2:]]
            if None not in w and is_k(w[1]) and all(l is not None and all(is_k(x) for x in l) for l in lists):
                try:
                    opts, rest = getattr(getopt, path.split(".")[1])([kv(x) for x in lists[0]], kv(w[1]), *[[kv(x) for x in l] for l in lists[1:]])
                except getopt.GetoptError as e:
                    ip.do_raise(st, "GetoptError", K(str(e)), node)
                return T.tup(ip.new_list(seq(*[it(T.tup(K(a), K(b))) for a, b in opts]), st), ip.new_list(seq(*[it(K(x)) for x in rest]), st))
        if path == "getopt.getopt":
            r = T.app("getopt", *[ip.freeze(a, st) for a in args])
            ip.event("getopt", *[ip.freeze(a, st) for a in args])
            return r
        if path in ("tempfile.mkdtemp", "os.remove", "os.unlink", "os.rename", "shutil.rmtree", "os.makedirs", "os.system"):
            ip.event("fs-effect", K(path), *[ip.freeze(a, st) for a in args])
            return NONE
        base = path.rsplit(".", 1)[0]
        fz = [ip.freeze(a, st) for a in args]
        for k in sorted(kwargs):
            fz.append(T.tup(K(k), ip.freeze(kwargs[k], st)))
        ip.event("ext-call", path, tuple(fz))
        if path in PURE_EXT:
            import importlib
            m, _, f = path.rpartition(".")
            c = self.concretely((lambda *a, **k: (lambda r: list(r) if m == "itertools" else r)(getattr(importlib.import_module(m), f)(*a, **k))), args, kwargs, st, node)
            if c is not None:
                return c
        if tail[:1].isupper() and path in EXT_CLASSES:
            return self.ext_new(path, args, kwargs, st, node)
        return T.app("call:" + path, *fz)

    def reduce(self, args, st, node):
        ip = self.ip
        s = args[1]
        acc0 = args[2] if len(args) > 2 else None
        if acc0 is None:
            l = self.tolist(s, st)
            acc0 = T.get(l, ZERO)
            s = ip.new_list(T.slice_(l, ONE, T.length(l)), st)
        env = st.env
        st.env = dict(env)
        st.env["$red"] = acc0

        def body(s2, e):
            s2.env["$red"] = ip.call(args[0], [s2.env["$red"], e], {}, s2, node)
            return Flow(s2)
        fl = ip.iterate(s, st, body, node)
        if fl.fall is None:
            raise Dead()
        r = fl.fall.env["$red"]
        st.set_from(fl.fall)
        st.env = env
        T.set_facts(st.facts)
        return r

    def deepcopy(self, v, st, memo):
        ip = self.ip
        if v.op == "maybe":
            return T.mk("maybe", (v.args[0], self.deepcopy(v.args[1], st, memo)), "any")
        if v.op == "path":
            return ip.new_list(ip.freeze(v, st), st)
        if v.op == "tuple":
            return T.tup(*[self.deepcopy(x, st, memo) for x in v.args])
        if v.op == "ite":
            return T.ite(v.args[0], self.deepcopy(v.args[1], st, memo), self.deepcopy(v.args[2], st, memo))
        if v.op != "ref":
            return v
        if v in memo:
            return memo[v]
        o = st.heap.get(v.args[0])
        if isinstance(o, HList):
            r = ip.new_list(ip.freeze(o.content, st), st, cls=type(o))
            memo[v] = r
            return r
        if isinstance(o, HDict):
            r = ip.new_obj(HDict({}, o.base), st, "D")
            memo[v] = r
            items = {k: self.deepcopy(x, st, memo) for k, x in o.items.items()}
            st.heap[r.args[0]] = HDict(items, o.base)
            return r
        if isinstance(o, HInst):
            r = ip.new_obj(HInst(o.cls), st, "copy")
            memo[v] = r
            st.heap[r.args[0]] = HInst(o.cls, {k: self.deepcopy(x, st, memo) for k, x in o.attrs.items()})
            return r
        return v

    def shallow(self, v, st):
        ip = self.ip
        if v.op == "path":
            return ip.new_list(ip.deref(v, st), st)
        o = st.heap.get(v.args[0]) if v.op == "ref" else None
        if isinstance(o, HList):
            return ip.new_list(o.content, st, cls=type(o))
        if isinstance(o, HDict):
            return ip.new_obj(HDict(o.items, o.base), st, "D")
        if isinstance(o, HInst):
            return ip.new_obj(HInst(o.cls, o.attrs), st, "copy")
        return v

    def os_path(self, name, args, st, node):
        ip = self.ip
        xs = [ip.freeze(a, st) for a in args]
        if strs(*xs) and name in ("join", "dirname", "basename", "splitext", "normpath", "split", "abspath"):
            r = getattr(os.path, name)(*[kv(x) for x in xs])
            if isinstance(r, tuple):
                return T.tup(*[K(y) for y in r])
            return K(r)
        if name == "splitext" or name == "split":
            return T.tup(T.app("os.path.%s0" % name, *xs, ty="str"), T.app("os.path.%s1" % name, *xs, ty="str"))
        if name in ("exists", "isfile", "isdir"):
            known = getattr(ip, "known_text", None)
            if known is not None and len(xs) == 1 and is_k(xs[0]) and name in ("isfile", "isdir", "exists") and kv(xs[0]) in known:
                return FALSE if name == "isdir" else TRUE
            return T.app("os.path." + name, *xs, ty="bool")
        if name in ("getsize",):
            return T.app("os.path." + name, *xs, ty="int")
        return T.app("os.path." + name, *xs, ty="str")

    known_match_ = staticmethod(known_match)

    def pattern(self, p):
        if p.op == "app" and p.args[0] == "regex":
            return p.args[1][0]
        return p

    def re_call(self, name, args, kwargs, st, node):
        ip = self.ip
        xs = [ip.freeze(a, st) for a in args]
        if name == "compile":
            return T.app("regex", *xs)
        if name in ("match", "search", "fullmatch"):
            extra = xs[2:] + [kwargs[k] for k in sorted(kwargs)]
            nm = {"match": "rematch", "search": "rematch", "fullmatch": "rematch"}[name]
            pat = self.pattern(xs[0])
            if not extra and len(xs) == 2:
                r = known_match(pat, xs[1], name)
                if r is not None:
                    return T.app("rematch", pat, xs[1]) if r[0] and name == "match" else T.app("rematch", T.app("search", pat), xs[1]) if r[0] and name == "search" else (
                        NONE if not r[0] else T.app("rematch", pat, xs[1]))
            if name == "search" and not (is_k(pat) and kv(pat).startswith("^")):
                return T.app("rematch", T.app("search", pat, *extra) if not is_k(pat) or True else pat, xs[1])
            return T.app("rematch", pat if not extra else T.app("flags", pat, *extra), xs[1])
        if name in ("sub", "split", "findall") and all(is_k(a) for a in [self.pattern(xs[0])] + xs[1:]) and not kwargs and strs(self.pattern(xs[0]), xs[-1]):
            try:
                r = getattr(re, name)(kv(self.pattern(xs[0])), *[kv(a) for a in xs[1:]])
            except (re.error, TypeError):
                r = None
            if isinstance(r, str):
                return K(r)
            if isinstance(r, list):
                return ip.new_list(seq(*[it(K(y) if not isinstance(y, tuple) else T.tup(*[K(z) for z in y])) for y in r]), st)
        if name == "split":
            pat = self.pattern(xs[0])
            if is_k(pat) and regex_kind(kv(pat)) == "blanks" and len(xs) == 2 and xs[1].op == "strip" and xs[1].args[0] == "b" \
                    and xs[1].args[1] is None:
                return ip.new_list(T.tokens(xs[1]), st)
            return ip.new_list(T.app("re.split", pat, *xs[1:], ty=("seq", "str")), st)
        if name == "sub":
            pat = self.pattern(xs[0])
            if is_k(pat) and regex_needs_control_char(kv(pat)):
                return xs[2]
            return T.app("re.sub", pat, *xs[1:], ty="str")
        if name == "findall":
            return ip.new_list(T.app("re.findall", self.pattern(xs[0]), *xs[1:], ty=("seq", "any")), st)
        if name == "escape":
            return K(re.escape(kv(xs[0]))) if strs(xs[0]) else T.app("re.escape", *xs, ty="str")
        return T.app("re." + name, *xs)

    # -------------------------------------------------------- opaque values
    def opaque_attr(self, v, name, st):
        if v.op == "app" and v.args[0] in ("regex", "rematch"):
            return T.mk("tmeth", (v, name), "obj") if False else T.app("attr", v, K(name))
        h = self.ip.hooks.get("attr")
        if h is not None:
            return h(self.ip, v, name, st)
        return None

    def opaque_getitem(self, v, i, st):
        ip = self.ip
        i = ip.freeze(i, st)
        r = st.heap.get(("I", v, i))
        if r is not None:
            return r
        h = ip.hooks.get("getitem")
        if h is not None:
            r = h(ip, v, i, st)
            if r is not None:
                return r
        v = ip.freeze(v, st)
        if i.ty == "int":
            return T.get(v, i)
        return T.app("getitem", v, i)

    def opaque_slice(self, v, lo, hi, step, st):
        f = lambda x: NONE if x is None else x
        if (lo is None or lo is NONE) and (hi is None or hi is NONE) and (step is None or step is NONE):
            return v
        return T.app("getslice", v, f(lo), f(hi), f(step))

    def opaque_iter(self, v, st):
        v = self.ip.freeze(v, st)
        h = self.ip.hooks.get("iter")
        if h is not None:
            r = h(self.ip, v, st)
            if r is not None:
                return r
        n = T.length(v) if v.ty == "any" else T.mk("len", (v,), "int")
        return n, (lambda i: T.get(v, i))

    def opaque_nth(self, v, k, n, st):
        v = self.ip.freeze(v, st)
        return T.get(v, K(k))

    def inst_getitem(self, v, o, i, st):
        return T.app("getitem", self.ip.freeze(v, st), self.ip.freeze(i, st))

    def inst_slice(self, v, o, lo, hi, step, st):
        f = lambda x: NONE if x is None else x
        r = self.ip.dunder("__getitem__", v, [T.mk("sliceobj", (f(lo), f(hi), f(step)), "slice")], st)
        if r is not None:
            return r
        return T.app("getslice", self.ip.freeze(v, st), f(lo), f(hi), f(step))

    def struct_attr(self, v, name, st):
        return T.app("attr", v, K(name))

    def struct_getitem(self, v, i, st):
        return T.app("getitem", v, i)

    def ext_new(self, path, args, kwargs, st, node):
        return None

    def ext_inst_attr(self, v, o, name, st, node):
        return None

    def ext_inst_setattr(self, v, o, name, val, st):
        return False

    def ext_init(self, r, c, args, kwargs, st):
        pass

    # configparser subclasses
    def ext_base_attr(self, v, o, e, name, st):
        if e.op == "ext" and "configparser" in e.args[0]:
            return T.mk("tmeth", (T.mk("confp", (v,), "obj"), name), "obj") if False else obj("bm", (v, obj("ext", "confp." + name)))
        if e.op == "builtin" and e.args[0] in ("dict", "list", "object"):
            return None
        if e.op == "ext":
            return obj("bm", (v, T.app("extmeth", e, K(name))))
        return None

    def call_opaque(self, fn, args, kwargs, st, node):
        ip = self.ip
        if fn.op == "app" and fn.args[0] == "attr":
            target, nm = fn.args[1]
            name = kv(nm)
            if target.op == "app" and target.args[0] == "regex":
                return self.re_call(name, [target.args[1][0]] + args, kwargs, st, node) if len(target.args[1]) == 1 else \
                    self.re_call(name, [T.app("flags", *target.args[1])] + args, kwargs, st, node)
            if target.op == "app" and target.args[0] == "rematch":
                pat, x = target.args[1]
                r = known_match(pat, x)
                if r is not None and r[1] is not None and name in ("group", "groups") and all(is_k(a) for a in args) and not kwargs:
                    g = getattr(r[1], name)(*[kv(a) for a in args])
                    return T.tup(*[K(y) for y in g]) if isinstance(g, tuple) else K(g)
                if name == "groups":
                    return T.app("regroups", pat, x)
                if name == "group":
                    if not args:
                        return T.app("regroup", pat, x, ZERO, ty="str")
                    if len(args) == 1:
                        return T.app("regroup", pat, x, args[0], ty="str")
                    return T.tup(*[T.app("regroup", pat, x, a, ty="str") for a in args])
            h = ip.hooks.get("mcall")
            if h is not None:
                r = h(ip, target, name, args, kwargs, st, node)
                if r is not None:
                    return r
            fz = [ip.freeze(a, st) for a in args]
            for k in sorted(kwargs):
                fz.append(T.tup(K(k), ip.freeze(kwargs[k], st)))
            ip.event("opaque-call", target, name, tuple(fz))
            return T.app("mcall", ip.freeze(target, st), nm, *fz)
        fz = [ip.freeze(a, st) for a in args]
        for k in sorted(kwargs):
            fz.append(T.tup(K(k), ip.freeze(kwargs[k], st)))
        return T.app("apply", ip.freeze(fn, st), *fz)

    def try_outcome(self, s, before, own, body_end):
        return None


EXT_CLASSES = set()


def _regroups_get(a, ty):
    return None


# groups()[k] -> regroup k+1
_old_get = T.get


def _get(s, i):
    if s.op == "app" and s.args[0] == "regroups" and is_k(i) and isinstance(kv(i), int) and kv(i) >= 0:
        return T.app("regroup", s.args[1][0], s.args[1][1], K(kv(i) + 1), ty="str")
    return _old_get(s, i)


T.get = _get


# --------------------------------------------------------------- config files

class _Conf(configparser.RawConfigParser):
    optionxform = str


def conf_call(ip, name, args, kwargs, st, node):
    """Model of RawConfigParser methods on the repository's own .ini files (read as data)."""
    self_, rest = args[0], args[1:]
    o = st.heap[self_.args[0]]
    files = o.attrs.get("$files", T.tup())

    def load():
        c = _Conf()
        ox, _ = o.cls.args[0].lookup("optionxform") if o.cls.op == "cls" else (None, None)
        if ox is None:
            c.optionxform = lambda s: s.lower()
        for f in files.args:
            if is_k(f):
                p = os.path.normpath(kv(f))
                if os.path.exists(p):
                    c.read(p)
        return c
    if name == "read":
        st.heap[self_.args[0]] = o.with_(attrs=dict(o.attrs, **{"$files": T.tup(*(files.args + (ip.freeze(rest[0], st),)))}))
        return NONE
    c = load()
    if any(not is_k(f) for f in files.args):
        return T.app("conf." + name, files, *rest)
    try:
        if name == "sections":
            return ip.new_list(seq(*[it(K(x)) for x in c.sections()]), st)
        if name == "options":
            return ip.new_list(seq(*[it(K(x)) for x in c.options(kv(rest[0]))]), st)
        if name == "get":
            return K(c.get(kv(rest[0]), kv(rest[1])))
        if name == "items":
            return ip.new_list(seq(*[it(T.tup(K(a), K(b))) for a, b in c.items(kv(rest[0]))]), st)
        if name == "has_section":
            return K(c.has_section(kv(rest[0])))
        if name == "has_option":
            return K(c.has_option(kv(rest[0]), kv(rest[1])))
    except configparser.Error as e:
        ip.do_raise(st, type(e).__name__, K(str(e)), node)
    return T.app("conf." + name, files, *rest)


_orig_call_ext = Models.call_ext


def _call_ext(self, path, args, kwargs, st, node):
    if path.startswith("confp."):
        return conf_call(self.ip, path[6:], args, kwargs, st, node)
    return _orig_call_ext(self, path, args, kwargs, st, node)


Models.call_ext = _call_ext
