"""Denotation of normal forms.

`ev(t, env)` gives the value a normal form denotes for given values of its free
symbols.  It never executes code of the analysed program: it evaluates the
dataflow equations the analysis extracted (and, identically, those of the
reference), which is how a mismatch between two normal forms is told apart from
two different ways of writing the same thing.
"""
import re
import math
from . import terms as T
from .terms import Term, kv


def _fd(a, b):
    if b == 0:
        raise EvErr("division by zero")
    return a // b


OPS = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
    "/": lambda a, b: _div(a, b), "//": _fd, "mod": lambda a, b: _mod(a, b), "**": lambda a, b: a ** b,
}


def _div(a, b):
    if b == 0:
        raise EvErr("division by zero")
    return a / b


def _mod(a, b):
    if not isinstance(a, str) and b == 0:
        raise EvErr("division by zero")
    return a % b


class EvErr(Exception):
    """The normal form has no value here (index error, conversion error ...)."""


class Unknown(Exception):
    """The analysis does not know (never a verdict)."""


class Cursor(object):
    __slots__ = ("lines", "pos", "soft", "_cache")

    def __init__(self, lines, pos=0, soft=False):
        self.lines, self.pos, self.soft = lines, pos, soft

    def line(self):
        if self.pos < 0:
            raise EvErr("line before the start")
        if self.pos < len(self.lines):
            return self.lines[self.pos]
        if self.soft:
            return ""
        raise EvErr("read past the last line")

    def adv(self, n):
        return Cursor(self.lines, self.pos + n, self.soft)

    def tokens_upto(self, n, dec=True):
        """(list of the tokens of whole lines until n are collected, next line)"""
        out, p = [], self.pos
        while len(out) < n:
            if p >= len(self.lines):
                raise EvErr("end of file inside a list of values")
            s = self.lines[p]
            out.extend(decomment(s, dec).split())
            p += 1
        return out, p

    def tok(self, j, dec=True):
        if j < 0:
            raise EvErr("negative token")
        return self.tokens_upto(j + 1, dec)[0][j]


class Struct(object):
    def __init__(self, cls, items):
        self.cls, self.items = cls, items

    def __eq__(self, o):
        return isinstance(o, Struct) and self.items == o.items

    __hash__ = None


_dec = re.compile(r"^(.+)\{[^{}]*\}\s*$")


def decomment(s, tag="decomment"):
    if tag is False or tag == "plain":
        return s
    m = re.match(tag[3:], s) if isinstance(tag, str) and tag.startswith("rx:") else _dec.match(s)
    return m.group(1) if m else s


class FileText(object):
    """A text file given by its lines (each with its newline)."""

    def __init__(self, lines):
        self.lines = lines


_strict = object()


class Ev(object):
    def __init__(self, env, apps=None, budget=4000000, fileof=None):
        self.env = dict(env)
        self.bv = {}
        self.memo = {}
        self.apps = apps or {}
        self.budget = budget
        self.fileof = fileof       # name -> list of lines

    # ---- entry
    def __call__(self, t):
        return self.ev(t)

    def ev(self, t):
        closed = t.h == 0
        if closed:
            if t in self.memo:
                r = self.memo[t]
                if isinstance(r, Exception):
                    raise r
                return r
        self.budget -= 1
        if self.budget < 0:
            raise Unknown("evaluation budget")
        try:
            r = self.dispatch(t)
        except (IndexError, ValueError, TypeError, KeyError, ZeroDivisionError, AttributeError) as e:
            x = EvErr("%s: %s in %s" % (type(e).__name__, e, T.show(t)[:160]))
            if closed:
                self.memo[t] = x
            raise x
        except (EvErr, Unknown) as e:
            if closed:
                self.memo[t] = e
            raise
        if closed:
            self.memo[t] = r
        return r

    def dispatch(self, t):
        f = getattr(self, "o_" + t.op.replace("-", "_"), None)
        if f is None:
            raise Unknown("no denotation for %s" % t.op)
        return f(t)

    def bind(self, b, v):
        old = self.bv.get(b, _strict)
        self.bv[b] = v
        return old

    def unbind(self, b, old):
        if old is _strict:
            self.bv.pop(b, None)
        else:
            self.bv[b] = old

    # ---- atoms
    def o_K(self, t):
        return kv(t)

    def o_sym(self, t):
        if t in self.env:
            return self.env[t]
        if t.args[0] in self.env:
            return self.env[t.args[0]]
        raise Unknown("free symbol %s" % (t.args[0],))

    def o_bv(self, t):
        if t in self.bv:
            return self.bv[t]
        raise Unknown("unbound variable")

    def o_unk(self, t):
        raise Unknown(str(t.args[0]))

    def o_undef(self, t):
        raise EvErr("unbound name")

    # ---- arithmetic / logic
    def o_poly(self, t):
        tot = 0
        for m, c in t.args:
            v = c
            for x in m:
                y = self.ev(x)
                if isinstance(y, str) or y is None or isinstance(y, (list, tuple)):
                    raise EvErr("arithmetic on %r" % (y,))
                v = v * y
            tot += v
        return tot

    def num(self, t):
        v = self.ev(t)
        if isinstance(v, (str, list, tuple)) or v is None:
            raise EvErr("number expected, got %r" % (v,))
        return v

    def o_ge0(self, t):
        return self.num(t.args[0]) >= 0

    def o_eq0(self, t):
        return self.num(t.args[0]) == 0

    def o_lt(self, t):
        return self.ev(t.args[0]) < self.ev(t.args[1])

    def o_eq(self, t):
        return self.ev(t.args[0]) == self.ev(t.args[1])

    def o_not(self, t):
        return not self.ev(t.args[0])

    def o_and(self, t):
        # conjuncts are unordered: a conjunct without value only matters when no other is false
        err = None
        for x in t.args:
            try:
                if not self.ev(x):
                    return False
            except (EvErr, Unknown) as e:
                err = err or e
        if err:
            raise err
        return True

    def o_or(self, t):
        err = None
        for x in t.args:
            try:
                if self.ev(x):
                    return True
            except (EvErr, Unknown) as e:
                err = err or e
        if err:
            raise err
        return False

    def o_ite(self, t):
        return self.ev(t.args[1]) if self.ev(t.args[0]) else self.ev(t.args[2])

    def o_any(self, t):
        n = self.ev(t.args[0])
        b = t.args[1]
        for j in range(n):
            old = self.bind(b, j)
            try:
                if self.ev(t.args[2]):
                    return True
            finally:
                self.unbind(b, old)
        return False

    def o_first(self, t):
        n = self.ev(t.args[0])
        b = t.args[1]
        for j in range(n):
            old = self.bind(b, j)
            try:
                if self.ev(t.args[2]):
                    return j
            finally:
                self.unbind(b, old)
        return n

    def o_wtrip(self, t):
        b = t.args[0]
        for j in range(10000):
            old = self.bind(b, j)
            try:
                if not self.ev(t.args[1]):
                    return j
            finally:
                self.unbind(b, old)
        raise EvErr("does not terminate")

    def o_max0(self, t):
        return max(0, self.ev(t.args[0]))

    def o_sum(self, t):
        n = self.ev(t.args[0])
        b = t.args[1]
        s = 0
        for j in range(n):
            old = self.bind(b, j)
            try:
                s += self.ev(t.args[2])
            finally:
                self.unbind(b, old)
        return s

    def o_iter(self, t):
        n, b1, b2, body, init = t.args
        n = self.ev(n)
        # iterating from the start every time is quadratic: cache the states
        key = None
        if body.h <= max(b1.h, b2.h) and init.h == 0 and not self._outer(body, b1, b2):
            key = (t.args[1:],)
            key = (b1, b2, body, init)
        cache = self.memo.setdefault(("iter", key), [None]) if key is not None else None
        if cache is not None:
            if cache[0] is None:
                cache[0] = [self.ev(init)]
            states = cache[0]
        else:
            states = [self.ev(init)]
        if n < 0:
            n = 0
        while len(states) <= n:
            j = len(states) - 1
            o1, o2 = self.bind(b1, j), self.bind(b2, states[-1])
            try:
                v = self.ev(body)
            finally:
                self.unbind(b1, o1)
                self.unbind(b2, o2)
            states.append(v)
        return states[n]

    def _outer(self, body, b1, b2, _m={}):
        k = (body, b1, b2)
        if k not in _m:
            inner = set()
            free = False
            for s in T.subterms(body):
                if s.op in T._BINDERS:
                    for j in T._BINDERS[s.op]:
                        inner.add(s.args[j])
            for s in T.subterms(body):
                if s.op == "bv" and s is not b1 and s is not b2 and s not in inner:
                    free = True
            _m[k] = free
        return _m[k]

    # ---- sequences
    def segs(self, ss, out):
        for s in ss:
            if s.op == "it":
                out.append(self.ev(s.args[0]))
            elif s.op == "spl":
                v = self.ev(s.args[0])
                if isinstance(v, Cursor):
                    v = v.lines[v.pos:]
                if isinstance(v, dict):
                    v = list(v)
                if not isinstance(v, (list, tuple)):
                    raise EvErr("not a sequence: %r" % (v,))
                out.extend(v)
            elif s.op == "alt":
                v = self.ev(s.args[1]) if self.ev(s.args[0]) else self.ev(s.args[2])
                out.extend(v)
            elif s.op == "rep":
                n = self.ev(s.args[0])
                b = s.args[1]
                for j in range(n):
                    old = self.bind(b, j)
                    try:
                        self.segs(s.args[2:], out)
                    finally:
                        self.unbind(b, old)
            else:
                raise Unknown("segment %s" % s.op)
        return out

    def o_seq(self, t):
        return self.segs(t.args, [])

    def o_tuple(self, t):
        return tuple(self.ev(x) for x in t.args)

    def o_get(self, t):
        s, i = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(s, dict):
            if i not in s:
                raise EvErr("KeyError %r" % (i,))
            return s[i]
        if isinstance(s, Cursor):
            s = s.lines[s.pos:]
        if isinstance(s, Struct):
            raise Unknown("struct index")
        if not isinstance(s, (list, tuple, str)):
            raise EvErr("not indexable: %r" % (s,))
        if isinstance(i, float) or isinstance(i, str):
            raise EvErr("index %r" % (i,))
        if i >= len(s) or i < -len(s):
            raise EvErr("index %r out of range %d" % (i, len(s)))
        return s[i]

    def o_slice(self, t):
        s = self.ev(t.args[0])
        if isinstance(s, Cursor):
            s = s.lines[s.pos:]
        lo, hi = self.ev(t.args[1]), self.ev(t.args[2])
        if lo < 0 or hi < 0:
            # normalised slices are over 0 <= lo, hi; negative means an empty range
            lo, hi = max(lo, 0), max(hi, 0)
        return s[lo:hi]

    def o_rev(self, t):
        return list(reversed(self.ev(t.args[0])))

    def o_upd(self, t):
        s = list(self.ev(t.args[0]))
        i = self.ev(t.args[1])
        if i >= len(s) or i < -len(s):
            raise EvErr("assignment index out of range")
        s[i] = self.ev(t.args[2])
        return s

    def o_len(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, Cursor):
            return max(0, len(v.lines) - v.pos)
        if isinstance(v, (int, float)) or v is None:
            raise EvErr("len of %r" % (v,))
        return len(v)

    def o_maybe(self, t):
        if self.ev(t.args[0]):
            return self.ev(t.args[1])
        raise EvErr("not bound")

    def o_dictv(self, t):
        d = {}
        for p in t.args[0]:
            v = p.args[1]
            if v.op == "maybe" and not self.ev(v.args[0]):
                continue
            d[self.hash(self.ev(p.args[0]))] = self.ev(v.args[1] if v.op == "maybe" else v)
        if t.args[1] is not T.NONE:
            b = self.ev(t.args[1])
            b = dict(b)
            b.update(d)
            d = b
        return d

    def hash(self, v):
        return tuple(v) if isinstance(v, list) else v

    def o_struct(self, t):
        return Struct(str(t.args[0]), {kv(p.args[0]): p.args[1] for p in t.args[1]})

    # ---- strings
    def o_cat(self, t):
        out = []
        for x in t.args:
            v = self.ev(x)
            if not isinstance(v, str):
                raise EvErr("string expected: %r" % (v,))
            out.append(v)
        return "".join(out)

    def o_srep(self, t):
        n = self.ev(t.args[0])
        b = t.args[1]
        out = []
        for j in range(n):
            old = self.bind(b, j)
            try:
                out.append(self.ev(t.args[2]))
            finally:
                self.unbind(b, old)
        return "".join(out)

    def o_fmt(self, t):
        spec = self.ev(t.args[0])
        v = self.ev(t.args[1])
        if isinstance(v, Cursor):
            v = v.lines[v.pos:]
        if isinstance(spec, str) and "%" in spec:
            return spec % (v,)
        return format(v, spec)

    def o_strip(self, t):
        f = {"l": str.lstrip, "r": str.rstrip, "b": str.strip}[t.args[0]]
        s = self.ev(t.args[2])
        if not isinstance(s, str):
            raise EvErr("string expected: %r" % (s,))
        ch = t.args[1]
        if isinstance(ch, Term):
            ch = self.ev(ch)
        return f(s, ch) if ch is not None else f(s)

    def o_jn(self, t):
        sep = self.ev(t.args[0])
        xs = self.ev(t.args[1])
        return sep.join(x if isinstance(x, str) else "%s" % (x,) for x in xs)

    def o_tokens(self, t):
        return self.ev(t.args[0]).split()

    def o_conv(self, t):
        v = self.ev(t.args[1])
        k = t.args[0]
        try:
            if k == "int":
                return int(v)
            if k == "float":
                return float(v)
        except (TypeError, ValueError) as e:
            raise EvErr("%s(%r)" % (k, v))
        return str(v)

    # ---- files
    def tocur(self, v):
        if isinstance(v, Cursor):
            return v
        if isinstance(v, FileText):
            return Cursor(v.lines, 0, True)
        if isinstance(v, (list, tuple)):
            return Cursor(list(v))
        raise EvErr("not lines: %r" % (v,))

    def o_cur(self, t):
        c = self.tocur(self.ev(t.args[0]))
        for s in t.args[1:]:
            c = self.adv(c, s)
        return c

    def adv(self, c, s):
        if s.op == "ln":
            return c.adv(self.ev(s.args[0]))
        if s.op == "tk" or s.op == "rtk":
            n = self.ev(s.args[0])
            return Cursor(c.lines, c.tokens_upto(n, s.op == "tk")[1], c.soft)
        if s.op == "crep":
            n = self.ev(s.args[0])
            b = s.args[1]
            for j in range(n):
                old = self.bind(b, j)
                try:
                    for x in s.args[2:]:
                        c = self.adv(c, x)
                finally:
                    self.unbind(b, old)
            return c
        if s.op == "cgrp":
            for x in s.args:
                c = self.adv(c, x)
            return c
        raise Unknown("cursor segment %s" % s.op)

    def o_line(self, t):
        return self.tocur(self.ev(t.args[0])).line()

    def o_lns(self, t):
        c = self.tocur(self.ev(t.args[0]))
        return c.lines[c.pos:]

    def o_tok(self, t):
        return self.tocur(self.ev(t.args[0])).tok(self.ev(t.args[1]))

    def o_rawtok(self, t):
        return self.tocur(self.ev(t.args[0])).tok(self.ev(t.args[1]), kv(t.args[2]) if len(t.args) > 2 else False)

    def o_nlfor(self, t):
        c = self.tocur(self.ev(t.args[0]))
        n = self.ev(t.args[1])
        return c.tokens_upto(n, kv(t.args[2]))[1] - c.pos

    def o_toklen(self, t):
        c = self.tocur(self.ev(t.args[0]))
        n = self.ev(t.args[1])
        dec = kv(t.args[2])
        k = 0
        for s in c.lines[c.pos:c.pos + n]:
            k += len(decomment(s, dec).split())
        return k

    # ---- uninterpreted / library
    def o_app(self, t):
        name, args = t.args[0], t.args[1]
        if name in OPS and name not in self.apps:
            xs = [self.ev(x) for x in args]
            if any(x is None for x in xs):
                raise EvErr("operator on None")
            return OPS[name](*xs)
        f = self.apps.get(name) or getattr(self, "a_" + re.sub(r"\W", "_", name), None)
        if f is None:
            raise Unknown("no denotation for %s()" % name)
        return f(self, *args) if name in self.apps else f(*args)

    def a_filelines(self, name):
        n = self.ev(name)
        if self.fileof is None:
            raise Unknown("file contents")
        return Cursor(self.fileof(n), 0, True)

    def a_eof(self, name):
        return Cursor([], 0, True)

    def a_decomment(self, x, pat=None):
        return decomment(self.ev(x), "rx:" + kv(pat) if pat is not None else "decomment")

    def a_min(self, *a):
        if len(a) == 1:
            return min(self.ev(a[0]))
        return min(self.ev(x) for x in a)

    def a_max(self, *a):
        if len(a) == 1:
            return max(self.ev(a[0]))
        return max(self.ev(x) for x in a)

    def a_abs(self, x):
        return abs(self.ev(x))

    def a_ceildiv(self, a, b):
        a, b = self.ev(a), self.ev(b)
        if b == 0:
            raise EvErr("slice step zero")
        return max(0, -(-a // b))

    def a_floordiv(self, a, b):
        b = self.ev(b)
        if b == 0:
            raise EvErr("division by zero")
        return self.ev(a) // b

    def a_mod(self, a, b):
        a, b = self.ev(a), self.ev(b)
        if isinstance(a, str):
            raise Unknown("format")
        return a % b

    def a_div(self, a, b):
        b = self.ev(b)
        if b == 0:
            raise EvErr("division by zero")
        return self.ev(a) / b

    def a_pow(self, a, b):
        return self.ev(a) ** self.ev(b)

    def a_neg(self, a):
        return -self.ev(a)

    def a_str(self, x):
        return str(self.ev(x))

    def a_asstr(self, x):
        return str(self.ev(x))

    def a_list(self, x):
        v = self.ev(x)
        return list(v)

    def a_strslice(self, s, lo, hi, step):
        f = lambda x: self.ev(x)
        return self.ev(s)[slice(f(lo), f(hi), f(step))]

    def a_split(self, s, *a):
        return self.ev(s).split(*[self.ev(x) for x in a])

    def a_rsplit(self, s, *a):
        return self.ev(s).rsplit(*[self.ev(x) for x in a])

    def a_splitlines(self, s, keep=None):
        return self.ev(s).splitlines(self.ev(keep) if keep is not None else False)

    def a_in(self, x, c):
        x = self.ev(x)
        c = self.ev(c)
        return x in c

    def a_substr(self, x, c):
        return self.ev(x) in self.ev(c)

    def a_truth(self, x):
        return bool(self.ev(x))

    def a_startswith(self, s, p):
        return self.ev(s).startswith(self.ev(p))

    def a_endswith(self, s, p):
        return self.ev(s).endswith(self.ev(p))

    def a_getitem(self, s, i):
        s = self.ev(s)
        i = self.ev(i)
        if isinstance(i, float):
            raise EvErr("float index")
        return s[i]

    def o_sliceobj(self, t):
        return slice(*[self.ev(x) for x in t.args])

    def a_getslice(self, s, lo, hi, *step):
        return self.ev(s)[slice(self.ev(lo), self.ev(hi), *[self.ev(x) for x in step])]

    def a_sorted(self, x, *kw):
        o = {kw[i].args[0]: self.ev(kw[i + 1]) for i in range(0, len(kw), 2)}
        keys = {None: None, "len": len, "str": str, "int": int, "float": float, "abs": abs, "max": max, "min": min, "sum": sum}
        if set(o) - {"key", "reverse"} or o.get("key") not in keys:
            raise Unknown("sorted with options")
        try:
            return sorted(self.ev(x), key=keys[o.get("key")], reverse=bool(o.get("reverse")))
        except TypeError:
            raise EvErr("unorderable")

    def a_setof(self, x):
        out = []
        for v in self.ev(x):
            if v not in out:
                out.append(v)
        return out

    def a_sum(self, x):
        return sum(self.ev(x))

    def a_dictget(self, d, k):
        d, k = self.ev(d), self.ev(k)
        if k not in d:
            raise EvErr("KeyError %r" % (k,))
        return d[k]

    def a_dictsel(self, k, *ps):
        k = self.ev(k)
        for p in ps:
            if self.ev(p.args[0]) == k:
                return self.ev(p.args[1])
        raise EvErr("KeyError %r" % (k,))

    def a_dictsel_d(self, k, d, *ps):
        k = self.ev(k)
        for p in ps:
            if self.ev(p.args[0]) == k:
                return self.ev(p.args[1])
        return self.ev(d)

    def a_round(self, x, *n):
        return round(self.ev(x), *[self.ev(y) for y in n])

    def a_repr(self, x):
        return repr(self.ev(x))

    def a_index(self, s, x):
        return self.ev(s).index(self.ev(x))

    def a_count(self, s, x):
        return self.ev(s).count(self.ev(x))

    def a_str_replace(self, s, a, b, *n):
        return self.ev(s).replace(self.ev(a), self.ev(b), *[self.ev(x) for x in n])

    # regular expressions (library semantics)
    def rx(self, p):
        fl = 0
        how = "match"
        while p.op == "app" and p.args[0] in ("search", "flags", "regex"):
            if p.args[0] == "search":
                how = "search"
            if p.args[0] in ("flags",) or len(p.args[1]) > 1:
                raise Unknown("regex flags")
            p = p.args[1][0]
        return how, self.ev(p)

    def a_matches(self, p, x):
        how, p = self.rx(p)
        return getattr(re, how)(p, self.ev(x)) is not None

    def a_regroup(self, p, x, i):
        how, p = self.rx(p)
        m = getattr(re, how)(p, self.ev(x))
        if m is None:
            raise EvErr("no match")
        return m.group(self.ev(i))

    def a_regroups(self, p, x):
        how, p = self.rx(p)
        m = getattr(re, how)(p, self.ev(x))
        if m is None:
            raise EvErr("no match")
        return m.groups()

    def a_re_sub(self, p, r, x, *a):
        how, p = self.rx(p)
        return re.sub(p, self.ev(r), self.ev(x))

    def a_re_split(self, p, x, *a):
        how, p = self.rx(p)
        return re.split(p, self.ev(x), *[self.ev(y) for y in a])

    def a_re_findall(self, p, x):
        how, p = self.rx(p)
        return re.findall(p, self.ev(x))

    # facts about a line collecting loop
    def a_while_collecting(self, c, need, cond):
        cur_ = self.tocur(self.ev(c))
        n = self.ev(need)
        try:
            cur_.tokens_upto(n)
            eof = False
        except EvErr:
            eof = True
        if cond.op == "eq" and any(x.op == "line" for x in cond.args) and T.EMPTY in cond.args:
            return eof and n > 0
        raise Unknown("condition while collecting")

    def a_absorbed(self, c, need):
        """what a per-line cap keeps beyond the requested values"""
        cur_ = self.tocur(self.ev(c))
        n = self.ev(need)
        out, p = [], cur_.pos
        while len(out) < n:
            if p >= len(cur_.lines):
                raise EvErr("eof")
            out.extend(decomment(cur_.lines[p]).split()[:n])
            p += 1
        return out[n:]

    def a_last_line_tokens(self, *a):
        raise Unknown("last line tokens")

    def a_collected_lines(self, c, n):
        cur_ = self.tocur(self.ev(c))
        return cur_.lines[cur_.pos:cur_.pos + self.ev(n)]


def close(a, b):
    """Equality of denoted values (floats exactly, ints and integral floats alike)."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or a == b
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    return a == b
