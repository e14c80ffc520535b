"""Value domain of the abstract interpreter.

Every abstract value is an interned, normalised term.  Two program fragments that
compute the same value by different means (a loop, a comprehension, a helper, a
join, reversed slices ...) normalise to the same term; that is what makes the
comparison with a specification independent of how the code is written.

No term is ever handed to a solver: the only decision procedure is `decide`,
a syntactic check over linear facts.
"""
import itertools
import re

_TABLE = {}
_ids = itertools.count()
_fresh = itertools.count()


class Term(object):
    __slots__ = ("op", "args", "ty", "id", "h", "_fs", "_size")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id


def _key(args):
    out = []
    for a in args:
        if isinstance(a, Term):
            out.append(a.id)
        elif isinstance(a, tuple):
            out.append(_key(a))
        else:
            out.append((type(a).__name__, a))
    return tuple(out)


def mk(op, args, ty):
    k = (op, _key(args), ty)
    t = _TABLE.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.ty = op, args, ty
        t.id = next(_ids)
        t._fs = None
        t._size = None
        h = 0
        for a in _terms(args):
            if a.h > h:
                h = a.h
        if op == "bv":
            h = max(h, args[0])
        t.h = h
        _TABLE[k] = t
    return t


def _terms(args):
    for a in args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            for b in _terms(a):
                yield b


def reset():
    """Forget per-scenario declarations (terms stay interned)."""
    DECL.clear()
    NAT.clear()
    NATEL.clear()
    FMT.clear()
    NONL.clear()


# ----------------------------------------------------------------------------
# leaves

def K(v):
    if isinstance(v, bool):
        ty = "bool"
    elif isinstance(v, int):
        ty = "int"
    elif isinstance(v, float):
        ty = "real"
    elif isinstance(v, str):
        ty = "str"
    elif v is None:
        ty = "none"
    elif isinstance(v, bytes):
        ty = "bytes"
    else:
        ty = "any"
    return mk("K", (v,), ty)


TRUE = K(True)
FALSE = K(False)
NONE = K(None)
ZERO = K(0)
ONE = K(1)
EMPTY = K("")

DECL = {}     # root sym -> shape function list (dims), each: f(idx list) -> int Term
NAT = set()   # int terms known to be >= 0
NATEL = set()   # lists of ints known to be >= 0
FMT = set()   # string syms that hold exactly one % directive
NONL = set()  # string syms that may hold a newline (default: no newline)


def sym(name, ty="any", nat=False):
    t = mk("sym", (name,), ty)
    if nat:
        NAT.add(t)
    return t


def fresh(prefix, ty="any", nat=False):
    return sym("%s~%d" % (prefix, next(_fresh)), ty, nat)


def is_k(t, v=None):
    if t.op != "K":
        return False
    return True if v is None else (t.args[0] == v and type(t.args[0]) is type(v))


def kv(t):
    return t.args[0]


def obj(kind, payload, ty="obj"):
    return mk(kind, (payload,), ty)


def free(t):
    """Free sym terms."""
    if t._fs is None:
        if t.op == "sym":
            t._fs = frozenset((t,))
        else:
            s = frozenset()
            for a in _terms(t.args):
                s = s | free(a)
            t._fs = s
    return t._fs


def size(t):
    if t._size is None:
        t._size = 1 + sum(size(a) for a in _terms(t.args))
    return t._size


_unk = itertools.count()


def unk(reason, ty="any"):
    return mk("unk", (reason, next(_unk)), ty)


def has_unk(t, _memo={}):
    r = _memo.get(t)
    if r is None:
        if t.op == "unk":
            r = True
        else:
            r = any(has_unk(a) for a in _terms(t.args))
        _memo[t] = r
    return r


def unk_reasons(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if t in seen:
        return acc
    seen.add(t)
    if t.op == "unk":
        acc.add(t.args[0])
    for a in _terms(t.args):
        unk_reasons(a, acc, seen)
    return acc


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(_terms(x.args))
    return seen


# ----------------------------------------------------------------------------
# facts

class Facts(object):
    """An immutable set of assumptions valid on the current path."""
    __slots__ = ("true", "ge", "eqs")

    def __init__(self, true=frozenset(), ge=(), eqs=()):
        self.true, self.ge, self.eqs = true, ge, eqs

    def add(self, c):
        """Assume boolean term c."""
        if is_k(c):
            return self
        if c.op == "and":
            f = self
            for a in c.args:
                f = f.add(a)
            return f
        if c.op == "not" and c.args[0].op == "or":
            f = self
            for a in c.args[0].args:
                f = f.add(neg(a))
            return f
        if c in self.true:
            return self
        ge, eqs = self.ge, self.eqs
        if c.op == "ge0":
            ge = ge + (c.args[0],)
        elif c.op == "eq0":
            p = c.args[0]
            ge = ge + (p, pneg(p))
            eqs = eqs + (p,)
        elif c.op == "not" and c.args[0].op == "eq0":
            p = c.args[0].args[0]
            # n != 0 with n nat  =>  n >= 1
            if nonneg(p, self):
                ge = ge + (padd(p, K(-1)),)
            elif nonneg(pneg(p), self):
                ge = ge + (padd(pneg(p), K(-1)),)
        return Facts(self.true | {c}, ge, eqs)

    def meet(self, other):
        return Facts(self.true & other.true, tuple(g for g in self.ge if g in other.ge),
                     tuple(g for g in self.eqs if g in other.eqs))


FACTS = Facts()


def set_facts(f):
    global FACTS
    old = FACTS
    FACTS = f
    return old


class assume(object):
    def __init__(self, *conds):
        self.conds = conds

    def __enter__(self):
        f = FACTS
        for c in self.conds:
            f = f.add(c)
        self.old = set_facts(f)

    def __exit__(self, *a):
        set_facts(self.old)


# ----------------------------------------------------------------------------
# integers / reals: polynomials over atoms

def _pd(t):
    if t.op == "K" and isinstance(kv(t), (int, float)) and not isinstance(kv(t), bool):
        return {(): kv(t)} if kv(t) != 0 else {}
    if t.op == "K" and isinstance(kv(t), bool):
        return {(): int(kv(t))} if kv(t) else {}
    if t.op == "poly":
        return dict(t.args)
    return {(t,): 1}


def _mkp(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return K(c)
        if c == 1 and len(m) == 1:
            return m[0]
    ty = "int"
    for m, c in d.items():
        if isinstance(c, float):
            ty = "real"
        for a in m:
            if a.ty != "int":
                ty = "real"
    items = tuple(sorted(d.items(), key=lambda mc: tuple(x.id for x in mc[0])))
    return mk("poly", items, ty)


def padd(a, b):
    d = _pd(a)
    for m, c in _pd(b).items():
        d[m] = d.get(m, 0) + c
    return _mkp(d)


def pneg(a):
    return _mkp({m: -c for m, c in _pd(a).items()})


def psub(a, b):
    return padd(a, pneg(b))


def pmul(a, b):
    d = {}
    for m1, c1 in _pd(a).items():
        for m2, c2 in _pd(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c1 * c2
    return _mkp(d)


def add(*ts):
    r = ZERO
    for t in ts:
        r = padd(r, t)
    return r


def nat_atom(t):
    if t in NAT:
        return True
    if t.op == "conv":
        return CONV_NAT and t.args[0] == "int"
    if t.op == "get" and NATEL:
        r = t
        while r.op == "get":
            r = r.args[0]
        return r in NATEL
    if t.op in ("len", "bv", "first", "wtrip", "max0", "nlines"):
        return True
    if t.op == "sum":
        return nat_poly(t.args[2])
    if t.op == "ite":
        return nat_poly(t.args[1]) and nat_poly(t.args[2])
    if t.op == "app" and t.args[0] == "min":
        return all(nat_poly(a) for a in t.args[1])
    return False


def nat_poly(t):
    for m, c in _pd(t).items():
        if c < 0:
            return False
        if not all(nat_atom(a) for a in m):
            return False
    return True


def nonneg(p, facts=None, depth=4):
    facts = FACTS if facts is None else facts
    d = _pd(p)
    negs = [(m, c) for m, c in d.items() if c < 0 or not all(nat_atom(a) for a in m)]
    if not negs:
        return True
    if all(m == () for m in d):
        return d.get((), 0) >= 0
    if depth == 0:
        return False
    # cancel one non-certified monomial with a fact times a nat monomial
    negs.sort(key=lambda mc: (-len(mc[0]), mc[1]))
    for m, c in negs[:2]:
        if m == ():
            # constant negative: need a fact with a negative constant and positive others
            for f in facts.ge:
                fd = _pd(f)
                k = fd.get((), 0)
                if k < 0 and any(mm in d and d[mm] > 0 for mm in fd if mm != ()):
                    q = psub(p, f)
                    if q is not p and nonneg(q, facts, depth - 1):
                        return True
            continue
        for f in facts.ge:
            fd = _pd(f)
            for fm, fc in fd.items():
                if fm == () or (fc > 0) != (c > 0):
                    continue
                rest = list(m)
                ok = True
                for a in fm:
                    if a in rest:
                        rest.remove(a)
                    else:
                        ok = False
                        break
                if not ok or not all(nat_atom(a) for a in rest):
                    continue
                if c % fc != 0:
                    continue
                q = psub(p, pmul(_mkp({tuple(rest): c // fc}), f))
                if nonneg(q, facts, depth - 1):
                    return True
    return False


# ----------------------------------------------------------------------------
# booleans

def ge0(p):
    if p.op == "K" and isinstance(kv(p), (int, float)):
        return K(kv(p) >= 0)
    if p.ty == "int":
        if nonneg(p):
            return TRUE
        if nonneg(padd(pneg(p), K(-1))):
            return FALSE
        d = _pd(p)
        if len(d) >= 1:
            from math import gcd
            g = 0
            for m, c in d.items():
                if m != ():
                    g = gcd(g, abs(c))
            if g > 1:
                d = {m: (c // g) for m, c in d.items()}
                p = _mkp(d)
    if p.op == "ite":
        return ite(p.args[0], ge0(p.args[1]), ge0(p.args[2]))
    t = mk("ge0", (p,), "bool")
    return _known(t)


def _known(t):
    if t in FACTS.true:
        return TRUE
    if t.op == "not":
        if t.args[0] in FACTS.true:
            return FALSE
    else:
        for n in FACTS.true:
            if n.op == "not" and n.args[0] is t:
                return FALSE
    return t


def lt(a, b):
    if a.ty in ("int",) and b.ty in ("int",) or _isnum(a) and _isnum(b) and a.ty == b.ty == "int":
        return ge0(padd(psub(b, a), K(-1)))
    if a.op == "K" and b.op == "K":
        try:
            return K(kv(a) < kv(b))
        except TypeError:
            return unk("compare types", "bool")
    return _known(mk("lt", (a, b), "bool"))


def le(a, b):
    if a.ty == "int" and b.ty == "int":
        return ge0(psub(b, a))
    if a.op == "K" and b.op == "K":
        try:
            return K(kv(a) <= kv(b))
        except TypeError:
            return unk("compare types", "bool")
    return neg(lt(b, a))


def _isnum(t):
    return t.ty in ("int", "real")


_TYGROUP = {"int": "num", "real": "num", "bool": "num", "str": "str", "none": "none", "tuple": "tuple",
            "cls": "obj", "func": "obj"}


def tygroup(t):
    if isinstance(t.ty, tuple):
        return "seq"
    return _TYGROUP.get(t.ty)


_IDENT = ("obj", "cls", "func", "mod", "ref", "builtin")


def _fits(c, t):
    """Can the concatenation be the constant text t?"""
    ps = cat_parts(c)
    if ps[0].op == "K" and not t.startswith(kv(ps[0])) or ps[-1].op == "K" and not t.endswith(kv(ps[-1])):
        return False
    return all(kv(p) in t for p in ps if p.op == "K") and sum(len(kv(p)) for p in ps if p.op == "K") <= len(t)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "K" and b.op == "K":
        return K(kv(a) == kv(b))
    ga, gb = tygroup(a), tygroup(b)
    if ga and gb and ga != gb:
        return FALSE
    if a.op == "K" and kv(a) == "" and _solid(b, None) or b.op == "K" and kv(b) == "" and _solid(a, None):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "cat" and y.op == "K" and isinstance(kv(y), str) and not _fits(x, kv(y)):
            return FALSE
    if a.op == "ite" and (b.op == "K"):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and (a.op == "K"):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.ty == "int" and b.ty == "int":
        p = psub(a, b)
        if p.op == "K":
            return K(kv(p) == 0)
        d = _pd(p)
        lead = sorted(d, key=lambda m: tuple(x.id for x in m))[-1]
        if d[lead] < 0:
            p = pneg(p)
        if nonneg(padd(p, K(-1))) or nonneg(padd(pneg(p), K(-1))):
            return FALSE
        if FACTS.ge and nonneg(p) and nonneg(pneg(p)):
            return TRUE
        return _known(mk("eq0", (p,), "bool"))
    if a.op in _IDENT and b.op in _IDENT:
        if a.op != "ref" or b.op != "ref":
            return FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return conj(*[eq(x, y) for x, y in zip(a.args, b.args)])
    sa, sb = seq_view(a), seq_view(b)
    if sa is not None and sb is not None and (a.op == "seq" or b.op == "seq"):
        la, lb = length(a), length(b)
        if la.ty == "int" and lb.ty == "int" and eq(la, lb) is FALSE:
            return FALSE
        ia, ib = segs_of(sa), segs_of(sb)
        if sa.op == "seq" and sb.op == "seq" and len(ia) == len(ib) <= 40 and all(g.op == "it" for g in ia + ib):
            return conj(*[eq(x.args[0], y.args[0]) for x, y in zip(ia, ib)])
    if b < a:
        a, b = b, a
    return _known(mk("eq", (a, b), "bool"))


def neg(c):
    if c.op == "K":
        return K(not kv(c))
    if c.op == "not":
        return c.args[0]
    if c.op == "ge0" and c.args[0].ty == "int":
        return ge0(padd(pneg(c.args[0]), K(-1)))
    if c.op == "ite":
        return ite(c.args[0], neg(c.args[1]), neg(c.args[2]))
    return _known(mk("not", (c,), "bool"))


def conj(*cs):
    out = []
    for c in cs:
        parts = c.args if c.op == "and" else (c,)
        for p in parts:
            if p.op == "K":
                if not kv(p):
                    return FALSE
                continue
            if p not in out:
                out.append(p)
    for p in out:
        if neg(p) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(sorted(out)), "bool")


def disj(*cs):
    out = []
    for c in cs:
        parts = c.args if c.op == "or" else (c,)
        for p in parts:
            if p.op == "K":
                if kv(p):
                    return TRUE
                continue
            if p not in out:
                out.append(p)
    for p in out:
        if neg(p) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # factor: (a and b) or (a and not b) -> a
    for i, p in enumerate(out):
        for q in out[i + 1:]:
            if p.op == "and" and q.op == "and":
                ps, qs = set(p.args), set(q.args)
                dp, dq = ps - qs, qs - ps
                if len(dp) == 1 and len(dq) == 1 and neg(list(dp)[0]) is list(dq)[0]:
                    rest = [x for x in out if x is not p and x is not q]
                    return disj(conj(*(ps & qs)), *rest)
            for x, y in ((p, q), (q, p)):
                # a or (not a and b) -> a or b
                if y.op == "and" and neg(x) in y.args:
                    rest = [z for z in out if z is not y]
                    return disj(conj(*[z for z in y.args if z is not neg(x)]), *rest)
                # a or (a and b) -> a
                if y.op == "and" and (x in y.args or (x.op == "and" and set(x.args) <= set(y.args))):
                    return disj(*[z for z in out if z is not y])
    return mk("or", tuple(sorted(out)), "bool")


def decide(c):
    """TRUE/FALSE/None under the current facts."""
    if c.op == "K":
        return bool(kv(c))
    c2 = simp_bool(c)
    if c2.op == "K":
        return bool(kv(c2))
    return None


def simp_bool(c):
    if c.op == "K":
        return c
    if c in FACTS.true:
        return TRUE
    if c.op == "not":
        return neg(simp_bool(c.args[0]))
    if c.op == "and":
        return conj(*[simp_bool(a) for a in c.args])
    if c.op == "or":
        return disj(*[simp_bool(a) for a in c.args])
    if c.op == "ge0":
        return ge0(c.args[0])
    if c.op == "eq0":
        return eq(c.args[0], ZERO)
    if c.op == "any":
        return _known(c)
    return _known(c)


def ite(c, a, b):
    if c.op == "K":
        return a if kv(c) else b
    if a is b:
        return a
    d = decide(c)
    if d is not None:
        return a if d else b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op in ("and", "eq", "eq0") and a.ty == b.ty and a.ty in ("int", "str") and (a.op == "K" or b.op == "K"):
        # where the condition makes the two equal, they are the same
        if eq(a, b) in (c.args if c.op == "and" else (c,)):
            return b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    if a.ty == "bool" and b.ty == "bool":
        return disj(conj(c, a), conj(neg(c), b))
    if a.ty == "seg" or b.ty == "seg":
        raise ValueError("ite on segments")
    ta, tb = a.ty, b.ty
    # factor common structure
    if ta == "str" and tb == "str":
        r = _ite_cat(c, a, b)
        if r is not None:
            return r
    if isinstance(ta, tuple) and ta[0] == "seq" and isinstance(tb, tuple) and tb[0] == "seq":
        r = _ite_seq(c, a, b)
        if r is not None:
            return r
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return tup(*[ite(c, x, y) for x, y in zip(a.args, b.args)])
    # n > 0 with b equal to a at n = 0
    z = _zero_collapse(c, a, b)
    if z is not None:
        return z
    ty = ta if ta == tb else ("real" if {ta, tb} == {"int", "real"} else "any")
    if isinstance(ta, tuple) and isinstance(tb, tuple):
        ty = jty(ta, tb)
    return mk("ite", (c, a, b), ty)


def _zero_collapse(c, a, b):
    """ite(n > 0, A(n), B) where A(0) == B is A(n) for a count n."""
    if c.op == "ge0":
        d = _pd(c.args[0])
        atoms = [m for m in d if m != ()]
        if len(atoms) == 1 and len(atoms[0]) == 1 and d[atoms[0]] == 1 and d.get((), 0) == -1:
            n = atoms[0][0]
            if nat_atom(n) and n in subterms(a) and n.op == "sym":
                if subst(a, {n: ZERO}) is b:
                    return a
    return None


def _ite_cat(c, a, b):
    pa, pb = cat_parts(a), cat_parts(b)
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
        i += 1
    j = 0
    while j < len(pa) - i and j < len(pb) - i and pa[len(pa) - 1 - j] is pb[len(pb) - 1 - j]:
        j += 1
    if i == 0 and j == 0:
        return None
    ma, mb = cat(*pa[i:len(pa) - j]), cat(*pb[i:len(pb) - j])
    return cat(*(pa[:i] + (ite(c, ma, mb),) + (pa[len(pa) - j:] if j else ())))


def _ite_seq(c, a, b):
    sa, sb = segs_of(a), segs_of(b)
    i = 0
    while i < len(sa) and i < len(sb) and sa[i] is sb[i]:
        i += 1
    j = 0
    while j < len(sa) - i and j < len(sb) - i and sa[len(sa) - 1 - j] is sb[len(sb) - 1 - j]:
        j += 1
    if i == 0 and j == 0:
        return None
    ma, mb = seq(*sa[i:len(sa) - j]), seq(*sb[i:len(sb) - j])
    tail = sa[len(sa) - j:] if j else ()
    return seq(*(sa[:i] + (alt(c, ma, mb),) + tail))


# ----------------------------------------------------------------------------
# tuples

def tup(*vs):
    return mk("tuple", tuple(vs), "tuple")


# ----------------------------------------------------------------------------
# sequences

def elem_ty(t):
    if isinstance(t.ty, tuple) and t.ty[0] == "seq":
        return "any" if t.ty[1] == "bot" else t.ty[1]
    return "any"


def _ety(t):
    """Element type, "bot" for a list known to hold nothing yet."""
    if isinstance(t.ty, tuple) and t.ty[0] == "seq":
        return t.ty[1]
    return "any"


def jty(a, b):
    if a == b or b == "bot" or b is None:
        return a
    if a == "bot" or a is None:
        return b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return ("seq", jty(a[1], b[1]))
    if a == "ref" and isinstance(b, tuple):
        return b
    if b == "ref" and isinstance(a, tuple):
        return a
    if {a, b} == {"int", "real"}:
        return "real"
    return "any"


def it(v):
    return mk("it", (v,), "seg")


def spl(t):
    return mk("spl", (t,), "seg")


def alt(c, a, b):
    if c.op == "K":
        return spl(a if kv(c) else b)
    if a is b:
        return spl(a)
    if c.op == "not":
        c, a, b = c.args[0], b, a
    return mk("alt", (c, a, b), "seg")


def seq(*segs):
    out = []

    def push(s):
        if s.op == "spl":
            t = s.args[0]
            if t.op == "seq":
                for x in t.args:
                    push(x)
                return
            if t.op == "slice" and out and out[-1].op == "spl":
                p = out[-1].args[0]
                # slice(t,0,k) ++ slice(t,k,n) -> slice(t,0,n)
                if p.op == "slice" and p.args[0] is t.args[0] and p.args[2] is t.args[1]:
                    out.pop()
                    push(spl(slice_(t.args[0], p.args[1], t.args[2])))
                    return
            out.append(s)
            return
        if s.op == "rep":
            n = s.args[0]
            if is_k(n) and kv(n) <= 0:
                return
        if s.op == "alt":
            d = decide(s.args[0])
            if d is not None:
                push(spl(s.args[1] if d else s.args[2]))
                return
            if s.args[1].op == "seq" and not s.args[1].args and s.args[2].op == "seq" and not s.args[2].args:
                return
        out.append(s)

    for s in segs:
        push(s)
    if len(out) == 1 and out[0].op == "spl":
        return out[0].args[0]
    ety = "bot"
    for s in out:
        ety = jty(ety, _seg_ety(s))
    return mk("seq", tuple(out), ("seq", ety))


def _seg_ety(s):
    if s.op == "it":
        return s.args[0].ty
    if s.op == "rep":
        e = "bot"
        for x in s.args[2:]:
            e = jty(e, _seg_ety(x))
        return e
    if s.op == "spl":
        return _ety(s.args[0])
    if s.op == "alt":
        return jty(_ety(s.args[1]), _ety(s.args[2]))
    return "any"


NIL = mk("seq", (), ("seq", "bot"))


def segs_of(t):
    if t.op == "seq":
        return t.args
    return (spl(t),)


def seq_view(t):
    if t.op == "seq" or (isinstance(t.ty, tuple) and t.ty[0] == "seq"):
        return t
    return None


def bv(k, ty="int"):
    return mk("bv", (k,), ty)


def _close(i, parts):
    """Replace sym i by a canonical bound variable in parts; return (bv, parts)."""
    h = 0
    for p in parts:
        if p.h > h:
            h = p.h
    b = bv(h + 1, i.ty)
    return b, tuple(subst(p, {i: b}) for p in parts)


def rep(n, i, *segs):
    """for i in range(n): segs   (i is a sym term)"""
    if is_k(n):
        k = kv(n)
        if k <= 0:
            return spl(NIL)
        if k <= 6:
            out = []
            for j in range(k):
                out.extend(subst(s, {i: K(j)}) for s in segs)
            return spl(seq(*out))
    body = seq(*segs)
    segs = segs_of(body)
    if not segs:
        return spl(NIL)
    # eta: [t[i] for i in range(len t)] -> t
    if len(segs) == 1 and segs[0].op == "it" and segs[0].args[0].op == "get":
        g = segs[0].args[0]
        t, ix = g.args
        if i not in free(t):
            if ix is i:
                if length(t) is n:
                    return spl(t)
                return spl(slice_(t, ZERO, n))
            k = psub(ix, i)
            if ix.ty == "int" and i not in free(k):
                return spl(slice_(t, k, add(k, n)))
            k = padd(ix, i)
            if ix.ty == "int" and i not in free(k):
                # t[k - i], i < n   ->  reversed slice
                lo = add(psub(k, n), ONE)
                return spl(rev(slice_(t, lo, add(k, ONE))))
    b, segs2 = _close(i, segs)
    return mk("rep", (n, b) + segs2, "seg")


def open_rep(r):
    """-> (n, fresh sym, segs) of a 'rep' segment."""
    n, b = r.args[0], r.args[1]
    i = fresh("i", "int", nat=True)
    with assume(ge0(add(n, K(-1), pneg(i)))):
        return n, i, tuple(subst(s, {b: i}) for s in r.args[2:])


def seg_len(s):
    if s.op == "it":
        return ONE
    if s.op == "spl":
        return length(s.args[0])
    if s.op == "alt":
        return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    if s.op == "rep":
        n, i, segs = open_rep(s)
        ln = add(*[seg_len(x) for x in segs])
        if i not in free(ln):
            return pmul(n, ln)
        return sum_(n, i, ln)
    raise ValueError(s.op)


def sum_(n, i, e):
    if i not in free(e):
        return pmul(n, e)
    b, (e2,) = _close(i, (e,))
    return mk("sum", (n, b, e2), "int")


def root_idx(t):
    idx = []
    while t.op == "get":
        idx.append(t.args[1])
        t = t.args[0]
    return t, idx[::-1]


def length(t):
    if t.op == "K":
        if isinstance(kv(t), str):
            return K(len(kv(t)))
    if t.op == "tuple":
        return K(len(t.args))
    if t.op == "seq":
        return add(*[seg_len(s) for s in t.args])
    if t.op == "slice":
        return psub(t.args[2], t.args[1])
    if t.op == "rev":
        return length(t.args[0])
    if t.op == "upd":
        return length(t.args[0])
    if t.op == "ite":
        a, b = length(t.args[1]), length(t.args[2])
        return ite(t.args[0], a, b)
    r, idx = root_idx(t)
    if r in DECL:
        dims = DECL[r]
        if len(idx) < len(dims) and dims[len(idx)] is not None:
            return dims[len(idx)](idx)
    p = mk("len", (t,), "int")
    for e in FACTS.eqs:
        d = _pd(e)
        c = d.get((p,))
        if c in (1, -1):
            rest = dict(d)
            del rest[(p,)]
            if p in subterms(_mkp(rest)):
                continue
            q = _mkp(rest)
            return pneg(q) if c == 1 else q
    return p


def get(s, i):
    """s[i] for an int term i (already normalised to be >= 0 or a negative constant)."""
    if i.op == "ite":
        return ite(i.args[0], get(s, i.args[1]), get(s, i.args[2]))
    if s.op == "ite":
        with assume(s.args[0]):
            a = get(s.args[1], i)
        with assume(neg(s.args[0])):
            b = get(s.args[2], i)
        return ite(s.args[0], a, b)
    if s.op == "tuple" and is_k(i):
        try:
            return s.args[kv(i)]
        except IndexError:
            return unk("index out of range")
    if s.op == "K" and isinstance(kv(s), str) and is_k(i):
        try:
            return K(kv(s)[kv(i)])
        except IndexError:
            return unk("index out of range")
    if is_k(i) and isinstance(kv(i), int) and kv(i) < 0:
        if s.op == "seq" and s.args:
            # walk from the right
            k = -kv(i) - 1
            for g in reversed(s.args):
                if g.op == "it":
                    if k == 0:
                        return g.args[0]
                    k -= 1
                else:
                    break
        i = add(length(s), i)
    elif i.op not in ("K", "bv", "sym") and i.ty == "int" and s.op in ("seq", "slice", "rev", "upd") and decide(lt(i, ZERO)) is True:
        # known to be negative: counts from the end
        i = add(length(s), i)
    if s.op == "slice":
        return get(s.args[0], add(s.args[1], i))
    if s.op == "rev":
        return get(s.args[0], add(length(s.args[0]), K(-1), pneg(i)))
    if s.op == "lns":
        return line_at(cur_adv(s.args[0], ln_seg(i)))
    if s.op == "upd":
        c = eq(s.args[1], i)
        return ite(c, s.args[2], get(s.args[0], i)) if decide(c) is None else (
            s.args[2] if decide(c) else get(s.args[0], i))
    if s.op == "seq":
        off = ZERO
        segs = s.args
        for n_, g in enumerate(segs):
            last = n_ == len(segs) - 1
            loc = psub(i, off)
            ln = seg_len(g)
            inside = True if last else decide(lt(loc, ln))
            if inside is None:
                return mk("get", (s, i), elem_ty(s))
            if inside:
                if g.op == "it":
                    z = decide(eq(loc, ZERO)) if loc.ty == "int" else None
                    if z is False:
                        return unk("index out of range")
                    if z is None:
                        return mk("get", (s, i), elem_ty(s))
                    return g.args[0]
                if g.op == "spl":
                    return get(g.args[0], loc)
                if g.op == "alt":
                    return ite(g.args[0], get(g.args[1], loc), get(g.args[2], loc))
                if g.op == "rep":
                    w = len(g.args) - 2
                    if w == 1 and g.args[2].op == "it":
                        return subst(g.args[2].args[0], {g.args[1]: loc})
                    return mk("get", (s, i), elem_ty(s))
            off = add(off, ln)
        return unk("index out of range")
    return mk("get", (s, i), elem_ty(s) if isinstance(s.ty, tuple) else ("str" if s.ty == "str" else "any"))


def min_(a, b):
    d = decide(le(a, b))
    if d is True:
        return a
    if d is False:
        return b
    x, y = sorted((a, b))
    return mk("app", ("min", (x, y)), "int")


def norm_index(s, i):
    return i


def slice_(s, lo, hi):
    """s[lo:hi] with lo, hi int terms already clamped (0 <= lo <= hi <= len)."""
    if lo is ZERO and hi is length(s):
        return s
    if decide(le(hi, lo)) is True:
        return NIL if s.ty != "str" else EMPTY
    if s.op == "slice":
        return slice_(s.args[0], add(s.args[1], lo), add(s.args[1], hi))
    if s.op == "rev":
        n = length(s.args[0])
        return rev(slice_(s.args[0], psub(n, hi), psub(n, lo)))
    if s.op == "ite":
        with assume(s.args[0]):
            a = slice_(s.args[1], lo, hi)
        with assume(neg(s.args[0])):
            b = slice_(s.args[2], lo, hi)
        return ite(s.args[0], a, b)
    if s.op == "seq":
        r = _slice_segs(s.args, lo, hi)
        if r is not None:
            return r
    ty = s.ty if isinstance(s.ty, tuple) else ("str" if s.ty == "str" else ("seq", "any"))
    return mk("slice", (s, lo, hi), ty)


def _slice_segs(segs, lo, hi):
    out = []
    off = ZERO
    for k, g in enumerate(segs):
        ln = seg_len(g)
        end = add(off, ln)
        last = k == len(segs) - 1
        # fully before?
        before = decide(le(end, lo))
        if before is True:
            off = end
            continue
        after = decide(le(hi, off))
        if after is True:
            break
        if before is None and not last:
            return None
        if after is None and k > 0:
            # seg starts somewhere; need hi > off for certain, or full inclusion
            if not decide(le(off, hi)):
                return None
        a = psub(lo, off) if decide(lt(off, lo)) else ZERO
        if decide(lt(off, lo)) is None and lo is not off and not decide(le(lo, off)):
            return None
        b = ln if decide(le(end, hi)) else (psub(hi, off) if decide(le(hi, end)) else None)
        if b is None:
            if last:
                b = psub(hi, off)
            else:
                return None
        if a is ZERO and b is ln:
            out.append(g)
        elif g.op == "it":
            return None
        elif g.op == "spl":
            out.append(spl(slice_(g.args[0], a, b)))
        elif g.op == "rep" and len(g.args) == 3 and g.args[2].op == "it":
            i = fresh("i", "int", nat=True)
            out.append(rep(psub(b, a), i, subst(g.args[2], {g.args[1]: add(i, a)})))
        else:
            return None
        off = end
    return seq(*out)


def rev(t):
    if t.op == "rev":
        return t.args[0]
    if t.op == "ite":
        return ite(t.args[0], rev(t.args[1]), rev(t.args[2]))
    if t.op == "seq":
        return seq(*[_rev_seg(s) for s in reversed(t.args)])
    if t.op == "tuple":
        return tup(*reversed(t.args))
    if is_k(length(t), 0) or is_k(length(t), 1):
        return t
    return mk("rev", (t,), t.ty if isinstance(t.ty, tuple) else ("seq", "any"))


def _rev_seg(s):
    if s.op == "it":
        return s
    if s.op == "spl":
        return spl(rev(s.args[0]))
    if s.op == "alt":
        return alt(s.args[0], rev(s.args[1]), rev(s.args[2]))
    if s.op == "rep":
        n, i, segs = open_rep(s)
        j = fresh("i", "int", nat=True)
        with assume(ge0(add(n, K(-1), pneg(j)))):
            segs = tuple(_rev_seg(subst(x, {i: add(n, K(-1), pneg(j))})) for x in reversed(segs))
        return rep(n, j, *segs)
    raise ValueError(s.op)


def upd(s, i, v):
    if is_k(i) and isinstance(kv(i), int) and kv(i) < 0:
        i = add(length(s), i)
    if s.op == "upd" and s.args[1] is i:
        s = s.args[0]
    if v.op == "get" and v.args[0] is s and v.args[1] is i:
        return s
    if s.op == "seq":
        off = ZERO
        for k, g in enumerate(s.args):
            if g.op == "it":
                d = decide(eq(off, i))
                if d is True:
                    return seq(*(s.args[:k] + (it(v),) + s.args[k + 1:]))
                if d is None:
                    break
            else:
                ln = seg_len(g)
                d = decide(lt(i, add(off, ln)))
                if d is not False:
                    if g.op == "spl" and d is True:
                        return seq(*(s.args[:k] + (spl(upd(g.args[0], psub(i, off), v)),) + s.args[k + 1:]))
                    break
            off = add(off, seg_len(g))
    return mk("upd", (s, i, v), ("seq", jty(_ety(s), v.ty)))


def concat(a, b):
    return seq(spl(a), spl(b))


def append(a, v):
    return seq(spl(a), it(v))


def eta(t):
    """Eta-long form of a sequence: list of segs it/rep/alt, merged canonically."""
    out = []
    for s in segs_of(t):
        out.extend(_eta_seg(s))
    return _merge(out)


def _eta_seg(s):
    if s.op == "it":
        return [s]
    if s.op == "alt":
        return [s]
    if s.op == "rep":
        return [s]
    t = s.args[0]
    if t.op == "seq":
        return eta(t)
    n = length(t)
    if is_k(n):
        if kv(n) <= 12:
            return [it(get(t, K(j))) for j in range(kv(n))]
    i = fresh("i", "int", nat=True)
    with assume(ge0(add(n, K(-1), pneg(i)))):
        g = get(t, i)
        b, (g2,) = _close(i, (it(g),))
    return [mk("rep", (n, b, g2), "seg")]


def _merge(segs):
    """Merge it/rep neighbours so that peeled forms coincide."""
    changed = True
    segs = list(segs)
    while changed:
        changed = False
        for k in range(len(segs) - 1):
            a, b = segs[k], segs[k + 1]
            m = _merge2(a, b)
            if m is not None:
                segs[k:k + 2] = [m]
                changed = True
                break
    return segs


def _merge2(a, b):
    if a.op == "rep" and len(a.args) == 3 and a.args[2].op == "it":
        n, bvar, body = a.args
        f = lambda x: subst(body.args[0], {bvar: x})
        if b.op == "it" and f(n) is b.args[0]:
            return mk("rep", (add(n, ONE), bvar, body), "seg")
        if b.op == "rep" and len(b.args) == 3 and b.args[2].op == "it":
            i = fresh("i", "int", nat=True)
            if subst(b.args[2].args[0], {b.args[1]: i}) is f(add(n, i)):
                return mk("rep", (add(n, b.args[0]), bvar, body), "seg")
    if a.op == "it" and b.op == "rep" and len(b.args) == 3 and b.args[2].op == "it":
        n, bvar, body = b.args
        i = fresh("i", "int", nat=True)
        shifted = subst(body.args[0], {bvar: add(i, K(-1))})
        if subst(shifted, {i: ZERO}) is a.args[0]:
            bb, (v,) = _close(i, (it(shifted),))
            return mk("rep", (add(n, ONE), bb, v), "seg")
    return None


def same_seq(a, b):
    if a is b:
        return True
    return eta(a) == eta(b)


# ----------------------------------------------------------------------------
# strings

def cat_parts(t):
    if t.op == "cat":
        return t.args
    if is_k(t, ""):
        return ()
    return (t,)


def cat(*parts):
    out = []

    def push(p):
        if p.op == "cat":
            for x in p.args:
                push(x)
            return
        if p.op == "K":
            if kv(p) == "":
                return
            if out and out[-1].op == "K":
                out[-1] = K(kv(out[-1]) + kv(p))
                return
        if p.op == "srep" and is_k(p.args[0]) and kv(p.args[0]) <= 0:
            return
        out.append(p)

    for p in parts:
        push(p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out), "str")


def srep(n, i, s):
    if is_k(n):
        k = kv(n)
        if k <= 0:
            return EMPTY
        if k <= 6:
            return cat(*[subst(s, {i: K(j)}) for j in range(k)])
    if is_k(s, ""):
        return EMPTY
    b, (s2,) = _close(i, (s,))
    return mk("srep", (n, b, s2), "str")


def open_srep(r):
    n, b, s = r.args
    i = fresh("i", "int", nat=True)
    with assume(ge0(add(n, K(-1), pneg(i)))):
        return n, i, subst(s, {b: i})


def fmt(spec, v):
    """printf-style rendering of one value with a one-directive format."""
    if spec.op == "K":
        s = kv(spec)
        if v.op == "K" and not isinstance(kv(v), float):
            try:
                return K(s % (kv(v),))
            except (TypeError, ValueError):
                pass
        if s == "%s" and v.ty == "str":
            return v
        if s in ("%d", "%i") and v.ty == "int":
            spec = K("%s")
        if s == "%s" and v.ty == "int":
            spec = K("%s")
        if v.op == "ite" and s == "%s":
            return ite(v.args[0], fmt(spec, v.args[1]), fmt(spec, v.args[2]))
    elif spec.op == "cat" or spec.op == "ite":
        pass
    return mk("fmt", (spec, v), "str")


def strip(side, chars, s):
    if s.op == "K":
        f = {"l": str.lstrip, "r": str.rstrip, "b": str.strip}[side]
        return K(f(kv(s), chars) if chars is not None else f(kv(s)))
    if isinstance(chars, str) or chars is None:
        ps = list(cat_parts(s))
        if len(ps) > 1:
            # stripping stops at the first (last) part that certainly holds a kept character
            if side == "l":
                k = _first_solid(ps, chars)
                if k is not None and k < len(ps) - 1:
                    return cat(strip("l", chars, cat(*ps[:k + 1])), *ps[k + 1:])
                if k is not None and k == len(ps) - 1 and ps[k].op == "K":
                    pass
            elif side == "r":
                k = _first_solid(ps[::-1], chars)
                if k is not None and k < len(ps) - 1:
                    return cat(*(ps[:len(ps) - 1 - k] + [strip("r", chars, cat(*ps[len(ps) - 1 - k:]))]))
            else:
                k, r = _first_solid(ps, chars), _first_solid(ps[::-1], chars)
                if k is not None and r is not None:
                    return strip("r", chars, strip("l", chars, s))
            # constant edges made only of stripped characters vanish
            if side in ("l", "b") and ps[0].op == "K" and not strip(side, chars, ps[0]).args[0]:
                return strip(side, chars, cat(*ps[1:]))
            if side in ("r", "b") and ps[-1].op == "K" and not strip(side, chars, ps[-1]).args[0]:
                return strip(side, chars, cat(*ps[:-1]))
        if len(ps) == 1 and _tight(ps[0], chars):
            return s
    return mk("strip", (side, chars, s), "str")


_WS = " \t\n\r\x0b\x0c"
_BARE = re.compile(r"%(\.\d+)?[sdieEfFgGr]$").match


def _solid(p, chars):
    """Certainly contains a character that strip(chars) keeps."""
    if p.op == "K":
        t = kv(p)
        return bool(t.strip(chars) if chars is not None else t.strip())
    if p.op == "fmt":
        if p.args[1].ty in ("int", "real"):
            return chars is None or not any(c.isalnum() or c in "+-." for c in chars)
        return False
    if p.op == "strip" and (p.args[1] is None or isinstance(p.args[1], str)):
        return _solid(p.args[2], (chars or _WS) + (p.args[1] or _WS))
    if p.op == "srep":
        n, i, b = open_srep(p)
        return nonneg(add(n, K(-1))) and any(_solid(x, chars) for x in cat_parts(b))
    if p.op == "cat":
        return any(_solid(x, chars) for x in p.args)
    if p.op == "ite":
        return _solid(p.args[1], chars) and _solid(p.args[2], chars)
    return False


def _tight(p, chars):
    """Certainly neither starts nor ends with a stripped character."""
    if p.op != "fmt" or p.args[0].op != "K" or not isinstance(kv(p.args[0]), str):
        return False
    bare = is_k(p.args[0], "%s") if p.args[1].ty == "int" else p.args[1].ty == "real" and _BARE(kv(p.args[0]))
    return bool(bare) and _solid(p, chars)


def _first_solid(ps, chars):
    for k, p in enumerate(ps):
        if _solid(p, chars):
            return k
    return None


def join(sep, s):
    sv = s
    if sv.op == "tuple":
        sv = seq(*[it(x) for x in sv.args])
    if is_k(sep, ""):
        r = _join_empty(sv)
        if r is not None:
            return r
    segs = segs_of(sv)
    if all(g.op == "it" for g in segs):
        out = []
        for k, g in enumerate(segs):
            if k:
                out.append(sep)
            v = g.args[0]
            out.append(v if v.ty == "str" else mk("fmt", (K("%s"), v), "str"))
        return cat(*out)
    return mk("jn", (sep, sv), "str")


def _join_empty(s):
    out = []
    if s.op == "ite":
        a, b = _join_empty(s.args[1]), _join_empty(s.args[2])
        if a is None or b is None:
            return None
        return ite(s.args[0], a, b)
    for g in segs_of(s):
        if g.op == "it":
            out.append(g.args[0])
        elif g.op == "rep":
            n, i, segs = open_rep(g)
            inner = _join_empty(seq(*segs))
            if inner is None:
                return None
            out.append(srep(n, i, inner))
        elif g.op == "alt":
            a, b = _join_empty(g.args[1]), _join_empty(g.args[2])
            if a is None or b is None:
                return None
            out.append(ite(g.args[0], a, b))
        else:
            t = g.args[0]
            if t.op == "lines" and t.args[1]:
                out.append(t.args[0])
                continue
            n = length(t)
            i = fresh("i", "int", nat=True)
            if t.op in ("seq",):
                return None
            out.append(srep(n, i, get(t, i)))
    return cat(*out)


def newline_free(p):
    """True when the string part certainly holds no newline (values are one-line items)."""
    if p.op == "K":
        return "\n" not in kv(p)
    if p.op == "srep":
        return newline_free(p.args[2])
    if p.op == "cat":
        return all(newline_free(x) for x in p.args)
    if p.op in ("fmt",):
        return p.args[1].ty != "str" or newline_free(p.args[1])
    if p.op == "strip":
        return newline_free(p.args[2])
    if p.op == "ite":
        return newline_free(p.args[1]) and newline_free(p.args[2])
    if p.op == "jn":
        if not newline_free(p.args[0]):
            return False
        return all(_seg_nlfree(g) for g in segs_of(p.args[1]))
    if p.op in ("slice", "get"):
        r, _ = root_idx(p)
        return p.args[0].ty != "str" or newline_free(p.args[0])
    if p.op == "sym":
        return p not in NONL
    return p.op in ("line", "tok", "app", "bv") and not (p.op == "app" and p.args[0] == "filetext")


def _seg_nlfree(g):
    if g.op == "it":
        return newline_free(g.args[0])
    if g.op == "rep":
        return all(_seg_nlfree(x) for x in g.args[2:])
    if g.op == "alt":
        return all(_seg_nlfree(x) for x in segs_of(g.args[1]) + segs_of(g.args[2]))
    return True


class CannotSplit(Exception):
    pass


def split_lines(s):
    """Split a string term into a sequence term of complete lines (each ending in newline).

    -> (segs, tail) ; tail is the unfinished last line.  Raises CannotSplit."""
    out = []
    cur = []
    for p in cat_parts(s):
        if p.op == "K":
            txt = kv(p)
            pieces = txt.split("\n")
            for x in pieces[:-1]:
                cur.append(K(x))
                cur.append(K("\n"))
                out.append(it(cat(*cur)))
                cur = []
            if pieces[-1]:
                cur.append(K(pieces[-1]))
        elif newline_free(p):
            cur.append(p)
        elif p.op == "srep":
            n, i, b = open_srep(p)
            segs, tail = split_lines(b)
            if cur and not is_k(cat(*cur), ""):
                raise CannotSplit("loop of lines starts inside a line")
            if not is_k(tail, ""):
                raise CannotSplit("loop body leaves an unfinished line")
            out.append(rep(n, i, *segs))
        elif p.op == "ite":
            if cur and not is_k(cat(*cur), ""):
                raise CannotSplit("conditional lines start inside a line")
            sa, ta = split_lines(p.args[1])
            sb, tb = split_lines(p.args[2])
            if not is_k(ta, "") or not is_k(tb, ""):
                raise CannotSplit("conditional leaves an unfinished line")
            out.append(alt(p.args[0], seq(*sa), seq(*sb)))
        elif p.op == "jn" and is_k(p.args[0], "\n"):
            # "\n".join(list of one-line items): n-1 complete lines and a tail
            raise CannotSplit("join with newline")
        else:
            raise CannotSplit("string part of unknown line structure: %s" % p.op)
    return out, cat(*cur)


# ----------------------------------------------------------------------------
# text files: cursors over lines

def ln_seg(n):
    return mk("ln", (n,), "cseg")


def tk_seg(n):
    return mk("tk", (n,), "cseg")


def cur(base, *segs):
    if base.op == "cur":
        return mk("cur", base.args + tuple(segs), "cur")
    if not segs and base.ty == "cur":
        return base
    return mk("cur", (base,) + tuple(segs), "cur")


def cur_adv(c, s):
    if c.op == "ite":
        return ite_cur(c.args[0], cur_adv(c.args[1], s), cur_adv(c.args[2], s))
    if s.op in ("ln", "tk") and is_k(s.args[0], 0):
        return c
    if c.op != "cur":
        return cur(c, s)
    segs = list(c.args[1:])
    if s.op == "ln" and segs and segs[-1].op == "ln":
        segs[-1] = ln_seg(add(segs[-1].args[0], s.args[0]))
        if is_k(segs[-1].args[0], 0):
            segs.pop()
    else:
        segs.append(s)
    return cur(c.args[0], *segs)


def ite_cur(c, a, b):
    if a is b:
        return a
    d = decide(c)
    if d is not None:
        return a if d else b
    z = _zero_collapse(c, a, b)
    if z is not None:
        return z
    return mk("ite", (c, a, b), "cur")


def ktext(lines):
    """The lines of a file whose text is known."""
    return mk("ktext", (seq(*[it(l) for l in lines]),), ("seq", "str"))


def _known_rest(c):
    """What is left of a known text at cursor c: a list of lines, or None."""
    if c.op == "cur" and c.args[0].op == "ktext" and all(x.op == "ln" and is_k(x.args[0]) for x in c.args[1:]):
        return [g.args[0] for g in segs_of(c.args[0].args[0])][sum(kv(x.args[0]) for x in c.args[1:]):]
    return None


def line_at(c):
    if c.op == "ite":
        return ite(c.args[0], line_at(c.args[1]), line_at(c.args[2]))
    r = _known_rest(c)
    if r is not None:
        return r[0] if r else K("")
    return mk("line", (c,), "str")


def lns(c):
    """The list of all lines from cursor c on."""
    r = _known_rest(c)
    if r is not None:
        return seq(*[it(l) for l in r])
    if c.op == "cur" and len(c.args) == 1 and isinstance(c.args[0].ty, tuple):
        return c.args[0]
    return mk("lns", (c,), ("seq", "str"))


def as_cursor(s):
    if s.op == "lns":
        return s.args[0]
    return cur(s)


def tok(c, j):
    return mk("tok", (c, j), "str")


def tokens(s):
    if s.op == "K":
        return seq(*[it(K(x)) for x in kv(s).split()])
    # stripping blanks does not change the blank-separated tokens
    while s.op == "strip" and s.args[1] in (None, " ", "\n", " \n", "\t"):
        s = s.args[2]
    if s.op in ("cat", "fmt"):
        r = _cat_tokens(s)
        if r is not None:
            return seq(*[it(x) for x in r])
    return mk("tokens", (s,), ("seq", "str"))


def _cat_tokens(s):
    """Blank-separated tokens of a concatenation of constants and formatted numbers, where each number stands alone."""
    out, cur_ = [], []
    for p in cat_parts(s):
        if p.op == "K":
            for ch in kv(p):
                if ch.isspace():
                    if cur_:
                        out.append(cur_)
                    cur_ = []
                else:
                    cur_.append(ch)
        elif p.op == "fmt" and p.args[1].ty in ("int", "real") and (p.args[1].ty == "int" or p.args[0].op == "K"):
            cur_.append(p)
        elif p.op == "strip" and p.args[1] is None and p.args[2].op == "fmt" and p.args[2].args[1].ty in ("int", "real"):
            cur_.append(p.args[2])
        else:
            return None
    if cur_:
        out.append(cur_)
    if any(len(t) > 1 and any(isinstance(x, Term) for x in t) for t in out):
        return None
    return [K("".join(t)) if isinstance(t[0], str) else t[0] for t in out]


def split_const(s, sep):
    """s.split(sep) of constants and parts that certainly hold no sep, as a list; else None"""
    if s.op not in ("cat", "fmt") or not sep:
        return None
    out, cur_ = [], []
    for p in cat_parts(s):
        if p.op == "K":
            ps = kv(p).split(sep)
            for x in ps[:-1]:
                cur_.append(K(x))
                out.append(cat(*cur_))
                cur_ = []
            cur_.append(K(ps[-1]))
        elif sep == "\n" and newline_free(p):
            cur_.append(p)
        elif p.op == "fmt" and p.args[1].ty in ("int", "real") and p.args[0].op == "K" and not any(c.isalnum() or c in "+-. " for c in sep):
            cur_.append(p)
        else:
            return None
    if len(sep) > 1 and any(x.op != "K" for x in cat_parts(s)) and sep.strip("\n") != "":
        return None
    out.append(cat(*cur_))
    return out


# conversions int/float/str

def conv(kind, v):
    if v.op == "K":
        try:
            if kind == "int":
                return K(int(kv(v)))
            if kind == "float":
                return K(float(kv(v)))
        except (TypeError, ValueError):
            return unk("conversion of constant")
    if v.op == "ite":
        return ite(v.args[0], conv(kind, v.args[1]), conv(kind, v.args[2]))
    if kind == "int" and v.ty == "int":
        return v
    if kind == "float" and v.ty == "real":
        return v
    if kind == "str" and v.ty == "str":
        return v
    if kind == "int" and v.op == "fmt" and v.args[1].ty == "int" and v.args[0].op == "K" and re.match(r"%[.0-9]*[sdi]$", str(kv(v.args[0]))):
        return v.args[1]
    h = CONV_HOOK
    if h is not None:
        r = h(kind, v)
        if r is not None:
            return r
    ty = {"int": "int", "float": "real", "str": "str"}[kind]
    return mk("conv", (kind, v), ty)


CONV_HOOK = None
CONV_NAT = False    # numbers parsed as integers are counts (conformant files only)


# generic uninterpreted

def app(name, *args, **kw):
    ty = kw.pop("ty", "any")
    return mk("app", (name, tuple(args)), ty)


def any_(n, i, c):
    """exists i in range(n): c"""
    if c is FALSE or is_k(n, 0):
        return FALSE
    if i not in free(c):
        return conj(ge0(add(n, K(-1))), c)
    if is_k(n) and kv(n) <= 6:
        return disj(*[subst(c, {i: K(j)}) for j in range(kv(n))])
    b, (c2,) = _close(i, (c,))
    return _known(mk("any", (n, b, c2), "bool"))


def first_(n, i, c):
    b, (c2,) = _close(i, (c,))
    return mk("first", (n, b, c2), "int")


def iter_(n, i, mu, body, init):
    """body^n(init), body a function of the iteration i and the previous value mu."""
    if body is mu:
        return init
    if is_k(n, 0):
        return init
    h = max(body.h, 0)
    b1 = bv(h + 1, i.ty)
    b2 = mk("bv", (h + 2,), mu.ty)
    body2 = subst(body, {i: b1, mu: b2})
    return mk("iter", (n, b1, b2, body2, init), init.ty if init.ty == mu.ty else mu.ty)


def wtrip(i, c):
    b, (c2,) = _close(i, (c,))
    return mk("wtrip", (b, c2), "int")


def max0(n):
    if nonneg(n):
        return n
    if nonneg(pneg(n)):
        return ZERO
    return mk("max0", (n,), "int")


# ----------------------------------------------------------------------------
# substitution (renormalising)

_BINDERS = {"rep": (1,), "srep": (1,), "sum": (1,), "any": (1,), "first": (1,), "wtrip": (0,), "iter": (1, 2)}


def subst(t, m):
    """Simultaneous substitution of sym/bv terms (or any leaf terms), rebuilding with normalisation."""
    m = {k: v for k, v in m.items() if k is not v}
    if not m:
        return t
    return _subst(t, m, {})


def _subst(t, m, memo):
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    hit = False
    for k in m:
        if k.op == "sym":
            if k in free(t):
                hit = True
                break
        elif k.op == "bv":
            if t.h >= k.h:
                hit = True
                break
        else:
            hit = True
            break
    if not hit or not t.args:
        memo[t] = t
        return t
    b = _BINDERS.get(t.op)
    if b:
        r = _subst_binder(t, m, memo)
    else:
        new = _sub_args(t.args, m, memo)
        r = t if _same(new, t.args) else rebuild(t.op, new, t.ty)
    memo[t] = r
    return r


def _same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if not _same(x, y):
                return False
        elif x is not y and not (not isinstance(x, Term) and x == y):
            return False
    return True


def _sub_args(args, m, memo):
    out = []
    for a in args:
        if isinstance(a, Term):
            out.append(_subst(a, m, memo))
        elif isinstance(a, tuple):
            out.append(_sub_args(a, m, memo))
        else:
            out.append(a)
    return tuple(out)


def _subst_binder(t, m, memo):
    op = t.op
    if op in ("rep", "srep", "sum", "any", "first"):
        n = _subst(t.args[0], m, memo)
        b = t.args[1]
        if b in m:
            m = {k: v for k, v in m.items() if k is not b}
            if not m:
                return t
        i = fresh("b", b.ty, nat=True)
        mm = dict(m)
        mm[b] = i
        with assume(ge0(add(n, K(-1), pneg(i)))):
            body = tuple(_subst(x, mm, {}) for x in t.args[2:])
        if op == "rep":
            r = rep(n, i, *body)
            return r
        if op == "srep":
            return srep(n, i, body[0])
        if op == "sum":
            return sum_(n, i, body[0])
        if op == "any":
            return any_(n, i, body[0])
        return first_(n, i, body[0])
    if op == "wtrip":
        b = t.args[0]
        mm = {k: v for k, v in m.items() if k is not b}
        i = fresh("b", b.ty, nat=True)
        mm[b] = i
        return wtrip(i, _subst(t.args[1], mm, {}))
    if op == "iter":
        n = _subst(t.args[0], m, memo)
        init = _subst(t.args[4], m, memo)
        b1, b2 = t.args[1], t.args[2]
        mm = {k: v for k, v in m.items() if k is not b1 and k is not b2}
        i = fresh("b", b1.ty, nat=True)
        mu = fresh("b", b2.ty)
        mm[b1] = i
        mm[b2] = mu
        return iter_(n, i, mu, _subst(t.args[3], mm, {}), init)
    raise ValueError(op)


def rebuild(op, a, ty):
    if op == "poly":
        r = ZERO
        for m, c in a:
            p = K(c)
            for x in m:
                p = pmul(p, x)
            r = padd(r, p)
        return r
    if op == "get":
        return get(*a)
    if op == "slice":
        return slice_(*a)
    if op == "seq":
        return seq(*a)
    if op == "alt":
        return alt(*a)
    if op == "rev":
        return rev(*a)
    if op == "len":
        return length(*a)
    if op == "upd":
        return upd(*a)
    if op == "ite":
        if ty == "cur":
            return ite_cur(*a)
        return ite(*a)
    if op == "cat":
        return cat(*a)
    if op == "fmt":
        return fmt(*a)
    if op == "strip":
        return strip(*a)
    if op == "jn":
        return join(*a)
    if op == "ge0":
        return ge0(*a)
    if op == "eq0":
        return eq(a[0], ZERO)
    if op == "eq":
        return eq(*a)
    if op == "lt":
        return lt(*a)
    if op == "not":
        return neg(*a)
    if op == "and":
        return conj(*a)
    if op == "or":
        return disj(*a)
    if op == "conv":
        return conv(*a)
    if op == "tokens":
        return tokens(*a)
    if op == "line":
        return line_at(*a)
    if op == "lns":
        return lns(*a)
    if op == "cur":
        base = a[0]
        c = as_cursor(base) if base.op == "lns" else cur(base)
        for s in a[1:]:
            c = cur_adv(c, s)
        return c
    if op == "max0":
        return max0(*a)
    if op == "tuple":
        return tup(*a)
    if op == "app" and a[0] == "min":
        return min_(*a[1])
    h = REBUILD.get((op, a[0] if a and isinstance(a[0], str) else None))
    if h:
        return h(a, ty)
    if op == "it":
        return it(*a)
    if op == "spl":
        return spl(*a)
    return mk(op, a, ty)


REBUILD = {}


# ----------------------------------------------------------------------------
# printing

ABBR = {}


def show(t, depth=12):
    if t in ABBR:
        return ABBR[t]
    if depth <= 0:
        return "..."
    s = lambda x: show(x, depth - 1) if isinstance(x, Term) else repr(x)
    o, a = t.op, t.args
    if o == "K":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "bv":
        return "#%d" % a[0]
    if o == "poly":
        parts = []
        for m, c in a:
            ms = "*".join(s(x) for x in m)
            if m == ():
                parts.append(str(c))
            elif c == 1:
                parts.append(ms)
            elif c == -1:
                parts.append("-" + ms)
            else:
                parts.append("%s*%s" % (c, ms))
        return "(" + " + ".join(parts) + ")"
    if o == "get":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "slice":
        return "%s[%s:%s]" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "seq":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if o == "it":
        return s(a[0])
    if o == "spl":
        return "*" + s(a[0])
    if o == "rep":
        return "{%s : %s < %s}" % (", ".join(s(x) for x in a[2:]), s(a[1]), s(a[0]))
    if o == "alt":
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "ite":
        return "if(%s, %s, %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "cat":
        return "<" + " ".join(s(x) for x in a) + ">"
    if o == "srep":
        return "{%s : %s < %s}" % (s(a[2]), s(a[1]), s(a[0]))
    if o == "fmt":
        return "fmt(%s, %s)" % (s(a[0]), s(a[1]))
    if o == "ge0":
        return s(a[0]) + ">=0"
    if o == "eq0":
        return s(a[0]) + "==0"
    if o == "not":
        return "not " + s(a[0])
    if o == "app":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1]))
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if o == "ref":
        return "@%s" % (a[0],)
    if o == "cur":
        return "%s+%s" % (s(a[0]), "+".join(s(x) for x in a[1:]) or "0")
    if o in ("ln", "tk"):
        return "%s(%s)" % (o, s(a[0]))
    if o == "unk":
        return "UNK(%s)" % a[0]
    out = []
    for x in a:
        if isinstance(x, Term):
            out.append(s(x))
        elif isinstance(x, tuple):
            out.append("(" + ",".join(s(y) if isinstance(y, Term) else str(y) for y in x) + ")")
        else:
            out.append(str(x))
    return "%s(%s)" % (o, ", ".join(out))
