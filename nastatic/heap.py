"""Abstract heap, states and control-flow outcomes."""
from .terms import *
from . import terms as T


class HObj(object):
    kind = "?"
    owner = None

    def with_(self, **kw):
        o = self.__class__.__new__(self.__class__)
        o.__dict__.update(self.__dict__)
        o.__dict__.update(kw)
        return o


class HList(HObj):
    kind = "list"

    def __init__(self, content=NIL, owner=None):
        self.content, self.owner = content, owner


class HSet(HList):
    kind = "set"


class HDict(HObj):
    kind = "dict"

    def __init__(self, items=None, base=None, owner=None):
        self.items = dict(items or {})   # key Term -> value Term, insertion ordered
        self.base = base                 # opaque rest (None: exactly these keys)
        self.owner = owner


class HInst(HObj):
    kind = "inst"

    def __init__(self, cls, attrs=None, owner=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.owner = owner


class HFile(HObj):
    kind = "file"

    def __init__(self, name, mode, cur=None, out=EMPTY, closed=FALSE, flushed=EMPTY):
        self.name, self.mode, self.cur, self.out, self.closed, self.flushed = name, mode, cur, out, closed, flushed


class HSIO(HObj):
    kind = "sio"

    def __init__(self, content=EMPTY, pos="start"):
        self.content, self.pos = content, pos


class HMod(HObj):
    kind = "mod"

    def __init__(self, attrs=None):
        self.attrs = dict(attrs or {})


class Dead(Exception):
    """The current abstract path ends (raise / sys.exit / not returning)."""


class State(object):
    __slots__ = ("env", "heap", "facts", "path", "frame")

    def __init__(self, env, heap, facts, path=(), frame=None):
        self.env, self.heap, self.facts, self.path, self.frame = env, heap, facts, path, frame

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.facts, self.path, self.frame)

    def assume(self, c):
        if c is TRUE:
            return self
        self.facts = self.facts.add(c)
        self.path = self.path + (c,)
        return self

    def set_from(self, o):
        self.env, self.heap, self.facts, self.path = o.env, o.heap, o.facts, o.path


class Flow(object):
    __slots__ = ("fall", "rets", "brks", "conts")

    def __init__(self, fall=None):
        self.fall = fall
        self.rets = []
        self.brks = []
        self.conts = []

    def absorb(self, o):
        self.rets += o.rets
        self.brks += o.brks
        self.conts += o.conts


UNDEF = mk("undef", (), "undef")


def common_prefix(paths):
    n = min(len(p) for p in paths)
    k = 0
    while k < n and all(p[k] is paths[0][k] for p in paths):
        k += 1
    return k


def jval(c, a, b, sa, sb, out, depth=0):
    """Join two values living in states sa / sb into state `out` (a dict heap)."""
    if a is b:
        return a
    if a is UNDEF or a is None:
        return b if b is not None else UNDEF
    if b is UNDEF or b is None:
        return a
    if a.op == "ref" or b.op == "ref":
        oa = sa.heap.get(a.args[0]) if a.op == "ref" else None
        ob = sb.heap.get(b.args[0]) if b.op == "ref" else None
        ca = oa.content if isinstance(oa, HList) else (a if isinstance(a.ty, tuple) else None)
        cb = ob.content if isinstance(ob, HList) else (b if isinstance(b.ty, tuple) else None)
        if ca is not None and cb is not None:
            oid = new_oid("join")
            out[oid] = HList(T.ite(c, ca, cb))
            return ref(oid)
        if isinstance(oa, HDict) and isinstance(ob, HDict):
            oid = new_oid("join")
            out[oid] = join_obj(c, oa, ob, sa, sb, out)
            return ref(oid)
        return T.mk("ite", (c, a, b), "any")
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args) and depth < 4:
        return tup(*[jval(c, x, y, sa, sb, out, depth + 1) for x, y in zip(a.args, b.args)])
    if a.ty == "cur" or b.ty == "cur":
        return ite_cur(c, a, b)
    return T.ite(c, a, b)


_oid = [0]


def new_oid(tag):
    _oid[0] += 1
    return "%s#%d" % (tag, _oid[0])


def ref(oid):
    return T.mk("ref", (oid,), "ref")


def join_obj(c, x, y, sa, sb, out):
    if x is y:
        return x
    if type(x) is not type(y):
        return x
    if isinstance(x, HList):
        return x.with_(content=jval(c, x.content, y.content, sa, sb, out))
    if isinstance(x, HDict):
        items = {}
        for k in list(x.items) + [k for k in y.items if k not in x.items]:
            a, b = x.items.get(k), y.items.get(k)
            if a is None or b is None:
                # key present on one side only
                v = a if b is None else b
                g = c if b is None else neg(c)
                items[k] = T.mk("maybe", (g, v), "any") if v.op != "maybe" else v
            else:
                items[k] = jval(c, a, b, sa, sb, out)
        return x.with_(items=items)
    if isinstance(x, (HInst, HMod)):
        attrs = {}
        for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
            a, b = x.attrs.get(k), y.attrs.get(k)
            if a is None or b is None:
                v = a if b is None else b
                g = c if b is None else neg(c)
                attrs[k] = T.mk("maybe", (g, v), "any") if v.op != "maybe" else v
            else:
                attrs[k] = jval(c, a, b, sa, sb, out)
        return x.with_(attrs=attrs)
    if isinstance(x, HFile):
        cur_ = x.cur if x.cur is y.cur else (ite_cur(c, x.cur, y.cur) if x.cur is not None and y.cur is not None else x.cur)
        return x.with_(cur=cur_, out=T.ite(c, x.out, y.out), closed=T.ite(c, x.closed, y.closed),
                       flushed=T.ite(c, x.flushed, y.flushed))
    if isinstance(x, HSIO):
        return x.with_(content=T.ite(c, x.content, y.content), pos=x.pos if x.pos == y.pos else "unknown")
    return x


def join(c, a, b):
    """State for `a if c else b`."""
    if a is None:
        return b
    if b is None:
        return a
    old = T.set_facts(a.facts.meet(b.facts))
    try:
        heap = {}
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y or y is None:
                heap[k] = x
            elif x is None:
                heap[k] = y
            elif isinstance(x, Term):          # opaque attribute store
                heap[k] = T.ite(c, x, y)
            else:
                heap[k] = join_obj(c, x, y, a, b, heap)
        env = {}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            x, y = a.env.get(k), b.env.get(k)
            env[k] = jval(c, x, y, a, b, heap)
        k = common_prefix([a.path, b.path])
        return State(env, heap, a.facts.meet(b.facts), a.path[:k], a.frame)
    finally:
        T.set_facts(old)


def guard(st, base):
    return conj(*st.path[base:]) if len(st.path) > base else TRUE


def join_many(sts):
    """Join states whose paths are mutually exclusive and exhaustive."""
    sts = [s for s in sts if s is not None]
    if not sts:
        return None
    acc = sts[-1]
    for s in reversed(sts[:-1]):
        base = common_prefix([s.path, acc.path])
        acc = join(guard(s, base), s, acc)
    return acc
