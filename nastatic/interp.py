"""Flow-sensitive abstract interpreter over the Python syntax tree.

Values are terms (terms.py).  Branches are joined, loops are summarised by
recurrence recognition (never unrolled unless the trip count is a small constant
of the analysed configuration), calls are inlined, the heap is tracked
flow-sensitively with aliasing.  Nothing of the analysed program is executed.
"""
import ast
import builtins as _pybuiltins
import os
import sys

from . import terms as T
from .terms import *
from .heap import *

sys.setrecursionlimit(20000)


TRACE = bool(os.environ.get("NASTATIC_TRACE"))

class FuncObj(object):
    def __init__(self, name, module, node, defaults, kwdefaults, closure, cls=None, frame=None):
        self.name, self.module, self.node = name, module, node
        self.defaults, self.kwdefaults, self.closure, self.cls, self.frame = defaults, kwdefaults, closure, cls, frame
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(node)) \
            if not isinstance(node, ast.Lambda) else False

    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return "<func %s>" % self.qual()


def _own_nodes(node):
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))


class ClassObj(object):
    def __init__(self, name, module, bases, attrs):
        self.name, self.module, self.bases, self.attrs = name, module, bases, attrs

    def mro(self):
        out = [self]
        for b in self.bases:
            if b.op == "cls":
                for c in b.args[0].mro():
                    if c not in out:
                        out.append(c)
            else:
                out.append(b)
        return out

    def lookup(self, name, after=None):
        seen = after is None
        for c in self.mro():
            if not seen:
                if c is after:
                    seen = True
                continue
            if isinstance(c, ClassObj) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def ext_bases(self):
        return [c for c in self.mro() if not isinstance(c, ClassObj)]

    def __repr__(self):
        return "<class %s>" % self.name


class PropObj(object):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class AnalysisError(Exception):
    pass


def builtin(name):
    return obj("builtin", name)


def ext(path):
    return obj("ext", path)


BUILTIN_NAMES = set("""__sym__ __unmodelled__ len range enumerate zip map filter list tuple dict set frozenset str int float bool type isinstance issubclass
hasattr getattr setattr delattr open print sum min max abs all any sorted reversed divmod vars locals globals eval exec super round
repr input property staticmethod classmethod callable id iter next object bytes complex format ord chr hash pow slice
Exception ValueError TypeError KeyError IndexError RuntimeError IOError OSError AttributeError StopIteration NotImplementedError
AssertionError FileNotFoundError EOFError ImportError NameError ZeroDivisionError ArithmeticError LookupError UnicodeDecodeError
BaseException SystemExit KeyboardInterrupt UserWarning DeprecationWarning Warning""".split())

EXC_NAMES = {n for n in BUILTIN_NAMES if n.endswith("Error") or n in ("Exception", "BaseException", "SystemExit",
                                                                     "StopIteration", "KeyboardInterrupt", "Warning", "UserWarning", "DeprecationWarning")}

TYPE_OF = {"int": "int", "real": "float", "str": "str", "bool": "bool", "none": "NoneType", "tuple": "tuple",
           "bytes": "bytes"}


def _edge_slice(s, lo, hi, step):
    """A slice whose ends lie in the constant text at the ends of s, or None"""
    ps = list(T.cat_parts(s))
    if step is not None and step is not NONE and not is_k(step, 1):
        return None
    f = lambda x: None if x is None or x is NONE else kv(x) if is_k(x) and type(kv(x)) is int else "?"
    a, b = f(lo), f(hi)
    if a == "?" or b == "?":
        return None
    first = kv(ps[0]) if ps[0].op == "K" else ""
    last = kv(ps[-1]) if ps[-1].op == "K" else ""
    if (a or 0) >= 0 and b is not None and 0 <= b <= len(first):
        return K(first[a:b])
    if a is not None and a < 0 and -a <= len(last) and (b is None or b < 0):
        return K(last[a:b])
    if 0 <= (a or 0) <= len(first) and (b is None or b < 0 and -b <= len(last)) and len(ps) > 1:
        if b is not None:
            ps[-1] = K(last[:b])
        if a:
            ps[0] = K(first[a:])
        return T.cat(*ps)
    return None



class NoModel(Exception):
    pass


_REAL = {}


def real_names(what):
    """The public names of a library's module or class (recorded once from the installed libraries)."""
    if not _REAL:
        import json
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "xstub", "names.json")) as fh:
            _REAL.update({k: set(v.split()) for k, v in json.load(fh).items()})
    return _REAL.get(what, ())


class Interp(object):
    MAX_DEPTH = 70
    MAX_REC = 8
    set_order = None    # "up" or "down": the order in which the items of sets are given (None: that of insertion)
    unroll = False      # follow loops whose condition is decided every time, one pass at a time

    def __init__(self, repo, read_files=None):
        self.repo = repo
        self.raises = []          # (path, exc, message term or None, site)
        self.events = []          # ordered, deduplicated below by consumers
        self.funcs = set()        # functions analysed
        self.calls = set()        # call sites analysed
        self.stmts = set()        # statements analysed
        self.exits = []
        self.sites = {}           # loc -> set of sites writing it
        self.depth = 0
        self.cur_site = None
        self.cur_func = None
        self.modules = {}
        self.asts = {}
        self.notes = set()
        self.frames = [0]
        self.active = {}
        self.fcount = 0
        self.hooks = {}
        self.mute = 0
        from . import models
        self.models = models.Models(self)

    # ------------------------------------------------------------------ util
    def site(self, node=None):
        f = self.cur_func
        return (f.module if f else "?", f.qual() if f else "<module>", getattr(node, "lineno", self.cur_line))

    cur_line = 0

    def event(self, kind, *data):
        self.events.append((kind, self.site(), data))

    def note(self, txt):
        self.notes.add(txt)

    def do_raise(self, st, exc, msg=None, node=None):
        self.raises.append((st.path, exc, msg, self.site(node)))
        raise Dead()

    # --------------------------------------------------------------- modules
    extra = {}

    def mod_path(self, name):
        if name in self.extra:
            return self.extra[name]
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def is_local(self, name):
        return name.split(".")[0] in self.extra or (self.mod_path(name.split(".")[0]) is not None and name.split(".")[0] in ("nappy",))

    def parse(self, path):
        if path not in self.asts:
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
            self.asts[path] = ast.parse(src, path)
        return self.asts[path]

    def import_module(self, name, st):
        """Load (abstractly execute) dotted module; returns the module term."""
        parts = name.split(".")
        for k in range(1, len(parts) + 1):
            sub = ".".join(parts[:k])
            key = ("M", sub)
            if key in st.heap:
                continue
            path = self.mod_path(sub)
            if path is None:
                self.event("import-missing", sub)
                self.do_raise(st, "ModuleNotFoundError", K("No module named '%s'" % sub))
            st.heap[key] = HMod({"__name__": K(sub), "__file__": K(path), "__doc__": K(ast.get_docstring(self.parse(path), False) or "")})
            self.exec_module(sub, path, st)
            if k > 1:
                pk = ("M", ".".join(parts[:k - 1]))
                m = st.heap[pk]
                a = dict(m.attrs)
                a[parts[k - 1]] = obj("mod", sub)
                st.heap[pk] = m.with_(attrs=a)
        return obj("mod", name)

    def exec_module(self, name, path, st):
        tree = self.parse(path)
        f = FuncObj("<module>", name, tree, [], {}, None)
        save = self.cur_func, self.cur_line, st.env, st.frame
        self.cur_func = f
        st.env = {"$mod": K(name), "$globals": TRUE}
        st.frame = ("mod", name)
        flow = self.exec_block(tree.body, st)
        if flow.fall is None:
            raise Dead()
        st.set_from(flow.fall)
        self.cur_func, self.cur_line, st.env, st.frame = save

    def mod_get(self, modname, attr, st):
        m = st.heap.get(("M", modname))
        if m is None:
            return None
        v = m.attrs.get(attr)
        if v is None:
            sub = modname + "." + attr
            if ("M", sub) in st.heap and attr not in m.attrs:
                return None
        return v

    # ------------------------------------------------------------- variables
    def load_name(self, name, st, node=None):
        if "$globals" not in st.env and name in st.env:
            v = st.env[name]
            if v is UNDEF or v.op == "undef":
                self.do_raise(st, "UnboundLocalError", K(name), node)
            if v.op == "maybe":
                return v.args[1]
            return v
        if "$globals" not in st.env:
            c = st.env.get("$closure")
            while c is not None:
                c = c.args[0]
                if name in c:
                    return c[name]
                c = c.get("$closure")
        mod = kv(st.env["$mod"])
        m = st.heap.get(("M", mod))
        if m is not None and name in m.attrs:
            v = m.attrs[name]
            if v.op == "maybe":
                return v.args[1]
            return v
        if name == "__debug__":
            return TRUE
        if name in BUILTIN_NAMES:
            return builtin(name)
        if name in ("__name__",):
            return K(mod)
        if hasattr(_pybuiltins, name):
            return self.unmodelled([K(name)])
        self.event("undefined-name", name)
        self.do_raise(st, "NameError", K(name), node)

    def store_name(self, name, v, st):
        if "$globals" in st.env or name in self._globals_of(st):
            mod = kv(st.env["$mod"])
            key = ("M", mod)
            m = st.heap[key]
            a = dict(m.attrs)
            a[name] = v
            st.heap[key] = m.with_(attrs=a)
            if "$globals" not in st.env:
                self.event("global-write", mod, name)
        else:
            st.env[name] = v

    def _globals_of(self, st):
        g = st.env.get("$gl")
        return g.args[0] if g is not None else ()

    # ------------------------------------------------------------ heap access
    def deref(self, v, st):
        """Value of a path / boxed list as a plain sequence term (shallow)."""
        if v.op == "path":
            r = v.args[0]
            t = self.content(r, st)
            for i in v.args[1:]:
                t = T.get(t, i)
                if t.op == "ref":
                    t = self.content(t, st)
            return t
        return v

    def content(self, r, st):
        o = st.heap.get(r.args[0])
        if isinstance(o, HList):
            return o.content
        return r

    def aslist(self, v, st):
        """Sequence term for anything list-like, or None."""
        if v.op == "path":
            return self.deref(v, st)
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if isinstance(o, HList):
                return o.content
            if isinstance(o, HDict) and o.base is None:
                return seq(*[it(k) for k in o.items])
            return None
        if v.op == "tuple":
            return seq(*[it(x) for x in v.args])
        if v.op == "K" and isinstance(kv(v), str):
            if len(kv(v)) <= 64:
                return seq(*[it(K(c)) for c in kv(v)])
            return None
        if v.op == "ite":
            a, b = self.aslist(v.args[1], st), self.aslist(v.args[2], st)
            if a is not None and b is not None:
                return T.ite(v.args[0], a, b)
            return None
        if isinstance(v.ty, tuple) and v.ty[0] == "seq":
            return v
        if v.op == "app" and v.args[0] == "range":
            n = self.range_len(v)
            i = fresh("i", "int", nat=True)
            return seq(rep(n, i, it(add(v.args[1][0], pmul(i, v.args[1][2])))))
        return None

    def freeze(self, v, st, keep=None, depth=0):
        """Inline list refs (those not in `keep`) into pure values."""
        if depth > 30:
            return unk("deep value")
        if v.op == "path":
            return self.freeze(self.deref(v, st), st, keep, depth + 1)
        if v.op == "ref":
            if keep is not None and v.args[0] in keep:
                return v
            o = st.heap.get(v.args[0])
            if isinstance(o, HList):
                return self.freeze(o.content, st, keep, depth + 1)
            if isinstance(o, HInst):
                items = tuple((k, self.freeze(o.attrs[k], st, keep, depth + 1)) for k in sorted(o.attrs))
                return T.mk("struct", (o.cls, tuple(T.tup(K(k), x) for k, x in items)), "struct")
            if isinstance(o, HDict):
                items = tuple(T.tup(k, self.freeze(x, st, keep, depth + 1)) for k, x in o.items.items())
                return T.mk("dictv", (items, o.base or NONE), "dict")
            return v
        if not T._has_ref(v):
            return v
        m = {}
        for s in T.subterms(v):
            if s.op in ("ref", "path"):
                f = self.freeze(s, st, keep, depth + 1)
                if f is not s:
                    m[s] = f
        return T.subst(v, m) if m else v

    def new_list(self, content, st, tag=None, cls=HList):
        oid = new_oid(tag or "L%s" % self.cur_line)
        if cls is HSet and self.set_order:
            content = self.as_a_set(content, st)
        st.heap[oid] = cls(content)
        return ref(oid)

    def as_a_set(self, content, st):
        """the items in one of the orders in which Python may give those of a set (integers have one)"""
        gs = segs_of(content) if content.op == "seq" else ()
        if len(gs) < 2 or any(g.op != "it" for g in gs) or all(g.args[0].op == "K" and isinstance(kv(g.args[0]), int) for g in gs):
            return content
        self.event("a set", None)
        return seq(*sorted(gs, key=lambda g: str(self.freeze(g.args[0], st)), reverse=self.set_order == "down"))

    def new_obj(self, o, st, tag):
        oid = new_oid(tag)
        st.heap[oid] = o
        return ref(oid)

    def write_list(self, target, f, st, node=None, what="modify"):
        """Apply f: content -> content to a boxed list or a path."""
        if target.op == "ite":
            for x, c in ((target.args[1], target.args[0]), (target.args[2], neg(target.args[0]))):
                self.write_list(x, lambda t, c=c, f=f: T.ite(c, f(t), t), st, node, what)
            return
        if target.op == "ref":
            o = st.heap.get(target.args[0])
            if not isinstance(o, HList):
                self.note("%s on non-list" % what)
                return
            new = f(o.content)
            if self.set_order and isinstance(o, HSet):
                new = self.as_a_set(new, st)
            self._wrote(target.args[0], o, what)
            st.heap[target.args[0]] = o.with_(content=new)
            return
        if target.op == "path":
            r = target.args[0]
            o = st.heap.get(r.args[0])

            def rec(t, idx):
                if not idx:
                    return f(t)
                e = T.get(t, idx[0])
                if e.op == "ref":
                    inner = st.heap.get(e.args[0])
                    if isinstance(inner, HList):
                        st.heap[e.args[0]] = inner.with_(content=rec(inner.content, idx[1:]))
                        return t
                return T.upd(t, idx[0], rec(e, idx[1:]))
            self._wrote(r.args[0], o, what)
            st.heap[r.args[0]] = o.with_(content=rec(o.content, list(target.args[1:])))
            o2 = st.heap[r.args[0]]
            return
        if target.op in ("sym", "app", "get"):
            if target.op == "get":
                # an element we cannot address: its holder becomes unknown, never silently unchanged
                hit = False
                for oid, o in list(st.heap.items()):
                    if isinstance(o, HList) and o.content is target.args[0]:
                        hit = True
                        self._wrote(oid, o, what)
                        st.heap[oid] = o.with_(content=T.upd(o.content, target.args[1], unk("write to an element that could not be resolved", target.ty)))
                if hit:
                    return
            self.event("mutate-opaque", what, target)
            return
        self.note("mutation of a temporary: %s" % what)

    def embed(self, container, st):
        """Store the lists a list refers to by value (only when nothing else refers to them)."""
        root = container if container.op == "ref" else container.args[0]
        o = st.heap.get(root.args[0])
        if not isinstance(o, HList):
            return None
        new = self.freeze(o.content, st, self.keep_insts(o.content, st))
        if new is o.content:
            return None
        inner = {s for s in T.subterms(o.content) if s.op == "ref" and isinstance(st.heap.get(s.args[0]), HList)}
        for v in st.env.values():
            if v is not UNDEF and v is not None and isinstance(v, T.Term) and any(x in inner for x in T.subterms(v)):
                new = unk("aliased nested list", new.ty)
                break
        st.heap[root.args[0]] = o.with_(content=new)
        return self.deref(container, st) if container.op == "path" else new

    def has_list_item(self, content):
        while content.op == "upd":
            if isinstance(content.args[2].ty, tuple):
                return True
            content = content.args[0]
        return any(g.op == "it" and isinstance(g.args[0].ty, tuple) for g in segs_of(content))

    def keep_insts(self, t, st):
        return {s.args[0] for s in T.subterms(t) if s.op == "ref" and not isinstance(st.heap.get(s.args[0]), HList)}

    def _wrote(self, oid, o, what):
        self.sites.setdefault(("obj", oid), {})[self.site()] = what
        if o.owner:
            self.event("mutate-owned", o.owner, what, oid)

    # ------------------------------------------------------------- attributes
    def get_attr(self, v, name, st, node=None, default=None):
        op = v.op
        if op == "maybe":
            v = v.args[1]
            op = v.op
        if op == "path":
            v2 = self.deref(v, st)
            if isinstance(v2.ty, tuple) or v2.ty == "any":
                return obj_tmeth(v, name)
            v = v2
            op = v.op
        if op == "ref":
            o = st.heap.get(v.args[0])
            if isinstance(o, HInst):
                if o.cls is not None and o.cls.op == "ext":
                    r = self.models.ext_inst_attr(v, o, name, st, node)
                    if r is not None:
                        return r
                if name in o.attrs:
                    a = o.attrs[name]
                    if a.op == "maybe":
                        if default is not None:
                            return T.ite(a.args[0], a.args[1], default)
                        return a.args[1]
                    return a
                if name == "__dict__":
                    return self.new_obj(HDict({K(k): x for k, x in o.attrs.items()}), st, "dict")
                if name == "__class__":
                    return o.cls
                if o.cls.op == "cls":
                    c, owner = o.cls.args[0].lookup(name)
                    if c is not None:
                        return self.bind(c, v, st, node)
                    for e in o.cls.args[0].ext_bases():
                        r = self.models.ext_base_attr(v, o, e, name, st)
                        if r is not None:
                            return r
                    f, _ = o.cls.args[0].lookup("__getattr__")
                    if f is not None:
                        r = self.try_getattr(v, f, name, st, node)
                        if r is not None:
                            return r
                if o.cls.op == "cls" and self.real_name(o.cls.args[0], name):
                    return self.unmodelled([K("%s.%s" % (o.cls.args[0].name, name))])
                if default is not None:
                    return default
                self.event("missing-attr", o.cls.args[0].name if o.cls.op == "cls" else str(o.cls), name)
                self.do_raise(st, "AttributeError", K(name), node)
            if isinstance(o, (HList, HDict, HFile, HSIO)):
                return obj_tmeth(v, name)
        if op == "mod":
            r = self.mod_get(v.args[0], name, st)
            if r is not None:
                return r
            m = st.heap.get(("M", v.args[0]))
            if m is not None and name == "__dict__":
                return self.new_obj(HDict({K(k): x for k, x in m.attrs.items()}), st, "dict")
            if v.args[0] in self.extra and name in real_names(v.args[0]):
                return self.unmodelled([K("%s.%s" % (v.args[0], name))])
            if default is not None:
                return default
            self.event("missing-attr", v.args[0], name)
            self.do_raise(st, "AttributeError", K("module %s has no attribute %s" % (v.args[0], name)), node)
        if op == "ext":
            return self.models.ext_attr(v.args[0], name, st)
        if op == "cls":
            c = v.args[0]
            if name == "__name__":
                return K(c.name)
            if name == "__doc__":
                return K("")
            if name == "__mro__":
                return T.tup(*[obj("cls", x) if isinstance(x, ClassObj) else x for x in c.mro()])
            a, owner = c.lookup(name)
            if a is not None:
                if a.op == "static":
                    return a.args[0]
                if a.op == "clsm":
                    return obj("bm", (v, a.args[0]))
                return a
            if name == "__init__" or any(True for _ in c.ext_bases()):
                return obj_tmeth(v, name)
            if default is not None:
                return default
            self.event("missing-attr", c.name, name)
            self.do_raise(st, "AttributeError", K(name), node)
        if op == "func":
            if name == "__name__":
                return K(v.args[0].name)
            if name == "__doc__":
                return K("")
            return T.app("attr", v, K(name))
        if op == "super":
            inst, cls, after = v.args
            a, owner = cls.args[0].lookup(name, after.args[0])
            if a is not None:
                return self.bind(a, inst, st, node)
            return obj_tmeth(v, name)
        if op == "builtin":
            return obj_tmeth(v, name)
        if op == "ite" and v.args[0] is not None:
            a = self.get_attr(v.args[1], name, st, node, default)
            b = self.get_attr(v.args[2], name, st, node, default)
            if a.op == "tmeth" or b.op == "tmeth" or a.op == "bm" or b.op == "bm":
                return obj_tmeth(v, name)
            return T.ite(v.args[0], a, b)
        if op == "struct":
            for p in v.args[1]:
                if kv(p.args[0]) == name:
                    return p.args[1]
            cls = v.args[0]
            if cls.op == "cls":
                c, owner = cls.args[0].lookup(name)
                if c is not None:
                    return self.bind(c, v, st, node)
            return self.models.struct_attr(v, name, st)
        if op == "dictv":
            return obj_tmeth(v, name)
        if v.ty in ("str", "bytes", "tuple") or isinstance(v.ty, tuple) or (op == "K"):
            if v.ty == "none":
                if default is not None:
                    return default
                self.do_raise(st, "AttributeError", K("None." + name), node)
            if v.ty in ("int", "real", "bool") and default is not None:
                return default
            return obj_tmeth(v, name)
        if v.ty in ("int", "real", "bool"):
            if default is not None:
                return default
            return obj_tmeth(v, name)
        # opaque value
        r = st.heap.get(("O", v, name))
        if r is not None:
            return r
        r = self.models.opaque_attr(v, name, st)
        if r is not None:
            return r
        return T.app("attr", v, K(name))

    def try_getattr(self, v, f, name, st, node=None):
        """The class's own __getattr__; None when it raises."""
        s2 = st.copy()
        mark = len(self.raises), len(self.events)
        try:
            r = self.call(obj("bm", (v, f)), [K(name)], {}, s2, node)
        except Dead:
            del self.raises[mark[0]:]
            del self.events[mark[1]:]
            T.set_facts(st.facts)
            return None
        st.set_from(s2)
        return r

    def inst_class(self, v, st):
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if isinstance(o, HInst) and o.cls is not None and o.cls.op == "cls":
                return o.cls.args[0]
        return None

    def stand_in(self, f):
        """A call that only the stand-in for a library does not take is not an error of the program."""
        if f.module.split(".")[0] in self.extra:
            raise NoModel("%s.%s" % (f.module, f.qual()))

    def real_name(self, c, name):
        """Does the library's class have the attribute, although its stand-in has not?"""
        if c.module not in self.extra:
            return False
        cs = [c] + list(c.mro() if hasattr(c, "mro") else [])
        return any(name in real_names("%s.%s" % (c.module, x.name)) for x in cs if hasattr(x, "name"))

    def unmodelled(self, args):
        self.note("library operation without a model: %s" % (args[0],))
        return unk("library operation without a model")

    def dunder(self, name, v, args, st, node=None):
        """The result of an operator method an analysed class defines, or None."""
        c = self.inst_class(v, st)
        if c is None:
            return None
        f, _ = c.lookup(name)
        if f is None or f.op != "func":
            return None
        return self.call(obj("bm", (v, f)), list(args), {}, st, node)

    def bind(self, c, inst, st, node=None):
        if c.op == "func":
            return obj("bm", (inst, c))
        if c.op == "prop":
            f = c.args[0].fget
            return self.call(obj("bm", (inst, f)), [], {}, st, node)
        if c.op == "static":
            return c.args[0]
        if c.op == "clsm":
            o = st.heap.get(inst.args[0]) if inst.op == "ref" else None
            return obj("bm", (o.cls if o else inst, c.args[0]))
        return c

    def set_attr(self, v, name, val, st, node=None):
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if isinstance(o, HInst):
                if o.cls is not None and o.cls.op == "cls":
                    c, owner = o.cls.args[0].lookup(name)
                    if c is not None and c.op == "prop":
                        if c.args[0].fset is not None:
                            self.call(obj("bm", (v, c.args[0].fset)), [val], {}, st, node)
                            return
                        self.do_raise(st, "AttributeError", K(name), node)
                if o.cls is not None and o.cls.op == "ext":
                    if self.models.ext_inst_setattr(v, o, name, val, st):
                        return
                a = dict(o.attrs)
                a[name] = val
                self.sites.setdefault(("attr", name), {})[self.site(node)] = "set"
                if o.owner:
                    self.event("mutate-owned", o.owner, "attribute " + name, v.args[0])
                st.heap[v.args[0]] = o.with_(attrs=a)
                return
        if v.op == "mod":
            key = ("M", v.args[0])
            m = st.heap[key]
            a = dict(m.attrs)
            a[name] = val
            st.heap[key] = m.with_(attrs=a)
            self.event("global-write", v.args[0], name)
            return
        if v.op == "cls":
            self.event("class-write", v.args[0].name, name)
            v.args[0].attrs = dict(v.args[0].attrs)
            v.args[0].attrs[name] = val
            return
        if v.op == "ite":
            for x, c in ((v.args[1], v.args[0]), (v.args[2], neg(v.args[0]))):
                try:
                    oldv = self.get_attr(x, name, st.copy(), node, default=UNDEF)
                except Dead:
                    oldv = UNDEF
                self.set_attr(x, name, T.ite(c, val, oldv) if oldv is not UNDEF else val, st, node)
            return
        if v.op == "ext":
            self.event("ext-write", v.args[0], name)
            return
        self.event("set-opaque", name, v, val)
        st.heap[("O", v, name)] = val

    # --------------------------------------------------------------- subscripts
    def norm_idx(self, i, n):
        if is_k(i) and isinstance(kv(i), int) and kv(i) < 0:
            return add(n, i)
        return i

    def subscript(self, v, i, st, node=None):
        if i.op == "sliceobj" and not (v.op == "ref" and isinstance(st.heap.get(v.args[0]), (HInst, HDict))):
            lo, hi, step = [None if x is NONE else x for x in i.args]
            return self.slice_value(v, lo, hi, step, st, node)
        if v.op == "maybe":
            v = v.args[1]
        if v.op == "ite" and not isinstance(v.ty, tuple) and v.ty != "str":
            return T.ite(v.args[0], self.subscript(v.args[1], i, st, node), self.subscript(v.args[2], i, st, node))
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if isinstance(o, HDict):
                return self.dict_get(v, o, i, st, node)
            if isinstance(o, HInst):
                c = None
                if o.cls.op == "cls":
                    c, _ = o.cls.args[0].lookup("__getitem__")
                if c is not None:
                    return self.call(obj("bm", (v, c)), [i], {}, st, node)
                return self.models.inst_getitem(v, o, i, st)
            if isinstance(o, HList):
                return self._elem(v, o.content, i, st, node)
        if v.op == "path":
            return self._elem(v, self.deref(v, st), i, st, node)
        if v.op == "dictv":
            for p in v.args[0]:
                if p.args[0] is i:
                    return p.args[1]
            return T.app("dictget", v, i)
        if v.op == "struct":
            return self.models.struct_getitem(v, i, st)
        if v.op == "builtin" or v.op == "ext":
            return v
        if v.ty == "str":
            if is_k(v) and is_k(i):
                try:
                    return K(kv(v)[kv(i)])
                except (IndexError, TypeError):
                    self.do_raise(st, "IndexError", None, node)
            if v.op == "cat" and is_k(i) and isinstance(kv(i), int):
                p = v.args[0] if kv(i) >= 0 else v.args[-1]
                if p.op == "K":
                    k = kv(i)
                    if -len(kv(p)) <= k < len(kv(p)):
                        return K(kv(p)[k])
            return T.mk("get", (v, i), "str")
        if v.op == "tuple":
            if is_k(i) and isinstance(kv(i), int):
                try:
                    return v.args[kv(i)]
                except IndexError:
                    self.do_raise(st, "IndexError", None, node)
            v = seq(*[it(x) for x in v.args])
            return T.get(v, self.from_end(i, v))
        if isinstance(v.ty, tuple) and v.ty[0] == "seq":
            return T.get(v, self.from_end(i, v))
        return self.models.opaque_getitem(v, i, st)

    def from_end(self, i, content):
        """a symbolic index known to be negative counts from the end"""
        if i.ty == "int" and i.op not in ("K", "sliceobj") and T.decide(T.lt(i, ZERO)) is True:
            return add(T.length(content), i)
        return i

    def _elem(self, container, content, i, st, node):
        i = self.from_end(i, content)
        if is_k(i) and isinstance(kv(i), int):
            n = T.length(content)
            if is_k(n):
                k = kv(i)
                if k >= kv(n) or k < -kv(n):
                    self.do_raise(st, "IndexError", None, node)
        if i.op == "sliceobj" or i.ty not in ("int", "bool", "any"):
            return T.app("getitem", content, i)
        if i.ty == "any":
            i2 = i
            e = T.mk("get", (content, i2), elem_ty(content))
        else:
            e = T.get(content, i)
        if e.op in ("ref", "path"):
            return e
        if e.ty in ("ref", "any") and st is not None and container.op in ("ref", "path") and T._has_ref(content):
            # unresolved element of a list that holds list references: embed them
            inner = self.embed(container, st)
            if inner is not None and inner is not content:
                return self._elem(container, inner, i, st, node)
        if (isinstance(e.ty, tuple) and e.ty[0] == "seq") or (
                e.ty == "any" and container.op in ("ref", "path") and content.op in ("seq", "upd") and self.has_list_item(content)):
            idx = self.norm_idx(i, T.length(content))
            if container.op == "path":
                return T.mk("path", container.args + (idx,), "path")
            return T.mk("path", (container, idx), "path")
        if e.op == "unk" and e.args[0] == "index out of range":
            self.do_raise(st, "IndexError", None, node)
        return e

    def dict_get(self, r, o, k, st, node=None, default=None):
        k = self.hashable(k, st)
        if k in o.items:
            v = o.items[k]
            if v.op == "maybe":
                if default is not None:
                    return T.ite(v.args[0], v.args[1], default)
                return v.args[1]
            return v
        if o.base is not None:
            return T.app("dictget", o.base, k)
        if k.op == "K" or all(x.op != "K" for x in o.items) is False and k.op == "tuple":
            if default is not None:
                return default
            self.event("missing-key", k)
            self.do_raise(st, "KeyError", k, node)
        # symbolic key against known keys
        items = list(o.items.items())
        if items and len(items) <= 80:
            if default is None:
                return T.app("dictsel", k, *[T.tup(a, b) for a, b in items])
            return T.app("dictsel_d", k, default, *[T.tup(a, b) for a, b in items])
        if default is not None:
            return default
        self.do_raise(st, "KeyError", k, node)

    def hashable(self, k, st):
        if k.op == "ref":
            return k
        return self.freeze(k, st)

    def store_sub(self, v, i, val, st, node=None):
        if v.op == "ite":
            for x in v.args[1:]:
                self.store_sub(x, i, val, st, node)
            return
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if isinstance(o, HDict):
                k = self.hashable(i, st)
                items = dict(o.items)
                if k.op == "K" or k in items or k.op in ("ref", "cls", "func", "builtin") or (
                        k.op == "tuple" and all(x.op == "K" for x in k.args)):
                    items[k] = val
                    base = o.base
                else:
                    items = dict(items)
                    items[k] = val
                    base = o.base
                self._wrote(v.args[0], o, "set key %s" % (k,))
                self.sites.setdefault(("key", k), {})[self.site(node)] = "set"
                st.heap[v.args[0]] = o.with_(items=items, base=base)
                return
            if isinstance(o, HInst):
                c = None
                if o.cls.op == "cls":
                    c, _ = o.cls.args[0].lookup("__setitem__")
                if c is not None:
                    self.call(obj("bm", (v, c)), [i, val], {}, st, node)
                    return
        if v.op in ("ref", "path"):
            self.write_list(v, lambda t: T.upd(t, self.norm_idx(i, T.length(t)), val), st, node, "item assignment")
            return
        self.event("setitem-opaque", v, i, val)
        st.heap[("I", v, i)] = val

    def clamp(self, x, n, dflt, st):
        if x is None or x is NONE:
            return dflt
        if x.ty not in ("int", "bool"):
            x = T.conv("int", x) if x.ty != "any" else x
        if is_k(x) and kv(x) < 0:
            y = add(n, x)
            if T.nonneg(y):
                return y
            return T.max0(y)
        if T.decide(le(x, n)) is True or x is n:
            if not T.nonneg(x) and x.ty == "int":
                d = T._pd(x)
                if all(c < 0 for c in d.values()):
                    return T.max0(add(n, x))
            return x
        if T.decide(le(n, x)) is True:
            return n
        d = T._pd(x) if x.ty == "int" else {}
        if d and all(c < 0 for c in d.values()):
            return T.max0(add(n, x))
        return T.min_(x, n)

    def slice_value(self, v, lo, hi, step, st, node=None):
        content = self.deref(v, st) if v.op == "path" else v
        boxed = v.op == "path"
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if isinstance(o, HList):
                content, boxed = o.content, True
            else:
                return self.models.inst_slice(v, o, lo, hi, step, st)
        if v.op == "ite":
            return T.ite(v.args[0], self.slice_value(v.args[1], lo, hi, step, st), self.slice_value(v.args[2], lo, hi, step, st)) \
                if v.ty == "str" else (self._box(T.ite(v.args[0], self._unbox(self.slice_value(v.args[1], lo, hi, step, st), st),
                                                       self._unbox(self.slice_value(v.args[2], lo, hi, step, st), st)), st))
        if content.op == "K" and isinstance(kv(content), str):
            if all(x is None or x is NONE or is_k(x) for x in (lo, hi, step)):
                f = lambda x: None if x is None or x is NONE else kv(x)
                return K(kv(content)[f(lo):f(hi):f(step)])
        if content.ty == "str":
            r = _edge_slice(content, lo, hi, step)
            if r is not None:
                return r
            return T.app("strslice", content, lo or NONE, hi or NONE, step or NONE, ty="str")
        if content.op == "tuple":
            n = len(content.args)
            if all(x is None or x is NONE or is_k(x) for x in (lo, hi, step)):
                f = lambda x: None if x is None or x is NONE else kv(x)
                return T.tup(*content.args[f(lo):f(hi):f(step)])
            content = seq(*[it(x) for x in content.args])
        if not isinstance(content.ty, tuple):
            return self.models.opaque_slice(content, lo, hi, step, st)
        if content.op == "lns":
            # suffix of the remaining lines
            if (hi is None or hi is NONE) and (step is None or step is NONE):
                k = lo if lo is not None and lo is not NONE else ZERO
                if k.ty == "int" and not (is_k(k) and kv(k) < 0):
                    r = T.lns(T.cur_adv(content.args[0], T.ln_seg(k)))
                    return self.new_list(r, st) if boxed else r
        n = T.length(content)
        if step is not None and step is not NONE and not is_k(step, 1):
            bounds = [None if x is None or x is NONE else x for x in (lo, hi, step)]
            if content.op == "seq" and all(g.op == "it" for g in segs_of(content)) and all(x is None or is_k(x) for x in bounds) and not is_k(step, 0):
                r = seq(*list(segs_of(content))[slice(*[None if x is None else kv(x) for x in bounds])])
            elif is_k(step, -1) and (lo is None or lo is NONE) and (hi is None or hi is NONE):
                r = T.rev(content)
            elif (is_k(step) and kv(step) > 1) or step.ty == "int":
                lo_ = self.clamp(lo, n, ZERO, st)
                hi_ = self.clamp(hi, n, n, st)
                cnt = T.app("ceildiv", psub(hi_, lo_), step, ty="int")
                T.NAT.add(cnt)
                j = fresh("i", "int", nat=True)
                r = seq(rep(cnt, j, it(T.get(content, add(lo_, pmul(j, step))))))
            else:
                r = unk("slice step", content.ty)
        else:
            lo_ = self.clamp(lo, n, ZERO, st)
            hi_ = self.clamp(hi, n, n, st)
            r = T.slice_(content, lo_, hi_)
        return self.new_list(r, st) if boxed else r

    def _unbox(self, v, st):
        s = self.aslist(v, st)
        return s if s is not None else v

    def _box(self, v, st):
        if isinstance(v.ty, tuple):
            return self.new_list(v, st)
        return v

    # ------------------------------------------------------------------ truth
    def truth(self, v, st):
        if v.op == "maybe":
            v = v.args[1]
        if v.op == "K":
            return K(bool(kv(v)))
        if v.ty == "bool":
            return T.simp_bool(v)
        if v.op == "path":
            v = self.deref(v, st)
        if v.op == "ref":
            o = st.heap.get(v.args[0])
            if isinstance(o, HList):
                return neg(eq(T.length(o.content), ZERO)) if not is_k(T.length(o.content)) else K(kv(T.length(o.content)) > 0)
            if isinstance(o, HDict):
                if o.base is None:
                    return K(len(o.items) > 0)
                return TRUE if o.items else T.app("truth", o.base, ty="bool")
            if isinstance(o, HInst) and o.cls.op == "cls":
                c, _ = o.cls.args[0].lookup("__len__")
                b, _ = o.cls.args[0].lookup("__bool__")
                if b is not None:
                    return self.truth(self.call(obj("bm", (v, b)), [], {}, st), st)
                if c is not None:
                    return self.truth(self.call(obj("bm", (v, c)), [], {}, st), st)
            return TRUE
        if v.ty == "int":
            return neg(eq(v, ZERO))
        if v.ty == "str":
            if v.op == "cat" and any(p.op == "K" for p in v.args):
                return TRUE
            return neg(eq(v, EMPTY))
        if v.op == "tuple":
            return K(len(v.args) > 0)
        if isinstance(v.ty, tuple):
            n = T.length(v)
            if is_k(n):
                return K(kv(n) > 0)
            return neg(eq(n, ZERO))
        if v.ty == "none":
            return FALSE
        if v.op == "ite":
            return T.ite(v.args[0], self.truth(v.args[1], st), self.truth(v.args[2], st))
        if v.op in ("func", "cls", "mod", "builtin", "ext", "bm", "tmeth", "struct"):
            return TRUE
        if v.op == "app" and v.args[0] == "rematch":
            r = self.models.known_match_(*v.args[1]) if len(v.args[1]) == 2 else None
            if r is not None:
                return K(r[0])
            return T.app("matches", *v.args[1], ty="bool")
        if v.op == "dictv":
            return K(len(v.args[0]) > 0)
        if v.ty == "real":
            return neg(eq(v, ZERO))
        return T.app("truth", v, ty="bool")

    # ------------------------------------------------------------ expressions
    def ev(self, node, st):
        m = getattr(self, "e_" + node.__class__.__name__, None)
        if m is None:
            self.note("expression %s not modelled" % node.__class__.__name__)
            return unk("expr " + node.__class__.__name__)
        if hasattr(node, "lineno"):
            self.cur_line = node.lineno
        return m(node, st)

    def e_Constant(self, node, st):
        if node.value is Ellipsis:
            return builtin("Ellipsis")
        return K(node.value)

    def e_Name(self, node, st):
        return self.load_name(node.id, st, node)

    def e_Attribute(self, node, st):
        v = self.ev(node.value, st)
        return self.get_attr(v, node.attr, st, node)

    def e_Tuple(self, node, st):
        return T.tup(*self._elts(node.elts, st))

    def _elts(self, elts, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                s = self.aslist(self.ev(e.value, st), st)
                if s is not None and all(g.op == "it" for g in segs_of(s)):
                    out.extend(g.args[0] for g in segs_of(s))
                else:
                    out.append(unk("starred"))
            else:
                out.append(self.ev(e, st))
        return out

    def e_List(self, node, st):
        segs = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                s = self.aslist(v, st)
                segs.append(spl(s) if s is not None else spl(T.app("list", v, ty=("seq", "any"))))
            else:
                segs.append(it(self.ev(e, st)))
        return self.new_list(seq(*segs), st)

    def e_Set(self, node, st):
        return self.new_list(seq(*[it(x) for x in self._elts(node.elts, st)]), st, cls=HSet)

    def e_Dict(self, node, st):
        d = HDict()
        r = self.new_obj(d, st, "D%d" % node.lineno)
        for k, v in zip(node.keys, node.values):
            if k is None:
                src = self.ev(v, st)
                self.dict_update(r, src, st)
            else:
                kk = self.ev(k, st)
                vv = self.ev(v, st)
                o = st.heap[r.args[0]]
                items = dict(o.items)
                items[self.hashable(kk, st)] = vv
                st.heap[r.args[0]] = o.with_(items=items)
        return r

    def dict_update(self, r, src, st):
        o = st.heap[r.args[0]]
        items = dict(o.items)
        base = o.base
        so = st.heap.get(src.args[0]) if src.op == "ref" else None
        if isinstance(so, HDict):
            items.update(so.items)
            base = so.base or base
        else:
            s = self.aslist(src, st)
            if s is not None and all(g.op == "it" and self._pair(g.args[0], st) for g in segs_of(s)):
                for g in segs_of(s):
                    k, v = self._pair(g.args[0], st)
                    items[self.hashable(k, st)] = v
            else:
                base = T.app("dictmerge", base or NONE, s if s is not None else src)
        self._wrote(r.args[0], o, "update")
        st.heap[r.args[0]] = o.with_(items=items, base=base)

    def _pair(self, v, st):
        if v.op == "tuple" and len(v.args) == 2:
            return v.args
        s = self.aslist(v, st)
        if s is not None and is_k(T.length(s), 2):
            return T.get(s, ZERO), T.get(s, ONE)
        return None

    def e_JoinedStr(self, node, st):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                x = self.ev(v.value, st)
                spec = None
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, st)
                if v.conversion in (114, 97):
                    x = T.app("repr", x, ty="str")
                parts.append(self.models.format_value(x, spec, st))
        return T.cat(*parts)

    def e_UnaryOp(self, node, st):
        v = self.ev(node.operand, st)
        if isinstance(node.op, ast.Not):
            return neg(self.truth(v, st))
        if isinstance(node.op, ast.USub):
            if v.ty in ("int", "real", "bool"):
                return pneg(v)
            return T.app("neg", v)
        if isinstance(node.op, ast.UAdd):
            return v
        return T.app("invert", v)

    def e_BoolOp(self, node, st):
        isand = isinstance(node.op, ast.And)
        vals = []
        st_path, st_facts = st.path, st.facts
        oldf = T.set_facts(st.facts)
        try:
            for k, e in enumerate(node.values):
                v = self.ev(e, st)
                vals.append(v)
                c = self.truth(v, st)
                d = T.decide(c)
                if d is not None:
                    if d != isand:          # short circuit for certain
                        break
                    if k < len(node.values) - 1:
                        vals.pop()
                    continue
                g = c if isand else neg(c)
                st.facts = st.facts.add(g)
                st.path = st.path + (g,)
                T.set_facts(st.facts)
        finally:
            st.path, st.facts = st_path, st_facts
            T.set_facts(oldf)
        if all(v.ty == "bool" for v in vals):
            return conj(*vals) if isand else disj(*vals)
        acc = vals[-1]
        for v in reversed(vals[:-1]):
            c = self.truth(v, st)
            a, b = (acc, v) if isand else (v, acc)
            acc = self.ite_val(c, a, b, st)
        return acc

    def ite_val(self, c, a, b, st):
        d = T.decide(c)
        if d is not None:
            return a if d else b
        return jval(c, a, b, st, st, st.heap)

    def e_IfExp(self, node, st):
        c = self.truth(self.ev(node.test, st), st)
        d = T.decide(c)
        if d is not None:
            return self.ev(node.body if d else node.orelse, st)
        s1, s2 = st.copy(), st.copy()
        a = b = None
        try:
            s1.assume(c)
            T.set_facts(s1.facts)
            a = self.ev(node.body, s1)
        except Dead:
            s1 = None
        try:
            s2.assume(neg(c))
            T.set_facts(s2.facts)
            b = self.ev(node.orelse, s2)
        except Dead:
            s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        if s1 is None or s2 is None:
            s = s1 or s2
            s.path = st.path
            st.set_from(s)
            T.set_facts(st.facts)
            return a if s1 is not None else b
        s1.env["$v"], s2.env["$v"] = a, b
        j = join(c, s1, s2)
        v = j.env.pop("$v")
        j.path = st.path
        st.set_from(j)
        T.set_facts(st.facts)
        return v

    def e_Compare(self, node, st):
        left = self.ev(node.left, st)
        res = []
        for op, rn in zip(node.ops, node.comparators):
            right = self.ev(rn, st)
            res.append(self.compare(op, left, right, st))
            left = right
        return conj(*res) if len(res) > 1 else res[0]

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            nm = "__eq__" if isinstance(op, ast.Eq) else "__ne__"
            r = self.dunder(nm, a, [b], st)
            if r is None:
                r = self.dunder(nm, b, [a], st)
            if r is not None:
                return r
            c = self.equal(a, b, st)
            return neg(c) if isinstance(op, ast.NotEq) else c
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self.identical(a, b, st)
            return neg(c) if isinstance(op, ast.IsNot) else c
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(a, b, st)
            return neg(c) if isinstance(op, ast.NotIn) else c
        nm = {"Lt": ("__lt__", "__gt__"), "LtE": ("__le__", "__ge__"), "Gt": ("__gt__", "__lt__"), "GtE": ("__ge__", "__le__")}[op.__class__.__name__]
        r = self.dunder(nm[0], a, [b], st)
        if r is None:
            r = self.dunder(nm[1], b, [a], st)
        if r is not None:
            return r
        a, b = self.freeze(a, st), self.freeze(b, st)
        a, b = self.boolint(a), self.boolint(b)
        if isinstance(op, ast.Lt):
            return T.lt(a, b)
        if isinstance(op, ast.LtE):
            return T.le(a, b)
        if isinstance(op, ast.Gt):
            return T.lt(b, a)
        return T.le(b, a)

    def boolint(self, a):
        if a.ty == "bool" and a.op != "K":
            return T.ite(a, ONE, ZERO)
        if a.op == "K" and a.ty == "bool":
            return K(int(kv(a)))
        return a

    def identical(self, a, b, st):
        if a is b:
            return TRUE
        if a.op == "maybe":
            return T.ite(a.args[0], self.identical(a.args[1], b, st), FALSE)
        if b.op == "K" and kv(b) is None or a.op == "K" and kv(a) is None:
            x = a if b.op == "K" else b
            return self.is_none(x, st)
        if a.op == "ref" and b.op == "ref":
            return FALSE
        if a.op in ("K",) and b.op in ("K",):
            return K(kv(a) is kv(b) or (kv(a) == kv(b) and type(kv(a)) is type(kv(b))))
        return self.equal(a, b, st)

    def is_none(self, x, st):
        if x.op == "K":
            return K(kv(x) is None)
        if x.op == "maybe":
            return self.is_none(x.args[1], st)
        if x.op == "ite":
            return T.ite(x.args[0], self.is_none(x.args[1], st), self.is_none(x.args[2], st))
        if x.ty == "none":
            return TRUE
        if x.op == "app" and x.args[0] == "rematch":
            return neg(self.truth(x, st))
        if x.ty in ("int", "real", "str", "bool", "tuple", "ref", "struct", "path", "obj", "dict") or isinstance(x.ty, tuple):
            return FALSE
        if x.op in ("ref", "path", "func", "cls", "mod", "builtin", "ext", "bm", "tmeth"):
            return FALSE
        return T._known(T.mk("eq", tuple(sorted((x, NONE))), "bool"))

    def equal(self, a, b, st):
        if a.op == "maybe":
            a = a.args[1]
        if b.op == "maybe":
            b = b.args[1]
        if a is b:
            return TRUE
        if is_k(a) and kv(a) is None or is_k(b) and kv(b) is None:
            return self.is_none(b if is_k(a) and kv(a) is None else a, st)
        for x, y in ((a, b), (b, a)):
            if x.op == "ref":
                o = st.heap.get(x.args[0])
                if isinstance(o, HInst):
                    if y.op in ("K",) or y.ty in ("str", "int", "real"):
                        return FALSE
        a, b = self.freeze(a, st), self.freeze(b, st)
        if a.op == "app" and a.args[0] == "type" and b.op in ("builtin",):
            return self.models.type_is(a.args[1][0], b, st)
        if b.op == "app" and b.args[0] == "type" and a.op in ("builtin",):
            return self.models.type_is(b.args[1][0], a, st)
        return T.eq(self.boolint(a) if b.ty == "int" else a, self.boolint(b) if a.ty == "int" else b)

    def contains(self, x, c, st):
        if c.op == "maybe":
            c = c.args[1]
        if c.op == "ref":
            o = st.heap.get(c.args[0])
            if isinstance(o, HDict):
                k = self.hashable(x, st)
                if k in o.items:
                    v = o.items[k]
                    return v.args[0] if v.op == "maybe" else TRUE
                if o.base is None:
                    if k.op == "K" or not o.items or (k.op == "tuple" and all(y.op == "K" for y in k.args)):
                        if all(y.op == "K" or y.op == "tuple" for y in o.items):
                            return FALSE
                    return disj(*[T.ite(v.args[0], T.eq(k, kk), FALSE) if v.op == "maybe" else T.eq(k, kk)
                                  for kk, v in o.items.items()])
                return T.app("in", k, o.base, ty="bool")
            if isinstance(o, HInst):
                r = self.dunder("__contains__", c, [x], st)
                if r is not None:
                    return self.truth(r, st)
                return T.app("in", self.freeze(x, st), self.freeze(c, st), ty="bool")
        if c.op == "dictv" and c.args[1] is NONE:
            return disj(*[T.eq(self.freeze(x, st), p.args[0]) for p in c.args[0]])
        if c.ty == "str":
            x = self.freeze(x, st)
            if is_k(x) and is_k(c):
                try:
                    return K(kv(x) in kv(c))
                except TypeError:
                    self.do_raise(st, "TypeError", None)
            if is_k(c) and x.ty == "str":
                return T.app("substr", x, c, ty="bool")
            if is_k(x):
                for p in T.cat_parts(c):
                    if p.op == "K" and kv(x) in kv(p):
                        return TRUE
                if kv(x) == "\n" and T.newline_free(c):
                    return FALSE
            return T.app("substr", x, c, ty="bool")
        s = self.aslist(c, st)
        if s is not None:
            out = []
            for g in segs_of(s):
                if g.op == "it":
                    out.append(self.equal(x, g.args[0], st))
                elif g.op == "rep" and len(g.args) == 3 and g.args[2].op == "it":
                    n, i, ss = T.open_rep(g)
                    out.append(T.any_(n, i, self.equal(x, ss[0].args[0], st)))
                elif g.op == "alt":
                    out.append(T.ite(g.args[0], self.contains(x, g.args[1], st), self.contains(x, g.args[2], st)))
                else:
                    t = g.args[0] if g.op == "spl" else seq(g)
                    out.append(T._known(T.app("in", self.freeze(x, st), self.freeze(t, st), ty="bool")))
            return disj(*out)
        return T._known(T.app("in", self.freeze(x, st), self.freeze(c, st), ty="bool"))

    def e_BinOp(self, node, st):
        a = self.ev(node.left, st)
        b = self.ev(node.right, st)
        return self.binop(node.op, a, b, st, node)

    def binop(self, op, a, b, st, node=None):
        return self.models.binop(op, a, b, st, node)

    def e_Subscript(self, node, st):
        v = self.ev(node.value, st)
        if isinstance(node.slice, ast.Slice):
            lo, hi, step = [self.ev(x, st) if x is not None else None for x in (node.slice.lower, node.slice.upper, node.slice.step)]
            return self.slice_value(v, lo, hi, step, st, node)
        i = self.ev(node.slice, st)
        return self.subscript(v, i, st, node)

    def e_Slice(self, node, st):
        parts = [self.ev(x, st) if x is not None else NONE for x in (node.lower, node.upper, node.step)]
        return T.mk("sliceobj", tuple(parts), "slice")

    def e_Starred(self, node, st):
        return self.ev(node.value, st)

    def e_NamedExpr(self, node, st):
        v = self.ev(node.value, st)
        self.assign(node.target, v, st)
        return v

    def e_Lambda(self, node, st):
        return self.make_func(node, st, "<lambda>")

    def e_Yield(self, node, st):
        v = self.ev(node.value, st) if node.value is not None else NONE
        y = st.env.get("$yield")
        self.write_list(y, lambda t: T.append(t, v), st)
        return NONE

    def e_YieldFrom(self, node, st):
        v = self.ev(node.value, st)
        s = self.aslist(v, st)
        y = st.env.get("$yield")
        self.write_list(y, lambda t: T.concat(t, s if s is not None else T.app("list", v, ty=("seq", "any"))), st)
        return NONE

    # comprehension: evaluate as nested iteration building a boxed list
    def _comp(self, node, st, emit):
        save_env = st.env
        st.env = dict(st.env)
        names = set()
        for g in node.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        acc = self.new_list(NIL, st, "comp")
        st.env["$acc"] = acc
        if "$globals" in st.env:
            # comprehension at module level: give it a local scope
            del st.env["$globals"]
            st.env["$closure"] = T.mk("env", (_Env({}),), "env")

        def run(k, s):
            if k == len(node.generators):
                v = emit(s)
                self.write_list(s.env["$acc"], lambda t: T.append(t, v), s)
                return Flow(s)
            g = node.generators[k]
            src = self.ev(g.iter, s)

            def body(s2, elem):
                self.assign(g.target, elem, s2)
                return self._comp_ifs(g.ifs, s2, lambda s3: run(k + 1, s3))
            return self.iterate(src, s, body, g.iter)
        flow = run(0, st)
        if flow.fall is None:
            raise Dead()
        r = flow.fall.env["$acc"]
        st.set_from(flow.fall)
        st.env = save_env
        T.set_facts(st.facts)
        return r

    def _comp_ifs(self, ifs, s, cont):
        if not ifs:
            return cont(s)
        c = self.truth(self.ev(ifs[0], s), s)
        d = T.decide(c)
        if d is True:
            return self._comp_ifs(ifs[1:], s, cont)
        if d is False:
            return Flow(s)
        s1, s2 = s.copy(), s.copy()
        s1.assume(c)
        s2.assume(neg(c))
        T.set_facts(s1.facts)
        f = self._comp_ifs(ifs[1:], s1, cont)
        j = join(c, f.fall, s2) if f.fall is not None else s2
        j.path = s.path
        T.set_facts(j.facts)
        return Flow(j)

    def e_ListComp(self, node, st):
        return self._comp(node, st, lambda s: self.ev(node.elt, s))

    def e_GeneratorExp(self, node, st):
        return self._comp(node, st, lambda s: self.ev(node.elt, s))

    def e_SetComp(self, node, st):
        r = self._comp(node, st, lambda s: self.ev(node.elt, s))
        return self.models.set_of(self.aslist(r, st), st)

    def e_DictComp(self, node, st):
        r = self._comp(node, st, lambda s: T.tup(self.ev(node.key, s), self.ev(node.value, s)))
        c = st.heap[r.args[0]].content
        if all(g.op == "it" for g in segs_of(c)):
            return self.new_obj(HDict({self.hashable(g.args[0].args[0], st): g.args[0].args[1] for g in segs_of(c)}), st, "D")
        return self.new_obj(HDict({}, base=T.app("dictof", c)), st, "D")

    # ------------------------------------------------------------------ calls
    def e_Call(self, node, st):
        fn = self.ev(node.func, st)
        args, kwargs = [], {}
        star = None
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                s = self.aslist(v, st)
                if s is not None and all(g.op == "it" for g in segs_of(s)):
                    args.extend(g.args[0] for g in segs_of(s))
                else:
                    args.append(T.mk("star", (s if s is not None else v,), "star"))
            else:
                args.append(self.ev(a, st))
        for k in node.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                o = st.heap.get(v.args[0]) if v.op == "ref" else None
                if isinstance(o, HDict) and o.base is None and all(x.op == "K" for x in o.items):
                    for kk, vv in o.items.items():
                        kwargs[kv(kk)] = vv.args[1] if vv.op == "maybe" else vv
                elif isinstance(o, HDict):
                    for kk, vv in o.items.items():
                        if kk.op == "K":
                            kwargs[kv(kk)] = vv
                    kwargs["**"] = o.base if o.base is not None else unk("kwargs")
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        self.calls.add((self.cur_func.module if self.cur_func else "?", node.lineno, node.col_offset))
        self.cur_line = node.lineno
        return self.call(fn, args, kwargs, st, node)

    def call(self, fn, args, kwargs, st, node=None):
        op = fn.op
        if op == "maybe":
            return self.call(fn.args[1], args, kwargs, st, node)
        if op == "bm":
            inst, f = fn.args[0]
            return self.call(f, [inst] + list(args), kwargs, st, node)
        if op == "func":
            return self.call_func(fn.args[0], args, kwargs, st, node)
        if op == "cls":
            return self.instantiate(fn, args, kwargs, st, node)
        if op == "builtin":
            return self.models.call_builtin(fn.args[0], args, kwargs, st, node)
        if op == "tmeth":
            return self.models.call_method(fn.args[0], fn.args[1], args, kwargs, st, node)
        if op == "ext":
            return self.models.call_ext(fn.args[0], args, kwargs, st, node)
        if op == "partial":
            f, a, k = fn.args[0]
            kk = dict(k)
            kk.update(kwargs)
            return self.call(f, list(a) + list(args), kk, st, node)
        if op == "ite":
            c = fn.args[0]
            s1, s2 = st.copy(), st.copy()
            s1.assume(c)
            s2.assume(neg(c))
            a = b = None
            try:
                T.set_facts(s1.facts)
                a = self.call(fn.args[1], args, kwargs, s1, node)
            except Dead:
                s1 = None
            try:
                T.set_facts(s2.facts)
                b = self.call(fn.args[2], args, kwargs, s2, node)
            except Dead:
                s2 = None
            if s1 is None and s2 is None:
                raise Dead()
            if s1 is None or s2 is None:
                s = s1 or s2
                s.path = st.path
                st.set_from(s)
                return a if s1 is not None else b
            s1.env["$v"], s2.env["$v"] = a, b
            j = join(c, s1, s2)
            v = j.env.pop("$v")
            j.path = st.path
            st.set_from(j)
            T.set_facts(st.facts)
            return v
        if op == "K" and kv(fn) is None:
            self.do_raise(st, "TypeError", K("None is not callable"), node)
        if op == "ref":
            o = st.heap.get(fn.args[0])
            if isinstance(o, HInst) and o.cls.op == "cls":
                c, _ = o.cls.args[0].lookup("__call__")
                if c is not None:
                    return self.call(obj("bm", (fn, c)), args, kwargs, st, node)
        return self.models.call_opaque(fn, args, kwargs, st, node)

    def instantiate(self, cls, args, kwargs, st, node=None):
        c = cls.args[0]
        exts = c.ext_bases()
        if any(e.op == "builtin" and e.args[0] in EXC_NAMES for e in exts):
            return T.app("exc", K(c.name), *[self.freeze(a, st) for a in args])
        init, _ = c.lookup("__init__")
        if init is None and c.module in self.extra and (args or kwargs):
            return self.unmodelled([K("%s.%s" % (c.module, c.name))])
        r = self.new_obj(HInst(cls), st, c.name)
        if init is not None:
            self.call(obj("bm", (r, init)), args, kwargs, st, node)
        else:
            self.models.ext_init(r, c, args, kwargs, st)
        return r

    def make_func(self, node, st, name, cls=None):
        a = node.args
        defaults = [self.ev(d, st) for d in a.defaults]
        kwd = {p.arg: (self.ev(d, st) if d is not None else None) for p, d in zip(a.kwonlyargs, a.kw_defaults)}
        closure = None
        if "$globals" not in st.env and "$class" not in st.env:
            closure = st.env
        f = FuncObj(name, kv(st.env["$mod"]), node, defaults, kwd, closure, cls, st.frame)
        return obj("func", f)

    def bind_args(self, f, args, kwargs, st, node=None):
        a = f.node.args
        env = {}
        names = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        extra_kw = kwargs.pop("**", None)
        star = [x for x in args if x.op == "star"]
        if star and not f.defaults and not a.vararg:
            full = self.models.unstar(args, len([nm for nm in names if nm not in kwargs]))
            if full is not None:
                args, star = full, []
        if star:
            self.note("starred call with unknown length")
            args = [x for x in args if x.op != "star"]
        nd = len(f.defaults)
        for k, nm in enumerate(names):
            if k < len(args):
                if nm in kwargs:
                    self.stand_in(f)
                    self.event("bad-call", f.qual(), "multiple values for '%s'" % nm)
                    self.do_raise(st, "TypeError", K("multiple values for argument '%s'" % nm), node)
                env[nm] = args[k]
            elif nm in kwargs:
                env[nm] = kwargs.pop(nm)
            elif k >= len(names) - nd:
                env[nm] = f.defaults[k - (len(names) - nd)]
                if extra_kw is not None:
                    env[nm] = T.app("kwarg", extra_kw, K(nm), env[nm])
            else:
                if star:
                    env[nm] = unk("starred argument")
                    continue
                if extra_kw is not None:
                    env[nm] = T.app("kwarg", extra_kw, K(nm), NONE)
                    continue
                self.stand_in(f)
                self.event("bad-call", f.qual(), "missing argument '%s'" % nm)
                self.do_raise(st, "TypeError", K("%s() missing argument '%s'" % (f.name, nm)), node)
        rest = args[len(names):]
        if a.vararg:
            env[a.vararg.arg] = T.tup(*rest)
        elif rest:
            self.stand_in(f)
            self.event("bad-call", f.qual(), "too many positional arguments")
            self.do_raise(st, "TypeError", K("%s() too many arguments" % f.name), node)
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            elif f.kwdefaults.get(p.arg) is not None:
                env[p.arg] = f.kwdefaults[p.arg]
            else:
                self.stand_in(f)
                self.event("bad-call", f.qual(), "missing keyword '%s'" % p.arg)
                self.do_raise(st, "TypeError", K("missing keyword"), node)
        if a.kwarg:
            oid = new_oid("kw")
            st.heap[oid] = HDict({K(k): v for k, v in kwargs.items()}, base=extra_kw)
            env[a.kwarg.arg] = ref(oid)
        elif kwargs:
            k = sorted(kwargs)[0]
            self.stand_in(f)
            self.event("bad-call", f.qual(), "unexpected keyword '%s'" % k)
            self.do_raise(st, "TypeError", K("%s() got an unexpected keyword argument '%s'" % (f.name, k)), node)
        return env

    def call_func(self, f, args, kwargs, st, node=None):
        h = self.hooks.get((f.module, f.qual())) or self.hooks.get(f.name)
        if h is not None:
            r = h(self, f, args, kwargs, st, node)
            if r is not None:
                return r
        if self.depth > self.MAX_DEPTH or self.active.get(f.node, 0) > self.MAX_REC:
            self.note("recursion limit at " + f.qual())
            return unk("recursion limit")
        self.funcs.add((f.module, f.qual()))
        if TRACE:
            print("%s%s.%s(%s)" % (" " * self.depth, f.module, f.qual(), ", ".join(str(x)[:60] for x in args)), flush=True)
        try:
            env = self.bind_args(f, args, kwargs, st, node)
        except NoModel as e:
            return self.unmodelled([K(str(e))])
        env["$mod"] = K(f.module)
        if f.closure is not None:
            cenv = st.env if f.frame == st.frame else f.closure
            env["$closure"] = T.mk("env", (_Env(cenv),), "env")
        if f.cls is not None:
            env["$cls"] = obj("cls", f.cls)
        self.fcount += 1
        callee = State(env, dict(st.heap), st.facts, st.path, ("f", self.fcount))
        save = self.cur_func, self.cur_line
        self.cur_func = f
        self.depth += 1
        self.active[f.node] = self.active.get(f.node, 0) + 1
        oldf = T.set_facts(st.facts)
        nl = ()
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, callee)
                callee.env["$ret"] = v
                fin = callee
            else:
                gl = set()
                for n in _own_nodes(f.node):
                    if isinstance(n, ast.Global):
                        gl.update(n.names)
                if gl:
                    env["$gl"] = T.mk("names", (tuple(sorted(gl)),), "names")
                nl = {x for n in _own_nodes(f.node) if isinstance(n, ast.Nonlocal) for x in n.names}
                if nl and f.frame == st.frame:
                    env.update({x: st.env[x] for x in nl if x in st.env})
                elif nl:
                    self.note("nonlocal of a function called from elsewhere")
                    env.update({x: unk("nonlocal") for x in nl})
                if f.is_gen:
                    env["$yield"] = self.new_list(NIL, callee, "gen")
                    yref = env["$yield"]
                flow = self.exec_block(f.node.body, callee)
                outs = []
                for s, v in flow.rets:
                    s.env = dict({x: s.env.get(x, UNDEF) for x in nl}, **{"$ret": v, "$yield": s.env.get("$yield", UNDEF)})
                    outs.append(s)
                if flow.fall is not None:
                    s = flow.fall
                    s.env = dict({x: s.env.get(x, UNDEF) for x in nl}, **{"$ret": NONE, "$yield": s.env.get("$yield", UNDEF)})
                    outs.append(s)
                if not outs:
                    raise Dead()
                fin = join_many(outs)
        finally:
            self.cur_func, self.cur_line = save
            self.depth -= 1
            self.active[f.node] -= 1
            T.set_facts(oldf)
        st.heap = fin.heap
        st.facts = fin.facts
        T.set_facts(st.facts)
        if nl and f.frame == st.frame:
            st.env.update({x: fin.env[x] for x in nl})
        if f.is_gen:
            return fin.env["$yield"]
        return fin.env["$ret"]

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, st):
        flow = Flow(st)
        for s in stmts:
            if flow.fall is None:
                break
            cur_ = flow.fall
            T.set_facts(cur_.facts)
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.stmts.add((self.cur_func.module if self.cur_func else "?", s.lineno))
            self.cur_line = s.lineno
            try:
                f = self.ex(s, cur_)
            except Dead:
                flow.fall = None
                break
            flow.absorb(f)
            flow.fall = f.fall
        return flow

    def ex(self, s, st):
        m = getattr(self, "s_" + s.__class__.__name__, None)
        if m is None:
            self.note("statement %s not modelled" % s.__class__.__name__)
            return Flow(st)
        r = m(s, st)
        return r if r is not None else Flow(st)

    def s_Pass(self, s, st):
        pass

    def s_Expr(self, s, st):
        self.ev(s.value, st)

    def s_Import(self, s, st):
        for a in s.names:
            top = a.name.split(".")[0]
            if self.is_local(a.name):
                self.import_module(a.name, st)
                self.store_name(a.asname or top, obj("mod", a.name if a.asname else top), st)
            else:
                self.store_name(a.asname or top, ext(a.name if a.asname else top), st)

    def s_ImportFrom(self, s, st):
        base = s.module or ""
        if s.level:
            mod = kv(st.env["$mod"])
            path = self.mod_path(mod)
            pkg = mod if path.endswith("__init__.py") else mod.rpartition(".")[0]
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            base = pkg + ("." + base if base else "")
        if not self.is_local(base):
            for a in s.names:
                if a.name == "*":
                    self.note("star import from external " + base)
                    continue
                self.store_name(a.asname or a.name, ext(base + "." + a.name), st)
            return
        self.import_module(base, st)
        for a in s.names:
            if a.name == "*":
                m = st.heap[("M", base)]
                allv = m.attrs.get("__all__")
                names = [k for k in m.attrs if not k.startswith("_")]
                if allv is not None:
                    c = self.aslist(allv, st)
                    if c is not None and all(g.op == "it" for g in segs_of(c)):
                        names = [kv(g.args[0]) for g in segs_of(c)]
                for k in names:
                    if k in m.attrs:
                        self.store_name(k, m.attrs[k], st)
                continue
            v = self.mod_get(base, a.name, st)
            if v is None and self.mod_path(base + "." + a.name):
                v = self.import_module(base + "." + a.name, st)
            if v is None:
                self.event("import-missing", base + "." + a.name)
                self.do_raise(st, "ImportError", K("cannot import name %s from %s" % (a.name, base)), s)
            self.store_name(a.asname or a.name, v, st)

    def s_FunctionDef(self, s, st):
        f = self.make_func(s, st, s.name)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, st)
        self.store_name(s.name, f, st)

    def decorate(self, d, f, st):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            p = self.ev(d.value, st)
            if p.op == "prop":
                po = p.args[0]
                if d.attr == "setter":
                    return obj("prop", PropObj(po.fget, f))
                return p
        v = self.ev(d, st)
        if v.op == "builtin":
            if v.args[0] == "property":
                return obj("prop", PropObj(f))
            if v.args[0] == "staticmethod":
                return obj("static", f)
            if v.args[0] == "classmethod":
                return obj("clsm", f)
        if v.op == "ext" and (v.args[0].endswith("lru_cache") or v.args[0].endswith("wraps") or v.args[0].endswith("cache")):
            return f
        if v.op == "app":
            return f
        return self.call(v, [f], {}, st)

    def s_ClassDef(self, s, st):
        bases = [self.ev(b, st) for b in s.bases]
        c = ClassObj(s.name, kv(st.env["$mod"]), bases, {})
        env = {"$mod": st.env["$mod"], "$class": TRUE}
        save, st.env = st.env, env
        if "$globals" not in save:
            env["$closure"] = T.mk("env", (_Env(save),), "env")
        flow = self.exec_block(s.body, st)
        if flow.fall is None:
            raise Dead()
        st.set_from(flow.fall)
        attrs = {k: v for k, v in st.env.items() if not k.startswith("$")}
        st.env = save
        for v in attrs.values():
            for f in ([v.args[0]] if v.op == "func" else
                      [x.args[0] for x in (v.args[0].fget, v.args[0].fset) if x is not None] if v.op == "prop" else
                      [v.args[0].args[0]] if v.op in ("static", "clsm") else []):
                if isinstance(f, FuncObj) and f.cls is None:
                    f.cls = c
        c.attrs = attrs
        r = obj("cls", c)
        self.store_name(s.name, r, st)

    def s_Global(self, s, st):
        pass

    def s_Nonlocal(self, s, st):
        pass

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)

    def s_AugAssign(self, s, st):
        cur_ = self.ev(s.target, st)
        r = self.ev(s.value, st)
        # in-place list extension
        if isinstance(s.op, ast.Add) and (cur_.op in ("ref", "path")):
            o = st.heap.get(cur_.args[0]) if cur_.op == "ref" else None
            if cur_.op == "path" or isinstance(o, HList):
                rs = self.aslist(r, st)
                if rs is None:
                    rs = T.app("list", self.freeze(r, st), ty=("seq", "any"))
                self.write_list(cur_, lambda t: T.concat(t, rs), st, s, "+=")
                return
        v = self.binop(s.op, cur_, r, st, s)
        self.assign(s.target, v, st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value, st), t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            if isinstance(t.slice, ast.Slice):
                lo, hi, step = [self.ev(x, st) if x is not None else None for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                vs = self.aslist(v, st)

                def f(c):
                    n = T.length(c)
                    a, b = self.clamp(lo, n, ZERO, st), self.clamp(hi, n, n, st)
                    if step is not None and step is not NONE:
                        return unk("slice assignment with step", c.ty)
                    return seq(spl(T.slice_(c, ZERO, a)), spl(vs if vs is not None else unk("slice value", ("seq", "any"))),
                               spl(T.slice_(c, b, n)))
                self.write_list(base, f, st, t, "slice assignment")
            else:
                self.store_sub(base, self.ev(t.slice, st), v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack(self, elts, v, st):
        n = len(elts)
        if v.op == "ite" and not isinstance(v.ty, tuple):
            parts = [T.ite(v.args[0], self._nth(v.args[1], k, n, st), self._nth(v.args[2], k, n, st)) for k in range(n)]
            for e, p in zip(elts, parts):
                self.assign(e, p, st)
            return
        stars = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if stars:
            k = stars[0]
            s = self.aslist(v, st)
            if s is None:
                for e in elts:
                    self.assign(e, unk("starred unpack"), st)
                return
            after = n - k - 1
            ln = T.length(s)
            for j in range(k):
                self.assign(elts[j], T.get(s, K(j)), st)
            self.assign(elts[k].value, self.new_list(T.slice_(s, K(k), add(ln, K(-after))), st), st)
            for j in range(after):
                self.assign(elts[k + 1 + j], T.get(s, add(ln, K(j - after))), st)
            return
        parts = [self._nth(v, k, n, st) for k in range(n)]
        for e, p in zip(elts, parts):
            self.assign(e, p, st)

    def _nth(self, v, k, n, st):
        if v.op == "tuple":
            if len(v.args) != n:
                self.do_raise(st, "ValueError", K("unpack"))
            return v.args[k]
        if v.op in ("ref", "path"):
            c = self.aslist(v, st)
            if c is not None:
                ln = T.length(c)
                if is_k(ln) and kv(ln) != n:
                    self.do_raise(st, "ValueError", K("unpack"))
                return self.subscript(v, K(k), st)
        if isinstance(v.ty, tuple):
            return T.get(v, K(k))
        return self.models.opaque_nth(v, k, n, st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                if isinstance(t.slice, ast.Slice):
                    lo, hi, step = [self.ev(x, st) if x is not None else None for x in (t.slice.lower, t.slice.upper, t.slice.step)]

                    def f(c):
                        n = T.length(c)
                        a, b = self.clamp(lo, n, ZERO, st), self.clamp(hi, n, n, st)
                        return seq(spl(T.slice_(c, ZERO, a)), spl(T.slice_(c, b, n)))
                    self.write_list(base, f, st, t, "del slice")
                else:
                    i = self.ev(t.slice, st)
                    o = st.heap.get(base.args[0]) if base.op == "ref" else None
                    if isinstance(o, HDict):
                        items = dict(o.items)
                        k = self.hashable(i, st)
                        if k not in items and o.base is None:
                            self.do_raise(st, "KeyError", k, s)
                        items.pop(k, None)
                        self._wrote(base.args[0], o, "del key")
                        st.heap[base.args[0]] = o.with_(items=items)
                    else:
                        def f(c):
                            n = T.length(c)
                            a = self.norm_idx(i, n)
                            return seq(spl(T.slice_(c, ZERO, a)), spl(T.slice_(c, add(a, ONE), n)))
                        self.write_list(base, f, st, t, "del item")
            elif isinstance(t, ast.Attribute):
                v = self.ev(t.value, st)
                o = st.heap.get(v.args[0]) if v.op == "ref" else None
                if isinstance(o, HInst):
                    a = dict(o.attrs)
                    a.pop(t.attr, None)
                    st.heap[v.args[0]] = o.with_(attrs=a)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        f = Flow(None)
        f.rets.append((st, v))
        return f

    def s_Break(self, s, st):
        f = Flow(None)
        f.brks.append(st)
        return f

    def s_Continue(self, s, st):
        f = Flow(None)
        f.conts.append(st)
        return f

    def s_Raise(self, s, st):
        if s.exc is None:
            self.do_raise(st, "reraise", None, s)
        v = self.ev(s.exc, st)
        name, msg = "Exception", None
        if v.op == "app" and v.args[0] == "exc":
            name = kv(v.args[1][0])
            msg = v.args[1][1] if len(v.args[1]) > 1 else None
        elif v.op == "builtin" and v.args[0] in EXC_NAMES:
            name = v.args[0]
        elif v.op == "cls":
            name = v.args[0].name
        elif v.ty == "str":
            name = "TypeError"
            self.event("raise-string", v)
        self.do_raise(st, name, msg, s)

    def s_Assert(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        d = T.decide(c)
        if d is True:
            return
        if d is False:
            self.do_raise(st, "AssertionError", None, s)
        self.raises.append((st.path + (neg(c),), "AssertionError", None, self.site(s)))
        st.facts = st.facts.add(c)
        T.set_facts(st.facts)

    def s_If(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        d = T.decide(c)
        if d is not None:
            return self.exec_block(s.body if d else s.orelse, st)
        base = st.path
        s1, s2 = st.copy(), st
        s1.assume(c)
        s2.assume(neg(c))
        nr = len(self.raises)
        f1 = self.exec_block(s.body, s1)
        T.set_facts(s2.facts)
        f2 = self.exec_block(s.orelse, s2) if s.orelse else Flow(s2)
        return self.merge_branches(c, f1, f2, base)

    def merge_branches(self, c, f1, f2, base):
        out = Flow(None)
        out.absorb(f1)
        out.absorb(f2)
        e1 = f1.fall is None and not (f1.rets or f1.brks or f1.conts)
        e2 = f2.fall is None and not (f2.rets or f2.brks or f2.conts)
        if f1.fall is not None and f2.fall is not None:
            j = join(c, f1.fall, f2.fall)
            if not (f1.rets or f1.brks or f1.conts or f2.rets or f2.brks or f2.conts):
                j.path = base
            out.fall = j
        elif f1.fall is not None or f2.fall is not None:
            x = f1.fall if f1.fall is not None else f2.fall
            if (e2 if f1.fall is not None else e1):
                # the other branch only raises: surviving adds facts, not a path split
                x.path = base
                for r in out.rets:
                    pass
            out.fall = x
        if out.fall is not None:
            T.set_facts(out.fall.facts)
        return out

    def s_Try(self, s, st):
        before = st.copy()
        mark = len(self.raises)
        f = self.exec_block(s.body, st)
        own = self.raises[mark:]
        opaque = any(isinstance(n, (ast.Call, ast.Subscript, ast.Attribute)) for b in s.body for n in ast.walk(b))
        out = Flow(None)
        out.absorb(f)
        if s.handlers:
            body_end = f.fall
            names = []
            for h in s.handlers:
                names.append(ast.unparse(h.type) if h.type is not None else "*")
            del self.raises[mark:]
            exc = T.app("raised", K("%s:%d" % (self.cur_func.module if self.cur_func else "?", s.lineno)),
                        *[self.try_key(before, s)], ty="bool")
            if own and not opaque and body_end is None:
                exc = TRUE
            handlers = []
            certain = self.models.try_outcome(s, before, own, body_end)
            if certain is not None:
                exc = certain
            elif self.unroll and not own and body_end is not None:
                exc = FALSE         # everything the body does is modelled, and none of it raises
            elif self.unroll and own and body_end is None and not f.rets and not f.brks and not f.conts:
                exc = TRUE
            if exc is not FALSE:
                for h in s.handlers:
                    hs = before.copy()
                    hs.assume(exc)
                    T.set_facts(hs.facts)
                    if h.name:
                        hs.env[h.name] = T.app("exc", K("caught"))
                    hf = self.exec_block(h.body, hs)
                    out.absorb(hf)
                    if hf.fall is not None:
                        handlers.append(hf.fall)
                    break_on = names
            if body_end is not None and s.orelse:
                T.set_facts(body_end.facts)
                ef = self.exec_block(s.orelse, body_end)
                out.absorb(ef)
                body_end = ef.fall
            hjoin = None
            for h in handlers:
                hjoin = h if hjoin is None else join(T.app("handler", K(len(handlers)), ty="bool"), hjoin, h)
            if body_end is not None and hjoin is not None:
                out.fall = join(exc, hjoin, body_end)
                out.fall.path = before.path
            else:
                out.fall = body_end if body_end is not None else hjoin
                if out.fall is not None and not out.rets and not out.brks and not out.conts:
                    out.fall.path = before.path
        else:
            out.fall = f.fall
        if s.finalbody:
            if out.fall is not None:
                T.set_facts(out.fall.facts)
                ff = self.exec_block(s.finalbody, out.fall)
                out.fall = ff.fall
                out.rets += ff.rets
            rets = []
            for rs, rv in out.rets:
                T.set_facts(rs.facts)
                ff = self.exec_block(s.finalbody, rs)
                if ff.fall is not None:
                    rets.append((ff.fall, rv))
                rets += ff.rets
            out.rets = rets
        return out

    def try_key(self, st, s):
        """What the raising of a try body may depend on: the values of the names it reads."""
        names = sorted({n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)})
        vals = []
        for n in names:
            if n in st.env and "$globals" not in st.env:
                v = st.env[n]
                if v.op not in ("ref", "func", "cls", "undef"):
                    vals.append(v)
        return T.tup(*vals)

    def s_With(self, s, st):
        for k, item in enumerate(s.items):      # with suppress(X): ...  is  try: ...  except X: pass
            e = item.context_expr
            if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and ast.unparse(e.func).split(".")[-1] == "suppress" \
                    and self.ev(e.func, st) is obj("ext", "contextlib.suppress"):
                body = [ast.copy_location(ast.With(items=s.items[k + 1:], body=s.body), s)] if s.items[k + 1:] else s.body
                tr = ast.copy_location(ast.Try(body=body, handlers=[ast.copy_location(ast.ExceptHandler(
                    type=ast.copy_location(ast.Tuple(elts=list(e.args), ctx=ast.Load()), s), name=None, body=[ast.copy_location(ast.Pass(), s)]), s)], orelse=[], finalbody=[]), s)
                if k:
                    tr = ast.copy_location(ast.With(items=s.items[:k], body=[tr]), s)
                return self.ex(tr, st)
        exits = []
        for item in s.items:
            v = self.ev(item.context_expr, st)
            r = v
            o = st.heap.get(v.args[0]) if v.op == "ref" else None
            if isinstance(o, HInst) and o.cls.op == "cls":
                en, _ = o.cls.args[0].lookup("__enter__")
                exi, _ = o.cls.args[0].lookup("__exit__")
                if en is not None:
                    r = self.call(obj("bm", (v, en)), [], {}, st, s)
                if exi is not None:
                    exits.append(lambda s2, v=v, exi=exi: self.call(obj("bm", (v, exi)), [NONE, NONE, NONE], {}, s2, s))
            elif isinstance(o, (HFile, HSIO)):
                exits.append(lambda s2, v=v: self.models.call_method(v, "close", [], {}, s2, s))
            if item.optional_vars is not None:
                self.assign(item.optional_vars, r, st)
        f = self.exec_block(s.body, st)
        for s2 in ([f.fall] if f.fall is not None else []) + [r[0] for r in f.rets] + f.brks + f.conts:
            T.set_facts(s2.facts)
            for e in reversed(exits):
                e(s2)
        if f.fall is not None:
            T.set_facts(f.fall.facts)
        return f

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st):
        src = self.ev(s.iter, st)

        def body(s2, elem):
            self.assign(s.target, elem, s2)
            return self.exec_block(s.body, s2)
        flow = self.iterate(src, st, body, s)
        if flow.fall is not None and s.orelse:
            T.set_facts(flow.fall.facts)
            ef = self.exec_block(s.orelse, flow.fall)
            ef.brks, flow.brks = flow.brks, ef.brks
            f2 = Flow(ef.fall)
            f2.rets = flow.rets + ef.rets
            f2.conts = ef.conts
            brks = ef.brks          # breaks of this loop
            outer = flow.brks       # breaks raised in the else part belong to the outer loop
            f2.brks = outer
            f2.fall = join_many(brks + ([f2.fall] if f2.fall is not None else []))
            self._fix_path(f2, st)
            return f2
        out = Flow(join_many(flow.brks + ([flow.fall] if flow.fall is not None else [])))
        out.rets = flow.rets
        self._fix_path(out, st)
        if out.fall is not None:
            T.set_facts(out.fall.facts)
        return out

    def _fix_path(self, f, st):
        pass

    def range_len(self, v):
        a, b, c = v.args[1]
        if is_k(c, 1):
            n = psub(b, a)
        elif is_k(c, -1):
            n = psub(a, b)
        elif is_k(c) and is_k(a) and is_k(b):
            return K(len(range(kv(a), kv(b), kv(c))))
        else:
            if is_k(a, 0):
                n = T.app("ceildiv", b, c, ty="int")
                T.NAT.add(n)
                return n
            n = T.app("rangelen", a, b, c, ty="int")
            T.NAT.add(n)
            return n
        return T.max0(n)

    def iterate(self, src, st, body, node):
        """Run body(state, element) over every element of src. -> Flow (brks are breaks of this loop)."""
        if src.op == "maybe":
            src = src.args[1]
        if src.op == "app" and src.args[0] == "enumerate":
            inner, start = src.args[1]
            return self.iterate_counted(inner, st, lambda s2, e, k: body(s2, T.tup(add(start, k), e)), node)
        if src.op == "app" and src.args[0] == "zip":
            return self.iterate_zip(src.args[1], st, body, node)
        return self.iterate_counted(src, st, lambda s2, e, k: body(s2, e), node)

    def elem_source(self, src, st):
        """-> ('segs', container, content) or ('range', n, f) or ('opaque', n, f)"""
        if src.op == "app" and src.args[0] == "range":
            a, b, c = src.args[1]
            return "fn", self.range_len(src), (lambda i: add(a, pmul(i, c)))
        if src.op == "app" and src.args[0] == "revd":
            k, n, f = self.elem_source(src.args[1][0], st)
            if k == "fn":
                return "fn", n, (lambda i: f(add(n, K(-1), pneg(i))))
        if src.op == "app" and src.args[0] == "enumerate":
            inner, start = src.args[1]
            k, n, f = self.elem_source(inner, st)
            if k == "segs":
                n, f = T.length(f), self._getter(n, f, st)
            return "fn", n, (lambda i: T.tup(add(start, i), f(i)))
        if src.op == "app" and src.args[0] == "zip":
            fs = []
            n = None
            for x in src.args[1]:
                k, a, b = self.elem_source(x, st)
                if k == "segs":
                    a, b = T.length(b), self._getter(a, b, st)
                n = a if n is None else (n if n is a else T.min_(n, a))
                fs.append(b)
            return "fn", n if n is not None else ZERO, (lambda i: T.tup(*[f(i) for f in fs]))
        if src.op == "ref":
            o = st.heap.get(src.args[0])
            if isinstance(o, HFile):
                content = T.lns(o.cur)
                st.heap[src.args[0]] = o.with_(cur=cur(T.app("eof", o.name)))
                return "segs", NONE, content
            if isinstance(o, HSIO):
                return "segs", NONE, self.models.sio_lines(src, st)
            if isinstance(o, HInst) and o.cls.op == "cls":
                c, _ = o.cls.args[0].lookup("__iter__")
                if c is not None:
                    return self.elem_source(self.call(obj("bm", (src, c)), [], {}, st), st)
        if src.op == "dictv":
            return "segs", NONE, seq(*[it(p.args[0]) for p in src.args[0]])
        s = self.aslist(src, st)
        if s is not None:
            return "segs", src if src.op in ("ref", "path") else NONE, s
        n, f = self.models.opaque_iter(src, st)
        return "fn", n, f

    def _getter(self, container, content, st):
        if container is NONE:
            return lambda i: T.get(content, i)
        return lambda i: self._elem(container, content, i, st, None)

    def iterate_zip(self, srcs, st, body, node):
        k, n, f = self.elem_source(T.mk("app", ("zip", tuple(srcs)), "any"), st)
        if is_k(n) and kv(n) <= 100:
            return self.run_concrete([f(K(j)) for j in range(kv(n))], st, lambda s2, e, j: body(s2, e))
        return self.sym_loop(st, n, lambda s2, i: body(s2, f(i)), node)

    def iterate_counted(self, src, st, body, node):
        k, a, b = self.elem_source(src, st)
        if k == "fn":
            n, f = a, b
            if is_k(n) and kv(n) <= 100:
                return self.run_concrete([f(K(j)) for j in range(kv(n))], st, body)
            return self.sym_loop(st, n, lambda s2, i: body(s2, f(i), i), node)
        container, content = a, b
        return self.run_segs(container, content, st, body, node, ZERO, content)

    def run_concrete(self, elems, st, body, start=0):
        flow = Flow(st)
        for j, e in enumerate(elems):
            if flow.fall is None:
                break
            T.set_facts(flow.fall.facts)
            try:
                f = body(flow.fall, e, K(start + j))
            except Dead:
                flow.fall = None
                break
            flow.rets += f.rets
            flow.brks += f.brks
            flow.fall = join_many(f.conts + ([f.fall] if f.fall is not None else []))
        return flow

    def run_segs(self, container, content, st, body, node, off, top):
        if content.op == "ite":
            # conditional sequence: iterate whichever
            s1, s2 = st.copy(), st
            c = content.args[0]
            base = st.path
            s1.assume(c)
            s2.assume(neg(c))
            T.set_facts(s1.facts)
            f1 = self.run_segs(container, content.args[1], s1, body, node, off, top)
            T.set_facts(s2.facts)
            f2 = self.run_segs(container, content.args[2], s2, body, node, off, top)
            return self.merge_branches(c, f1, f2, base)
        flow = Flow(st)
        segs = segs_of(content)
        for g in segs:
            if flow.fall is None:
                break
            cur_ = flow.fall
            T.set_facts(cur_.facts)
            f = None
            try:
                if g.op == "it":
                    e = g.args[0]
                    if isinstance(e.ty, tuple) and container is not NONE and e.op != "ref":
                        e = T.mk("path", (container.args if container.op == "path" else (container,)) + (off,), "path")
                    f = body(cur_, e, off)
                elif g.op == "rep":
                    n, bvar = g.args[0], g.args[1]
                    inner = g.args[2:]
                    if len(inner) == 1 and inner[0].op == "it":
                        def run1(s2, i, inner=inner, bvar=bvar, off=off):
                            e = T.subst(inner[0].args[0], {bvar: i})
                            if isinstance(e.ty, tuple) and container is not NONE and e.op != "ref":
                                e = T.mk("path", (container.args if container.op == "path" else (container,)) + (add(off, i),), "path")
                            return body(s2, e, add(off, i))
                        f = self.sym_loop(cur_, n, run1, node)
                    else:
                        def run2(s2, i, inner=inner, bvar=bvar, off=off):
                            sub = seq(*[T.subst(x, {bvar: i}) for x in inner])
                            w = T.length(sub)
                            return self.run_segs(NONE, sub, s2, body, node, add(off, pmul(w, i)), top)
                        f = self.sym_loop(cur_, n, run2, node)
                elif g.op == "alt":
                    s1, s2 = cur_.copy(), cur_
                    c = g.args[0]
                    base = cur_.path
                    s1.assume(c)
                    s2.assume(neg(c))
                    T.set_facts(s1.facts)
                    f1 = self.run_segs(NONE, g.args[1], s1, body, node, off, top)
                    T.set_facts(s2.facts)
                    f2 = self.run_segs(NONE, g.args[2], s2, body, node, off, top)
                    f = self.merge_branches(c, f1, f2, base)
                else:
                    t = g.args[0]
                    n = T.length(t)
                    if is_k(n) and kv(n) <= 100:
                        f = self.run_concrete([self._elem2(container, t, K(j), add(off, K(j)), cur_) for j in range(kv(n))], cur_, body)
                    else:
                        f = self.sym_loop(cur_, n, lambda s2, i, t=t, off=off: body(s2, self._elem2(container, t, i, add(off, i), s2), add(off, i)), node)
            except Dead:
                flow.fall = None
                break
            flow.rets += f.rets
            flow.brks += f.brks
            if g.op == "it" or g.op == "alt":
                flow.fall = join_many(f.conts + ([f.fall] if f.fall is not None else []))
            else:
                flow.fall = f.fall
            off = add(off, T.seg_len(g))
        return flow

    def _elem2(self, container, t, i, gi, st):
        e = T.get(t, i)
        if e.op == "ref":
            return e
        if isinstance(e.ty, tuple) and container is not NONE:
            return T.mk("path", (container.args if container.op == "path" else (container,)) + (gi,), "path")
        return e

    def sym_loop(self, st, n, run, node):
        from .loops import LoopSolver
        return LoopSolver(self, st, n, run, node).solve_for()

    def s_While(self, s, st):
        from .loops import LoopSolver
        # small constant loops are unrolled as long as the condition is decided
        flow = Flow(st)
        cur_ = st
        acc_rets, acc_brks = [], []
        for k in range(40):
            T.set_facts(cur_.facts)
            probe = cur_.copy()
            c = self.truth(self.ev(s.test, probe), probe)
            d = T.decide(c)
            if d is None or (d is True and isinstance(s.test, ast.Constant) and not self.unroll) or (d is True and self._opaque_progress(s, cur_)):
                break
            cur_ = probe
            if d is False:
                out = Flow(cur_)
                if s.orelse:
                    out = self.exec_block(s.orelse, cur_)
                out.rets += acc_rets
                out.fall = join_many(acc_brks + ([out.fall] if out.fall is not None else []))
                return out
            f = self.exec_block(s.body, cur_)
            acc_rets += f.rets
            acc_brks += f.brks
            cur_ = join_many(f.conts + ([f.fall] if f.fall is not None else []))
            if cur_ is None:
                out = Flow(join_many(acc_brks))
                out.rets = acc_rets
                return out
        T.set_facts(cur_.facts)
        flow = LoopSolver(self, cur_, None, None, s).solve_while(s)
        if flow.fall is not None and s.orelse:
            T.set_facts(flow.fall.facts)
            ef = self.exec_block(s.orelse, flow.fall)
            flow.rets += ef.rets
            flow.fall = ef.fall
        out = Flow(join_many(acc_brks + flow.brks + ([flow.fall] if flow.fall is not None else [])))
        out.rets = acc_rets + flow.rets
        return out

    def _opaque_progress(self, s, st):
        return not self.unroll


class _Env(dict):
    """Hashable wrapper of an environment (identity)."""
    def __init__(self, d):
        self.d = d

    def __hash__(self):
        return id(self.d)

    def __eq__(self, o):
        return isinstance(o, _Env) and o.d is self.d

    def __contains__(self, k):
        return k in self.d

    def __getitem__(self, k):
        return self.d[k]

    def get(self, k, default=None):
        return self.d.get(k, default)


def obj_tmeth(v, name):
    return T.mk("tmeth", (v, name), "obj")


def _has_ref(t, _memo={}):
    r = _memo.get(t)
    if r is None:
        if t.op in ("ref", "path"):
            r = True
        else:
            r = any(_has_ref(a) for a in T._terms(t.args))
        _memo[t] = r
    return r


T._has_ref = _has_ref
