"""Resolution of names, module attributes, attributes of self, imports and signatures over a whole package, from its syntax trees.

Every check here reports only what cannot be right on any path that reaches it (a name bound nowhere, a call that no candidate accepts)."""
import ast
import builtins
import importlib
import os
import symtable
import sys

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__", "__class__", "__annotations__", "__dict__"}
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FUNC + (ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def inside(node):
    """nodes of a scope, not of the scopes within it"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop(0)
        yield n
        if not isinstance(n, SCOPES):
            todo = list(ast.iter_child_nodes(n)) + todo
        elif isinstance(n, FUNC + (ast.ClassDef,)):
            # decorators, defaults and bases belong to this scope
            todo = list(n.decorator_list) + (list(n.args.defaults) + [d for d in n.args.kw_defaults if d] if isinstance(n, FUNC) else list(n.bases)) + todo


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            for x in targets(e):
                yield x
    elif isinstance(t, ast.Starred):
        for x in targets(t.value):
            yield x


class Mod(object):
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg
        self.is_pkg = os.path.basename(path) == "__init__.py"
        with open(path, encoding="utf-8", newline=None) as fh:
            self.src = fh.read()
        self.tree = ast.parse(self.src, path)
        self.open = False
        self.names = {}          # name -> list of ("mod", m) ("ext", path) ("def", node) ("class", node) ("var", value) ("from", m, name)
        self.imports = set()     # in-package modules imported when this module is
        for n in inside(self.tree):
            self.bind(n, self.names, self.imports)
        for f in ast.walk(self.tree):
            if isinstance(f, FUNC):
                g = {x for n in ast.walk(f) if isinstance(n, ast.Global) for x in n.names}
                for n in ast.walk(f):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in g:
                        self.names.setdefault(n.id, []).append(("var", None))
        self.parent = {}
        for n in ast.walk(self.tree):
            for k in ast.iter_child_nodes(n):
                self.parent[k] = n

    def absolute(self, node):
        if not node.level:
            return node.module
        base = self.name.split(".")
        base = base[:len(base) - node.level + (1 if self.is_pkg else 0)]
        return ".".join(base + ([node.module] if node.module else []))

    def bind(self, n, names, imports):
        add = lambda k, v: names.setdefault(k, []).append(v)
        if isinstance(n, ast.Import):
            for a in n.names:
                inpkg = a.name.split(".")[0] == self.pkg.root
                if inpkg:
                    imports.add(a.name)
                top = a.name if a.asname else a.name.split(".")[0]
                add(a.asname or top, ("mod" if inpkg else "ext", top))
        elif isinstance(n, ast.ImportFrom):
            m = self.absolute(n)
            inpkg = m and m.split(".")[0] == self.pkg.root
            if inpkg:
                imports.add(m)
            for a in n.names:
                if a.name == "*":
                    add("*", ("star", m) if inpkg else ("open", m))
                    if not inpkg:
                        self.open = True
                else:
                    add(a.asname or a.name, ("from", m, a.name) if inpkg else ("ext", "%s.%s" % (m, a.name)))
        elif isinstance(n, FUNC):
            add(n.name, ("def", n))
        elif isinstance(n, ast.ClassDef):
            add(n.name, ("class", n))
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                for x in targets(t):
                    add(x, ("var", n.value if isinstance(t, ast.Name) else None))
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            for x in targets(n.target):
                add(x, ("var", getattr(n, "value", None) if isinstance(n, ast.AnnAssign) else None))
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            for x in targets(n.target):
                add(x, ("var", None))
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    for x in targets(i.optional_vars):
                        add(x, ("var", None))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            add(n.name, ("var", None))
        elif isinstance(n, ast.NamedExpr):
            add(n.target.id, ("var", None))
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            add(n.name, ("var", None))


class Package(object):
    def __init__(self, repo, root):
        self.repo, self.root = repo, root
        self.mods = {}
        self.broken = []
        top = os.path.join(repo, root)
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if os.path.exists(os.path.join(d, x, "__init__.py")))
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    name = os.path.relpath(p, repo)[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    try:
                        self.mods[name] = Mod(name, p, self)
                    except SyntaxError as e:
                        self.broken.append((name, str(e)))
        self.stored = set()      # attribute names stored on anything but self
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                    self.stored.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                    self.stored.add(n.args[1].value)
        self._closure = {}

    def closure(self, name):
        """modules loaded once `name` has been imported"""
        if name in self._closure:
            return self._closure[name]
        seen = set()
        todo = [name]
        while todo:
            x = todo.pop()
            parts = x.split(".")
            for i in range(1, len(parts) + 1):
                p = ".".join(parts[:i])
                if p in self.mods and p not in seen:
                    seen.add(p)
                    m = self.mods[p]
                    todo += list(m.imports)
                    for v in m.names.values():
                        todo += ["%s.%s" % (b[1], b[2]) for b in v if b[0] == "from" and "%s.%s" % (b[1], b[2]) in self.mods]
        self._closure[name] = seen
        return seen

    def public(self, m, depth=0):
        """names that `from m import *` binds"""
        mod = self.mods[m]
        al = mod.names.get("__all__")
        if al and al[-1][0] == "var" and isinstance(al[-1][1], (ast.List, ast.Tuple)):
            return {e.value for e in al[-1][1].elts if isinstance(e, ast.Constant)}
        out = {n for n in mod.names if not n.startswith("_") and n != "*"}
        if depth < 5:
            for b in mod.names.get("*", ()):
                if b[0] == "star" and b[1] in self.mods:
                    out |= self.public(b[1], depth + 1)
        # submodules that the package has loaded by then
        return out | {x[len(m) + 1:] for x in self.closure(m) if x.startswith(m + ".") and "." not in x[len(m) + 1:]}

    def lookup(self, m, name, depth=0):
        """bindings of a name of a module: list, [] when there is none, None when that is not known"""
        mod = self.mods.get(m)
        if mod is None or mod.open or "__getattr__" in mod.names or depth > 8:
            return None
        out = []
        for b in mod.names.get(name, ()):
            if b[0] == "from":
                sub = "%s.%s" % (b[1], b[2])
                r = self.lookup(b[1], b[2], depth + 1)
                if r:
                    out += r
                elif sub in self.mods:
                    out.append(("mod", sub))
                elif r is None:
                    return None
                else:
                    out.append(("var", None))
            elif b[0] in ("def", "class"):
                out.append(b + (m,))
            else:
                out.append(b)
        if not out:
            for b in mod.names.get("*", ()):
                if b[0] == "star" and b[1] in self.mods and name in self.public(b[1]):
                    r = self.lookup(b[1], name, depth + 1)
                    if r is None:
                        return None
                    out += r
        return out

    def attr(self, m, name, loaded):
        """`name` of module m, seen from where `loaded` modules are there"""
        r = self.lookup(m, name)
        if r is None or r:
            return r
        sub = "%s.%s" % (m, name)
        if sub in self.mods and sub in loaded:
            return [("mod", sub)]
        if name in BUILTINS or name in self.stored:
            return None
        return []


class Report(object):
    def __init__(self):
        self.found = []          # (module, qualname, line, what)
        self.count = {}

    def did(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def bad(self, mod, qual, line, what):
        self.found.append((mod, qual, line, what))


class Checker(object):
    def __init__(self, pkg, mod, rep):
        self.pkg, self.mod, self.rep = pkg, mod, rep
        self.loaded0 = pkg.closure(mod.name)

    def run(self):
        self.undefined()
        self.scope(self.mod.tree, "<module>", [], None)

    # ---------------------------------------------------------- guards
    def asks(self, call, node):
        """a test that asks whether the name or attribute used at node is there"""
        if call.func.id in ("globals", "locals", "vars", "callable", "dir"):
            return True
        if call.func.id not in ("hasattr", "getattr") or len(call.args) < 2:
            return False
        what = call.args[1]
        mine = {getattr(node, "attr", None), getattr(node, "id", None)} | {a.attr for a in ast.walk(node) if isinstance(a, ast.Attribute)}
        return not isinstance(what, ast.Constant) or what.value in mine

    def guarded(self, node, *excs):
        """inside a try that expects this failure by name, or after a hasattr test"""
        n = node
        while n in self.mod.parent:
            p = self.mod.parent[n]
            if isinstance(p, ast.Try) and n in p.body:
                for h in p.handlers:
                    ts = [h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else list(h.type.elts) if h.type is not None else []
                    if any(isinstance(t, ast.Name) and t.id in excs for t in ts):
                        return True
            if isinstance(p, (ast.If, ast.IfExp, ast.BoolOp, ast.While)):
                t = p if isinstance(p, ast.BoolOp) else p.test
                if any(self.asks(x, node) for x in ast.walk(t) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)):
                    return True
            if isinstance(p, FUNC):
                n = p
                continue
            n = p
        return False

    # ---------------------------------------------------------- undefined names
    def undefined(self):
        mod = self.mod
        if mod.open:
            return
        try:
            top = symtable.symtable(mod.src, mod.path, "exec")
        except SyntaxError:
            return
        have = set(mod.names) | BUILTINS
        for b in mod.names.get("*", ()):
            if b[1] in self.pkg.mods:
                have |= self.pkg.public(b[1])
        have |= {x[len(mod.name) + 1:] for x in self.loaded0 if x.startswith(mod.name + ".") and "." not in x[len(mod.name) + 1:]}
        missing = {}

        def walk(t, qual):
            for s in t.get_symbols():
                glob = s.is_global() if t.get_type() != "module" else True
                if glob and s.is_referenced() and not (t.get_type() == "module" and (s.is_assigned() or s.is_imported() or s.is_namespace())):
                    self.rep.did("names")
                    if s.get_name() not in have:
                        missing.setdefault((s.get_name(), qual), t.get_lineno())
            for c in t.get_children():
                walk(c, c.get_name() if qual == "<module>" else "%s.%s" % (qual, c.get_name()))
        walk(top, "<module>")
        for (name, qual), line in sorted(missing.items()):
            uses = [n for n in ast.walk(mod.tree) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and n.lineno >= line]
            if uses and all(self.guarded(u, "NameError") for u in uses):
                continue
            n = uses[0].lineno if uses else line
            self.rep.bad(mod.name, qual, n, "the name %s is bound nowhere" % name)

    # ---------------------------------------------------------- scopes
    def scope(self, node, qual, env, cls):
        """env: list of enclosing function binding tables, innermost last"""
        here = dict()
        loaded = set()
        if node is not self.mod.tree and not isinstance(node, ast.ClassDef):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                here.setdefault(x.arg, []).append(("var", None))
            glob = set()
            for n in inside(node):
                if isinstance(n, ast.Global):
                    glob |= set(n.names)
                self.mod.bind(n, here, loaded)
            for g in glob:
                here.pop(g, None)
            env = env + [here]
            more = set()
            for x in loaded:
                more |= self.pkg.closure(x)
            for v in here.values():
                for b in v:
                    if b[0] == "from" and "%s.%s" % (b[1], b[2]) in self.pkg.mods:
                        more |= self.pkg.closure("%s.%s" % (b[1], b[2]))
            here["\0loaded"] = more
            if not isinstance(node, ast.Lambda):
                self.flow(node, qual, here)
        # names bound by comprehensions hide others: collect per expression
        for n in inside(node):
            self.node(n, qual, env, cls)
            if isinstance(n, FUNC + (ast.Lambda,)):
                k = cls if isinstance(node, ast.ClassDef) else None
                self.scope(n, (qual + "." if qual != "<module>" else "") + getattr(n, "name", "<lambda>"), env, k or (cls if not isinstance(node, ast.ClassDef) else None))
            elif isinstance(n, ast.ClassDef):
                self.scope(n, (qual + "." if qual != "<module>" else "") + n.name, env, n)
            elif isinstance(n, SCOPES):
                self.comp(n, qual, env, cls)

    def comp(self, n, qual, env, cls):
        t = {x: [("var", None)] for g in n.generators for x in targets(g.target)}
        env = env + [t]
        for k in inside(n):
            self.node(k, qual, env, cls)
            if isinstance(k, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                self.comp(k, qual, env, cls)
            elif isinstance(k, ast.Lambda):
                self.scope(k, qual + ".<lambda>", env, cls)

    def find(self, name, env):
        """bindings of a name, None when not known"""
        for t in reversed(env):
            if name in t:
                out = []
                for b in t[name]:
                    if b[0] == "from":
                        r = self.pkg.lookup(b[1], b[2])
                        sub = "%s.%s" % (b[1], b[2])
                        out += r or ([("mod", sub)] if sub in self.pkg.mods else [("var", None)])
                    elif b[0] in ("def", "class"):
                        out.append(b + (self.mod.name,))
                    else:
                        out.append(b)
                return out
        return self.pkg.lookup(self.mod.name, name)

    def loaded(self, env):
        s = set(self.loaded0)
        for t in env:
            s |= t.get("\0loaded", set())
        return s

    def resolve(self, e, env):
        """entities an expression may stand for; None when not known, [] when it stands for nothing"""
        if isinstance(e, ast.Name):
            return self.find(e.id, env)
        if isinstance(e, ast.Attribute):
            base = self.resolve(e.value, env)
            if not base or len({b[:2] if b[0] == "mod" else b[0] for b in base}) != 1:
                return None
            b = base[0]
            if b[0] == "mod":
                return self.pkg.attr(b[1], e.attr, self.loaded(env))
            if b[0] == "class" and len(base) == 1:
                return self.member(b[1], b[2], e.attr)
        return None

    # ---------------------------------------------------------- classes
    def bases(self, cls, modname):
        """[(class node, module)] of a class and its bases, or None when one of them is not ours"""
        out, todo = [], [(cls, modname)]
        while todo:
            c, m = todo.pop(0)
            if (c, m) in out:
                continue
            out.append((c, m))
            ck = Checker(self.pkg, self.pkg.mods[m], Report()) if m != self.mod.name else self
            for b in c.bases:
                if isinstance(b, ast.Name) and b.id == "object":
                    continue
                r = ck.resolve(b, [])
                if not r or len(r) != 1 or r[0][0] != "class":
                    return None
                todo.append((r[0][1], r[0][2]))
            if c.keywords or c.decorator_list:
                return None
        return out

    def family(self, cls, modname):
        """the class, its bases and everything derived from it"""
        up = self.bases(cls, modname)
        if up is None:
            return None
        out = list(up)
        for m in self.pkg.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef) and (n, m.name) not in out:
                    b = Checker(self.pkg, m, Report()).bases(n, m.name)
                    if b is not None and (cls, modname) in b:
                        out += [x for x in b if x not in out]
        return out

    def members(self, cls, modname, whole=True):
        """name -> defs, for what instances have; None when not known"""
        key = (cls, whole)
        cache = self.pkg.__dict__.setdefault("_members", {})
        if key in cache:
            return cache[key]
        fam = self.family(cls, modname) if whole else self.bases(cls, modname)
        if fam is None:
            cache[key] = None
            return None
        out = {}
        for c, m in fam:
            names = {}
            for n in inside(c):
                self.pkg.mods[m].bind(n, names, set())
            for k, v in names.items():
                for b in v:
                    out.setdefault(k, []).append(b + (m,) if b[0] in ("def", "class") else ("var", None))
            for f in ast.walk(c):
                if isinstance(f, ast.Attribute) and isinstance(f.ctx, (ast.Store, ast.Del)) and isinstance(f.value, ast.Name) and f.value.id in ("self", "cls", c.name):
                    out.setdefault(f.attr, []).append(("var", None))
                if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == "setattr" and f.args and isinstance(f.args[0], ast.Name) and f.args[0].id == "self" and not isinstance(f.args[1], ast.Constant):
                    for v in names.values():
                        for b in v:
                            if b[0] == "var" and isinstance(b[1], (ast.Tuple, ast.List)):
                                for e in b[1].elts:
                                    if isinstance(e, ast.Constant):
                                        out.setdefault(e.value, []).append(("var", None))
                if isinstance(f, ast.Attribute) and f.attr == "__dict__":
                    out.setdefault("\0open", []).append(("var", None))
            if "__getattr__" in names or "__getattribute__" in names or "__slots__" in names:
                out.setdefault("\0open", []).append(("var", None))
        cache[key] = out
        return out

    def member(self, cls, modname, name):
        ms = self.members(cls, modname)
        if ms is None or "\0open" in ms or hasattr(object, name) or name in self.pkg.stored:
            r = (ms or {}).get(name)
            return r if r else None
        return ms.get(name, [])

    def nearest(self, cls, modname, name):
        """the definition that a call on this class finds first"""
        up = self.bases(cls, modname)
        for c, m in up or ():
            names = {}
            for n in inside(c):
                self.pkg.mods[m].bind(n, names, set())
            if name in names:
                b = names[name][-1]
                return b + (m,) if b[0] == "def" else None
        return None

    # ---------------------------------------------------------- one node
    def node(self, n, qual, env, cls):
        if isinstance(n, ast.ImportFrom):
            m = self.mod.absolute(n)
            if m and m.split(".")[0] == self.pkg.root:
                self.rep.did("imports")
                if m not in self.pkg.mods:
                    if not self.guarded(n, "ImportError", "ModuleNotFoundError"):
                        self.rep.bad(self.mod.name, qual, n.lineno, "there is no module %s to import from" % m)
                    return
                for a in n.names:
                    if a.name != "*" and "%s.%s" % (m, a.name) not in self.pkg.mods and self.pkg.lookup(m, a.name) == [] and a.name not in BUILTINS and a.name not in self.pkg.stored and not self.guarded(n, "ImportError"):
                        self.rep.bad(self.mod.name, qual, n.lineno, "%s has no %s to import" % (m, a.name))
        elif isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split(".")[0] == self.pkg.root:
                    self.rep.did("imports")
                    if a.name not in self.pkg.mods and not self.guarded(n, "ImportError", "ModuleNotFoundError"):
                        self.rep.bad(self.mod.name, qual, n.lineno, "there is no module %s" % a.name)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            self.attribute(n, qual, env, cls)
        elif isinstance(n, ast.Call):
            self.call(n, qual, env, cls)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            self.template(n, qual)

    def me(self, e, env, cls):
        """is the expression `self` of a method of cls?"""
        if cls is None or not isinstance(e, ast.Name):
            return False
        for t in reversed(env):
            if e.id in t:
                f = [x for x in inside(cls) if isinstance(x, FUNC)]
                return e.id == "self" and t[e.id] == [("var", None)] and any(fn.args.args and fn.args.args[0].arg == "self" for fn in f)
        return False

    def instance(self, e, env):
        """(class, module) when a local name only ever holds a new instance of one of our classes"""
        if isinstance(e, ast.Call):
            r = self.resolve(e.func, env)
            return (r[0][1], r[0][2]) if r and len(r) == 1 and r[0][0] == "class" else None
        if not isinstance(e, ast.Name):
            return None
        for t in reversed(env):
            if e.id in t:
                b = t[e.id]
                if len(b) == 1 and b[0][0] == "var" and isinstance(b[0][1], ast.Call):
                    r = self.resolve(b[0][1].func, env)
                    if r and len(r) == 1 and r[0][0] == "class":
                        return (r[0][1], r[0][2])
                return None
        return None

    def attribute(self, n, qual, env, cls):
        if self.me(n.value, env, cls):
            self.rep.did("attributes of self")
            r = self.member(cls, self.mod.name, n.attr)
            if r == [] and not self.guarded(n, "AttributeError"):
                self.rep.bad(self.mod.name, qual, n.lineno, "self.%s is never set" % n.attr)
            return
        inst = self.instance(n.value, env)
        if inst:
            self.rep.did("attributes of instances")
            ms = self.members(inst[0], inst[1], False)
            if ms is not None and "\0open" not in ms and n.attr not in ms and not hasattr(object, n.attr) and n.attr not in self.pkg.stored and not self.guarded(n, "AttributeError"):
                self.rep.bad(self.mod.name, qual, n.lineno, "%s objects have no %s" % (inst[0].name, n.attr))
            return
        base = self.resolve(n.value, env)
        if base and len(base) == 1:
            b = base[0]
            if b[0] == "mod":
                self.rep.did("module attributes")
                if self.pkg.attr(b[1], n.attr, self.loaded(env)) == [] and not self.guarded(n, "AttributeError"):
                    why = "is a module that is not imported here" if "%s.%s" % (b[1], n.attr) in self.pkg.mods else "does not exist"
                    self.rep.bad(self.mod.name, qual, n.lineno, "%s.%s %s" % (b[1], n.attr, why))
            elif b[0] == "class":
                self.rep.did("class attributes")
                if self.member(b[1], b[2], n.attr) == [] and not self.guarded(n, "AttributeError"):
                    self.rep.bad(self.mod.name, qual, n.lineno, "class %s has no %s" % (b[1].name, n.attr))
            elif b[0] == "ext":
                self.external(b[1], n, qual)

    def external(self, path, n, qual):
        top = path.split(".")[0]
        if top not in sys.stdlib_module_names or path not in sys.stdlib_module_names and path not in ("os.path",):
            return
        try:
            o = importlib.import_module(path)
        except Exception:
            return
        self.rep.did("standard library attributes")
        if not hasattr(o, n.attr) and not self.guarded(n, "AttributeError"):
            try:
                importlib.import_module(path + "." + n.attr)
            except Exception:
                self.rep.bad(self.mod.name, qual, n.lineno, "%s has no %s" % (path, n.attr))

    # ---------------------------------------------------------- calls
    def call(self, n, qual, env, cls):
        f = n.func
        cands, bound = None, False
        if isinstance(f, ast.Attribute) and self.me(f.value, env, cls):
            r = self.member(cls, self.mod.name, f.attr)
            if r and all(b[0] == "def" for b in r):
                cands, bound = r, True
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and cls is not None:
            up = self.bases(cls, self.mod.name)
            if up:
                for c, m in up[1:]:
                    r = self.nearest(c, m, f.attr)
                    if r:
                        cands, bound = [r], True
                        break
                else:
                    if not hasattr(object, f.attr):
                        self.rep.bad(self.mod.name, qual, n.lineno, "no base class of %s has %s" % (cls.name, f.attr))
        elif isinstance(f, ast.Attribute) and self.instance(f.value, env):
            i = self.instance(f.value, env)
            r = self.nearest(i[0], i[1], f.attr)
            if r:
                cands, bound = [r], True
        if cands is None:
            r = self.resolve(f, env)
            if r and all(b[0] in ("def", "class") for b in r):
                cands = []
                for b in r:
                    if b[0] == "class":
                        i = self.nearest(b[1], b[2], "__init__")
                        if i is None or self.bases(b[1], b[2]) is None or self.nearest(b[1], b[2], "__new__"):
                            return
                        cands.append(i + ("new",))
                    else:
                        cands.append(b)
        if not cands:
            return
        why = []
        for c in cands:
            w = self.fits(n, c[1], bound or c[-1] == "new")
            if w is None:
                self.rep.did("calls")
                return
            why.append((c[1], w))
        self.rep.did("calls")
        if not self.guarded(n, "TypeError"):
            self.rep.bad(self.mod.name, qual, n.lineno, "the call of %s %s" % (why[0][0].name, why[0][1]))

    def fits(self, n, d, bound):
        """None when a call fits a definition (or that is not known), else why not"""
        a = d.args
        decs = [x.id if isinstance(x, ast.Name) else "?" for x in d.decorator_list]
        pos = [x.arg for x in a.posonlyargs + a.args]
        if decs == ["classmethod"]:
            bound = True
        elif decs == ["staticmethod"]:
            bound = False
        elif decs:
            return None
        if bound:
            if not pos and not a.vararg:
                return "gives self to a function without arguments"
            pos = pos[1:]
        if any(isinstance(x, ast.Starred) for x in n.args):
            return None
        given = len(n.args)
        if given > len(pos) and not a.vararg:
            return "gives %d arguments, it takes %d" % (given, len(pos))
        kws = [k.arg for k in n.keywords]
        only = [x.arg for x in a.kwonlyargs]
        plain = set(pos[0 if not a.posonlyargs else max(0, len(a.posonlyargs) - (1 if bound else 0)):])
        for k in kws:
            if k is None:
                continue
            if k not in plain and k not in only and not a.kwarg:
                return "gives the unknown argument %s" % k
            if k in pos[:given]:
                return "gives the argument %s twice" % k
        if None in kws:
            return None
        need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
        for p in need[given:]:
            if p not in kws:
                return "does not give the argument %s" % p
        for p, dflt in zip(only, a.kw_defaults):
            if dflt is None and p not in kws:
                return "does not give the argument %s" % p
        return None

    # ---------------------------------------------------------- "%" templates
    def template(self, n, qual):
        s, want, i, named = n.left.value, 0, 0, False
        while i < len(s):
            if s[i] != "%":
                i += 1
                continue
            i += 1
            if s[i:i + 1] == "%":
                i += 1
                continue
            if s[i:i + 1] == "(":
                named = True
                i = s.find(")", i)
            while i < len(s) and s[i] in "#0- +.123456789*hlL)":
                if s[i] == "*":
                    want += 1
                i += 1
            if i >= len(s) or s[i] not in "diouxXeEfFgGcrsa":
                self.rep.bad(self.mod.name, qual, n.lineno, "the format %r is not complete" % s[:60])
                return
            want += 1
            i += 1
        self.rep.did("format strings")
        if named:
            return
        r = n.right
        if isinstance(r, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in r.elts):
            if len(r.elts) != want:
                self.rep.bad(self.mod.name, qual, n.lineno, "the format %r takes %d values, %d are given" % (s[:60], want, len(r.elts)))
        elif isinstance(r, (ast.Constant, ast.JoinedStr)) and want != 1:
            self.rep.bad(self.mod.name, qual, n.lineno, "the format %r takes %d values, one is given" % (s[:60], want))

    # ---------------------------------------------------------- locals never bound before
    def flow(self, fn, qual, here):
        """Uses of a local name that no binding reaches (maybe-assigned forward analysis)."""
        outer = {x for n in inside(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        local = {k for k in here if not k.startswith("\0") and k not in outer and k != "*"}
        args = fn.args
        start = {x.arg for x in args.posonlyargs + args.args + args.kwonlyargs + [y for y in (args.vararg, args.kwarg) if y]}
        bad = {}

        def expr(e, have):
            """names an expression may bind; uses of names not in have are reported"""
            if e is None:
                return have
            comp = isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))
            if isinstance(e, ast.Lambda):
                return have
            if comp:
                h = set(have)
                for g in e.generators:
                    h = expr(g.iter, h)
                    h = h | set(targets(g.target))
                    for i in g.ifs:
                        h = expr(i, h)
                for x in ([e.elt] if not isinstance(e, ast.DictComp) else [e.key, e.value]):
                    h = expr(x, h)
                return have
            if isinstance(e, ast.Name):
                if isinstance(e.ctx, ast.Load) and e.id in local and e.id not in have:
                    bad.setdefault(e.id, e)
                return have
            if isinstance(e, ast.NamedExpr):
                return expr(e.value, have) | {e.target.id}
            for k in ast.iter_child_nodes(e):
                have = expr(k, have)
            return have

        def bound(s):
            d = {}
            for n in [s] + list(inside(s)) if not isinstance(s, SCOPES) else [s]:
                self.mod.bind(n, d, set())
            return {x for x in d}

        def block(ss, have):
            for s in ss:
                if have is None:
                    # not reached: anything goes
                    return None
                have = stmt(s, have)
            return have

        def join(*hs):
            hs = [h for h in hs if h is not None]
            return set().union(*hs) if hs else None

        def stmt(s, have):
            self.rep.did("statements")
            if isinstance(s, FUNC + (ast.ClassDef,)):
                for d in s.decorator_list:
                    have = expr(d, have)
                return have | {s.name}
            if isinstance(s, (ast.Return, ast.Raise)):
                for k in ast.iter_child_nodes(s):
                    have = expr(k, have)
                return None
            if isinstance(s, (ast.Break, ast.Continue)):
                return None
            if isinstance(s, ast.If):
                have = expr(s.test, have)
                return join(block(s.body, set(have)), block(s.orelse, set(have)))
            if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
                if not isinstance(s, ast.While):
                    have = expr(s.iter, have) | set(targets(s.target))
                inner = have | set().union(*[bound(x) for x in s.body]) if s.body else have
                if isinstance(s, ast.While):
                    expr(s.test, inner if False else have | (inner - have))
                # the first pass comes with what is bound before, later passes with all that the body binds
                seen = dict(bad)
                block(s.body, set(inner))
                bad.clear()
                bad.update(seen)
                first(s.body, set(have), inner)
                out = join(inner, block(s.orelse, set(inner)) if s.orelse else inner)
                return out if out is not None else inner
            if isinstance(s, (ast.Try,) + ((ast.TryStar,) if hasattr(ast, "TryStar") else ())):
                b = block(s.body, set(have))
                mid = have | set().union(*[bound(x) for x in s.body]) if s.body else have
                outs = [block(s.orelse, b) if s.orelse and b is not None else b]
                for h in s.handlers:
                    outs.append(block(h.body, set(mid) | ({h.name} if h.name else set())))
                j = join(*outs)
                if s.finalbody:
                    allb = mid | set().union(*[bound(x) for x in s.orelse + [y for h in s.handlers for y in h.body]]) if s.orelse or s.handlers else mid
                    f = block(s.finalbody, set(allb))
                    return None if j is None or f is None else j | f
                return j
            if isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    have = expr(i.context_expr, have)
                    if i.optional_vars is not None:
                        have = have | set(targets(i.optional_vars))
                r = block(s.body, set(have))
                # an exception may be swallowed
                return r if r is not None else have | set().union(*[bound(x) for x in s.body])
            if isinstance(s, ast.Match):
                have = expr(s.subject, have)
                outs = [set(have)]
                for c in s.cases:
                    h = have | bound(ast.Module(body=[ast.Expr(value=ast.Constant(value=0))], type_ignores=[])) | {x.name for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
                    outs.append(block(c.body, h))
                return join(*outs)
            if isinstance(s, ast.Assign):
                have = expr(s.value, have)
                for t in s.targets:
                    have = expr(t, have)
                    have = have | set(targets(t))
                return have
            if isinstance(s, ast.AugAssign):
                if isinstance(s.target, ast.Name) and s.target.id in local and s.target.id not in have:
                    bad.setdefault(s.target.id, s.target)
                have = expr(s.value, have)
                have = expr(s.target, have)
                return have | set(targets(s.target))
            if isinstance(s, ast.AnnAssign):
                have = expr(s.value, have)
                return have | (set(targets(s.target)) if s.value is not None else set())
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                return have | bound(s)
            if isinstance(s, ast.Delete):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if t.id in local and t.id not in have:
                            bad.setdefault(t.id, t)
                        have = have - {t.id}
                    else:
                        have = expr(t, have)
                return have
            for k in ast.iter_child_nodes(s):
                have = expr(k, have)
            return have

        def first(body, have, inner):
            """a loop body: a name that the body binds only after its use is there on a second pass, so only names bound nowhere in it count, or uses in straight line before any way round"""
            h = set(have)
            for s in body:
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.AnnAssign)):
                    h = stmt(s, h)
                else:
                    # what comes after may be reached in other ways: be generous
                    h2 = stmt(s, set(h))
                    if h2 is None:
                        return
                    h = h2
        block(fn.body, set(start))
        for name, e in sorted(bad.items()):
            if not self.guarded(e, "NameError", "UnboundLocalError"):
                self.rep.bad(self.mod.name, qual, e.lineno, "%s is used before anything is bound to it" % name)


def check_package(repo, root):
    pkg = Package(repo, root)
    rep = Report()
    for m in pkg.mods.values():
        Checker(pkg, m, rep).run()
    return pkg, rep
