"""Everything that the package offers is there when it is used."""
import ast
import os
import re
from ._conv import *
from ..resolve import Package, Checker, Report, FUNC

METHOD = ("name, attribute, import and signature resolution over the syntax trees of the whole package (every function, whether or not anything calls it), a forward maybe-assigned analysis of locals, "
          "and an abstract interpretation of the import of every module")
LEVEL = "other"
ASSUMPTIONS = ["names made by exec, and attributes of objects of unknown class, are not followed", "the standard library is that of the Python that runs the check"]
RULE = "whatever a function names exists and is called with arguments that it takes"
LOADS = "importing a module does not fail"
ENTRY = "an installed command is a function that can be called without arguments"
OFFER = "a function that the API documentation shows is offered by the package"


def loads(chk, m):
    c = Conv(chk.repo)
    c.run(lambda: c.sc.load(m))
    chk.saw(c.sc)
    ok = c.status == "ok"
    chk.add("import/" + m, LOADS, PROVED if ok else VIOLATED if c.status == "raises" else UNDECIDED,
            "followed to its end" if ok else "raises %s %s" % c.raised[1:3] if c.status == "raises" else "not followed to its end", c.where() if not ok else ())


def rel(chk, m):
    return os.path.relpath(m.path, chk.repo)


def run(chk):
    pkg = Package(chk.repo, "nappy")
    for name, e in pkg.broken:
        chk.add("syntax/" + name, LOADS, VIOLATED, e, [name])
    total = Report()
    for name, m in sorted(pkg.mods.items()):
        rep = Report()
        Checker(pkg, m, rep).run()
        for k, v in rep.count.items():
            total.did(k, v)
        fs = [n for n in ast.walk(m.tree) if isinstance(n, FUNC)]
        for n in fs:
            chk.funcs.add((name, n.name))
        chk.calls += rep.count.get("calls", 0)
        chk.stmts += rep.count.get("statements", 0)
        for mod, qual, line, what in rep.found:
            chk.add("%s:%s:%s" % (mod, qual, re.sub(r"\W+", "-", what)), RULE, VIOLATED, what, ["%s:%s %s" % (rel(chk, m), line, qual)])
        if not rep.found:
            chk.add("module/" + name, RULE, PROVED, "%d functions: %s" % (len(fs), ", ".join("%d %s" % (v, k) for k, v in sorted(rep.count.items()))))
    api = pkg.mods.get("nappy.nappy_api")
    if api is not None:
        doc = ast.get_docstring(api.tree) or ""
        for f in ast.walk(api.tree):
            if isinstance(f, FUNC):
                doc += "\n" + (ast.get_docstring(f) or "")
        for n in sorted(set(re.findall(r"\bnappy\.(\w+)\(", doc))):
            r = pkg.attr("nappy", n, pkg.closure("nappy"))
            chk.add("offered/" + n, OFFER, VIOLATED if r == [] else PROVED, "nappy.%s %s" % (n, "does not exist" if r == [] else "is there"), ["nappy/nappy_api.py"] if r == [] else ())
    setup = os.path.join(chk.repo, "setup.py")
    if os.path.exists(setup):
        for n in ast.walk(ast.parse(open(setup, encoding="utf-8").read())):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                for cmd, mod, fn in re.findall(r"^\s*([\w-]+)\s*=\s*([\w.]+):(\w+)\s*$", n.value):
                    r = pkg.lookup(mod, fn) if mod in pkg.mods else []
                    bad = None
                    if not r and r is not None:
                        bad = "%s has no %s" % (mod, fn)
                    elif r and r[-1][0] == "def":
                        w = Checker(pkg, pkg.mods[mod], Report()).fits(ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=[], keywords=[]), r[-1][1], False)
                        bad = w and "%s %s" % (fn, w)
                    chk.add("command/" + cmd, ENTRY, VIOLATED if bad else PROVED, bad or "%s.%s" % (mod, fn), ["setup.py", "%s" % mod] if bad else ())
    parallel(chk, loads, [(m,) for m in sorted(pkg.mods)])
