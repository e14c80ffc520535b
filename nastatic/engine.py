"""Obligations, verdicts, evidence."""
import ast
import os
import re
import time
import traceback
from . import terms as T
from .terms import Term
from .teval import Ev, EvErr, Unknown

PROVED, AGREES, UNDECIDED, VIOLATED = "discharged", "agrees", "undecided", "violated"


class Ob(object):
    def __init__(self, key, rule, status, detail="", where=()):
        self.key, self.rule, self.status, self.detail, self.where = key, rule, status, detail, list(where)


class Chk(object):
    def __init__(self, pid, repo, tier="quick", seed=1):
        self.pid, self.repo, self.tier, self.seed = pid, repo, tier, seed
        self.obs = []
        self.funcs = set()
        self.calls = 0
        self.stmts = 0
        self.scenarios = 0
        self.valuations = 0
        self.notes = set()
        self.t0 = time.time()
        self.budget = 600 if tier == "quick" else 800
        self.broken = None
        self.fileidx = {}

    thorough = property(lambda s: s.tier == "thorough")

    def left(self):
        return self.budget - (time.time() - self.t0)

    def add(self, key, rule, status, detail="", where=()):
        for o in self.obs:
            if o.key == key:
                # the worst verdict stands
                order = [PROVED, AGREES, UNDECIDED, VIOLATED]
                if order.index(status) <= order.index(o.status):
                    return o
                self.obs.remove(o)
                break
        o = Ob(key, rule, status, detail, where)
        self.obs.append(o)
        return o

    def saw(self, sc):
        """Record what a scenario analysed."""
        ip = sc.ip
        self.scenarios += 1
        self.funcs |= ip.funcs
        self.calls += len(ip.calls)
        self.stmts += len(ip.stmts)
        self.notes |= {n for n in ip.notes}

    def guard(self, key, rule, fn, *a):
        """Run one obligation; an internal failure of the analysis is never a verdict."""
        try:
            return fn(*a)
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1]
            self.add(key, rule, UNDECIDED, "analysis gave up: %s: %s (%s:%d)" % (
                type(e).__name__, str(e)[:120], os.path.basename(last.filename), last.lineno))
            if os.environ.get("NASTATIC_DEBUG"):
                traceback.print_exc()

    # ---- constructs
    def tree(self, mod):
        if mod not in self.fileidx:
            p = os.path.join(self.repo, *mod.split("."))
            p = os.path.join(p, "__init__.py") if os.path.isdir(p) else p + ".py"
            try:
                with open(p, encoding="utf-8") as fh:
                    self.fileidx[mod] = (os.path.relpath(p, self.repo), ast.parse(fh.read()))
            except (OSError, SyntaxError):
                self.fileidx[mod] = (mod, None)
        return self.fileidx[mod]

    def site(self, s):
        """(module, qualname, line) -> text"""
        f, _ = self.tree(s[0])
        return "%s:%s %s" % (f, s[2], s[1])

    def func_node(self, mod, qual):
        f, tree = self.tree(mod)
        if tree is None:
            return None
        body = tree.body
        node = None
        for part in qual.split("."):
            node = None
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part:
                    node = n
            if node is None:
                return None
            body = node.body
        return node

    def locate(self, sc, name, store=None):
        """Constructs of the analysed functions that touch attribute / key `name`."""
        out = []
        for mod, qual in sorted(sc.ip.funcs):
            n = self.func_node(mod, qual)
            if n is None:
                continue
            for x in ast.walk(n):
                hit = isinstance(x, ast.Attribute) and x.attr == name and (
                    store is None or isinstance(x.ctx, ast.Store) == store)
                hit = hit or (isinstance(x, ast.Constant) and x.value == name and not store)
                if hit:
                    out.append("%s:%d %s" % (self.tree(mod)[0], x.lineno, qual))
        return sorted(set(out))[:12]


def unks(t, limit=3):
    """Reasons why a term is not fully known."""
    seen, out, st = set(), [], [t]
    while st and len(out) < limit:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "unk":
            out.append(str(x.args[0]))
        for y in T._terms(x.args):
            st.append(y)
    return out


def true_raise(sc, ev, skip=()):
    """The first recorded raise whose path condition holds under the valuation, else None."""
    for path, exc, msg, site in sc.ip.raises:
        if site in skip:
            continue
        ok = True
        for c in path:
            try:
                if not ev(c):
                    ok = False
                    break
            except (EvErr, Unknown):
                ok = False
                break
        if ok:
            return exc, msg, site
    return None


# ------------------------------------------------------------------ parallel obligations
def _child(pid, repo, tier, seed, fn, item, conn):
    import sys
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(60000)
    res = {}

    def go():
        c = Chk(pid, repo, tier, seed)
        c.guard("%s" % (item,), "analysis", fn, c, *item)
        res["r"] = (c.obs, c.funcs, c.calls, c.stmts, c.scenarios, c.valuations, c.notes)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    try:
        conn.send(res.get("r"))
    finally:
        conn.close()


def parallel(chk, fn, items, workers=8, per_item=400):
    """fn(chk, *item) for every item, each in its own process (terms are process-local)."""
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    if os.environ.get("NASTATIC_ONLY"):     # development: the cases whose name matches
        items = [i for i in items if re.search(os.environ["NASTATIC_ONLY"], str(i))]
    todo = list(items)
    live = []
    results = {}
    while todo or live:
        while todo and len(live) < workers:
            item = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(chk.pid, chk.repo, chk.tier, chk.seed, fn, item, b))
            p.start()
            b.close()
            live.append((p, a, item, time.time()))
        nxt = []
        moved = False
        for p, a, item, t0 in live:
            done = False
            if a.poll():
                try:
                    results[repr(item)] = a.recv()
                except EOFError:
                    results[repr(item)] = None
                done = True
            elif not p.is_alive():
                done = True
            elif time.time() - t0 > per_item or chk.left() < 0:
                p.kill()
                results[repr(item)] = "time"
                done = True
            if done:
                p.join(5)
                a.close()
                moved = True
            else:
                nxt.append((p, a, item, t0))
        live = nxt
        if not moved:
            time.sleep(0.02)
    for item in items:
        r = results.get(repr(item))
        if r is None or r == "time":
            chk.add(str(item), "analysis", UNDECIDED, "the analysis of this case " + ("ran out of time" if r else "ended without a result"))
            continue
        obs, funcs, calls, stmts, scen, vals, notes = r
        for o in obs:
            chk.add(o.key, o.rule, o.status, o.detail, o.where)
        chk.funcs |= funcs
        chk.calls += calls
        chk.stmts += stmts
        chk.scenarios += scen
        chk.valuations += vals
        chk.notes |= notes
