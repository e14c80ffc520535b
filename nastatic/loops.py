"""Loop summarisation.

A loop body is analysed once per refinement pass with every location it modifies
replaced by a symbol for "value at the start of iteration i"; the recurrence that
the body induces on the symbol is recognised and replaced by its closed form
(sequence append -> repetition, counter -> affine term, elementwise update -> map,
line cursor -> skipped-lines cursor, flag -> existential ...).  No iteration is run.
"""
import ast

from . import terms as T
from .terms import *
from .terms import _mkp, _pd
from .heap import *

# ---------------------------------------------------------------------------
# repeated cursor segments


def crep(n, i, segs):
    """cursor advanced n times by segs(i)"""
    if is_k(n) and kv(n) <= 0:
        return []
    segs = list(segs)
    if not segs:
        return []
    if all(s.op == "ln" for s in segs):
        tot = add(*[s.args[0] for s in segs])
        return [ln_seg(pmul(n, tot) if i not in free(tot) else T.sum_(n, i, tot))]
    if is_k(n) and kv(n) <= 6:
        out = []
        for j in range(kv(n)):
            out += [subst(s, {i: K(j)}) for s in segs]
        return out
    b, segs2 = T._close(i, tuple(segs))
    return [mk("crep", (n, b) + segs2, "cseg")]


def _subst_crep(t, m, memo):
    n = T._subst(t.args[0], m, memo)
    b = t.args[1]
    mm = {k: v for k, v in m.items() if k is not b}
    i = fresh("b", b.ty, nat=True)
    mm[b] = i
    with assume(ge0(add(n, K(-1), pneg(i)))):
        body = [T._subst(x, mm, {}) for x in t.args[2:]]
    r = crep(n, i, body)
    if len(r) == 1:
        return r[0]
    return mk("cgrp", tuple(r), "cseg")


T._BINDERS["crep"] = (1,)
_old_sb = T._subst_binder


def _sb(t, m, memo):
    if t.op == "crep":
        return _subst_crep(t, m, memo)
    return _old_sb(t, m, memo)


T._subst_binder = _sb
_old_adv = T.cur_adv


def cur_adv2(c, s):
    if s.op == "cgrp":
        for x in s.args:
            c = T.cur_adv(c, x)
        return c
    if s.op == "crep" and c.op == "cur":
        # n repetitions followed by one more -> n + 1 is recognised when the pieces agree
        pass
    if c.op == "cur":
        # absorb:  crep(n, i, S(i)) ++ S(n)  ->  crep(n + 1, i, S(i))
        r = _old_adv(c, s)
        segs = r.args[1:] if r.op == "cur" else ()
        for k in range(len(segs) - 1, -1, -1):
            g = segs[k]
            if g.op == "crep":
                w = len(g.args) - 2
                tail = segs[k + 1:]
                if len(tail) == w and w and all(subst(x, {g.args[1]: g.args[0]}) is y for x, y in zip(g.args[2:], tail)):
                    return T.cur(r.args[0], *(tuple(segs[:k]) + (mk("crep", (add(g.args[0], ONE),) + g.args[1:], "cseg"),)))
                break
        return r
    return _old_adv(c, s)


T.cur_adv = cur_adv2


class Unsolved(Exception):
    pass


MAXPASS = 8


def subst_state(s, m):
    m = {k: v for k, v in m.items() if k is not v}
    if not m:
        return s

    def v(x):
        return subst(x, m) if isinstance(x, Term) else x
    env = {k: (v(x) if not k.startswith("$") or k in ("$ret", "$acc", "$v") else x) for k, x in s.env.items()}
    heap = {}
    for k, o in s.heap.items():
        if isinstance(o, Term):
            heap[k] = v(o)
        elif isinstance(o, HList):
            c = v(o.content)
            heap[k] = o if c is o.content else o.with_(content=c)
        elif isinstance(o, HDict):
            items = {v(kk): v(x) for kk, x in o.items.items()}
            heap[k] = o.with_(items=items, base=v(o.base) if o.base is not None else None)
        elif isinstance(o, (HInst, HMod)):
            heap[k] = o.with_(attrs={kk: v(x) for kk, x in o.attrs.items()})
        elif isinstance(o, HFile):
            heap[k] = o.with_(cur=v(o.cur) if o.cur is not None else None, out=v(o.out), closed=v(o.closed), flushed=v(o.flushed))
        elif isinstance(o, HSIO):
            heap[k] = o.with_(content=v(o.content))
        else:
            heap[k] = o
    return State(env, heap, s.facts, tuple(v(p) for p in s.path), s.frame)


class LoopSolver(object):
    def __init__(self, ip, st, n, run, node):
        self.ip, self.st, self.n, self.run, self.node = ip, st, n, run, node
        self.i = fresh("i", "int", nat=True)
        self.locs = []
        self.mu = {}
        self.cf = {}        # loc -> function(count) -> Term
        self.mode = {}      # loc -> "val" | "box" | "curbox" | "item"
        self.box = {}
        self.dims = {}

    # ---------------------------------------------------------------- locations
    def diff(self, pre, post):
        out = []
        for k, v in post.env.items():
            if k.startswith("$") and k not in ("$acc",):
                continue
            a = pre.env.get(k)
            if a is not v:
                out.append(("env", k))
        for k, o in post.heap.items():
            p = pre.heap.get(k)
            if p is None:
                if isinstance(k, tuple) and k[0] in ("O", "I"):
                    out.append(("raw", k))
                continue
            if p is o:
                continue
            if isinstance(o, Term):
                out.append(("raw", k))
            elif isinstance(o, HList):
                if o.content is not p.content:
                    out.append(("list", k))
            elif isinstance(o, HDict):
                if o.base is not p.base:
                    out.append(("dbase", k))
                for kk in o.items:
                    if p.items.get(kk) is not o.items[kk]:
                        if self.i in free(kk) or any(m in free(kk) for m in self.mu.values()):
                            if ("dbase", k) not in out:
                                out.append(("dbase", k))
                        else:
                            out.append(("key", k, kk))
            elif isinstance(o, (HInst, HMod)):
                for kk in o.attrs:
                    if p.attrs.get(kk) is not o.attrs[kk]:
                        out.append(("attr", k, kk))
            elif isinstance(o, HFile):
                for f in ("cur", "out", "closed", "flushed"):
                    if getattr(o, f) is not getattr(p, f):
                        out.append(("file", k, f))
            elif isinstance(o, HSIO):
                if o.content is not p.content:
                    out.append(("sio", k))
        return out

    def read(self, s, loc):
        k = loc[0]
        if k == "env":
            return s.env.get(loc[1], UNDEF)
        o = s.heap.get(loc[1])
        if k == "raw":
            return o if o is not None else UNDEF
        if o is None:
            return UNDEF
        if k == "list":
            return o.content
        if k == "dbase":
            return o
        if k == "key":
            return o.items.get(loc[2], UNDEF)
        if k == "attr":
            return o.attrs.get(loc[2], UNDEF)
        if k == "file":
            return getattr(o, loc[2])
        if k == "sio":
            return o.content
        raise ValueError(k)

    def write(self, s, loc, v):
        k = loc[0]
        if k == "env":
            if v is UNDEF:
                s.env.pop(loc[1], None)
            else:
                s.env[loc[1]] = v
            return
        if k == "raw":
            if v is UNDEF:
                s.heap.pop(loc[1], None)
            else:
                s.heap[loc[1]] = v
            return
        o = s.heap[loc[1]]
        if k == "list":
            s.heap[loc[1]] = o.with_(content=v)
        elif k == "dbase":
            s.heap[loc[1]] = o.with_(base=v)
        elif k == "key":
            items = dict(o.items)
            if v is UNDEF:
                items.pop(loc[2], None)
            else:
                items[loc[2]] = v
            s.heap[loc[1]] = o.with_(items=items)
        elif k == "attr":
            a = dict(o.attrs)
            if v is UNDEF:
                a.pop(loc[2], None)
            else:
                a[loc[2]] = v
            s.heap[loc[1]] = o.with_(attrs=a)
        elif k == "file":
            s.heap[loc[1]] = o.with_(**{loc[2]: v})
        elif k == "sio":
            s.heap[loc[1]] = o.with_(content=v, pos="end")

    # ------------------------------------------------------------------- symbols
    def keep(self):
        return self.st.heap

    def add_loc(self, loc, post):
        """Register a modified location; decide how it is abstracted."""
        init = self.read(self.st, loc)
        pv = self.read(post, loc)
        self.locs.append(loc)
        if loc[0] == "dbase":
            self.mode[loc] = "dbase"
            return
        isl = lambda v, s: v is not UNDEF and v.op == "ref" and isinstance(s.heap.get(v.args[0]), HList)
        if isl(init, self.st) and isl(pv, post):
            self.mode[loc] = "box"
            c = self.ip.freeze(self.st.heap[init.args[0]].content, self.st, self.keep())
            self.newmu(loc, c, c.ty)
            self.tag(loc, self.st.heap[init.args[0]])
            return
        if pv is not UNDEF and init is UNDEF:
            self.mode[loc] = "last"
            return
        self.mode[loc] = "val"
        if init.op in ("ref", "path") or (pv is not UNDEF and pv.op in ("ref", "path")):
            self.mode[loc] = "last"
            return
        ty = init.ty
        if pv is not UNDEF and pv.ty != ty:
            ty = "real" if {ty, pv.ty} == {"int", "real"} else "any"
            if isinstance(init.ty, tuple) and isinstance(pv.ty, tuple):
                ty = T.jty(init.ty, pv.ty)
        if loc[0] == "list":
            init = self.ip.freeze(init, self.st, self.keep())
        self.newmu(loc, init, ty)

    def tag(self, loc, o):
        self.box[loc] = o.__class__

    def newmu(self, loc, init, ty):
        m = fresh("mu_%s" % (loc[-1] if isinstance(loc[-1], str) else "x"), ty)
        self.mu[loc] = m
        self.cf.pop(loc, None)
        if not hasattr(self, "init"):
            self.init = {}
        self.init[loc] = init
        if ty == "int" and T.nonneg(init):
            pass

    def install(self, s, loc, v):
        mode = self.mode[loc]
        if mode == "box":
            cls = self.box.get(loc, HList)
            oid = new_oid("box")
            s.heap[oid] = cls(v)
            self.write(s, loc, ref(oid))
        elif mode == "curbox":
            oid = new_oid("box")
            s.heap[oid] = HList(T.lns(v))
            self.write(s, loc, ref(oid))
        elif mode == "last":
            v0 = self.read(self.st, loc)
            self.write(s, loc, v0 if v0 is not UNDEF else UNDEF)
            if v0 is not UNDEF:
                self.write(s, loc, T.mk("muref", (self.i, K(str(loc))), "any"))
        elif mode == "dbase":
            o = s.heap[loc[1]]
            s.heap[loc[1]] = o.with_(base=T.mk("app", ("dictmu", (self.i, K(loc[1]))), "dict"))
        else:
            self.write(s, loc, v)

    def post_value(self, post, loc):
        mode = self.mode[loc]
        v = self.read(post, loc)
        if v is UNDEF:
            return UNDEF
        if mode == "box":
            if v.op == "ref" and isinstance(post.heap.get(v.args[0]), HList):
                return self.ip.freeze(post.heap[v.args[0]].content, post, self.keep())
            return self.ip.freeze(v, post, self.keep())
        if mode == "curbox":
            s = self.ip.aslist(v, post)
            if s is None or s.op != "lns":
                return unk("lines variable rebound", "cur")
            return s.args[0]
        if loc[0] == "raw" or loc[0] in ("env", "attr", "key"):
            if v.op == "ref":
                o = post.heap.get(v.args[0])
                if isinstance(o, (HList,)) and v.args[0] not in self.keep():
                    return self.ip.freeze(v, post, self.keep())
                return v
        return self.ip.freeze(v, post, self.keep()) if v.op not in ("ref",) else v

    # -------------------------------------------------------------------- passes
    def attempt(self):
        ip = self.ip
        s = self.st.copy()
        if self.n is not None:
            s.facts = s.facts.add(ge0(add(self.n, K(-1), pneg(self.i))))
        T.set_facts(s.facts)
        for loc in self.locs:
            if self.mode[loc] in ("last", "dbase"):
                self.install(s, loc, None)
            else:
                f = self.cf.get(loc)
                self.install(s, loc, f(self.i) if f is not None else self.mu[loc])
        pre = s.copy()
        self.pre = pre
        base = s.path
        try:
            flow = self.run(s, self.i)
        except Dead:
            flow = Flow(None)
        ends = flow.conts + ([flow.fall] if flow.fall is not None else [])
        return pre, base, flow, join_many(ends)

    def passes(self):
        ip = self.ip
        self.init = {}
        for rnd in range(MAXPASS):
            mark = len(ip.raises), len(ip.events)
            pre, base, flow, post = self.attempt()
            outs = ([post] if post is not None else []) + flow.brks + [r[0] for r in flow.rets]
            new = []
            for o in outs:
                for loc in self.diff(pre, o):
                    if loc not in self.locs and loc not in [x for x, _ in new]:
                        new.append((loc, o))
            if new:
                for loc, o in new:
                    self.add_loc(loc, o)
                del ip.raises[mark[0]:], ip.events[mark[1]:]
                continue
            if post is None:
                return base, flow, post, mark
            progress = self.solve(post)
            if not progress:
                return base, flow, post, mark
            del ip.raises[mark[0]:], ip.events[mark[1]:]
        # not stable within the budget: one more pass with whatever is known
        mark = len(ip.raises), len(ip.events)
        pre, base, flow, post = self.attempt()
        ip.note("loop at line %s not stabilised" % getattr(self.node, "lineno", "?"))
        return base, flow, post, mark

    def unsolved(self):
        return [l for l in self.locs if l not in self.cf and self.mode[l] in ("val", "box", "curbox")]

    def solve(self, post):
        """Try to solve more recurrences. -> progress?"""
        progress = False
        todo = self.unsolved()
        mus = {self.mu[l] for l in todo}
        posts = {l: self.post_value(post, l) for l in todo}
        changed = True
        while changed:
            changed = False
            for l in list(todo):
                P = posts[l]
                m = self.mu[l]
                others = (free(P) & mus) - {m}
                if others:
                    continue
                c = self.closed(l, m, P)
                if c is None and m not in free(P) and P.op != "unk":
                    c = self.lastvalue(l, P)
                if c is None:
                    continue
                self.cf[l] = c
                todo.remove(l)
                mus.discard(m)
                progress = changed = True
                at = c(self.i)
                for x in todo:
                    if m in free(posts[x]):
                        posts[x] = subst(posts[x], {m: at})
        # type / shape refinement of what is left
        for l in todo:
            P, m = posts[l], self.mu[l]
            if self.refine(l, m, P):
                progress = True
        if not progress and todo:
            # self-contained unrecognised recurrences; a line cursor first (the rest usually follows)
            for l in sorted(todo, key=lambda x: self.mu[x].ty != "cur"):
                if progress and self.mu[l].ty != "cur":
                    break
                P, m = posts[l], self.mu[l]
                others = (free(P) & mus) - {m}
                if not others and not has_unk(P):
                    init = self.init[l]
                    if m.ty == "any" and self.free_of_store(P):
                        pass
                    self.cf[l] = (lambda cnt, P=P, m=m, init=init: T.iter_(cnt, self.i, m, P, init))
                    if m.ty in ("int", "real", "str") or isinstance(m.ty, tuple):
                        pass
                    todo.remove(l)
                    mus.discard(m)
                    progress = True
            if not progress:
                for l in list(todo):
                    ty = self.mu[l].ty
                    why = "recurrence of %s at %s" % (l[-1] if isinstance(l[-1], str) else l[0], self.where())
                    self.cf[l] = (lambda cnt, ty=ty, why=why: unk(why, ty))
                    progress = True
        return progress

    def free_of_store(self, P):
        return True

    def where(self):
        f = self.ip.cur_func
        return "%s:%s" % (f.qual() if f else "?", getattr(self.node, "lineno", "?"))

    def refine(self, l, m, P):
        """Learn the shape of an unsolved sequence symbol (lengths per level)."""
        init = self.init[l]
        if P is UNDEF:
            return False
        if self.mode[l] == "box" and elem_ty(m) in ("str", "any") and m.ty != "cur" and "cur" not in self.dims.get(l, ()):
            # a list consumed from the front: treat it as a line cursor
            q = self.suffix_of(m, P)
            if q:
                self.mode[l] = "curbox"
                self.newmu(l, T.as_cursor(init) if init.op == "lns" else T.cur(init), "cur")
                self.dims[l] = ("cur",)
                return True
        if m.ty != "any" and P.ty != m.ty and P.op != "unk" and not isinstance(m.ty, tuple) and m.ty != "cur":
            self.newmu(l, init, "real" if {m.ty, P.ty} == {"int", "real"} else "any")
            return True
        if m.ty == "any" and init.ty == P.ty and init.ty != "any":
            self.newmu(l, init, init.ty)
            return True
        if not isinstance(m.ty, tuple):
            return False
        if m in T.DECL:
            dims = T.DECL[m]
        else:
            dims = []
        lev = len(dims)
        if lev > 3:
            return False
        if lev == 0:
            if isinstance(P.ty, tuple) and elem_ty(m) == "any" and elem_ty(P) != "any" and not isinstance(init, type(None)) and \
                    length(init) is ZERO and (l, "ety") not in self.dims:
                # refine the element type of an initially empty sequence
                nm = fresh("mu_x", P.ty)
                self.dims[(l, "ety")] = True
                self.mu[l] = nm
                return True
            d = psub(length(P), length(m))
            if m in free(d) or any(self.mu[x] in free(d) for x in self.unsolved()):
                return False
            L0 = length(init)
            i = self.i
            if i in free(d):
                k = fresh("k", "int", nat=True)
                closed = add(L0, T.sum_(i, k, subst(d, {i: k})))
            else:
                closed = add(L0, pmul(i, d))
            T.DECL[m] = [lambda idx, c=closed: c]
            return True
        # deeper level: lengths of the elements
        idx = [fresh("k", "int", nat=True) for _ in range(lev)]
        facts = [ge0(add(dims[j](idx[:j]), K(-1), pneg(idx[j]))) for j in range(lev)]
        with assume(*facts):
            a, b, c = m, P, init
            for k in idx:
                a, b, c = T.get(a, k), T.get(b, k), T.get(c, k)
            if not isinstance(b.ty, tuple) and not isinstance(c.ty, tuple):
                return False
            d = psub(length(b), length(a))
            if m in free(d) or any(self.mu[x] in free(d) for x in self.unsolved()) or b.op == "unk":
                return False
            if not all(y.op != "len" or root_idx(y.args[0])[0] is not m for y in subterms(d)):
                return False
            L0 = length(c)
        i = self.i
        if i in free(d):
            kk = fresh("k", "int", nat=True)
            closed = add(L0, T.sum_(i, kk, subst(d, {i: kk})))
        else:
            closed = add(L0, pmul(i, d))

        def f(ix, idx=tuple(idx), closed=closed):
            return subst(closed, dict(zip(idx, ix)))
        T.DECL[m] = dims + [f]
        return True

    def suffix_of(self, m, P):
        """P is m with some leading elements dropped (under every condition)."""
        if P is m:
            return False
        if P.op == "slice" and P.args[0] is m and P.args[2] is length(m):
            return True
        if P.op == "lns":
            return True
        if P.op == "ite":
            return all(x is m or self.suffix_of(m, x) for x in P.args[1:])
        return False

    # -------------------------------------------------------------- closed forms
    def lastvalue(self, l, P):
        """P does not depend on the previous value."""
        init, i = self.init[l], self.i
        if self.i not in free(P):
            def c(cnt):
                return T.ite(ge0(add(cnt, K(-1))), P, init) if P.ty != "cur" else T.ite_cur(ge0(add(cnt, K(-1))), P, init)
            return c

        def c(cnt):
            with assume(ge0(add(cnt, K(-1)))):
                v = subst(P, {i: add(cnt, K(-1))})
            g = ge0(add(cnt, K(-1)))
            return T.ite(g, v, init) if P.ty != "cur" else T.ite_cur(g, v, init)
        return c

    def closed(self, l, m, P):
        if P is UNDEF or P.op == "unk":
            return None
        if has_unk(P):
            return None
        return self.rec(m, P, self.init[l], l)

    def rec(self, m, P, init, l=None):
        """Closed form of x' = P(x, i), x(0) = init, as function of the count."""
        i = self.i
        if P is m:
            return lambda cnt: init
        ty = m.ty
        if ty == "any" and P.ty == init.ty:
            ty = P.ty
        if ty == "cur":
            return self.rec_cur(m, P, init)
        if P.op == "cur":
            return None
        # ----- flags and conditional overwrites:  P = c ? v : x
        if P.op == "ite" and m not in free(P.args[0]):
            c, a, b = P.args
            if b is m and m not in free(a):
                return self.cond_last(c, a, init)
            if a is m and m not in free(b):
                return self.cond_last(neg(c), b, init)
        if m.ty == "bool":
            # x or c / x and c
            if P.op == "or" and m in P.args:
                r = disj(*[x for x in P.args if x is not m])
                if m not in free(r):
                    return lambda cnt: disj(init, self.exists(cnt, r))
            if P.op == "and" and m in P.args:
                r = conj(*[x for x in P.args if x is not m])
                if m not in free(r):
                    return lambda cnt: conj(init, neg(self.exists(cnt, neg(r))))
        if ty == "int" and P.ty == "int":
            d = psub(P, m)
            if m in free(d):
                d = self.ite_delta(P, m)
            if d is not None and m not in free(d):
                if i not in free(d):
                    return lambda cnt: add(init, pmul(cnt, d))

                def c(cnt):
                    k = fresh("k", "int", nat=True)
                    return add(init, T.sum_(cnt, k, subst(d, {i: k})))
                return c
            return None
        if ty == "str" and P.ty == "str":
            parts = T.cat_parts(P)
            if parts.count(m) == 1 and all(m not in free(x) for x in parts if x is not m):
                k = parts.index(m)
                before, after = T.cat(*parts[:k]), T.cat(*parts[k + 1:])

                def c(cnt):
                    out = [init]
                    if not is_k(after, ""):
                        j = fresh("k", "int", nat=True)
                        with self.lt(j, cnt):
                            out.append(T.srep(cnt, j, subst(after, {i: j})))
                    if not is_k(before, ""):
                        j = fresh("k", "int", nat=True)
                        with self.lt(j, cnt):
                            out.insert(0, T.srep(cnt, j, subst(before, {i: add(cnt, K(-1), pneg(j))})))
                    return T.cat(*out)
                return c
            return None
        if isinstance(ty, tuple) or isinstance(P.ty, tuple):
            return self.rec_seq(m, P, init)
        return None

    def lt(self, j, cnt):
        return assume(ge0(add(cnt, K(-1), pneg(j))))

    def exists(self, cnt, c):
        k = fresh("k", "int", nat=True)
        with self.lt(k, cnt):
            c2 = subst(c, {self.i: k})
        return T.any_(cnt, k, c2)

    def ite_delta(self, P, m):
        if P.op == "ite":
            a, b = self.ite_delta(P.args[1], m), self.ite_delta(P.args[2], m)
            if a is None or b is None or m in free(P.args[0]):
                return None
            return T.ite(P.args[0], a, b)
        d = psub(P, m)
        return None if m in free(d) else d

    def cond_last(self, c, v, init):
        """x' = v if c else x"""
        i = self.i

        def f(cnt):
            e = self.exists(cnt, c)
            if i not in free(v):
                return T.ite(e, v, init)
            k = fresh("k", "int", nat=True)
            with self.lt(k, cnt):
                c2 = subst(c, {i: k})
                v2 = subst(v, {i: k})
            if i not in free(c):
                return T.ite(conj(c, ge0(add(cnt, K(-1)))), subst(v, {i: add(cnt, K(-1))}), init)
            return T.ite(e, self.lastof(cnt, k, c2, v2), init)
        return f

    def lastof(self, cnt, k, c, v):
        # value of v at the last k < cnt where c:  reversed first
        j = fresh("k", "int", nat=True)
        with self.lt(j, cnt):
            cr = subst(c, {k: add(cnt, K(-1), pneg(j))})
        t = T.first_(cnt, j, cr)
        return subst(v, {k: add(cnt, K(-1), pneg(t))})

    def rec_cur(self, m, P, init):
        i = self.i
        if P.op == "cur" and P.args[0] is m and all(m not in free(s) for s in P.args[1:]):
            segs = P.args[1:]

            def c(cnt):
                k = fresh("k", "int", nat=True)
                with self.lt(k, cnt):
                    ss = [subst(s, {i: k}) for s in segs]
                r = init
                for s in crep(cnt, k, ss):
                    r = T.cur_adv(r, s)
                return r
            return c
        if P.op == "ite" and m not in free(P.args[0]):
            # conditional advance: only ln segs can be summed
            a, b = self._adv(P.args[1], m), self._adv(P.args[2], m)
            if a is not None and b is not None:
                d = T.ite(P.args[0], a, b)

                def c(cnt):
                    k = fresh("k", "int", nat=True)
                    return T.cur_adv(init, ln_seg(T.sum_(cnt, k, subst(d, {i: k}))))
                return c
        return None

    def _adv(self, P, m):
        if P is m or (P.op == "cur" and len(P.args) == 1 and P.args[0] is m):
            return ZERO
        if P.op == "cur" and P.args[0] is m and all(s.op == "ln" and m not in free(s) for s in P.args[1:]):
            return add(*[s.args[0] for s in P.args[1:]])
        return None

    def rec_seq(self, m, P, init):
        i = self.i
        # conditional growth is factored into alt segments by ite
        segs = segs_of(P)
        at = [k for k, g in enumerate(segs) if g.op == "spl" and g.args[0] is m]
        if len(at) == 1 and all(m not in free(g) or self.only_len(g, m) for k, g in enumerate(segs) if k != at[0]):
            k = at[0]
            before, after = segs[:k], segs[k + 1:]
            if not any(m in free(g) for g in before + after):
                def c(cnt):
                    out = []
                    if before:
                        j = fresh("k", "int", nat=True)
                        with self.lt(j, cnt):
                            out.append(T.rep(cnt, j, *[subst(g, {i: add(cnt, K(-1), pneg(j))}) for g in before]))
                    out.append(spl(init))
                    if after:
                        j = fresh("k", "int", nat=True)
                        with self.lt(j, cnt):
                            out.append(T.rep(cnt, j, *[subst(g, {i: j}) for g in after]))
                    return T.seq(*out)
                return c
        # item assignment
        r = self.rec_upd(m, P, init)
        if r is not None:
            return r
        # conditional item assignment
        if P.op == "ite" and m not in free(P.args[0]):
            c, a, b = P.args
            for x, y, g in ((a, b, c), (b, a, neg(c))):
                if y is m and x.op == "upd" and x.args[0] is m:
                    old = T.get(m, x.args[1])
                    r = self.rec_upd(m, T.mk("upd", (m, x.args[1], T.ite(g, x.args[2], old)), m.ty), init)
                    if r is not None:
                        return r
        # elementwise map: every element follows the same recurrence
        return self.rec_map(m, P, init)

    def only_len(self, g, m):
        return False

    def rec_upd(self, m, P, init):
        i = self.i
        if not (P.op == "upd" and P.args[0] is m):
            return None
        ix, val = P.args[1], P.args[2]
        if m in free(ix) or ix.ty != "int":
            return None
        e = T.get(m, ix)
        xi = fresh("xi", e.ty)
        if i not in free(ix):
            v2 = subst(val, {e: xi})
            if m in free(v2):
                return None
            f = self.rec(xi, v2, T.get(init, ix))
            if f is None and xi not in free(v2):
                def f(cnt):
                    return T.ite(ge0(add(cnt, K(-1))), subst(v2, {i: add(cnt, K(-1))}), T.get(init, ix))
            if f is None:
                return None
            return lambda cnt: T.upd(init, ix, f(cnt))
        off = psub(ix, i)
        if i not in free(off):
            v2 = subst(val, {e: xi})
            if m in free(v2):
                return None

            def c(cnt):
                n0 = length(init)
                k = fresh("k", "int", nat=True)
                with self.lt(k, cnt):
                    body = subst(v2, {xi: T.get(init, add(off, k)), i: k})
                    reps = T.rep(cnt, k, it(body))
                return T.seq(spl(T.slice_(init, ZERO, off)), reps, spl(T.slice_(init, add(off, cnt), n0)))
            return c
        off = padd(ix, i)
        if i not in free(off):
            v2 = subst(val, {e: xi})
            if m in free(v2):
                return None

            def c(cnt):
                # positions off, off-1, ... off-cnt+1
                n0 = length(init)
                lo = add(off, ONE, pneg(cnt))
                k = fresh("k", "int", nat=True)
                with self.lt(k, cnt):
                    # ascending position lo + k  <->  iteration  off - lo - k = cnt - 1 - k
                    body = subst(v2, {xi: T.get(init, add(lo, k)), i: add(cnt, K(-1), pneg(k))})
                    reps = T.rep(cnt, k, it(body))
                return T.seq(spl(T.slice_(init, ZERO, lo)), reps, spl(T.slice_(init, add(off, ONE), n0)))
            return c
        return None

    def rec_map(self, m, P, init):
        n0 = length(init)
        if length(P) is not length(m):
            return None
        if length(m) is not n0 and m not in T.DECL:
            return None
        segs = T.eta(P)
        if len(segs) == 1 and segs[0].op == "rep" and len(segs[0].args) == 3 and segs[0].args[2].op == "it" and segs[0].args[0] is n0:
            n, k, body = T.open_rep(segs[0])
            with assume(ge0(add(n, K(-1), pneg(k)))):
                e = T.get(m, k)
                xi = fresh("xi", e.ty if e.ty != "any" else body[0].args[0].ty)
                v = subst(body[0].args[0], {e: xi})
                if m in free(v):
                    return None
                f = self.rec(xi, v, T.get(init, k))
            if f is None:
                return None

            def c(cnt):
                with assume(ge0(add(n, K(-1), pneg(k)))):
                    x = f(cnt)
                return T.seq(T.rep(n, k, it(x)))
            return c
        if all(g.op == "it" for g in segs) and is_k(n0) and kv(n0) == len(segs):
            fs = []
            for j, g in enumerate(segs):
                e = T.get(m, K(j))
                xi = fresh("xi", e.ty if e.ty != "any" else g.args[0].ty)
                v = subst(g.args[0], {e: xi})
                if m in free(v):
                    return None
                f = self.rec(xi, v, T.get(init, K(j)))
                if f is None:
                    return None
                fs.append(f)
            return lambda cnt: T.seq(*[it(f(cnt)) for f in fs])
        return None

    # ------------------------------------------------------------------- results
    def final(self, count, base, post, facts=()):
        out = self.st.copy()
        for c in facts:
            out.facts = out.facts.add(c)
        T.set_facts(out.facts)
        for loc in self.locs:
            mode = self.mode[loc]
            if mode in ("val", "box", "curbox"):
                f = self.cf.get(loc)
                v = f(count) if f is not None else unk("no closed form", self.mu[loc].ty)
                self.install(out, loc, v)
            elif mode == "last":
                self.final_last(out, loc, count, post)
            else:
                self.final_dict(out, loc, count, post)
        out.path = self.st.path
        return out

    def final_last(self, out, loc, count, post):
        init = self.read(self.st, loc)
        v = self.read(post, loc) if post is not None else UNDEF
        if v is UNDEF:
            return
        nonempty = ge0(add(count, K(-1)))
        if v.op == "ref" and v.args[0] not in self.st.heap:
            o = post.heap.get(v.args[0])
            if isinstance(o, HList):
                c = self.ip.freeze(o.content, post, self.keep())
                w = self.ip.new_list(subst(c, {self.i: add(count, K(-1))}), out)
            elif isinstance(o, HInst) or isinstance(o, HDict):
                w = self.import_obj(v, post, out, {self.i: add(count, K(-1))}, {})
            else:
                oid = v.args[0]
                out.heap[oid] = o
                w = v
        else:
            v = self.ip.freeze(v, post, self.keep()) if v.op != "ref" else v
            with assume(nonempty):
                w = subst(v, {self.i: add(count, K(-1))})
        if init is UNDEF:
            # unbound when the loop does not run
            d = T.decide(nonempty)
            self.write(out, loc, w if d is not False else UNDEF)
            return
        d = T.decide(nonempty)
        if d is True:
            self.write(out, loc, w)
        elif d is False:
            self.write(out, loc, init)
        else:
            self.write(out, loc, jval(nonempty, w, init, out, out, out.heap))

    def import_obj(self, v, post, out, m, memo):
        """Copy an object allocated by the last iteration into the state after the loop."""
        oid = v.args[0]
        if oid in self.st.heap:
            return v
        if oid in memo:
            return ref(memo[oid])
        nid = new_oid("last")
        memo[oid] = nid
        o = post.heap.get(oid)
        conv_ = lambda x: self.import_obj(x, post, out, m, memo) if x.op == "ref" else \
            subst(self.ip.freeze(x, post, self.keep()), m)
        if isinstance(o, HInst):
            out.heap[nid] = o.with_(attrs={k: conv_(x) for k, x in o.attrs.items()})
        elif isinstance(o, HDict):
            out.heap[nid] = o.with_(items={subst(k, m): conv_(x) for k, x in o.items.items()})
        elif isinstance(o, HList):
            out.heap[nid] = o.with_(content=subst(self.ip.freeze(o.content, post, self.keep()), m))
        else:
            out.heap[nid] = o
        return ref(nid)

    def final_dict(self, out, loc, count, post):
        o0 = self.st.heap[loc[1]]
        o1 = post.heap.get(loc[1]) if post is not None else None
        if o1 is None:
            return
        ents = []
        for k, v in o1.items.items():
            if o0.items.get(k) is v:
                continue
            if self.i in free(k):
                val = self.ip.freeze(v, post, self.keep())
                ents.append(T.tup(k, val))
        i = self.i
        k2 = fresh("k", "int", nat=True)
        body = [it(subst(e, {i: k2})) for e in ents]
        if len(body) == 1:
            g = body
        else:
            g = body
        new = T.app("dictof", T.seq(T.rep(count, k2, *g)), ty="dict")
        b = new if o0.base is None else T.app("dictmerge", o0.base, new, ty="dict")
        if o1.base is not None and o1.base.op == "app" and o1.base.args[0] != "dictmu":
            b = T.app("dictmerge", b, unk("dict merged in a loop"), ty="dict")
        cur_ = out.heap[loc[1]]
        out.heap[loc[1]] = cur_.with_(base=b)

    def exits(self, flow, base):
        lb = len(base)
        b = disj(*[guard(s, lb) for s in flow.brks]) if flow.brks else FALSE
        r = disj(*[guard(s, lb) for s, _ in flow.rets]) if flow.rets else FALSE
        return b, r

    def lift_raises(self, mark, base, n):
        """Raises in the body: exists an iteration at which ..."""
        ip = self.ip
        lb = len(base)
        new = []
        for path, exc, msg, site in ip.raises[mark[0]:]:
            head, tail = path[:lb], path[lb:]
            g = conj(*tail) if tail else TRUE
            if n is not None:
                k = fresh("k", "int", nat=True)
                e = T.any_(n, k, subst(g, {self.i: k}))
                if g is TRUE:
                    e = ge0(add(n, K(-1)))
            else:
                e = g
            new.append((head + ((e,) if e is not TRUE else ()), exc, msg, site))
        ip.raises[mark[0]:] = new

    def finish(self, base, flow, post, mark, n, natural_facts=()):
        """Assemble the outcome for a loop with natural trip count n."""
        ip = self.ip
        out = Flow(None)
        b, r = self.exits(flow, base)
        e = disj(b, r)
        i = self.i
        if e is FALSE:
            self.lift_raises(mark, base, n)
            if post is None and not flow.brks and not flow.rets:
                # the body never completes: the loop is only left when it does not run
                out.fall = self.final(ZERO, base, None, (neg(ge0(add(n, K(-1)))),))
                return out
            out.fall = self.final(n, base, post, natural_facts)
            return out
        if post is None:
            # leaves during the first iteration
            m = {i: ZERO}
            nonempty = ge0(add(n, K(-1)))
            self.lift_raises(mark, base, n)
            for s in flow.brks:
                s2 = subst_state(s, m)
                s2.path = base + tuple(subst(p, m) for p in (nonempty,) + tuple(s.path[len(base):]))
                out.brks.append(s2)
            for s, v in flow.rets:
                s2 = subst_state(s, m)
                s2.path = base + tuple(subst(p, m) for p in (nonempty,) + tuple(s.path[len(base):]))
                out.rets.append((s2, subst(v, m)))
            if T.decide(nonempty) is not True:
                f = self.final(ZERO, base, None)
                f.assume(neg(nonempty))
                out.fall = f
            return out
        # the closed forms describe the state before the first exit
        T.set_facts(self.st.facts)
        k = fresh("k", "int", nat=True)
        with self.lt(k, n):
            ek = subst(e, {i: k})
        anyexit = T.any_(n, k, ek)
        if i not in free(e):
            first = ZERO
            anyexit = conj(ge0(add(n, K(-1))), e)
        else:
            first = T.first_(n, k, ek)
        self.lift_raises(mark, base, n)
        m = {i: first}
        for s in flow.brks:
            s2 = subst_state(s, m)
            tail = tuple(subst(p, m) for p in s.path[len(base):])
            s2.path = base + (anyexit,) + (() if len(flow.brks) + len(flow.rets) == 1 else tail)
            s2.facts = self.st.facts.add(anyexit)
            out.brks.append(s2)
        for s, v in flow.rets:
            s2 = subst_state(s, m)
            tail = tuple(subst(p, m) for p in s.path[len(base):])
            s2.path = base + (anyexit,) + (() if len(flow.brks) + len(flow.rets) == 1 else tail)
            s2.facts = self.st.facts.add(anyexit)
            out.rets.append((s2, subst(v, m)))
        if T.decide(anyexit) is not True:
            f = self.final(n, base, post, natural_facts)
            f.assume(neg(anyexit))
            out.fall = f
        return out

    def solve_for(self):
        st = self.st
        n = self.n
        if is_k(n) and kv(n) <= 0:
            return Flow(st)
        base, flow, post, mark = self.passes()
        r = self.finish(base, flow, post, mark, n)
        if r.fall is not None:
            T.set_facts(r.fall.facts)
        return r

    # --------------------------------------------------------------------- while
    def solve_while(self, s):
        ip = self.ip
        self.cond = None

        def run(s2, i):
            c = ip.truth(ip.ev(s.test, s2), s2)
            self.cond = c
            d = T.decide(c)
            if d is False:
                return Flow(None)
            s2.facts = s2.facts.add(c)
            T.set_facts(s2.facts)
            f = ip.exec_block(s.body, s2)
            return f
        self.run = run
        r = self.idiom_collect(s)
        if r is not None:
            return r
        base, flow, post, mark = self.passes()
        c = self.cond
        i = self.i
        self.check_progress(s, flow, base, post)
        out = Flow(None)
        b, rr = self.exits(flow, base)
        e = disj(b, rr)
        # the state in which the condition was evaluated may itself have effects; assume none
        n = self.trip(c)
        if n is None:                     # while True
            k = i
            if e is FALSE:
                self.lift_raises(mark, base, None)
                ip.event("loop-forever", self.where())
                return Flow(None)
            if i not in free(e) and T.decide(e) is None and False:
                pass
            first = T.wtrip(i, neg(e)) if i in free(e) else ZERO
            if i in free(e):
                first2 = self.linear_trip(neg(e))
                if first2 is not None:
                    first = first2
            self.lift_raises(mark, base, add(first, ONE))
            m = {i: first}
            lone = len(flow.brks) + len(flow.rets) == 1
            for s1 in flow.brks:
                s2 = subst_state(s1, m)
                tail = tuple(subst(p, m) for p in s1.path[len(base):])
                s2.path = base + (() if lone else tail)
                s2.facts = self.st.facts
                out.brks.append(s2)
            for s1, v in flow.rets:
                s2 = subst_state(s1, m)
                tail = tuple(subst(p, m) for p in s1.path[len(base):])
                s2.path = base + (() if lone else tail)
                s2.facts = self.st.facts
                out.rets.append((s2, subst(v, m)))
            return out
        facts = ()
        T.set_facts(self.st.facts)
        return self.finish(base, flow, post, mark, n, facts)

    def trip(self, c):
        """Number of iterations for which the condition (a term in i) holds."""
        if c is None:
            return ZERO
        if c is TRUE:
            return None
        if c is FALSE:
            return ZERO
        n = self.linear_trip(c)
        if n is not None:
            return n
        i = self.i
        if i not in free(c):
            return T.ite(c, unk("loop condition never changes", "int"), ZERO)
        if c.op == "and":
            ns = [self.linear_trip(x) for x in c.args]
            if all(x is not None for x in ns):
                r = ns[0]
                for x in ns[1:]:
                    r = T.min_(r, x)
                return r
        return T.wtrip(i, c)

    def linear_trip(self, c):
        i = self.i
        if c.op == "ge0" and c.args[0].ty == "int":
            p = c.args[0]
            d = T._pd(p)
            co = d.get((i,), 0)
            rest = _mkp({m: v for m, v in d.items() if m != (i,)})
            if i in free(rest):
                # coefficient may be a symbol
                for m, v in d.items():
                    if i in m and len(m) == 2 and v < 0:
                        other = [x for x in m if x is not i]
                        rest = _mkp({mm: vv for mm, vv in d.items() if mm is not m})
                        if len(other) == 1 and i not in free(rest):
                            # rest - other*i >= 0
                            q = T.app("ceildiv", padd(rest, ONE), pmul(K(-v), other[0]), ty="int")
                            T.NAT.add(q)
                            return q
                return None
            if co == -1:
                return T.max0(padd(rest, ONE))
            if co < -1:
                q = T.app("ceildiv", padd(rest, ONE), K(-co), ty="int")
                T.NAT.add(q)
                return q
            return None
        if c.op == "not" and c.args[0].op == "eq0":
            p = c.args[0].args[0]
            d = T._pd(p)
            co = d.get((i,), 0)
            rest = _mkp({m: v for m, v in d.items() if m != (i,)})
            if i in free(rest):
                return None
            if co == -1:
                return T.max0(rest)
            if co == 1:
                return T.max0(pneg(rest))
        return None

    def check_progress(self, s, flow, base, post):
        """A loop that reads lines must stop at end of input."""
        reads = [n for n in ast.walk(ast.Module(body=list(s.body) + [ast.Expr(s.test)], type_ignores=[]))
                 if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "readline"]
        if not reads:
            return
        self.ip.event("readline-loop", self.where())

    # ------------------------------------------------------- token collection idiom
    def idiom_collect(self, s):
        """while len(L) < n:  read one line, append its tokens to L.

        Recognised on the terms the body computes, not on its text.  The first two
        passes tell which locations change; the shape of their recurrences decides."""
        ip = self.ip
        self.init = {}
        mark = len(ip.raises), len(ip.events)
        flow = post = pre = base = None
        for rnd in range(4):
            pre, base, flow, post = self.attempt()
            new = []
            for o in ([post] if post is not None else []) + flow.brks + [r[0] for r in flow.rets]:
                for loc in self.diff(pre, o):
                    if loc not in self.locs and loc not in [x for x, _ in new]:
                        new.append((loc, o))
            if not new:
                # list consumed from the front -> cursor mode
                chg = False
                if post is not None:
                    for l in self.unsolved():
                        P = self.post_value(post, l)
                        if self.mode[l] == "box" and self.suffix_of(self.mu[l], P) and self.mode[l] != "curbox":
                            init = self.init[l]
                            self.mode[l] = "curbox"
                            self.newmu(l, T.as_cursor(init) if init.op == "lns" else T.cur(init), "cur")
                            self.dims[l] = ("cur",)
                            chg = True
                if not chg:
                    break
            for loc, o in new:
                self.add_loc(loc, o)
            del ip.raises[mark[0]:], ip.events[mark[1]:]
        raises = ip.raises[mark[0]:]
        events = ip.events[mark[1]:]
        r = None
        if post is not None and self.cond is not None:
            try:
                r = self._collect(s, base, flow, post, mark, raises)
            except Unsolved:
                r = None
        if r is None:
            del ip.raises[mark[0]:], ip.events[mark[1]:]
            self.locs, self.mu, self.cf, self.mode, self.box, self.dims, self.init = [], {}, {}, {}, {}, {}, {}
            return None
        return r

    def _collect(self, s, base, flow, post, mark, raises):
        ip = self.ip
        c = self.cond
        # condition: len(L) < n   (possibly written n > len(L), not len(L) >= n, or != )
        L = cl = None
        posts = {}
        for l in self.locs:
            if self.mode[l] in ("val", "box", "curbox"):
                posts[l] = self.post_value(post, l)
        # the line cursor: exactly one location advancing by one line
        for l, P in posts.items():
            m = self.mu[l]
            if m.ty == "cur" and P.op == "cur" and P.args[0] is m and P.args[1:] == (ln_seg(ONE),):
                if cl is not None:
                    return None
                cl = l
        if cl is None:
            return None
        cm = self.mu[cl]
        line = T.line_at(cur(cm)) if cm.op != "cur" else T.line_at(cm)
        lines_ = [x for x in subterms(post_all(posts)) if x.op == "line"]
        for l, P in posts.items():
            m = self.mu[l]
            if not isinstance(m.ty, tuple):
                continue
            n = self.need(c, m)
            if n is not None:
                if any(self.mu[x] in free(n) for x in posts):
                    continue
                L, need = l, n
        if L is None:
            return None
        m, P = self.mu[L], posts[L]
        segs = segs_of(P)
        if not (len(segs) == 2 and segs[0].op == "spl" and segs[0].args[0] is m):
            return None
        tail = segs[1]
        conv_f = None
        if tail.op == "spl":
            body = tail.args[0]
        elif tail.op == "rep" and len(tail.args) == 3 and tail.args[2].op == "it":
            # converted while collecting:  {f(tok[k])}
            return None
        else:
            return None
        cap, tk = None, body
        if body.op == "slice":
            tk, lo, hi = body.args
            if lo is not ZERO:
                return None
            cap = hi
        if tk.op != "tokens":
            return None
        ln = tk.args[0]
        k0 = cur(cm) if cm.op == "sym" else cm
        plain = False
        x = ln
        while x.op == "strip":
            x = x.args[2]
        other = None        # another rule for what a remark is
        if x.op == "app" and x.args[0] == "decomment":
            other = x.args[1][1] if len(x.args[1]) > 1 else None
            x = x.args[1][0]
            plain = True
        if x.op != "line" or x.args[0] is not k0 and x.args[0] is not cm:
            return None
        ltok = length(tk)
        if length(self.init[L]) is not ZERO:
            return None
        init_c = self.init[cl]
        tag = K("plain" if not plain else "decomment" if other is None else "rx:" + kv(other))
        total = T.mk("nlfor", (init_c, need, tag), "int")      # lines needed to collect `need` tokens
        ntok = T.mk("toklen", (init_c, total, tag), "int")     # tokens on those lines
        T.NAT.add(ntok)
        T.NAT.add(total)
        j = fresh("j", "int", nat=True)
        tokf = (lambda q: T.mk("tok", (init_c, q), "str")) if plain and other is None else (lambda q: T.mk("rawtok", (init_c, q, tag), "str")) if plain else (lambda q: T.mk("rawtok", (init_c, q), "str"))
        over = psub(ntok, need)
        T.NAT.add(over)
        kind = None
        if cap is None:
            kind = "none"
        else:
            exact = psub(need, length(m))
            if cap is exact or cap is T.min_(exact, ltok) or (cap.op == "app" and cap.args[0] == "min" and exact in cap.args[1] and ltok in cap.args[1]):
                kind = "exact"
            elif cap is need or (cap.op == "app" and cap.args[0] == "min" and need in cap.args[1] and ltok in cap.args[1]):
                kind = "per-line"
        if kind is None:
            return None
        res = {}
        if kind == "none":
            cnt = ntok
        elif kind == "exact":
            cnt = need
        else:
            cnt = None
        base_toks = lambda n_: T.seq(T.rep(n_, j, it(tokf(j))))
        if kind == "exact":
            res[L] = base_toks(need)
        elif kind == "none":
            res[L] = T.seq(T.rep(need, j, it(tokf(j))), spl(T.seq(T.rep(over, j, it(tokf(add(need, j)))))))
        else:
            res[L] = T.seq(T.rep(need, j, it(tokf(j))), spl(T.app("absorbed", init_c, need, ty=("seq", "str"))))
        # termination at end of input
        at_eof = {x: EMPTY for x in subterms(post_all(posts)) if x.op == "line"}
        stops = self.eof_stops(flow, base, raises, line, cl)
        ip.event("token-collect", self.where(), K(kind), K(bool(stops)), need)
        if not stops:
            ip.event("no-eof-exit", self.where())
        # the remaining locations
        out = self.st.copy()
        last_line = T.line_at(T.cur_adv(init_c, ln_seg(add(total, K(-1)))))
        for l in self.locs:
            mode = self.mode[l]
            if l == L:
                self.install(out, l, res[L])
            elif l == cl:
                self.install(out, l, T.cur_adv(init_c, T.tk_seg(need)))
            elif mode in ("last", "dbase"):
                if mode == "dbase":
                    return None
                v = self.read(post, l)
                fv = ip.freeze(v, post, self.keep())
                v2 = self.collected_extra(fv, m, tk, cap, kind, need, over, tokf, ltok, init_c, last_line)
                if isinstance(v2.ty, tuple):
                    v2 = ip.new_list(v2, out)
                if self.read(self.st, l) is UNDEF and T.decide(ge0(add(need, K(-1)))) is not True:
                    # only bound when at least one line was read
                    self.write(out, l, T.mk("maybe", (ge0(add(need, K(-1))), v2), "any") if v2.op != "ref" else v2)
                    ip.event("maybe-unbound", l[-1], ge0(add(need, K(-1))))
                else:
                    self.write(out, l, v2)
            else:
                P2, m2 = posts[l], self.mu[l]
                if m2 in free(P2) and any(self.mu[x] in free(P2) for x in posts if x != l):
                    self.install(out, l, self.aux_value(l, m2, P2, ln, total, init_c))
                elif m2 not in free(P2):
                    v2 = self.collected_extra(P2, m, tk, cap, kind, need, over, tokf, ltok, init_c, last_line)
                    v2 = T.ite(ge0(add(need, K(-1))), v2, self.init[l]) if v2.op != "unk" else v2
                    self.install(out, l, v2)
                else:
                    f = self.rec(m2, P2, self.init[l])
                    self.install(out, l, f(total) if f is not None else unk("collect loop: " + str(l[-1]), m2.ty))
        self.rewrite_raises(mark, base, init_c, need, m, tk, kind, over)
        o = Flow(None)
        out.path = self.st.path
        o.fall = out
        T.set_facts(out.facts)
        return o

    def aux_value(self, l, m2, P2, ln, total, init_c):
        """bookkeeping such as `lines.append(items)`"""
        return T.app("collected-lines", init_c, total, ty=m2.ty) if isinstance(m2.ty, tuple) else unk("collect loop: " + str(l[-1]), m2.ty)

    def collected_extra(self, v, m, tk, cap, kind, need, over, tokf, ltok, init_c, last_line):
        """Value, after the loop, of something recomputed from the last line."""
        j = fresh("j", "int", nat=True)
        overseq = T.seq(T.rep(over, j, it(tokf(add(need, j)))))
        if v.op == "slice" and v.args[0] is tk and v.args[2] is ltok:
            lo = v.args[1]
            if kind == "exact" and lo is cap:
                return overseq
            if kind == "per-line" and lo is cap:
                return T.app("overlong-last-line", init_c, need, ty=("seq", "str"))
        if v is tk:
            return T.app("last-line-tokens", init_c, need, ty=("seq", "str"))
        if v.op == "line" or not any(x.op == "line" for x in subterms(v)):
            return v if v.op != "line" else last_line
        return unk("value of the last collected line", v.ty)

    def eof_stops(self, flow, base, raises, line, cl):
        """Does the body leave the loop when the input is exhausted?"""
        if self.mode[cl] == "curbox":
            # indexing an exhausted list raises IndexError
            return True
        lb = len(base)
        for path, exc, msg, site in raises:
            g = conj(*path[lb:]) if len(path) > lb else TRUE
            if subst(g, {line: EMPTY}) is TRUE:
                return True
            parts = g.args if g.op == "and" else (g,)
            rest = [p for p in parts if subst(p, {line: EMPTY}) is not TRUE]
            if all(p in self.st.facts.true or p is self.cond for p in rest):
                return True
        for s in flow.brks + [r[0] for r in flow.rets]:
            g = guard(s, lb)
            if subst(g, {line: EMPTY}) is TRUE:
                return True
        return False

    def rewrite_raises(self, mark, base, init_c, need, m, tk, kind, over):
        ip = self.ip
        lb = len(base)
        new = []
        for path, exc, msg, site in ip.raises[mark[0]:]:
            head, tail = path[:lb], path[lb:]
            g = conj(*tail) if tail else TRUE
            new.append((head + (T.app("while-collecting", init_c, need, subst(g, {}), ty="bool"),), exc, msg, site))
        ip.raises[mark[0]:] = new

    def need(self, c, m):
        """c says len(m) < need -> need"""
        ln = length(m)
        if c.op == "and":
            rs = [self.need(x, m) for x in c.args]
            rs = [r for r in rs if r is not None]
            return rs[0] if len(rs) == 1 and len(c.args) == 1 else None
        if c.op == "ge0":
            p = c.args[0]
            q = add(p, ln, ONE)
            if m not in free(q):
                return q
        if c.op == "not" and c.args[0].op == "eq0":
            p = c.args[0].args[0]
            for q in (padd(p, ln), padd(pneg(p), ln)):
                if m not in free(q):
                    return q
        return None


def post_all(posts):
    return T.tup(*[p for p in posts.values() if isinstance(p, Term) and p is not UNDEF])
