"""Scenarios: symbolic inputs for the public entry points."""
from . import terms as T
from .terms import *
from .heap import *
from .interp import Interp, AnalysisError, ext

FFIS = (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)


class Scenario(object):
    def __init__(self, repo):
        T.reset()
        T.set_facts(T.Facts())
        T.CONV_HOOK = None
        T.CONV_NAT = False
        self.ip = Interp(repo)
        self.st = State({"$mod": K("__scenario__"), "$globals": TRUE}, {}, T.Facts())
        self.st.heap[("M", "__scenario__")] = HMod({"__name__": K("__scenario__")})
        self.dead = None

    def load(self, mod="nappy"):
        self.ip.import_module(mod, self.st)
        self.ip.events[:] = []
        return obj("mod", mod)

    def attr(self, v, name):
        return self.ip.get_attr(v, name, self.st)

    def call(self, fn, *args, **kw):
        T.set_facts(self.st.facts)
        return self.ip.call(fn, list(args), dict(kw), self.st)

    def meth(self, v, name, *args, **kw):
        return self.call(self.attr(v, name), *args, **kw)

    def assume(self, *cs):
        for c in cs:
            self.st.facts = self.st.facts.add(c)
        T.set_facts(self.st.facts)

    # ------------------------------------------------------------ symbolic data
    def int_(self, name, lo=0):
        s = sym(name, "int", nat=True)
        if lo:
            self.assume(ge0(add(s, K(-lo))))
        return s

    def seq_(self, name, *dims, **kw):
        ety = kw.get("ety", "real")
        ty = ety
        for _ in dims:
            ty = ("seq", ty)
        s = sym(name, ty)
        T.DECL[s] = [(d if callable(d) else (lambda idx, d=d: d)) for d in dims]
        return s

    def boxed(self, content, owner=None):
        oid = new_oid("in")
        self.st.heap[oid] = HList(content, owner)
        return ref(oid)

    def dict_(self, items, owner=None, base=None):
        oid = new_oid("dict")
        self.st.heap[oid] = HDict({K(k): v for k, v in items.items()}, base, owner)
        return ref(oid)


def na_dict(sc, ffi, aux="pos", owner="na_dict"):
    """A well-formed in-memory description of a file of the given format.

    Returns (dict of key -> value terms for the call, plain dict of pure terms)."""
    P = {}
    niv = ffi // 1000
    NV = sc.int_("NV", 1)
    M = sc.int_("M", 0)
    P["NIV"], P["NV"], P["FFI"] = K(niv), NV, K(ffi)
    P["NLHEAD"] = sc.int_("NLHEAD")
    for k in ("ONAME", "ORG", "SNAME", "MNAME"):
        P[k] = sym(k, "str")
    P["IVOL"], P["NVOL"] = sc.int_("IVOL"), sc.int_("NVOL")
    for k in ("DATE", "RDATE"):
        P[k] = sc.seq_(k, K(3), ety="int")
    P["VSCAL"] = sc.seq_("VSCAL", NV)
    P["VMISS"] = sc.seq_("VMISS", NV)
    P["VNAME"] = sc.seq_("VNAME", NV, ety="str")
    P["NSCOML"], P["NNCOML"] = sc.int_("NSCOML"), sc.int_("NNCOML")
    P["SCOM"] = sc.seq_("SCOM", P["NSCOML"], ety="str")
    P["NCOM"] = sc.seq_("NCOM", P["NNCOML"], ety="str")
    ndx = 1 if ffi in (2160, 2310) else niv
    P["DX"] = sc.seq_("DX", K(ndx))
    P["XNAME"] = sc.seq_("XNAME", K(niv), ety="str")
    lens = None
    if ffi != 1001:
        if ffi in (2110, 2160, 2310):
            NAUXV = sc.int_("NAUXV", 3 if ffi == 2310 else 1)
        elif aux == "zero":
            NAUXV = ZERO
        else:
            NAUXV = sc.int_("NAUXV", 1)
        P["NAUXV"] = NAUXV
        nreal = NAUXV
        if ffi == 2160:
            P["NAUXC"] = sc.int_("NAUXC", 1)
            R = sc.int_("NAUXR", 1)
            P["NAUXV"] = NAUXV = add(P["NAUXC"], R)
            nreal = R
            P["LENX"] = sc.int_("LENX")
            LA = sc.seq_("LENAc", P["NAUXC"], ety="int")
            j = fresh("j", "int", nat=True)
            P["LENA"] = T.seq(T.rep(R, j, it(NONE)), spl(LA))
            P["AMISS"] = T.seq(spl(sc.seq_("AMISSr", R)), spl(sc.seq_("AMISSc", P["NAUXC"], ety="str")))
            P["ASCAL"] = sc.seq_("ASCAL", R)
            Ar = sc.seq_("Ar", R, M)
            Ac = sc.seq_("Ac", P["NAUXC"], M, ety="str")
            P["A"] = T.seq(spl(Ar), spl(Ac))
        else:
            P["ASCAL"] = sc.seq_("ASCAL", NAUXV)
            P["AMISS"] = sc.seq_("AMISS", NAUXV)
            P["A"] = sc.seq_("A", NAUXV, M)
        P["ANAME"] = sc.seq_("ANAME", NAUXV, ety="str")
        if aux == "zero" and ffi in (1010, 1020, 2010, 3010, 4010):
            for k in ("ASCAL", "AMISS", "ANAME"):
                del P[k]
            P["A"] = T.NIL
    if ffi in (1001, 1010):
        P["X"] = sc.seq_("X", M)
        P["V"] = sc.seq_("V", NV, M)
    elif ffi == 1020:
        P["NVPM"] = sc.int_("NVPM", 1)
        P["X"] = sc.seq_("X", M)
        P["V"] = sc.seq_("V", NV, pmul(M, P["NVPM"]))
    elif ffi in (2010, 3010, 4010):
        NX = [sc.int_("NX%d" % k, 1) for k in range(niv - 1)]
        ND = [sc.int_("NXDEF%d" % k, 1) for k in range(niv - 1)]
        P["NX"] = T.seq(*[it(x) for x in NX])
        P["NXDEF"] = T.seq(*[it(x) for x in ND])
        for k in range(niv - 1):
            sc.assume(ge0(add(NX[k], pneg(ND[k]))))
        P["X"] = T.seq(it(sc.seq_("X0", M)), *[it(sc.seq_("X%d" % (k + 1), NX[k])) for k in range(niv - 1)])
        P["V"] = sc.seq_("V", NV, M, *NX)
    else:
        NXs = sc.seq_("NX", M, ety="int")
        T.NATEL.add(NXs)
        lens = lambda idx: T.get(NXs, idx[-1])
        P["NX"] = NXs
        X0 = sc.seq_("Xm", M, ety="str" if ffi == 2160 else "real")
        m = fresh("m", "int", nat=True)
        if ffi == 2310:
            X1 = sc.seq_("Xs", M)
            inner = T.seq(it(T.get(X1, m)))
        else:
            X1 = sc.seq_("Xs", M, lambda idx: T.get(NXs, idx[0]))
            inner = T.get(X1, m)
        with assume(ge0(add(M, K(-1), pneg(m)))):
            P["X"] = T.seq(T.rep(M, m, it(T.seq(it(T.get(X0, m)), it(inner)))))
        P["V"] = sc.seq_("V", NV, M, lambda idx: T.get(NXs, idx[1]))
    vals = {}
    for k, v in P.items():
        if isinstance(v.ty, tuple):
            segs = segs_of(v)
            if k in ("X",) and ffi in (2010, 3010, 4010):
                v = T.seq(*[it(sc.boxed(g.args[0], owner)) for g in segs])
            vals[k] = sc.boxed(v, owner)
        else:
            vals[k] = v
    return sc.dict_(vals, owner), P
