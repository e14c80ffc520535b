"""The published NASA Ames layouts, written down independently of the code.

`sample(ffi, variant)` -> a small in-memory description with pairwise different values;
`records(ffi, d)` -> the records of a conformant file for it, in order.

A record is (label, kind, items):
   text   one line of free text
   line   all items on exactly one line
   wrap   items may continue on further lines; the record starts on a new line
"""

FFIS = (1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010)
AUX = (1010, 1020, 2010, 3010, 4010, 2110, 2160, 2310)
GRID = (2010, 3010, 4010)
VLEN = (2110, 2160, 2310)


class Counter(object):
    def __init__(self, odd=False):
        self.n = 0
        self.odd = odd      # signs and exponents

    def real(self):
        self.n += 1
        v = self.n + 0.5
        return v * (1, -1, 1e20, -1e-9)[self.n % 4] if self.odd else v

    def reals(self, k):
        return [self.real() for _ in range(k)]


VARIANTS = {
    "base": dict(NV=2, M=3, NA=2, NC=1, S=1, N=2, NX=(2, 3, 2), X2=(2, 1, 3), NVPM=2),
    "one": dict(NV=1, M=1, NA=1, NC=1, S=0, N=0, NX=(1, 2, 1), X2=(1,), NVPM=1),
    "empty": dict(NV=2, M=0, NA=1, NC=1, S=2, N=1, NX=(3, 1, 2), X2=(), NVPM=3),
    "wide": dict(NV=3, M=2, NA=3, NC=2, S=0, N=3, NX=(3, 2, 4), X2=(3, 0), NVPM=3),
    "noaux": dict(NV=2, M=2, NA=0, NC=0, S=1, N=0, NX=(2, 2, 3), X2=(2, 2), NVPM=2),
    "nxdef": dict(NV=2, M=2, NA=1, NC=1, S=1, N=1, NX=(3, 4, 2), ND=(1, 2, 1), X2=(2, 3), NVPM=2),
    "long": dict(NV=5, M=4, NA=5, NC=1, S=5, N=107, NX=(5, 4, 2), X2=(4, 0, 2, 5), NVPM=4, blank=True),
}


def variants(ffi, tier="quick"):
    out = ["base", "one", "wide"]
    if ffi in (1010, 1020) or ffi in GRID:
        out.append("noaux")
    if ffi in GRID:
        out.append("nxdef")
    out.append("empty")
    out.append("long")
    return out


def sample(ffi, name):
    w = VARIANTS[name]
    c = Counter(w.get("blank", False))
    niv = ffi // 1000
    d = {"FFI": ffi, "NIV": niv}
    NV, M = w["NV"], w["M"]
    d["ONAME"], d["ORG"] = "Bloggs, Joe", "Met Office UK"
    d["SNAME"], d["MNAME"] = "Aircraft probe 7", "ACE campaign"
    d["IVOL"], d["NVOL"] = 3, 11
    d["DATE"], d["RDATE"] = [1999, 10, 21], [2004, 3, 17]
    d["NV"] = NV
    d["VSCAL"], d["VMISS"] = c.reals(NV), [-900.0 - k for k in range(NV)]
    d["VNAME"] = ["variable number %d (units %d)" % (k, k) for k in range(NV)]
    d["NSCOML"], d["NNCOML"] = w["S"], w["N"]
    d["SCOM"] = ["special remark %d: x = %d" % (k, k) for k in range(w["S"])]
    d["NCOM"] = ["normal remark %d" % k for k in range(w["N"])]
    if w.get("blank"):
        # a remark may be empty, and two may be the same
        d["SCOM"][1] = d["NCOM"][3] = d["NCOM"][-1] = ""
        d["SCOM"][3] = d["SCOM"][2]
        d["SCOM"][4] = 'a, b;  "c"  {d} e\t=  1  2 %s'
        d["ONAME"], d["ORG"] = "O'Neil,  J. (Jo)", 'The "Institute",  B'
        d["VNAME"][1] = "wind,  u {east}  component (m s-1)"
        d["NCOM"][5] = d["NCOM"][7]
    ndx = 1 if ffi in (2160, 2310) else niv
    d["DX"] = c.reals(ndx)
    d["XNAME"] = ["axis %d (m%d)" % (k, k) for k in range(niv)]
    if ffi in AUX:
        NA = max(w["NA"], 3) if ffi == 2310 else w["NA"]
        if ffi in VLEN:
            NA = max(NA, 1)
        NC = 0
        if ffi == 2160:
            NC = max(1, w["NC"])
            R = max(NA, 1)
            d["NAUXC"] = NC
            NA = R + NC
            d["LENX"] = 12
            d["LENA"] = [None] * R + [10 + k for k in range(NC)]
            d["ASCAL"] = c.reals(R)
            d["AMISS"] = [-700.0 - k for k in range(R)] + ["zz%d" % k for k in range(NC)]
            d["A"] = [c.reals(M) for _ in range(R)] + [["word%d-%d" % (k, m) for m in range(M)] for k in range(NC)]
        else:
            R = NA
            d["ASCAL"] = c.reals(NA)
            d["AMISS"] = [-700.0 - k for k in range(NA)]
            d["A"] = [c.reals(M) for _ in range(NA)]
        d["NAUXV"] = NA
        d["ANAME"] = ["auxiliary %d (u%d)" % (k, k) for k in range(NA)]
    if ffi in (1001, 1010):
        d["X"] = c.reals(M)
        d["V"] = [c.reals(M) for _ in range(NV)]
    elif ffi == 1020:
        d["NVPM"] = w["NVPM"]
        d["X"] = c.reals(M)
        d["DX"] = [10.0 * (w["NVPM"])]
        d["X"] = [100.0 + m * d["DX"][0] for m in range(M)]
        d["V"] = [c.reals(M * w["NVPM"]) for _ in range(NV)]
    elif ffi in GRID:
        NX = list(w["NX"][:niv - 1])
        ND = list(w.get("ND", w["NX"])[:niv - 1])
        d["NX"], d["NXDEF"] = NX, ND
        d["X"] = [c.reals(M)] + [c.reals(k) for k in ND]

        def cube(dims):
            return c.reals(dims[0]) if len(dims) == 1 else [cube(dims[1:]) for _ in range(dims[0])]
        d["V"] = [[cube(NX) for _ in range(M)] for _ in range(NV)]
    else:
        NX = [w["X2"][m % len(w["X2"])] if w["X2"] else 1 for m in range(M)]
        d["NX"] = NX
        xs = [("stn%d", "stn %d")[m % 2] % m for m in range(M)] if ffi == 2160 else c.reals(M)
        if ffi == 2310:
            # first auxiliary values: number, first value and increment of the second axis
            d["A"][0] = [float(n) for n in NX]
            d["X"] = [[xs[m], [d["A"][1][m]]] for m in range(M)]
        else:
            d["X"] = [[xs[m], c.reals(NX[m])] for m in range(M)]
            # the first auxiliary value is the number of points of the second axis
            d["A"][0] = [float(n) for n in NX]
        d["V"] = [[c.reals(NX[m]) for m in range(M)] for _ in range(NV)]
    return d


def header(ffi, d):
    """Header records, file order (without the leading count line)."""
    r = []
    t = lambda label, s: r.append((label, "text", [s]))
    ln = lambda label, xs: r.append((label, "line", list(xs)))
    wr = lambda label, xs: r.append((label, "wrap", list(xs)))
    niv = d["NIV"]
    for k in ("ONAME", "ORG", "SNAME", "MNAME"):
        t(k, d[k])
    ln("IVOL_NVOL", [d["IVOL"], d["NVOL"]])
    ln("DATE_RDATE", d["DATE"] + d["RDATE"])
    # memory order is slowest varying first, file order fastest varying first
    ln("DX", list(reversed(d["DX"])))
    if ffi == 1020:
        ln("NVPM", [d["NVPM"]])
    if ffi == 2160:
        ln("LENX", [d["LENX"]])
    if ffi in GRID:
        ln("NX", list(reversed(d["NX"])))
        ln("NXDEF", list(reversed(d["NXDEF"])))
        for k in reversed(range(niv - 1)):
            wr("X", d["X"][k + 1][:d["NXDEF"][k]])
    for x in reversed(d["XNAME"]):
        t("XNAME", x)
    ln("NV", [d["NV"]])
    wr("VSCAL", d["VSCAL"])
    wr("VMISS", d["VMISS"])
    for x in d["VNAME"]:
        t("VNAME", x)
    if ffi in AUX:
        ln("NAUXV", [d["NAUXV"]])
        if ffi == 2160:
            ln("NAUXC", [d["NAUXC"]])
            R = d["NAUXV"] - d["NAUXC"]
            wr("ASCAL", d["ASCAL"])
            wr("AMISS", d["AMISS"][:R])
            wr("LENA", d["LENA"][R:])
            wr("AMISS", d["AMISS"][R:])
        elif d["NAUXV"] > 0:
            wr("ASCAL", d["ASCAL"])
            wr("AMISS", d["AMISS"])
        for x in d["ANAME"]:
            t("ANAME", x)
    ln("NSCOML", [d["NSCOML"]])
    for x in d["SCOM"]:
        t("SCOM", x)
    ln("NNCOML", [d["NNCOML"]])
    for x in d["NCOM"]:
        t("NCOM", x)
    return r


def data(ffi, d):
    r = []
    wr = lambda label, xs: r.append((label, "wrap", list(xs)))
    NV = d["NV"]

    def rows(v, depth):
        if depth == 1:
            return [v]
        return [x for s in v for x in rows(s, depth - 1)]

    M = len(d["X"][0]) if ffi in GRID else len(d["X"])
    for m in range(M):
        if ffi == 1001:
            wr("X V", [d["X"][m]] + [d["V"][n][m] for n in range(NV)])
        elif ffi == 1010:
            wr("X A", [d["X"][m]] + [a[m] for a in d["A"]])
            wr("V", [d["V"][n][m] for n in range(NV)])
        elif ffi == 1020:
            k = d["NVPM"]
            wr("X A", [d["X"][m]] + [a[m] for a in d["A"]])
            for n in range(NV):
                wr("V", d["V"][n][m * k:(m + 1) * k])
        elif ffi in GRID:
            wr("X A", [d["X"][0][m]] + [a[m] for a in d["A"]])
            for n in range(NV):
                # one record per variable; the rows may be on lines of their own
                wr("V", [x for row in rows(d["V"][n][m], d["NIV"] - 1) for x in row])
        elif ffi == 2110:
            wr("X A", [d["X"][m][0]] + [a[m] for a in d["A"]])
            for j in range(d["NX"][m]):
                wr("X V", [d["X"][m][1][j]] + [d["V"][n][m][j] for n in range(NV)])
        elif ffi == 2160:
            R = d["NAUXV"] - d["NAUXC"]
            wr("X", [d["X"][m][0]])
            wr("NX A", [a[m] for a in d["A"][:R]])
            for a in d["A"][R:]:
                wr("A", [a[m]])
            for j in range(d["NX"][m]):
                wr("X V", [d["X"][m][1][j]] + [d["V"][n][m][j] for n in range(NV)])
        elif ffi == 2310:
            wr("X A", [d["X"][m][0]] + [a[m] for a in d["A"]])
            wr("V", [x for n in range(NV) for x in d["V"][n][m]])
    return r
