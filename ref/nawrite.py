"""Reference description of the NASA Ames layouts, writing side: values, text items and line ends
in file order.  Never run, only analysed (see naref)."""

NL = "\n"


def unquote(s):
    if s[:1] in ("'", '"'):
        s = s[1:]
    if s[-1:] in ("'", '"'):
        s = s[:-1]
    return s


def TXT(s):
    return s    # replaced by the analyser: a text item


class Out(object):
    def __init__(self):
        self.items = []
        self.lines = 0

    def line(self, values):
        for v in values:
            self.items.append(v)
        self.items.append(NL)
        self.lines = self.lines + 1

    def text(self, s):
        self.items.append(TXT(s))
        self.items.append(NL)
        self.lines = self.lines + 1

    def texts(self, xs, n):
        for k in range(n):
            self.text(xs[k])


def header(d, ffi):
    o = Out()
    o.text(unquote(d["ONAME"]))
    o.text(unquote(d["ORG"]))
    o.text(unquote(d["SNAME"]))
    o.text(unquote(d["MNAME"]))
    o.line([d["IVOL"], d["NVOL"]])
    date = d["DATE"]
    rdate = d["RDATE"]
    o.line([date[0], date[1], date[2], rdate[0], rdate[1], rdate[2]])
    niv = ffi // 1000
    o.line(d["DX"][::-1])
    if ffi == 1020:
        o.line([d["NVPM"]])
    if ffi == 2160:
        o.line([d["LENX"]])
    if ffi in (2010, 3010, 4010):
        o.line(d["NX"][::-1])
        o.line(d["NXDEF"][::-1])
        for k in range(niv - 1):
            ax = niv - 1 - k
            o.line(d["X"][ax][:d["NXDEF"][ax - 1]])
    for k in range(niv):
        o.text(d["XNAME"][niv - 1 - k])
    o.line([d["NV"]])
    o.line(d["VSCAL"])
    o.line(d["VMISS"])
    o.texts(d["VNAME"], d["NV"])
    if ffi == 2160:
        o.line([d["NAUXV"]])
        o.line([d["NAUXC"]])
        r = d["NAUXV"] - d["NAUXC"]
        o.line(d["ASCAL"])
        o.line(d["AMISS"][:r])
        o.line(d["LENA"][r:])
        o.texts(d["AMISS"][r:], d["NAUXC"])
        o.texts(d["ANAME"], d["NAUXV"])
    elif ffi != 1001:
        o.line([d["NAUXV"]])
        if d["NAUXV"] > 0:
            o.line(d["ASCAL"])
            o.line(d["AMISS"])
            o.texts(d["ANAME"], d["NAUXV"])
    o.line([d["NSCOML"]])
    o.texts(d["SCOM"], d["NSCOML"])
    o.line([d["NNCOML"]])
    o.texts(d["NCOM"], d["NNCOML"])
    return [o.lines + 1, ffi, NL] + o.items


def aux(d, m, lo, hi):
    return [d["A"][a][m] for a in range(lo, hi)]


def grid(o, v, dims, depth):
    if depth == 1:
        o.line([v[i] for i in range(dims[0])])
    else:
        for i in range(dims[0]):
            grid(o, v[i], dims[1:], depth - 1)


def body(d, ffi):
    o = Out()
    nv = d["NV"]
    X = d["X"]
    V = d["V"]
    if ffi in (2010, 3010, 4010):
        rows = len(X[0])
    else:
        rows = len(X)
    for m in range(rows):
        if ffi == 1001:
            o.line([X[m]] + [V[n][m] for n in range(nv)])
        elif ffi == 1010:
            o.line([X[m]] + aux(d, m, 0, d["NAUXV"]))
            o.line([V[n][m] for n in range(nv)])
        elif ffi == 1020:
            k = d["NVPM"]
            o.line([X[m]] + aux(d, m, 0, d["NAUXV"]))
            for n in range(nv):
                o.line([V[n][m * k + i] for i in range(k)])
        elif ffi in (2010, 3010, 4010):
            o.line([X[0][m]] + aux(d, m, 0, d["NAUXV"]))
            for n in range(nv):
                grid(o, V[n][m], d["NX"], ffi // 1000 - 1)
        elif ffi == 2310:
            o.line([X[m][0]] + aux(d, m, 0, d["NAUXV"]))
            flat = []
            for n in range(nv):
                for i in range(d["NX"][m]):
                    flat.append(V[n][m][i])
            o.line(flat)
        else:
            if ffi == 2110:
                o.line([X[m][0]] + aux(d, m, 0, d["NAUXV"]))
            else:
                r = d["NAUXV"] - d["NAUXC"]
                o.text(X[m][0])
                o.line(aux(d, m, 0, r))
                for c in range(d["NAUXC"]):
                    o.text(d["A"][r + c][m])
            for j in range(d["NX"][m]):
                o.line([X[m][1][j]] + [V[n][m][j] for n in range(nv)])
    return o.items
