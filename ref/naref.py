"""Reference description of the NASA Ames layouts, as small programs.

They are never run: the analyser turns them into normal forms, exactly as it does
with the code under /repo, and the two are compared.  Written from the published
layouts (Gaines & Hipskind), independently of the code.
"""
import re

COMMENT = re.compile(r"^(.+)\{[^{^}]*\}\s*$")


class Rec(object):
    pass


def clean(line):
    m = COMMENT.match(line)
    if m:
        return m.group(1)
    return line


def text(fh):
    return clean(fh.readline()).strip()


def texts(fh, n):
    out = []
    for i in range(n):
        out.append(text(fh))
    return out


def plain(fh, n):
    out = []
    for i in range(n):
        out.append(fh.readline().strip())
    return out


def number(fh, conv):
    return conv(clean(fh.readline()).strip())


def row(fh, n, conv):
    words = clean(fh.readline()).strip().split()
    if len(words) != n:
        raise Exception("wrong number of values")
    return [conv(w) for w in words]


def values(fh, n, conv):
    """n values spread over one or more lines"""
    got = []
    over = []
    while len(got) < n:
        line = fh.readline()
        if line == "":
            raise Exception("end of file")
        words = clean(line).strip().split()
        need = n - len(got)
        got, over = got + words[:need], words[need:]
    if len(over) > 0:
        raise Exception("too many values")
    return [conv(w) for w in got]


def common(fh, o, ffi, ignore):
    for i in range(ignore):
        fh.readline()
    o.NLHEAD, o.FFI = row(fh, 2, int)
    o.NLHEAD = o.NLHEAD + ignore
    o.NIV = ffi // 1000
    o.ONAME = text(fh)
    o.ORG = text(fh)
    o.SNAME = text(fh)
    o.MNAME = text(fh)
    o.IVOL, o.NVOL = row(fh, 2, int)
    dates = row(fh, 6, int)
    o.DATE = [dates[0], dates[1], dates[2]]
    o.RDATE = [dates[3], dates[4], dates[5]]


def backwards(x):
    return x[::-1]


def header(name, ffi, ignore):
    o = Rec()
    fh = open(name, "r")
    common(fh, o, ffi, ignore)
    niv = o.NIV
    if ffi in (2160, 2310):
        o.DX = row(fh, 1, float)
    else:
        o.DX = backwards(row(fh, niv, float))
    if ffi == 1020:
        o.NVPM = number(fh, int)
    if ffi == 2160:
        o.LENX = number(fh, float)
    if ffi in (2010, 3010, 4010):
        o.NX = backwards(row(fh, niv - 1, int))
        o.NXDEF = backwards(row(fh, niv - 1, int))
        o.X = []
        for k in range(niv - 1):
            o.X.append(values(fh, o.NXDEF[niv - 2 - k], float))
        o.X = [[]] + backwards(o.X)
    o.XNAME = backwards(texts(fh, niv))
    o.NV = number(fh, int)
    o.VSCAL = values(fh, o.NV, float)
    o.VMISS = values(fh, o.NV, float)
    o.VNAME = texts(fh, o.NV)
    if ffi == 2160:
        o.NAUXV = number(fh, int)
        o.NAUXC = number(fh, int)
        if o.NAUXV > 0:
            r = o.NAUXV - o.NAUXC
            o.ASCAL = values(fh, r, float)
            miss = values(fh, r, float)
            lena = values(fh, o.NAUXC, int)
            o.LENA = [None for k in range(r)] + lena
            o.AMISS = miss + values(fh, o.NAUXC, str)
            o.ANAME = texts(fh, o.NAUXV)
    elif ffi != 1001:
        o.NAUXV = number(fh, int)
        if o.NAUXV > 0:
            o.ASCAL = values(fh, o.NAUXV, float)
            o.AMISS = values(fh, o.NAUXV, float)
            o.ANAME = texts(fh, o.NAUXV)
    o.NSCOML = number(fh, int)
    o.SCOM = plain(fh, o.NSCOML)
    o.NNCOML = number(fh, int)
    o.NCOM = plain(fh, o.NNCOML)
    o.rest = fh.readline()
    return o


class Lines(object):
    def __init__(self, lines):
        self.lines = lines

    def more(self):
        return len(self.lines) > 0

    def take(self, n, conv):
        got = []
        over = []
        while len(got) < n:
            line = self.lines[0]
            self.lines = self.lines[1:]
            words = clean(line).strip().split()
            need = n - len(got)
            got, over = got + words[:need], words[need:]
        if len(over) > 0:
            raise Exception("too many values")
        return [conv(w) for w in got]


    def take_line(self):
        line = self.lines[0]
        self.lines = self.lines[1:]
        return clean(line).strip()


class Count(object):
    def __init__(self):
        self.k = 0


def fill(out, r, dims, depth, c):
    """row-major: the last dimension varies fastest"""
    if depth == 1:
        lo = c.k
        c.k = c.k + dims[0]
        for i in range(lo, c.k):
            out.append(r[i])
    else:
        for i in range(dims[0]):
            out.append([])
            fill(out[i], r, dims[1:], depth - 1, c)


def body(name, ffi, o):
    fh = open(name)
    raw = fh.readlines()[o.NLHEAD:]
    blank = False
    for x in raw:
        if x.strip() == "":
            blank = True
        elif blank:
            raise Exception("blank line inside the data")
    src = Lines([x for x in raw if x.strip() != ""])
    V = [[] for n in range(o.NV)]
    X = []
    NX = []
    if ffi != 1001:
        A = [[] for n in range(o.NAUXV)]
    else:
        A = []
    m = 0
    while src.more():
        if ffi == 1001:
            r = src.take(1 + o.NV, float)
            X.append(r[0])
            for n in range(o.NV):
                V[n].append(r[1 + n])
        elif ffi == 1010:
            r = src.take(1 + o.NAUXV, float)
            X.append(r[0])
            for a in range(o.NAUXV):
                A[a].append(r[1 + a])
            r = src.take(o.NV, float)
            for n in range(o.NV):
                V[n].append(r[n])
        elif ffi == 1020:
            r = src.take(1 + o.NAUXV, float)
            X.append(r[0])
            for a in range(o.NAUXV):
                A[a].append(r[1 + a])
            r = src.take(o.NV * o.NVPM, float)
            for n in range(o.NV):
                for i in range(o.NVPM):
                    V[n].append(r[n * o.NVPM + i])
        elif ffi in (2010, 3010, 4010):
            r = src.take(1 + o.NAUXV, float)
            X.append(r[0])
            for a in range(o.NAUXV):
                A[a].append(r[1 + a])
            size = 1
            for k in range(o.NIV - 1):
                size = size * o.NX[k]
            for n in range(o.NV):
                r = src.take(size, float)
                V[n].append([])
                fill(V[n][m], r, o.NX, o.NIV - 1, Count())
        elif ffi == 2310:
            r = src.take(1 + o.NAUXV, float)
            for a in range(o.NAUXV):
                A[a].append(r[1 + a])
            k = int(r[1])
            NX.append(k)
            X.append([r[0], [r[2]]])
            r = src.take(o.NV * k, float)
            for n in range(o.NV):
                V[n].append([])
                for i in range(k):
                    V[n][m].append(r[n * k + i])
        else:
            if ffi == 2110:
                r = src.take(1 + o.NAUXV, float)
                x = r[0]
                k = int(r[1])
                for a in range(o.NAUXV):
                    A[a].append(r[1 + a])
            else:
                x = src.take_line()
                reals = o.NAUXV - o.NAUXC
                r = src.take(reals, float)
                k = int(r[0])
                for a in range(reals):
                    A[a].append(r[a])
                for c in range(o.NAUXC):
                    A[reals + c].append(src.take_line())
            NX.append(k)
            X.append([x, []])
            for n in range(o.NV):
                V[n].append([])
            for j in range(k):
                r = src.take(1 + o.NV, float)
                X[m][1].append(r[0])
                for n in range(o.NV):
                    V[n][m].append(r[1 + n])
        m = m + 1
    o.V = V
    o.A = A
    if ffi in (2010, 3010, 4010):
        o.X[0] = X
    else:
        o.X = X
    if ffi in (2110, 2160, 2310):
        o.NX = NX
    return o


def read(name, ffi, ignore):
    o = header(name, ffi, ignore)
    return body(name, ffi, o)
