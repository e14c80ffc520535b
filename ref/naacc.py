"""Reference for the information calls: each answers from the attribute of its own subject."""
import re

UNITS = re.compile(r"^\s*(.*)\((.+?)\)(.*)\s*$")


def split(name):
    m = UNITS.match(name)
    if m:
        (a, u, b) = m.groups()
        return ((a + " " + b).strip(), u)
    return (name.strip(), None)


def variable(o, i):
    (n, u) = split(o.VNAME[i])
    return (n, u, o.VMISS[i], o.VSCAL[i])


def independent(o, i):
    return split(o.XNAME[i])


def auxiliary(o, i):
    (n, u) = split(o.ANAME[i])
    if o.NAUXC is None or i < o.NAUXV - o.NAUXC:
        s = o.ASCAL[i]
    else:
        s = None
    return (n, u, o.AMISS[i], s)


def variables(o):
    return [variable(o, i) for i in range(o.NV)]


def independents(o):
    return [independent(o, i) for i in range(o.NIV)]


def auxiliaries(o):
    if o.NAUXV is None:
        return []
    return [auxiliary(o, i) for i in range(o.NAUXV)]
