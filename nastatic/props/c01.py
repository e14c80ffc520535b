from ._rw import *
from ..engine import parallel

METHOD = ("every attribute stored by the public open call, as a normal form over the symbolic text of the file, is compared with the "
          "normal form of a reference description of the published layout")
LEVEL = "other"
ASSUMPTIONS = ["file content is any text with the published layout; numbers are read by Python's int/float",
               "the declared number of header lines is the true one (C05, C06 cover the rest)"]


def one(chk, ffi, ign):
    read_obligations(chk, ffi, ign, head_attrs(ffi) + (["X[1:]"] if ffi in O.GRID else []), "header")


def run(chk):
    parallel(chk, one, [(f, i) for f in FFIS for i in (0, "IGN")])
