from ._rw import *
from ..engine import parallel

METHOD = ("the number on the first line written is compared, as a normal form, with the number of header lines the writer emits; "
          "the position from which the reader takes data is compared with the announced one for a symbolic number of preamble lines")
LEVEL = "other"
ASSUMPTIONS = ["the dictionary is valid for its file format index; text items hold no line end"]


def one(chk, kind, *a):
    if kind == "w":
        write_obligations(chk, *(a + ("count", "written-count")))
    else:
        read_obligations(chk, a[0], a[1], ["NLHEAD"] + data_attrs(a[0]), "data-start")


def run(chk):
    parallel(chk, one, [("w",) + x for x in write_items((False, True))] + [("r", f, i) for f in FFIS for i in ("IGN",)])
