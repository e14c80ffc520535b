from ._rw import *
from ..engine import parallel

METHOD = ("the text written through the public open and write calls, as a normal form over a symbolic dictionary, separator and "
          "number format, is compared with the normal form of a reference description of the published layout (no_header part)")
LEVEL = "other"
ASSUMPTIONS = ["the dictionary is valid for its file format index: counts agree with the lengths of the lists",
               "text items hold no line end; separators are blanks, tabs or commas"]


def one(chk, ffi, aux, ann, noh):
    write_obligations(chk, ffi, aux, ann, noh, "all", "no-header")


def run(chk):
    parallel(chk, one, write_items((False, True), (True,)))
