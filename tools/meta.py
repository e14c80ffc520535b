#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed
NA = []     # not applicable
RW = ["nappy/na_file/na_file.py", "nappy/na_file/na_file_1001.py", "nappy/na_file/na_file_1010.py", "nappy/na_file/na_file_1020.py",
      "nappy/na_file/na_file_2010.py", "nappy/na_file/na_file_2110.py", "nappy/na_file/na_file_2160.py", "nappy/na_file/na_file_2310.py",
      "nappy/na_file/na_file_3010.py", "nappy/na_file/na_file_4010.py", "nappy/utils/text_parser.py", "nappy/utils/common_utils.py"]
NF = "abstract interpretation to normal forms, compared with the normal form of a reference layout program"


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=None, na=None, level="other"):
    a = {"files": files, "mechanism": mech}
    if state:
        a["state"] = state
    P.append(({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
              technique, level, note, na))


NOTE = ("Discharged obligations are identities of normal forms and hold for every input of the scenario; an obligation that is not an identity is "
        "compared on witness valuations of the two extracted denotations (reported as agreeing, not as discharged). Trusts the Python model of the "
        "analyser and the reference layout programs in /verif/ref; a construct the analyser cannot follow is reported as undecided and does not alarm.")

prop("C01", "Reading a header gives every item its published place and meaning",
     "For every supported file format index and every file that follows the published layout, opening the file for reading gives each header item "
     "(counts, names, dates, intervals, axis sizes and definitions, scale factors, missing values, auxiliary items, comments) exactly the value the layout "
     "puts there, with multi-axis items in the order fastest axis last. This holds however list values are wrapped over lines, with trailing {...} annotations, "
     "and with any number of ignored lines before the header.",
     ["inputs"], "all conformant files of the nine formats, any counts, wrapping, annotations and number of ignored leading lines",
     "The tests read about one small sample file per format and look at a few attributes; they never vary counts, wrapping, annotations or ignored lines.",
     RW, "each format has its own header-reading sequence of line and list reads whose order and counts define the layout",
     NF, NOTE)
prop("C02", "Writing a header puts every item in its published place",
     "For every supported format and every valid dictionary, the header text written is the published sequence of records: each item on its own line or lines, in order, "
     "with multi-axis items in file order and auxiliary items present exactly when the format has them. Text values lose at most a leading and a trailing quote; no value is dropped, doubled or reordered.",
     ["inputs", "configurations"], "all valid dictionaries of the nine formats, all separators and number formats",
     "The tests write one dictionary per format, mostly with default options, and mostly only check that a file appears.",
     RW, "the per-format header writers and the shared common, variable, auxiliary and comment sections", NF, NOTE)
prop("C03", "Reading the data section puts every number in its slot",
     "For every supported format and every conformant file, reading the data gives independent variables, auxiliary variables and primary variables whose every element is the number the layout stores at that place, "
     "with the nesting the format defines (last axis fastest). This holds for any number of records, sizes of axes, wrapping of values over lines and trailing blank lines.",
     ["inputs"], "all conformant files: number of records, axis lengths, variables, per-record lengths, wrapping",
     "Sample files are small with few variables; index and stride slips that coincide for such sizes go unnoticed.",
     RW, "block readers that split one flat list of values into nested arrays, and the loop over records", NF, NOTE)
prop("C04", "Writing the data section writes every number once, in order",
     "For every supported format and every valid dictionary, the data section written holds exactly the values of the independent, auxiliary and primary variables, each once, in the order and grouping the format prescribes, "
     "with at least one separator between values on a line, every record on lines of its own, and every number rendered with the number format asked for.",
     ["inputs", "configurations"], "all valid dictionaries, separators and number formats",
     "Only one dictionary per format is written by the tests and the output is rarely compared.",
     RW, "per-format data writers: nested loops over records, variables and axes", NF, NOTE)
prop("C05", "The announced number of header lines is the true one",
     "The first number in a written file is the number of header lines actually written, for every dictionary, separator and annotation setting. "
     "When a file is read, the data are taken starting exactly after the announced header, counted after any ignored leading lines.",
     ["inputs", "configurations"], "all dictionaries and options; any number of ignored leading lines",
     "A wrong count only shows for files whose header differs from the samples (comments, several auxiliary variables, annotated output).",
     RW, "header length recomputed after the header is built; data reader skips that many lines plus ignored ones", NF, NOTE)
prop("C06", "Malformed counts, blank lines and truncation are rejected",
     "A file in which a fixed-length line holds too few or too many values, a list of declared length has surplus values on its last line, a blank line stands inside the data, or the text ends inside the header lists or a data record, "
     "makes reading raise an error. It is never silently absorbed, shifted into another item, or read for ever.",
     ["inputs", "fault_sequences"], "all single defects of these kinds at every position of every format",
     "Tests contain hardly any malformed file; each position and format has its own check.",
     RW, "count checks of the line and list readers, end-of-file exits of their loops, blank-line check of the data section",
     "normal-form comparison of the raise conditions of reader and reference; loop-exit analysis", NOTE)
prop("C07", "Writing leaves the caller's dictionary unchanged",
     "Writing a dictionary to a file, with any options and any number of times, leaves every entry and every nested list of the caller's dictionary as it was; only the chosen format index may be recorded when none was given.",
     ["inputs", "histories"], "all dictionaries, formats, option combinations and repeated writes",
     "Tests never compare the dictionary before and after, nor write it twice.",
     RW, "writers read lists owned by the caller and sometimes reorder or extend local copies", "alias-tracking effect analysis with before/after normal forms", NOTE,
     state=["the caller's dictionary and its nested lists"])
prop("C08", "A file object is written once, in write mode, while open",
     "A file object accepts one write and only when opened for writing and not closed; any other write raises an error before anything reaches the file, as does opening with a mode other than read or write. "
     "When write returns the text has been flushed, closing closes the file, a with block always closes it and lets errors out, and opening a file touches only the named file in the mode asked for.",
     ["histories", "configurations"], "all sequences of write and close calls, all mode strings",
     "Tests only perform the happy sequence open, write, close.",
     ["nappy/na_file/na_file.py", "nappy/nappy_api.py"], "mode, written and open flags checked at the start of write", "typestate analysis over bounded call sequences", NOTE,
     state=["open/closed and written flags of a file object"])
prop("C09", "The format index decides the file class, and is chosen by the data's shape",
     "Opening a file for reading or a dictionary for writing uses the class of exactly the format index it names, and refuses unknown indexes. "
     "For a dictionary without one, the format chosen fits its shape: number of independent variables, presence of auxiliary and implied values, and whether the first record of a 2-D dictionary is a text, a pair with several points, a pair with one point, or a plain number.",
     ["inputs"], "all shapes of dictionaries of the nine formats; all index values",
     "Tests cover the formats of the samples only, not border shapes such as one point, no auxiliary variable, or unknown indexes.",
     ["nappy/nappy_api.py", "nappy/utils/common_utils.py"], "choice table over the number of independent variables and types of the first elements; dynamic import by index",
     "dispatch resolution and decision-table analysis", NOTE)
prop("C10", "Suppressing the header changes nothing but the header",
     "Writing without the header gives exactly the data section that the same dictionary gives with it, and no header bytes, for every format, option and dictionary.",
     ["inputs", "configurations"], "all dictionaries and options", "One test writes without header and does not compare the data; several formats normalise values while writing the header.",
     RW, "header writer skipped by a flag; state that the header writer prepares for the data writer", NF, NOTE)
prop("C11", "Annotation only adds a leading column",
     "Annotated output is the unannotated output with one extra leading column on every line, and is available for every record of every format.",
     ["inputs", "configurations"], "all dictionaries, formats, separators", "Annotation is tested on one or two formats; every record looks up its own label.",
     RW + ["nappy/config/nappy.ini"], "label lookup per record, added in front of each line; the first line is rebuilt after the header is known", NF, NOTE)
prop("C26", "Information calls answer from their own field at their own index",
     "After reading a file, every information call (header items, variable, independent and auxiliary variable descriptions, missing values, scale factors, item access, whole dictionary) returns the value of the item it is named after, "
     "and for indexed calls name, units, missing value and scale factor all belong to the same index.",
     ["inputs"], "all files, all indexes", "Tests call some accessors on one file where neighbouring values often coincide.",
     ["nappy/na_file/na_core.py"], "accessors over parallel lists", "normal-form comparison of results with the fields", NOTE)

exec(open(os.path.join(HERE, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "meta_more.py")) else None


def na(pid, title, statement, over, text, why, files, mech, reason):
    prop(pid, title, statement, over, text, why, files, mech, "", "", na=reason)


na("C40", "Numbers keep the precision of the chosen format",
   "A number written with a float format and read back differs from the original by at most the rounding of that format.",
   ["inputs"], "all floating-point values and formats", "Tests compare a handful of values.",
   RW, "values are formatted with a caller-given format string", "quantifies over runtime floating-point rounding; no static rule over the source decides it")
na("C41", "Decoded times equal the dates the file states",
   "Times decoded from a file's time axis denote the dates and times that the file's units and numbers state.",
   ["inputs"], "all units strings and time values", "Tests use one or two units strings.",
   ["nappy/nc_interface/na_to_xarray.py", "nappy/nc_interface/xarray_utils.py"], "decoding is delegated to the xarray and cftime libraries", "depends on runtime behaviour of external calendar libraries, outside the source under analysis")

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p, t, l, n, na_ in sorted(P, key=lambda x: x[0]["id"]):
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 -m compileall -q nastatic check.py >/dev/null 2>&1 || true",
       "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "technique": t, "level": l, "level_note": n} for p, t, l, n, na_ in sorted(P, key=lambda x: x[0]["id"]) if not na_],
       "not_applicable": [{"property": p["id"], "reason": na_} for p, t, l, n, na_ in sorted(P, key=lambda x: x[0]["id"]) if na_],
       "notes": "Static analysis only: /repo is parsed on every run and never imported or executed. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
