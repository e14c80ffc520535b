"""Obligations over the reader and the writer, shared by several properties."""
import os
from .. import terms as T
from ..terms import *
from ..interp import Dead, AnalysisError
from .. import oracle as O
from ..rw import *
from ..engine import PROVED, AGREES, UNDECIDED, VIOLATED, unks, true_raise

REF = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "ref")
READ_RULE = "reader normal form = layout normal form"
WRITE_RULE = "writer token view = layout token view"


# ------------------------------------------------------------------ reading
def ref_read(sc, ffi, ign):
    sc.ip.extra = {"naref": os.path.join(REF, "naref.py")}
    T.CONV_HOOK = first_line_hook(ffi, ign)
    try:
        m = sc.load("naref")
        r = sc.call(sc.attr(m, "read"), sym("fname", "str"), K(ffi), ign if isinstance(ign, Term) else K(ign))
        ro = sc.st.heap[r.args[0]]
        return {k: sc.ip.freeze(v, sc.st) for k, v in ro.attrs.items()}
    finally:
        T.CONV_HOOK = None


def read_cases(ffi, ign, thorough):
    if ign == "IGN":
        for g in (0, 1, 3):
            for label, d, lines, n, _ in read_cases(ffi, g, thorough):
                yield "%s, %d line(s) ignored before the header" % (label, g), d, lines, n, g
        return
    for var in O.variants(ffi, "thorough" if thorough else "quick"):
        d = O.sample(ffi, var)
        for wrap in ((0, 2, 1) if thorough else (0, 2)):
            for com in (False, True):
                lines, n = emit(ffi, d, ign, wrap, com)
                yield "%s, %s values per line%s" % (var, wrap or "all", ", trailing {...} annotations" if com else ""), d, lines, n, ign


def later_axes(x):
    """The axes given in the header: all but the first."""
    if x is None or not (isinstance(x.ty, tuple) and x.ty[0] == "seq" or x.op == "seq"):
        return x
    return T.slice_(x, ONE, T.length(x))


def read_obligations(chk, ffi, ign, attrs, group):
    """One obligation per attribute: what the reader stores is what the layout says."""
    sc = read_scenario(chk.repo, ffi, ign, nat=True)
    chk.saw(sc)
    raises = list(sc.ip.raises)
    pre = "%s/%d%s" % (group, ffi, "/ignored-lines" if ign else "")
    if sc.fo is None or na_instance(sc) is None:
        done = False
        for label, d, lines, n, g in read_cases(ffi, ign, False):
            ev = Ev({"fname": "f.na", "IGN": g}, fileof=lambda nm: lines)
            r = true_raise_list(raises, ev)
            if r:
                chk.add(pre + "/open", READ_RULE, VIOLATED, "reading a conformant file (%s) raises %s" % (label, r[1] or r[0]), [chk.site(r[2])])
                done = True
                break
        if not done:
            chk.add(pre + "/open", READ_RULE, UNDECIDED, "the open call was not followed to its end")
        return
    got = {k: later_axes(attr_term(sc, "X")) if k == "X[1:]" else attr_term(sc, k) for k in attrs}
    ref = {}
    try:
        ref = ref_read(sc, ffi, sym("IGN", "int") if ign == "IGN" else ign)
        ref["X[1:]"] = later_axes(ref.get("X"))
    except Dead:
        pass
    bad = []
    for k in attrs:
        key = "%s/%s" % (pre, k)
        if got[k] is None:
            bad.append(k)
            continue
        if k in ref and view_read(got[k]) is view_read(ref[k]):
            chk.add(key, READ_RULE, PROVED, "identical normal forms for every file content", chk.locate(sc, k, True)[:3])
            if not chk.thorough:
                continue
        else:
            bad.append(k)
    unk = {k: [] for k in attrs}
    raised = set()
    cases = list(read_cases(ffi, ign, chk.thorough))
    state = {k: None for k in attrs}
    for label, d, lines, n, g in cases:
        if not bad and not chk.thorough and not raises:
            break
        ev = Ev({"fname": "f.na", "IGN": g}, fileof=lambda nm: lines)
        r = true_raise_list(raises, ev)
        if r and r[2] not in raised:
            raised.add(r[2])
            chk.add(pre + "/accepts", "conformant file is accepted", VIOLATED,
                    "reading a conformant file (%s) raises %s" % (label, r[1] or r[0]), [chk.site(r[2])])
        for k in attrs if chk.thorough else bad:
            if state[k] == "bad":
                continue
            ex = n + g if k == "NLHEAD" else d["X"][1:] if k == "X[1:]" else expected(ffi, d, k)
            if ex is None:
                continue
            if got[k] is None:
                if sc.completed:
                    chk.add("%s/%s" % (pre, k), READ_RULE, VIOLATED, "attribute %s is never set when reading" % k)
                    state[k] = "bad"
                continue
            chk.valuations += 1
            try:
                v = Ev({"fname": "f.na", "IGN": g}, fileof=lambda nm: lines)(got[k])
            except Unknown as e:
                unk[k].append(str(e)[:100])
                continue
            except EvErr as e:
                if unks(got[k]):
                    unk[k].append(str(e)[:100])
                    continue
                v = "error: %s" % str(e)[:100]
            if not deep_eq(v, ex):
                state[k] = "bad"
                chk.add("%s/%s" % (pre, k), READ_RULE, VIOLATED, "FFI %d, %s: %s reads as %s, the layout says %s" % (
                    ffi, label, k, str(v)[:160], str(ex)[:160]), chk.locate(sc, k, True) or chk.locate(sc, k))
            elif state[k] is None:
                state[k] = "ok"
    for k in bad:
        if state[k] == "bad":
            continue
        key = "%s/%s" % (pre, k)
        if unk[k] or state[k] is None:
            chk.add(key, READ_RULE, UNDECIDED, "not followed: " + "; ".join((unk[k] or unks(got[k]) if got[k] is not None else ["never reached"])[:2]))
        else:
            chk.add(key, READ_RULE, AGREES, "agrees with the layout on every witness file")
    if not raised:
        chk.add(pre + "/accepts", "conformant file is accepted", PROVED if not raises else AGREES,
                "%d raise site(s) reachable, none on a conformant file" % len(raises))
    if not sc.completed and not raised and not bad:
        chk.add(pre + "/accepts", "conformant file is accepted", UNDECIDED, "the read was not followed to its end")


def true_raise_list(raises, ev):
    class F(object):
        pass
    f = F()
    f.ip = F()
    f.ip.raises = raises
    return true_raise(f, ev)


# ------------------------------------------------------------------ writing
def ref_write(sc, ffi, aux):
    sc.ip.extra = {"nawrite": os.path.join(REF, "nawrite.py")}
    m = sc.load("nawrite")
    sc.ip.hooks["TXT"] = lambda ip, f, args, kw, st, node: T.app("text", args[0], ty="str")
    d2, _ = na_dict(sc, ffi, aux, None)
    h = sc.ip.freeze(sc.call(sc.attr(m, "header"), d2, K(ffi)), sc.st)
    b = sc.ip.freeze(sc.call(sc.attr(m, "body"), d2, K(ffi)), sc.st)
    return list(T.segs_of(h)), list(T.segs_of(b))


def write_cases(ffi, aux, thorough):
    for var in O.variants(ffi, "thorough" if thorough else "quick"):
        d = O.sample(ffi, var)
        if ffi in O.AUX and (d["NAUXV"] == 0) != (aux == "zero"):
            continue
        if ffi not in O.AUX and aux == "zero":
            continue
        for D, FF in (STYLES if thorough else STYLES[:2]):
            yield var, d, D, FF


def strip_annotation(lines, D):
    """drop the annotation column"""
    out = []
    for x in lines:
        p = x.split(D, 1)
        if len(p) != 2:
            return None
        out.append(p[1])
    return out


def writer_raise(chk, raises, ffi, aux):
    for var, d, D, FF in write_cases(ffi, aux, False):
        r = true_raise_list(raises, Ev(env_of(ffi, d, D=D, FF=FF)))
        if r:
            return var, r
    return None


def header_at(lines, h, ffi, d, D, FF):
    """None when lines[:h] carry the header records, whatever count the first line states"""
    first = split_line(lines[0], D, True) if lines else []
    try:
        n = int(first[0])
    except (IndexError, ValueError):
        return "NLHEAD and FFI", "the first line %r does not start with a number of lines" % (lines[:1],)
    return match_records(lines[:h], [("NLHEAD and FFI", "line", [n, ffi])] + O.header(ffi, d), D, FF, True)


def compare_written(text, ffi, d, D, FF, ann, noh, part):
    """None, or (what, difference) for one part of the written text: header, data, count, annotation"""
    lines, ended = split_text(text)
    if ann:
        l2 = strip_annotation(lines, D)
        if l2 is None:
            return "annotation", "a line has no annotation column"
        lines = l2
    if noh:
        r = match_records(lines, O.data(ffi, d), D, FF, False, part == "data")
        if r:
            return r
        return ("end", "the last line is not ended") if lines and not ended else None
    recs = O.header(ffi, d)
    fit = [h for h in range(1, len(lines) + 1) if header_at(lines, h, ffi, d, D, FF) is None]
    tail = [h for h in range(0, len(lines) + 1) if match_records(lines[h:], O.data(ffi, d), D, FF, False) is None]
    if part == "header":
        if fit:
            return None
        return header_at(lines, tail[-1] if tail else len(recs) + 1, ffi, d, D, FF)
    if part == "data":
        if tail:
            r = match_records(lines[tail[0]:], O.data(ffi, d), D, FF, False, True)
            return r or (None if ended else ("end", "the last line is not ended"))
        return match_records(lines[fit[-1] if fit else len(recs) + 1:], O.data(ffi, d), D, FF, False)
    if part == "count":
        try:
            n = int(split_line(lines[0], D, True)[0])
        except (IndexError, ValueError):
            return "NLHEAD", "the first line does not start with a number of lines"
        ok = [h for h in fit if h in tail] or fit or tail
        if ok and n not in ok:
            return "NLHEAD", "the first line announces %d header lines, %d were written" % (n, ok[-1])
        return None
    for p in ("header", "data", "count"):
        r = compare_written(text if not ann else "\n".join(lines) + "\n", ffi, d, D, FF, False, noh, p)
        if r:
            return r
    return None


def write_obligations(chk, ffi, aux, ann, noh, part, group):
    """part: header | data | count | all"""
    sc = write_scenario(chk.repo, ffi, aux, ann, noh)
    chk.saw(sc)
    raises = list(sc.ip.raises)
    key = "%s/%d%s%s%s" % (group, ffi, "" if ffi not in O.AUX else "/aux" if aux == "pos" else "/no-aux",
                           "/annotated" if ann else "", "/no-header" if noh else "")
    D = sym("D", "str")
    FF = sym("FF", "str")
    r = writer_raise(chk, raises, ffi, aux)
    if r:
        chk.add(key + "/accepts", "writing a valid dictionary does not raise", VIOLATED,
                "FFI %d (%s): writing raises %s" % (ffi, r[0], r[1][1] or r[1][0]), [chk.site(r[1][2])])
    else:
        chk.add(key + "/accepts", "writing a valid dictionary does not raise", PROVED if not raises else AGREES,
                "%d raise site(s), none reached by a valid dictionary" % len(raises))
    if not sc.out:
        if sc.completed:
            chk.add(key, WRITE_RULE, VIOLATED, "nothing is written to the named file")
        elif not r:
            chk.add(key, WRITE_RULE, UNDECIDED, "the write was not followed to its end")
        return
    writers = sorted({chk.site(e[1]) for e in sc.ip.events if e[0] == "write"})[:6]
    try:
        hs, bs = ref_write(sc, ffi, aux)
    except Dead:
        hs = bs = None
    proved = False
    why = ""
    if hs is not None and sc.completed and len(sc.out) == 1:
        spec = bs if noh else hs + bs
        try:
            v = tokens_view(sc.out[0].out, D, FF, ann, part == "data")
            if v is T.seq(*spec):
                proved = True
            elif not noh and part in ("header", "count", "data"):
                sg = T.segs_of(v)
                if part in ("header", "count"):
                    k = len(hs)
                    first = sg[0] is hs[0] if part == "count" else True
                    proved = first and T.seq(*sg[1:k]) is T.seq(*hs[1:]) and (part == "header" or T.seq(*sg[k:]) is T.seq(*bs))
                else:
                    proved = len(sg) >= len(bs) and T.seq(*sg[len(sg) - len(bs):]) is T.seq(*bs)
        except NoView as e:
            why = str(e)
    if proved:
        chk.add(key, WRITE_RULE, PROVED, "identical for every dictionary, separator and number format", writers)
        if not chk.thorough:
            return
    out = sc.out[0].out
    unk = []
    n = 0
    for var, d, D_, FF_ in write_cases(ffi, aux, chk.thorough):
        env = env_of(ffi, d, D=D_, FF=FF_)
        chk.valuations += 1
        try:
            text = Ev(env)(out)
        except Unknown as e:
            unk.append(str(e)[:100])
            continue
        except EvErr as e:
            if unks(out):
                unk.append(str(e)[:100])
                continue
            chk.add(key, WRITE_RULE, VIOLATED, "FFI %d, %s: writing fails: %s" % (ffi, var, str(e)[:200]), writers)
            return
        n += 1
        r = compare_written(text, ffi, d, D_, FF_, ann, noh, part)
        if r:
            chk.add(key, WRITE_RULE, VIOLATED, "FFI %d, %s, separator %r, format %s: %s: %s" % (ffi, var, D_, FF_, r[0], r[1]), writers)
            return
    if not proved:
        if unk or not n:
            chk.add(key, WRITE_RULE, UNDECIDED, "not followed: %s" % "; ".join(unk[:2] or [why]))
        else:
            chk.add(key, WRITE_RULE, AGREES, "agrees with the layout on %d witness dictionaries %s" % (n, why))


def write_items(anns=(False,), nohs=(False,)):
    out = []
    for f in FFIS:
        for aux in ("pos", "zero") if f in O.AUX else ("pos",):
            for a in anns:
                for h in nohs:
                    out.append((f, aux, a, h))
    return out
