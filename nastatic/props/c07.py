from ._rw import *
from ..engine import parallel

METHOD = ("effect analysis with alias tracking: the content of every list and entry of the caller's dictionary after the public open and write "
          "calls is compared, as a normal form, with its content before them; every store into an object the caller owns is reported")
LEVEL = "other"
ASSUMPTIONS = ["the dictionary is valid for its file format index", "the file format index chosen when none was given may be recorded in the dictionary"]
RULE = "the caller's dictionary after writing = before writing"


ODD = (' %s ', '"%s"', "'%s", '%s\t', "{%s}", "%s {x}", "\u00e9 %s, x", "%s  ", "  %s")


def odd_text(v, n):
    """the same description, its texts with surrounding blanks, quotes, braces and separators"""
    if isinstance(v, str):
        n[0] += 1
        return ODD[n[0] % len(ODD)] % v
    if isinstance(v, list):
        return [odd_text(x, n) for x in v]
    if isinstance(v, dict):
        return {k: odd_text(x, n) for k, x in v.items()}
    return v


def one(chk, ffi, aux, ann, noh, twice):
    sc = write_scenario(chk.repo, ffi, aux, ann, noh)
    if twice and sc.completed:
        # the same dictionary is written again to another file
        try:
            f2 = sc.call(sc.attr(T.obj("mod", "nappy"), "openNAFile"), sym("fname2", "str"), K("w"), sc.d)
            sc.meth(f2, "write")
        except Dead:
            sc.completed = False
    chk.saw(sc)
    key = "dict/%d%s%s%s%s" % (ffi, "" if ffi not in O.AUX else "/aux" if aux == "pos" else "/no-aux",
                               "/annotated" if ann else "", "/no-header" if noh else "", "/twice" if twice else "")
    ev = [e for e in sc.ip.events[sc.nev:] if e[0] == "mutate-owned" and e[2][0] == "na_dict"]
    sites = sorted({"%s: %s" % (chk.site(e[1]), e[2][1]) for e in ev})
    if not sc.completed:
        chk.add(key, RULE, UNDECIDED, "the write was not followed to its end")
    for e in sc.ip.events[sc.nev:]:
        if e[0] == "mutate-opaque":
            t = e[2][1]
            while isinstance(t, Term) and t.op in ("get", "slice"):
                t = t.args[0]
            mine = isinstance(t, Term) and t.op == "sym" and t.args[0] in ("V", "A", "Ar", "Ac", "X", "Xs", "Xm")
            chk.add(key + "/opaque:%s" % e[1][1], RULE, VIOLATED if mine and not T.show(e[2][1]).startswith("app") else UNDECIDED,
                    "%s on %s" % (e[2][0], T.show(e[2][1])[:100]), [chk.site(e[1])])
    now = dict_state(sc, sc.d)
    diff = []
    for k in sorted(set(now) | set(sc.d0), key=str):
        a, b = sc.d0.get(k), now.get(k)
        if a is b:
            continue
        diff.append(k)
    if not diff:
        chk.add(key, RULE, PROVED, "%d entries identical afterwards, %d stores into caller-owned objects (all undone)" % (len(now), len(ev))
                if ev else "%d entries identical afterwards, no store into a caller-owned object" % len(now), sites)
        return
    for k in diff:
        a, b = sc.d0.get(k), now.get(k)
        if a is None or b is None:
            chk.add(key + "/" + str(k), RULE, VIOLATED, "the entry %r is %s by writing" % (k, "added" if a is None else "removed"), sites)
            continue
        verdict = None
        cases = list(write_cases(ffi, aux, True))
        cases += [(var + ", unusual text", odd_text(d, [0]), D, FF) for var, d, D, FF in cases]
        for var, d, D, FF in cases:
            env = env_of(ffi, d, D=D, FF=FF)
            chk.valuations += 1
            try:
                va, vb = Ev(env)(a), Ev(env)(b)
            except (EvErr, Unknown) as e:
                verdict = verdict or (UNDECIDED, str(e)[:150])
                continue
            if not deep_eq(va, vb) or type(va) is not type(vb):
                verdict = (VIOLATED, "FFI %d, %s: %s is %s before and %s after writing" % (ffi, var, k, str(va)[:120], str(vb)[:120]))
                break
        if verdict is None:
            verdict = (AGREES, "same value on every witness dictionary")
        chk.add(key + "/" + str(k), RULE, verdict[0], verdict[1], sites)


def run(chk):
    parallel(chk, one, [x + (False,) for x in write_items((False, True), (False, True))] + [x + (True,) for x in write_items((False,), (False,))])
