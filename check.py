#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]   decide one property of /repo statically."""
import json
import os
import sys
import time
import importlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from nastatic import engine as E          # noqa: E402


def known(path):
    out = {}
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("finding:"):
                    # finding: property=<id> key=<obligation key> <what fails>
                    w = line.split(None, 3)
                    out[(w[1].split("=", 1)[1], w[2].split("=", 1)[1])] = w[3] if len(w) > 3 else ""
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    repo = os.environ.get("NASTATIC_REPO", "/repo")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = E.Chk(pid, repo, tier, seed)
    mod = importlib.import_module("nastatic.props." + pid.lower())
    t0 = time.time()
    mod.run(chk)
    wall = time.time() - t0
    kf = known(os.path.join(HERE, "known_findings.txt"))
    counts = {}
    for o in chk.obs:
        counts[o.status] = counts.get(o.status, 0) + 1
    bad, listed = [], []
    for o in chk.obs:
        if o.status == E.VIOLATED:
            if (pid, o.key) in kf:
                listed.append(o)
            else:
                bad.append(o)
    for o in chk.obs:
        if o.status == E.UNDECIDED:
            print("UNDECIDED %s [%s] %s" % (o.key, o.rule, o.detail[:300]))
        elif "-v" in argv:
            print("%-10s %s [%s] %s" % (o.status, o.key, o.rule, o.detail[:200]))
    for o in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, o.key, kf[(pid, o.key)] or o.detail[:200]))
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    expl = ("Static analysis of %d functions (%d call sites, %d statements visited) of %s in %d scenario(s) with symbolic "
            "inputs: %s" % (len(chk.funcs), chk.calls, chk.stmts, repo, chk.scenarios, getattr(mod, "METHOD", "")))
    cov = {
        "explanation": expl,
        "obligations": len(chk.obs),
        "discharged": counts.get(E.PROVED, 0),
        "agreeing_on_witness_valuations": counts.get(E.AGREES, 0),
        "undecided": counts.get(E.UNDECIDED, 0),
        "violated": counts.get(E.VIOLATED, 0),
        "functions_analysed": len(chk.funcs),
        "call_sites_analysed": chk.calls,
        "statements_analysed": chk.stmts,
        "scenarios": chk.scenarios,
        "witness_valuations": chk.valuations,
        "samples": [{"obligation": o.key, "rule": o.rule, "verdict": o.status, "detail": o.detail[:300], "constructs": o.where[:4]}
                    for o in (bad + listed + [x for x in chk.obs if x.status == E.UNDECIDED] + chk.obs)[:40]],
        "functions": sorted("%s:%s" % f for f in chk.funcs)[:200],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + sorted(chk.notes)[:20],
          "wall_s": round(wall, 3), "violations": len(bad)}
    with open(os.path.join(evdir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if chk.broken or not chk.obs:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, chk.broken or "no obligation was found"))
        return 2
    print("property=%s obligations=%d %s functions=%d wall=%.1fs" % (
        pid, len(chk.obs), " ".join("%s=%d" % kv for kv in sorted(counts.items())), len(chk.funcs), wall))
    if bad:
        rp = os.path.join(evdir, pid + ".violation.txt")
        with open(rp, "w") as fh:
            for o in bad:
                fh.write("obligation %s\nrule %s\n%s\nconstructs:\n  %s\n\n" % (o.key, o.rule, o.detail, "\n  ".join(o.where) or "-"))
        for o in bad[:10]:
            print("  %s [%s] %s" % (o.key, o.rule, o.detail[:400]))
            for w in o.where[:6]:
                print("      at " + w)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
