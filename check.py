#!/usr/bin/env python3
"""usage: check.py <property id> [quick|thorough]   (reads /repo's current working tree)"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("MSA_REPO", "/repo")

from msa.program import Program, AnalysisError  # noqa: E402
from msa.rulelib import Check  # noqa: E402
from msa.registry import RULES  # noqa: E402


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=" + prop + " "):
                key, _, text = line[len("known: property=" + prop + " "):].partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


def selftest():
    """parse the tree and interpret every module once: the analyser works in this sandbox"""
    from msa.interp import Interp
    prog = Program(REPO)
    I = Interp(prog)
    from msa import selftest as T
    n = T.run()
    print(f"parsed {len(prog.modules)} modules, {len(prog.funcs)} functions; {n} analyser self-tests passed")
    return 0


def main():
    if sys.argv[1] == "--selftest":
        return selftest()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod, fn, level_note = RULES[prop]
    try:
        prog = Program(REPO)
        rule = getattr(importlib.import_module("msa.rules." + mod), fn)
        ck = Check(prop, prog, tier)
        rule(ck)
        kn = dict(known(prop))
        if any(f["key"] not in kn for f in ck.findings) and any(I.squeezed for I in ck.interps):
            # paths were joined along the way: look again with the paths kept apart before reporting
            c2 = Check(prop, prog, tier)
            c2.boost = True
            try:
                rule(c2)
                ck = c2
            except AnalysisError as e:
                ck.notes.append(f"second look with paths kept apart gave no answer: {e}")
        if not ck.obligations:
            raise AnalysisError("no obligations were generated")
    except AnalysisError as e:
        print(f"ERROR property={prop} analysis gave no answer: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop} analysis crashed", file=sys.stderr)
        return 2
    viol, listed = [], []
    for f in ck.findings:
        (listed if f["key"] in kn else viol).append(f)
    for f in listed:
        print(f"KNOWN-FINDING: property={prop} {kn[f['key']] or f['message']} [{f['where']}]")
    evdir = os.environ.get("MSA_EVID") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, f"{prop}.violations.json")
    if viol:
        with open(replay, "w") as fh:
            json.dump({"property": prop, "violations": viol}, fh, indent=1)
    elif os.path.exists(replay):
        os.remove(replay)
    total = sum(ck.obligations.values())
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": level_note,
            "obligations": total,
            "obligations_by_rule": ck.obligations,
            "failed_by_rule": ck.failed,
            "paths_examined": ck.paths,
            "modules_parsed": len(prog.modules),
            "functions_in_package": len(prog.funcs),
            "functions_analysed": sorted(ck.analysed),
            "interpreter_steps": sum(I.steps for I in ck.interps),
            "joins": sum(I.squeezed for I in ck.interps),
            "summarised_helpers": {k: v for I in ck.interps for k, v in I.collapsed.items()},
            "known_findings": [f["key"] for f in listed],
            "notes": ck.notes,
        },
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    with open(os.path.join(evdir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for f in viol:
        print(f"{f['where']}: [{f['rule']}] {f['message']}")
        for p in f["path"]:
            print("      " + p)
        print(f"VIOLATION property={prop} replay={replay}")
    print(f"{prop}: {total} obligations over {ck.paths} paths, {len(viol)} violations, {len(listed)} known findings, {time.time()-t0:.2f}s")
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
