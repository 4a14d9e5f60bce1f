#!/usr/bin/env python3
"""development aid: build /verif/seeded/<id>/ from dev/seedsrc/*.py (SEEDS lists), verify every one in a scratch copy
(applies, compiles, stable tests pass, demo 0 without and nonzero with the patch) and report which checks catch it.
usage: seed.py [-n] [id ...]     (-n: skip the test suite, only demo + checks)"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, V)
from msa.registry import RULES
ENV = dict(os.environ, HOME="/root", LANG="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def seeds():
    out = []
    for f in sorted(glob.glob(HERE + "/seedsrc/*.py")):
        spec = importlib.util.spec_from_file_location("seedsrc_" + os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        out += m.SEEDS
    return out

def sh(cmd, cwd, timeout=900, env=ENV):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)

def one(job):
    s, notest = job
    sid = s["id"]
    d = f"/tmp/seed_{sid}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    msg = []
    try:
        for f, old, new in s["edits"]:
            p = f"{d}/mabel/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                return sid, f"BAD EDIT {f}: {t.count(old)} matches of {old[:50]!r}"
            open(p, "w").write(t.replace(old, new))
            compile(t.replace(old, new), p, "exec")
        out = f"{V}/seeded/{sid}"
        os.makedirs(out, exist_ok=True)
        patch = sh("git diff", d).stdout
        open(out + "/patch.diff", "w").write(patch)
        gone, cur = [], None
        for l in patch.splitlines():
            if l.startswith("--- a/"): cur = set(sh(f"git show 8ee997f:{l[6:]}", "/repo").stdout.splitlines())
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in cur: gone.append(l[1:])
        if gone: msg.append(f"!!NOT ORIGINAL LINES {gone[0][:60]!r}")
        open(out + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$here/demo.py"\n')
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        r = sh(f"bash {out}/demo.sh", d, 300)
        msg.append(f"demo(bad)={r.returncode}")
        if r.returncode == 0: msg.append("!!DEMO PASSES WITH BUG")
        # checks
        c = sh(f"python3 {V}/check.py {s['property']} quick", V, 900, dict(ENV, MSA_REPO=d, MSA_EVID=d + "/.ev"))
        msg.append({0: "MISSED", 1: "caught"}.get(c.returncode, f"rc={c.returncode}") + f" by {s['property']}")
        if not notest:
            sh("rm -rf _temp temp", d)
            t = sh("timeout 800 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -p no:xdist --tb=line --timeout=120 --continue-on-collection-errors --ignore=tests/storage_tests/minio_s3 --ignore=tests/storage_tests/google/test_rw_gcs.py --ignore=tests/storage_tests/google/test_rw_gcs_parquet.py -o junit_family=xunit2 --junitxml=junit.xml", d, 900, dict(ENV, PYTHONPATH=d))
            sh("python3 /opt/vp/results.py res.json junit:junit.xml", d)
            res = json.load(open(d + "/res.json"))
            bad = STABLE - set(res["passed"])
            msg.append("tests ok" if not bad else f"!!TESTS FAIL {len(bad)} {sorted(bad)[:3]}")
        sh("git checkout -q -- . && rm -rf _temp temp", d)
        r = sh(f"bash {out}/demo.sh", d, 300)
        msg.append(f"demo(clean)={r.returncode}")
        if r.returncode: msg.append("!!" + (r.stdout + r.stderr)[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return sid, "  ".join(msg)

def main():
    a = sys.argv[1:]
    notest = "-n" in a
    sel = [x for x in a if x != "-n"]
    jobs = [(s, notest) for s in seeds() if not sel or s["id"] in sel]
    with ThreadPoolExecutor(6) as ex:
        for sid, m in ex.map(one, jobs):
            print(sid, m, flush=True)
main()
