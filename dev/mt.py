#!/usr/bin/env python3
"""development aid: apply text edits to a scratch copy of the package and run checks on it.
usage: mt.py [PROP ...]      runs every BAD edit of those properties (must alarm) and every GOOD edit
(must stay quiet) against the listed properties' checks"""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
from msa.registry import RULES
import glob

def load():
    bad, good = [], []
    for f in sorted(glob.glob(os.path.join(HERE, "edits", os.environ.get("MT_FILE", "*") + ".py"))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        bad += getattr(m, "BAD", []); good += getattr(m, "GOOD", [])
    return bad, good

def apply(edits):
    d = tempfile.mkdtemp(prefix="mt_", dir="/tmp")
    shutil.copytree(os.environ.get("MT_REPO", "/repo") + "/mabel", d + "/mabel", ignore=shutil.ignore_patterns("__pycache__"))
    for f, old, new in edits:
        p = d + "/mabel/" + f
        s = open(p).read()
        if s.count(old) != 1:
            shutil.rmtree(d)
            return None, f"{f}: pattern occurs {s.count(old)} times: {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
        try:
            compile(s.replace(old, new), p, "exec")
        except SyntaxError as e:
            shutil.rmtree(d)
            return None, f"{f}: {e}"
    return d, None

def run(job):
    kind, prop, edits, name, props = job
    d, err = apply(edits)
    if err:
        return (kind, prop, name, "BADEDIT " + err, "")
    res = []
    try:
        for p in props:
            r = subprocess.run(["python3", os.path.dirname(HERE) + "/check.py", p, "quick"], env=dict(os.environ, MSA_REPO=d, MSA_EVID=d), capture_output=True, text=True)
            res.append((p, r.returncode, (r.stdout + r.stderr)))
    finally:
        shutil.rmtree(d)
    if kind == "bad":
        p, rc, out = res[0]
        return (kind, prop, name, "caught" if rc == 1 else f"MISSED rc={rc}", out if rc != 1 else out.splitlines()[0][:200])
    al = [(p, rc) for p, rc, _ in res if rc]
    return (kind, prop, name, "quiet" if not al else f"ALARM {al}", "\n".join(o for p, rc, o in res if rc)[:1500])

def main():
    sel = sys.argv[1:] or sorted(RULES)
    bad, good = load()
    jobs = [("bad", b[0], b[1:-1], b[-1], [b[0]]) for b in bad if b[0] in sel]
    jobs += [("good", "*", g[:-1], g[-1], sel) for g in good]
    n = {"caught": 0, "quiet": 0}
    with ThreadPoolExecutor(8) as ex:
        for kind, prop, name, verdict, out in ex.map(run, jobs):
            n[verdict] = n.get(verdict, 0) + 1
            if verdict not in ("caught", "quiet"):
                print(f"{kind} {prop} {name}: {verdict}")
                if out: print("     " + out.replace("\n", "\n     ")[-700:])
            elif os.environ.get("V"):
                print(f"{kind} {prop} {name}: {verdict}   {out[:170]}")
    print(n)
main()
