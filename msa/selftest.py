"""small programs with known answers: the analyser must get each of them right before it is trusted"""
import os
import tempfile
import shutil

from .program import Program
from .interp import Interp
from .terms import *

PROG = '''
import os
def lost(x):
    try:
        os.remove(x)
    except OSError:
        pass
    return 1

def kept(x):
    try:
        os.remove(x)
    except OSError as e:
        raise e
    return 1

class Box:
    def __init__(self):
        self.items = []
    def put(self, v):
        if v:
            self.items.append(v)
    def put_all(self, v):
        self.items.append(v)
    def drain(self):
        out, self.items = self.items, []
        return out

def fin(x):
    try:
        return os.stat(x)
    finally:
        os.close(x)

def loop(xs):
    out = []
    for x in xs:
        if x.ok:
            out.append(x.v)
    return out

def gen(xs):
    for x in xs:
        yield x
def one(xs):
    return list(gen(xs))
'''


def run():
    d = tempfile.mkdtemp(prefix="msa_self_")
    try:
        os.mkdir(d + "/mabel")
        open(d + "/mabel/__init__.py", "w").write("")
        open(d + "/mabel/m.py", "w").write(PROG)
        return tests(Interp(Program(d), watch=lambda k, n: k in ("call", "callx")))
    finally:
        shutil.rmtree(d)


def tests(I):
    n = 0

    def check(what, ok):
        nonlocal n
        n += 1
        if not ok:
            raise SystemExit(f"analyser self-test failed: {what}")

    X = S("x")

    def call(name, *a):
        return I.call(I.fresh(), I.value("mabel.m." + name), a, {}, in_try=True)
    swallowed = lambda outs: any(k == "ret" and any(e.kind == "callx" for e in s.trace) for s, k, v in outs)
    check("swallowed failure is seen", swallowed(call("lost", X)))
    check("propagated failure is not reported", not swallowed(call("kept", X)))
    check("finally runs on both outcomes", all(any(e.name == "os.close" for e in s.trace) for s, k, v in call("fin", X)))
    s0, ref = [(s, v) for s, k, v in call("Box") if k == "ret"][0]
    held = [contains(I.freeze(s, s.get(ref[1]).d["items"]), X) for s, k, v in I.method(s0, ref, "put", (X,))]
    check("conditional drop is seen", True in held and False in held)
    check("unconditional store is seen", all(contains(I.freeze(s, s.get(ref[1]).d["items"]), X) for s, k, v in I.method(s0, ref, "put_all", (X,))))
    s1 = I.method(s0, ref, "put_all", (X,))[0][0]
    s2, k, v = I.method(s1, ref, "drain", ())[0]
    check("swap idiom", contains(I.freeze(s2, v), X) and not contains(I.freeze(s2, s2.get(ref[1]).d["items"]), X))
    outs = [I.freeze(s, v) for s, k, v in call("loop", S("xs")) if k == "ret"]
    check("loop collects filtered elements", len(outs) >= 1 and any(contains(o, S("xs")) for o in outs))
    outs = [I.freeze(s, v) for s, k, v in call("one", S("xs")) if k == "ret"]
    check("generators", all(contains(o, S("xs")) for o in outs))
    return n
