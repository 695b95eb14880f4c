"""Set-up: the code under test loads, and runs are exactly repeatable: the same
seeds in different processes, worker counts and hash seeds give the same event
logs.   dst.check --selftest"""
import os
import subprocess
import sys

from . import sut
from .props import PROPS

N = 24


def digests(prop, n, start=0):
    from .runner import make_scenario, play
    out = []
    for i in range(start, start + n):
        ctx, v = play(make_scenario(prop, 7, i, "quick"))
        out.append("%s %d %s %s" % (prop, i, ctx.digest(), v.kind if v else "-"))
    return out


def selftest():
    s = sut.fresh()
    print("code under test:", sut.REPO, "modules:", len(sut._codes), s.graph.__file__)
    bad = 0
    procs = []
    for hs in ("0", "1", "31337"):
        procs.append(subprocess.Popen(
            [sys.executable, "-B", "-m", "dst.selftest", str(N)],
            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
            env=dict(os.environ, PYTHONHASHSEED=hs), stdout=subprocess.PIPE))
    outs = [p.communicate()[0].decode().split("\n") for p in procs]
    for i, p in enumerate(procs):
        if p.returncode:
            print("self-test process", i, "failed with", p.returncode)
            bad += 1
    for other in outs[1:]:
        for a, b in zip(outs[0], other):
            if a != b:
                print("not repeatable:", a, "/", b)
                bad += 1
    print("%d event logs compared across 3 processes with different hash seeds: %s" % (
        len(outs[0]) - 1, "identical" if not bad else "%d DIFFERENCES" % bad))
    return 1 if bad else 0


if __name__ == "__main__":
    n = int(sys.argv[1])
    start = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    only = sys.argv[3:] or sorted(PROPS)
    for prop in only:
        for line in digests(prop, n, start):
            print(line)
