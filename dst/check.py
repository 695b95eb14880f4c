"""Command line: dst.check PROPERTY [--tier T] | --replay FILE"""
import os
import sys


def main(argv):
    if argv and argv[0] == "--worker":
        from .runner import worker
        _, prop, seed, tier, start, step, count, deadline, out = argv
        worker(prop, int(seed), tier, int(start), int(step), int(count), float(deadline), out)
        return 0
    if argv and argv[0] in ("--replay", "--replay-quiet"):
        from .runner import replay
        ok, v, d, kind = replay(argv[1], verbose=argv[0] == "--replay")
        if ok:
            print("reproduced exactly")
            return 0
        if v is not None and v.kind == kind:
            print("same violation, other event log: %s (%s)" % (v, d))
            return 4
        print("not reproduced: %s (%s)" % (v, d))
        return 3
    if argv and argv[0] == "--setup":
        # nothing to build: checks load /repo's sources themselves
        import numpy
        print("interpreter", sys.executable, sys.version.split()[0], "numpy", numpy.__version__)
        return 0
    if argv and argv[0] == "--selftest":
        from .selftest import selftest
        return selftest()
    from .runner import check
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    kw = {}
    rest = argv[1:]
    while rest:
        k = rest.pop(0)
        if k == "--tier":
            tier = rest.pop(0)
        elif k == "--count":
            kw["count"] = int(rest.pop(0))
        elif k == "--workers":
            kw["workers"] = int(rest.pop(0))
        elif k == "--wall":
            kw["wall"] = float(rest.pop(0))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return check(prop, tier, seed, **kw)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:      # noqa
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
