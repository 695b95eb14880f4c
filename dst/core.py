"""Run context: event log, probes, fault bookkeeping, violations."""
import hashlib
import random
from collections import Counter


class Violation(Exception):
    """The property is broken.  kind: stable class used when minimising."""

    def __init__(self, kind, detail):
        Exception.__init__(self, "%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail


class SimStop(BaseException):
    """Raised inside code under test to end a run whose verdict is known"""


class SimHang(BaseException):
    """The code under test exceeded its step budget"""


class HangSuspect(BaseException):
    """Wall-clock guard fired: the run is repeated under a step budget"""


class InjectedError(Exception):
    """Fault: a failure of a user supplied computation"""


class InjectedInterrupt(KeyboardInterrupt):
    """Fault: an asynchronous interrupt"""


class InjectedMemory(MemoryError):
    """Fault: a failed allocation"""


class InjectedIO(OSError):
    """Fault: the log sink fails"""


class InjectedArith(ZeroDivisionError):
    """Fault: an arithmetic failure in a user supplied computation"""


class InjectedKey(KeyError):
    """Fault: a lookup failure in a user supplied computation"""


class InjectedStop(StopIteration):
    """Fault: StopIteration escaping from a user supplied computation"""


EXC = {"error": InjectedError, "interrupt": InjectedInterrupt,
       "memory": InjectedMemory, "io": InjectedIO, "arith": InjectedArith,
       "key": InjectedKey, "stop": InjectedStop}
INJECTED = tuple(EXC.values())


def rng_for(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def digest(text, n=10):
    return hashlib.sha1(text.encode("utf-8", "surrogatepass")).hexdigest()[:n]


class Ctx(object):
    """Everything one run records.  Never draws random numbers."""

    def __init__(self, keep_log=False):
        self.log_hash = hashlib.sha1()
        self.keep_log = keep_log
        self.lines = []
        self.steps = 0             # logical time: operations and scheduler steps
        self.probes = Counter()    # rare conditions reached
        self.faults = Counter()    # faults that really fired
        self.planned = Counter()   # faults configured
        self.states = set()        # digests of distinct states / interleavings
        self.nontrivial = False
        self.stop_violation = None  # violation found inside a callback
        self.extra = {}

    def log(self, *parts):
        line = " ".join(str(p) for p in parts)
        self.log_hash.update(line.encode("utf-8", "surrogatepass"))
        self.log_hash.update(b"\n")
        if self.keep_log:
            self.lines.append(line)

    def digest(self):
        return self.log_hash.hexdigest()

    def check_stop(self):
        if self.stop_violation is not None:
            raise self.stop_violation

    def fail(self, kind, detail):
        raise Violation(kind, detail)


def short(x, n=300):
    s = repr(x) if not isinstance(x, str) else x
    return s if len(s) <= n else s[:n] + "..."


def normal(kind, fn):
    """Normalises something the code under test returned; malformed results
    (wrong type, unusable) are violations, not harness errors"""
    try:
        return fn()
    except Violation:
        raise
    except Exception as e:   # noqa
        raise Violation(kind + "/malformed", "cannot interpret the result: %s: %s"
                        % (type(e).__name__, short(str(e))))
