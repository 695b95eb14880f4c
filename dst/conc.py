"""Concurrent clients: each client is a thread, exactly one runs at a time, and
the seeded scheduler decides at every executed bytecode (or line) who is next."""
import random

from . import locks, seams
from .core import INJECTED, SimHang, Violation, digest, short


def random_spec(rng):
    return {"policy": rng.choice(["random", "random", "pct"]),
            "p": rng.choice([.003, .01, .03, .1, .3]), "depth": rng.randint(1, 5),
            "horizon": rng.choice([100, 400, 1500]), "seed": rng.randrange(1 << 30),
            "opcodes": rng.random() < .75}


class Clients(object):
    """Runs client scripts concurrently.  A script is a list of operations; run
    (client, index, op) -> result is called for each, its results are kept."""

    def __init__(self, ctx, spec, scripts, act, faults=None):
        self.ctx = ctx
        self.spec = spec
        self.scripts = scripts
        self.act = act
        self.results = [[] for _ in scripts]   # (index, result, exception)
        self.fired = {}
        rng = random.Random(spec["seed"])
        self.sched = seams.Scheduler(
            rng=rng, policy=spec["policy"], p=spec["p"], depth=spec["depth"],
            horizon=spec["horizon"], switches=spec.get("switches"),
            opcodes=spec["opcodes"], max_steps=spec.get("max_steps", 400000))

    def _client(self, me):
        sched = self.sched
        for i, op in enumerate(self.scripts[me]):
            f = op.get("fault")
            if f:
                self.ctx.planned["interrupt in a client"] += 1

                def note(where, key=(me, i)):
                    self.fired[key] = True
                    self.ctx.probes["client interrupted in " + where] += 1
                    self.ctx.faults["interrupt in a client"] += 1
                sched.arm(me, f["n"], f["exc"], note)
            res = exc = None
            try:
                res = self.act(me, i, op)
            except SimHang:
                raise
            except Exception as e:
                exc = e
            except BaseException as e:
                if not isinstance(e, INJECTED):
                    raise
                exc = e
            sched.disarm(me)
            if self.fired.get((me, i)):
                locks.abandon()
            self.results[me].append((op, res, exc, self.fired.get((me, i), False)))

    def run(self):
        """Returns per client a list of (op, result, exception, fault fired)"""
        ctx = self.ctx
        outcome = self.sched.run([self._client] * len(self.scripts))
        self.spec["switches"] = self.sched.switch_list()
        ctx.steps += self.sched.steps
        ctx.extra.setdefault("counts", {})
        c = ctx.extra["counts"]
        c["preemptions"] = c.get("preemptions", 0) + self.sched.preempts
        c["scheduler steps"] = c.get("scheduler steps", 0) + self.sched.steps
        if self.sched.preempts:
            ctx.probes["client preempted inside a call"] += 1
        d = digest(repr(self.sched.trail), 12)
        ctx.states.add("interleaving " + d)
        ctx.log("interleaving", d, "steps", self.sched.steps)
        for i, e in enumerate(outcome):
            if isinstance(e, SimHang):
                raise Violation("no-termination", "client %d: %s" % (i, e))
            if e is not None:
                raise e
        return self.results


def shrink_schedules(ops, prefix=("ops",), key="sched"):
    """Paths of the explicit switch lists inside operations"""
    return [list(prefix) + [i, key, "switches"] for i, o in enumerate(ops)
            if isinstance(o, dict) and key in o and "switches" in o[key]]
