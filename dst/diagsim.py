"""Simulation of diagnostics (C17).  A history of units (see units.py) is played
with logging off and nothing printed; then again, each time in a freshly loaded
package, under other logging set-ups - sinks that work, are full, closed, write
short, fail to flush, or are so slow that other clients run meanwhile - and with
objects printed between steps and from inside user code.  All must observe the
same, every record must be rendered and every object printed."""
import logging

from . import conc, seams, units
from .core import INJECTED, Violation, short


def play_once(sc, ctx, fresh, setup):
    """Transcripts of all units under one set-up"""
    layout = seams.Layout(sc["cfg"]["hash"], sc["cfg"]["hashseed"])
    out = {u: [] for u in range(len(sc["units"]))}
    with seams.LogSim(ctx, setup["log"], setup["period"]) as log:
        if setup.get("level") is not None and setup["log"] != "off":
            for n in seams.LOGGERS:
                logging.getLogger(n).setLevel(setup["level"])
        sut = fresh()
        live = {u: units.build(sut, layout, sc["units"][u]) for u in out}
        pos = {u: 0 for u in out}

        def show(u, where):
            try:
                live[u].show()
            except INJECTED:
                raise
            except Exception as e:
                raise Violation("unprintable", "%s unit %d, %s: %s: %s" % (
                    sc["units"][u]["kind"], u, where, type(e).__name__, short(str(e))))
            ctx.probes["printed " + where.split(",")[0]] += 1

        def hook(u):
            def f(where):
                if setup["inside"]:
                    bad = []
                    try:
                        show(u, "inside user code, " + where)
                    except Violation as v:
                        bad.append(v)
                    if bad:
                        ctx.stop_violation = ctx.stop_violation or bad[0]
            return f
        for u in live:
            live[u].hook = hook(u)

        def act(me, i, q):
            u = q["u"]
            n = pos[u]
            pos[u] += 1
            if n >= len(sc["units"][u]["ops"]):
                return
            ctx.steps += 1
            out[u].append(live[u].step(n))
            if setup["print"] and (n * 7 + u) % setup["print"] == 0:
                show(u, "between steps")
        if setup.get("sched"):
            cl = conc.Clients(ctx, setup["sched"], sc["scripts"], act)
            log.slow = cl.sched.pause
            for rs in cl.run():
                for q, res, exc, fired in rs:
                    if exc is not None:
                        raise exc
        else:
            for me, s in enumerate(sc["scripts"]):
                for i, q in enumerate(s):
                    act(me, i, q)
        ctx.check_stop()
        if log.render_failures:
            raise Violation("unrenderable-record", short("; ".join(log.render_failures[:2])))
        if log.emitted:
            ctx.probes["records emitted to a %s sink" % setup["log"]] += log.emitted
    return out


def run(sc, ctx, fresh):
    ctx.extra["scenario"] = sc
    want = play_once(sc, ctx, fresh, {"log": "off", "period": 1, "print": 0, "inside": False})
    for u in sorted(want):
        ctx.log(u, sc["units"][u]["kind"], " / ".join(want[u]))
        ctx.states.update(sc["units"][u]["kind"] + t[:200] for t in want[u])
    for setup in sc["setups"]:
        got = play_once(sc, ctx, fresh, setup)
        ctx.log("set-up", setup["log"], setup["print"])
        for u in sorted(want):
            for n, (a, b) in enumerate(zip(want[u], got[u])):
                if a != b:
                    raise Violation("diagnostics-change-results/" + sc["units"][u]["kind"], (
                        "%s unit %d, step %d %s: silent: %s; with log %s, printing %s: %s" % (
                            sc["units"][u]["kind"], u, n, short(sc["units"][u]["ops"][n], 120),
                            short(a, 400), setup["log"], setup["print"], short(b, 400))))
    ctx.nontrivial = ctx.steps > 2


def shrink_lists(sc):
    used = {q["u"] for s in sc["scripts"] for q in s}
    return [["setups"], ["scripts"]] + [["scripts", i] for i in range(len(sc["scripts"]))] + \
        [["units", u, "ops"] for u in range(len(sc["units"])) if u in used] + \
        [["setups", i, "sched", "switches"] for i, s in enumerate(sc["setups"])
         if s.get("sched") and "switches" in s["sched"]]


def gen(prop, rng, tier="quick"):
    cfg = {"hash": rng.choice(["spread", "small", "mixed", "collide"]),
           "hashseed": rng.randrange(1 << 30)}
    size = rng.choice([3, 6, 12]) if tier == "quick" or rng.random() < .6 else rng.randint(8, 30)
    sc = {"kind": "diag", "prop": prop, "cfg": cfg, "units": [], "scripts": [], "setups": []}
    nc = rng.choice([1, 1, 2, 3])
    for c in range(nc):
        spec = units.gen_unit(rng, rng.randint(max(2, size // 2), size),
                              rng.choice(sorted(units.KINDS) + ["method", "conf", "cluster"]))
        sc["units"].append(spec)
        sc["scripts"].append([{"u": c} for _ in spec["ops"]])
    for _ in range(rng.randint(1, 3)):
        s = {"log": rng.choice(["ok", "ok", "full", "closed", "short", "flushfail", "off"]),
             "period": rng.choice([1, 1, 2, 3, 5]), "print": rng.choice([0, 1, 1, 2, 3]),
             "level": rng.choice([None, None, logging.INFO, logging.WARNING, 1]),
             "inside": rng.random() < .5}
        if nc > 1 and rng.random() < .3:
            s["log"] = rng.choice(["slow", "slow", "ok", "full"])
            s["sched"] = dict(conc.random_spec(rng), max_steps=4000000)
        sc["setups"].append(s)
    return sc
