"""Simulation of clients at work on separate objects (C16).  Every unit (a small
family of objects with a script) is first played alone in a freshly loaded
package; then all units are played together in one freshly loaded package, by
several clients preempted at bytecode granularity, some of them failing or
interrupted.  What a unit observes must be the same."""
from . import conc, seams, units
from .core import EXC, Violation, short


def solo(sc, fresh, u):
    layout = seams.Layout(sc["cfg"]["hash"], sc["cfg"]["hashseed"])
    unit = units.build(fresh(), layout, sc["units"][u])
    return [unit.step(i) for i in range(len(sc["units"][u]["ops"]))]


def run(sc, ctx, fresh):
    ctx.extra["scenario"] = sc
    with seams.LogSim(ctx, sc["cfg"].get("log", "off"), 2):
        play(sc, ctx, fresh)


def play(sc, ctx, fresh):
    scripts = [[dict(q) for q in s if q["u"] < len(sc["units"]) and
                q["i"] < len(sc["units"][q["u"]]["ops"])] for s in sc["scripts"]]
    # a unit's steps are played in order, each once
    want = {}
    for s in scripts:
        for q in s:
            if q["u"] not in want:
                want[q["u"]] = solo(sc, fresh, q["u"])
    layout = seams.Layout(sc["cfg"]["hash"], sc["cfg"]["hashseed"])
    sut = fresh()
    live = {u: units.build(sut, layout, sc["units"][u]) for u in sorted(want)}
    pos = {u: 0 for u in want}

    def act(me, i, q):
        n = pos[q["u"]]
        pos[q["u"]] = n + 1
        return n, live[q["u"]].step(n)
    ctx.steps += sum(len(s) for s in scripts)
    if sc["sched"] is None:
        # taking turns, one call at a time
        todo = [list(s) for s in scripts]
        results = [[] for _ in scripts]
        for me in sc["turns"]:
            if me < len(todo) and todo[me]:
                q = todo[me].pop(0)
                results[me].append((q, faulted(ctx, q, lambda: act(me, 0, q))))
        for me, t in enumerate(todo):
            for q in t:
                results[me].append((q, faulted(ctx, q, lambda: act(me, 0, q))))
        ctx.probes["clients take turns"] += 1
    else:
        cl = conc.Clients(ctx, sc["sched"], scripts, act)
        results = [[(q, (res, exc, fired)) for q, res, exc, fired in rs] for rs in cl.run()]
        ctx.probes["simultaneous clients"] += 1
    tainted = set()
    for me, rs in enumerate(results):
        for q, (res, exc, fired) in rs:
            u = q["u"]
            if u in tainted:
                continue
            if fired:
                # interrupted: what this unit observes from here on is its own affair
                tainted.add(u)
                continue
            if exc is not None:
                raise exc
            n, got = res
            if n >= len(want[u]):
                continue
            ctx.log(u, n, got)
            ctx.states.add(sc["units"][u]["kind"] + got[:200])
            if got != want[u][n]:
                raise Violation("not-isolated/" + sc["units"][u]["kind"], (
                    "client %d, %s unit %d, step %d %s: alone: %s; among others: %s" % (
                        me, sc["units"][u]["kind"], u, n, short(sc["units"][u]["ops"][n], 120),
                        short(want[u][n], 400), short(got, 400))))
    if tainted:
        ctx.probes["another client's operation interrupted"] += 1
    ctx.probes["kinds of objects: %d" % len({sc["units"][u]["kind"] for u in want})] += 1
    ctx.nontrivial = len(want) > 1


def faulted(ctx, q, fn):
    f = q.get("fault")
    if not f:
        return fn(), None, False
    ctx.planned["interrupt at a line"] += 1
    lf = seams.LineFault(f["n"], f["exc"], 500000)
    res = exc = None
    try:
        with lf:
            res = fn()
    except EXC["interrupt"] as e:
        exc = e
    if lf.fired:
        ctx.faults["interrupt at a line"] += 1
    return res, exc, lf.fired


def shrink_lists(sc):
    paths = [["scripts"]] + [["scripts", i] for i in range(len(sc["scripts"]))]
    if sc["sched"] is None:
        paths.append(["turns"])
    elif "switches" in sc["sched"]:
        paths.append(["sched", "switches"])
    used = {q["u"] for s in sc["scripts"] for q in s}
    return paths + [["units", u, "ops"] for u in range(len(sc["units"])) if u in used]


def gen(prop, rng, tier="quick"):
    cfg = {"hash": rng.choice(["spread", "small", "mixed", "collide"]),
           "hashseed": rng.randrange(1 << 30), "log": rng.choice(["off", "off", "ok", "full"])}
    nc = rng.choice([2, 2, 3])
    per = rng.choice([1, 1, 2])
    size = rng.choice([3, 6, 10]) if tier == "quick" or rng.random() < .6 else rng.randint(6, 24)
    kind = rng.choice(sorted(units.KINDS)) if rng.random() < .6 else None
    sc = {"kind": "iso", "prop": prop, "cfg": cfg, "units": [], "scripts": []}
    for c in range(nc):
        mine = []
        for _ in range(per):
            if sc["units"] and rng.random() < .15:
                # the same work on objects of its own
                spec = rng.choice(sc["units"])
            else:
                spec = units.gen_unit(rng, rng.randint(max(2, size // 2), size), kind)
            sc["units"].append(spec)
            mine.append(len(sc["units"]) - 1)
        script = [u for u in mine for _ in sc["units"][u]["ops"]]
        rng.shuffle(script)
        sc["scripts"].append([{"u": u, "i": 0} for u in script])
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4])):
        q = rng.choice(rng.choice(sc["scripts"]))
        q["fault"] = {"n": int(2 ** rng.uniform(0, 9)), "exc": "interrupt"}
    if rng.random() < .35:
        sc["sched"] = None
        sc["turns"] = [rng.randrange(nc) for _ in range(sum(map(len, sc["scripts"])))]
    else:
        sc["sched"] = dict(conc.random_spec(rng), max_steps=4000000)
        if rng.random() < .5:
            sc["sched"]["horizon"] = 8000
    return sc
