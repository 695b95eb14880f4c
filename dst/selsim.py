"""Simulation of selection constraints (C18): several clients evaluate shared
constraints over their own mappings, in a seeded order and simultaneously at
bytecode granularity; user predicates fail at seeded calls, evaluations are
interrupted, predicates evaluate other constraints.  Reference: exact
arithmetic on grid points, and the predicate applied to the right points."""
import functools

from . import conc, seams
from .core import EXC, INJECTED, Violation, short

KINDS = {"ncw": "NotClockwiseConstraint", "nccw": "NotCounterClockwiseConstraint",
         "nobt": "NotObtuseConstraint", "nac": "NotAcuteConstraint",
         "func": "FunctionConstraint", "plus": "PlusConstraint"}


class Predicate(object):
    """A user's predicate that is an object and has no name"""

    def __init__(self, f):
        self.f = f

    def __call__(self, *pts):
        return self.f(*pts)

    judge = __call__


def verdict(kind, p):
    """Exact verdict on three integer points"""
    (ax, ay), (bx, by), (cx, cy) = p
    if kind == "plus":
        return (ax + bx, ay + by) == (cx, cy)
    cross = (bx - ax) * (cy - by) - (by - ay) * (cx - bx)
    dot = (ax - bx) * (cx - bx) + (ay - by) * (cy - by)
    degenerate = (ax, ay) == (bx, by) or (bx, by) == (cx, cy)
    if kind in ("ncw", "nccw") and cross and abs(cross) < 1e-7:
        return None             # flat within tolerance, or not
    if kind == "ncw":
        return not cross < 0
    if kind == "nccw":
        return not cross > 0
    if kind == "nobt":
        return degenerate or not dot < 0
    return degenerate or not dot > 0


def judge_points(rule, p):
    """What a user's predicate says: depends on every point and on their order"""
    if rule == "order":
        return all((x + y) <= (u + v) for (x, y), (u, v) in zip(p, p[1:]))
    t = sum((j + 1) * x - (2 * j + 1) * y for j, (x, y) in enumerate(p))
    return t % 3 == 0 if rule == "mod" else t > 0


class World(object):
    def __init__(self, ctx, sut, sc):
        self.ctx, self.sut, self.sc = ctx, sut, sc
        self.layout = seams.Layout(sc["cfg"]["hash"], sc["cfg"]["hashseed"])
        self.cons = {}
        self.maps = {}
        self.fail = {}       # client -> (number of calls until failure, exception)
        self.me = lambda: 0

    def n(self, v):
        return self.layout.name(v)

    def viol(self, kind, detail):
        self.ctx.log("DIVERGENCE", kind)
        raise Violation(kind, detail)

    def build(self, spec):
        c = self.sut.constraint
        vs = [self.n(v) for v in spec["vs"]]
        if spec["kind"] != "func":
            return getattr(c, KINDS[spec["kind"]])(*vs)

        def predicate(*pts):
            me = self.me()
            if me in self.fail and self.fail[me] is not None:
                exc = self.fail[me]
                self.fail[me] = None
                self.raised[me] = exc
                raise exc
            inner = spec.get("inner")
            if inner in self.cons:
                # a predicate may consult another constraint
                m = {self.n(v): self.sut.Vector(*p) for v, p in spec["inner_map"].items()}
                got = self.cons[inner][0].satisfied(m)
                self.judge(inner, spec["inner_map"], got, "inside a predicate")
                self.ctx.probes["constraint evaluated inside a predicate"] += 1
            if judge_points(spec["rule"], [(p.x, p.y) for p in pts]):
                return True
            # anything else than True is no acceptance
            return {"nothing": None, "text": "too far apart", "number": 2, "zero": 0}.get(
                spec.get("otherwise"), False)
        predicate = {"partial": functools.partial, "object": Predicate,
                     "bound": lambda f: Predicate(f).judge}.get(
                         spec.get("callable"), lambda f: f)(predicate)
        lst = list(vs)
        con = c.FunctionConstraint(predicate, lst) if spec.get("noname") else \
            c.FunctionConstraint(predicate, lst, name=spec["id"])
        if spec.get("scribble"):
            lst.reverse()
            lst.append(self.n("junk"))
            self.ctx.probes["client reuses the list it passed"] += 1
        return con

    def judge(self, cid, m, got, where):
        spec = self.cons[cid][1]
        p = [tuple(m[v]) for v in spec["vs"]]
        want = judge_points(spec["rule"], p) if spec["kind"] == "func" else verdict(spec["kind"], p)
        if want is None:
            return
        self.ctx.states.add(repr((spec["kind"], spec.get("rule"), p)))
        self.ctx.probes["%s %s" % (spec["kind"], "accepts" if want else "rejects")] += 1
        if bool(got) != want:
            self.viol("wrong-verdict/" + spec["kind"], "%s: %s%s of %s is %s" % (
                where, KINDS[spec["kind"]], spec["vs"], p, got))

    def check_maps(self, where):
        for i in sorted(self.maps):
            d, m, objs = self.maps[i]
            now = {k.name: (v.x, v.y) for k, v in d.items()}
            if now != {k: (float(x), float(y)) for k, (x, y) in m.items()} or \
                    any(d[k] is not o for k, o in objs.items()):
                self.viol("mapping-changed", "%s: mapping %s was %s, is %s" % (
                    where, i, m, now))

    def check_vars(self, where):
        for i in sorted(self.cons):
            con, spec = self.cons[i]
            got = [getattr(v, "name", v) for v in con.variables()]
            if got != spec["vs"]:
                self.viol("constraint-changed", "%s: variables of %s were %s, are %s" % (
                    where, i, spec["vs"], got))

    def op_con(self, o):
        self.cons[o["c"]["id"]] = (self.build(o["c"]), o["c"])
        self.ctx.log("con", o["c"]["id"], o["c"]["kind"])

    def op_map(self, o):
        V = self.sut.Vector
        if o["id"] in self.maps and o.get("inplace"):
            # the client goes on with the same dictionary
            d, m, _ = self.maps[o["id"]]
            for v, p in o["m"].items():
                if v in m:
                    if o["inplace"] == "point":
                        x = d[self.n(v)]
                        x.x, x.y = p
                    else:
                        d[self.n(v)] = V(*p)
                    m[v] = list(p)
            self.ctx.probes["mapping changed between evaluations"] += 1
        else:
            m = {v: list(p) for v, p in o["m"].items()}
            d = {self.n(v): V(*p) for v, p in m.items()}
        self.maps[o["id"]] = (d, m, dict(d))
        self.ctx.log("map", o["id"])

    def known(self, o):
        return o["c"] in self.cons and o["m"] in self.maps and \
            all(v in self.maps[o["m"]][1] for v in self.cons[o["c"]][1]["vs"])

    def op_eval(self, o):
        if not self.known(o):
            return
        self.raised = {}
        con, spec = self.cons[o["c"]]
        f = o.get("fault")
        lf, self.fail = None, {}
        if f:
            self.ctx.planned[f["k"]] += 1
            if f["k"] == "line":
                lf = seams.LineFault(f["n"], f["exc"], 100000)
            elif spec["kind"] == "func":
                self.fail = {0: EXC[f["exc"]]("injected")}
        self.ctx.steps += 1
        res = exc = None
        d = self.maps[o["m"]][0]
        try:
            if lf is not None:
                with lf:
                    res = con.satisfied(d)
            else:
                res = con.satisfied(d)
        except Violation:
            raise
        except Exception as e:
            exc = e
        except BaseException as e:
            if not isinstance(e, INJECTED):
                raise
            exc = e
        self.fail = {}
        self.ctx.log("eval", o["c"], o["m"], res, type(exc).__name__)
        self.check_maps("after evaluating %s" % o["c"])
        if lf is not None and lf.fired:
            self.ctx.faults["interrupt at a line (%s)" % f["exc"]] += 1
            return
        if 0 in self.raised:
            self.ctx.faults["predicate fails (%s)" % f["exc"]] += 1
            if exc is None:
                self.viol("failure-swallowed", "the failure of the predicate of %s is hidden, the "
                          "verdict is %s" % (o["c"], res))
            if exc is not self.raised[0] and not isinstance(exc, type(self.raised[0])):
                self.viol("failure-changed", "the predicate of %s failed with %s, the caller sees "
                          "%s" % (o["c"], type(self.raised[0]).__name__, type(exc).__name__))
            return
        if exc is not None:
            self.viol("unexpected-exception", "%s: %s: %s" % (o["c"], type(exc).__name__,
                                                              short(str(exc))))
        self.judge(o["c"], self.maps[o["m"]][1], res, "alone")

    def op_missing(self, o):
        """A mapping that lacks variables of the constraint stays as it is"""
        if o["c"] not in self.cons:
            return
        self.raised, self.fail = {}, {}
        con, spec = self.cons[o["c"]]
        d = {self.n(v): self.sut.Vector(1, 2) for v in spec["vs"][1:]}
        before = sorted(k.name for k in d)
        try:
            con.satisfied(d)
        except Exception:     # noqa: how this fails is not specified
            pass
        if sorted(k.name for k in d) != before:
            self.viol("mapping-changed", "evaluating %s over an incomplete mapping changes it"
                      % o["c"])
        self.ctx.probes["incomplete mapping"] += 1
        self.ctx.log("missing", o["c"])

    def op_peek(self, o):
        if o["c"] not in self.cons:
            return
        vs = self.cons[o["c"]][0].variables()
        str(self.cons[o["c"]][0])
        if isinstance(vs, list):
            vs.reverse()
            vs.append(self.n("junk"))
        self.check_vars("after a client changed the list variables() gave it")

    def op_clients(self, o):
        scripts = [[q for q in s if self.known(q)] for s in o["scripts"]]
        self.raised, self.fail = {}, {}
        spec = o["sched"]

        def act(me, i, q):
            if q.get("boom") and self.cons[q["c"]][1]["kind"] == "func":
                self.fail[me] = EXC["error"]("injected %d.%d" % (me, i))
            try:
                return self.cons[q["c"]][0].satisfied(self.maps[q["m"]][0])
            finally:
                # whether this evaluation was to fail, and did
                left = self.fail.get(me)
                self.fail[me] = None
                if q.get("boom") and left is None:
                    fired[(me, i)] = self.raised.pop(me, None)
        fired = {}
        cl = conc.Clients(self.ctx, spec, scripts, act)
        self.me = lambda: cl.sched.current
        try:
            rs = cl.run()
        finally:
            self.me = lambda: 0
        self.check_maps("after simultaneous clients")
        self.check_vars("after simultaneous clients")
        for me, lst in enumerate(rs):
            for i, (q, res, exc, inter) in enumerate(lst):
                if exc is not None and inter:
                    continue
                if isinstance(exc, Violation):
                    raise exc
                boom = fired.get((me, i))
                if boom is not None:
                    self.ctx.faults["predicate fails among several clients"] += 1
                    if exc is not boom and not isinstance(exc, type(boom)):
                        self.viol("failure-swallowed", "client %d: the failure of its predicate "
                                  "became %r" % (me, exc if exc is not None else res))
                    continue
                if exc is not None:
                    self.viol("unexpected-exception", "client %d: %s: %r" % (me, q, exc))
                self.judge(q["c"], self.maps[q["m"]][1], res, "client %d of several" % me)
        self.ctx.probes["simultaneous clients"] += 1


def run(sc, ctx, fresh):
    ctx.extra["scenario"] = sc
    with seams.LogSim(ctx, sc["cfg"].get("log", "off"), 2):
        w = World(ctx, fresh(), sc)
        for i, o in enumerate(sc["ops"]):
            ctx.log("#%d c%s" % (i, o.get("c_", 0)))
            getattr(w, "op_" + o["op"])(o)
        w.check_vars("at the end")
        w.check_maps("at the end")
        ctx.nontrivial = ctx.steps > 1


def shrink_lists(sc):
    paths = [["ops"]] + conc.shrink_schedules(sc["ops"])
    for i, o in enumerate(sc["ops"]):
        for j, _ in enumerate(o.get("scripts", ())):
            paths.append(["ops", i, "scripts", j])
    return paths


def gen(prop, rng, tier="quick"):
    nv = rng.randint(3, 5)
    names = ["p%d" % i for i in range(nv)]
    span = rng.choice([1, 1, 2, 2, 5, 30])
    cfg = {"hash": rng.choice(seams.Layout.MODES), "hashseed": rng.randrange(1 << 30),
           "log": rng.choice(["off", "off", "ok", "full"])}
    faults = rng.random() < .6
    scale = rng.choice([1, 1, 1, .5, 2.0 ** -4, 2.0 ** -10, 2.0 ** -16, 64.0])
    ops, cons, maps = [], [], []

    def pts():
        out = {}
        for v in names:
            out[v] = [rng.randint(-span, span), rng.randint(-span, span)]
            if out and rng.random() < .12:
                out[v] = list(out[rng.choice(sorted(out))])
        if rng.random() < .3:       # one point is the sum of two others
            a, b, c = (rng.choice(names) for _ in range(3))
            out[c] = [out[a][0] + out[b][0], out[a][1] + out[b][1]]
        elif rng.random() < .4:     # collinear
            dx, dy = rng.choice([(1, 0), (0, 1), (1, 1), (-1, 2)])
            f = max(1, span // 2)
            for v in names:
                t = rng.randint(-f, f)
                out[v] = [t * dx, t * dy]
        # a power of two: verdicts on the scaled grid stay exact
        return {v: [x * scale, y * scale] for v, (x, y) in out.items()}

    def con():
        k = rng.choice(["ncw", "nccw", "nobt", "nac", "func", "func", "plus"])
        s = {"id": "s%d" % len(cons), "kind": k}
        n = 3 if k != "func" else rng.choice([0, 1, 2, 3, 3, 4, 5])
        s["vs"] = rng.sample(names, min(n, nv)) if rng.random() < .8 else \
            [rng.choice(names) for _ in range(n)]
        if k == "func":
            s["rule"] = rng.choice(["order", "mod", "pos"])
            s["scribble"] = rng.random() < .3
            s["noname"] = rng.random() < .2
            if rng.random() < .3:
                s["otherwise"] = rng.choice(["nothing", "text", "number", "zero"])
            s["callable"] = rng.choice(["def", "def", "partial", "object", "bound"])
            if cons and rng.random() < .2:
                s["inner"], s["inner_map"] = rng.choice(cons), pts()
        cons.append(s["id"])
        ops.append({"op": "con", "c": s})

    def mapping():
        if maps and rng.random() < .3:
            ops.append({"op": "map", "id": rng.choice(maps), "m": pts(),
                        "inplace": rng.choice(["point", "slot"])})
        else:
            maps.append("d%d" % len(maps))
            ops.append({"op": "map", "id": maps[-1], "m": pts()})

    for _ in range(rng.randint(1, 3)):
        con()
    for _ in range(rng.randint(1, 3)):
        mapping()
    n_ops = rng.randint(3, 14) if tier == "quick" or rng.random() < .6 else rng.randint(10, 40)
    for _ in range(n_ops):
        k = rng.choice(["eval"] * 8 + ["con", "map", "map", "peek", "missing", "clients"])
        if k == "con":
            con()
        elif k == "map":
            mapping()
        elif k == "eval":
            o = {"op": "eval", "c": rng.choice(cons), "m": rng.choice(maps), "c_": rng.randrange(3)}
            if faults and rng.random() < .35:
                o["fault"] = {"k": "line", "n": int(2 ** rng.uniform(0, 6)),
                              "exc": rng.choice(["interrupt", "memory"])} if rng.random() < .4 else \
                    {"k": "predicate", "exc": rng.choice(["error", "arith", "key", "interrupt",
                                                          "stop", "memory"])}
            ops.append(o)
        elif k in ("peek", "missing"):
            ops.append({"op": k, "c": rng.choice(cons)})
        else:
            def q(c=None):
                x = {"c": c or rng.choice(cons), "m": rng.choice(maps)}
                if faults and rng.random() < .2:
                    x["boom"] = True
                return x
            c = rng.choice(cons) if rng.random() < .6 else None
            scripts = [[q(c) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(2, 3))]
            if faults and rng.random() < .3:
                rng.choice(rng.choice(scripts))["fault"] = {"n": rng.randint(1, 200),
                                                            "exc": "interrupt"}
            ops.append({"op": "clients", "scripts": scripts, "sched": conc.random_spec(rng)})
    return {"kind": "sel", "prop": prop, "cfg": cfg, "ops": ops}
