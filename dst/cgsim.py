"""Simulation of constraint graphs (C10): several clients add, remove and query
constraints of every kind on shared constraint graphs in a seeded interleaving;
constraints fail to name their variables at seeded calls, queries are
interrupted, readers run concurrently.  Reference: a set of variables and a
dictionary constraint -> variables per graph."""
from collections import Counter

from . import conc, seams
from .core import EXC, INJECTED, Violation, normal, short
from .graphsim import show

KINDS = ("plus", "func", "ncw", "nccw", "nobt", "nac", "user", "twin")


class World(object):
    def __init__(self, ctx, sut, sc):
        self.ctx, self.sut, self.sc = ctx, sut, sc
        self.layout = seams.Layout(sc["cfg"]["hash"], sc["cfg"]["hashseed"])
        self.graphs = {g: (sut.constraint.ConstraintGraph(), set(), {})
                       for g in sc["cfg"]["graphs"]}
        self.objs = {}        # cid -> constraint
        self.specs = {}
        self.fail = None      # pending failure of variables()
        self.calls = 0
        self.every = sc["cfg"].get("every", 1)   # look at everything how often
        self.n_ops, self.due = 0, True
        self.classes = self._classes()

    def n(self, v):
        return self.layout.name(v)

    def _classes(self):
        c, world, lay = self.sut.constraint, self, self.layout

        class Hashed(object):
            def __hash__(self):
                return lay.hash(self.cid)

            def __eq__(self, other):
                return self is other

            def variables(self):
                world.on_variables(self)
                return super(Hashed, self).variables()

        def wrap(base, make):
            class K(Hashed, base):
                def __init__(self, cid, vs):
                    self.cid = cid
                    make(base, self, vs)
            K.__name__ = base.__name__
            return K

        class User(Hashed, c.Constraint):
            """A user's constraint that names its variables itself"""

            def __init__(self, cid, vs):
                self.cid, self.vs = cid, vs

            def variables(self):
                world.on_variables(self)
                return list(self.vs)

            def satisfied(self, mapping):
                return True

            def __str__(self):
                return self.cid

        class Twin(User):
            """Equal by value: a second object may stand for the same constraint"""

            def __hash__(self):
                return lay.hash(self.cid)

            def __eq__(self, other):
                return isinstance(other, Twin) and other.cid == self.cid

        def three(b, s, vs):
            b.__init__(s, *vs)

        def func(b, s, vs):
            b.__init__(s, lambda *a: True, vs, name="f" + s.cid)
        return {"plus": wrap(c.PlusConstraint, three), "func": wrap(c.FunctionConstraint, func),
                "ncw": wrap(c.NotClockwiseConstraint, three),
                "nccw": wrap(c.NotCounterClockwiseConstraint, three),
                "nobt": wrap(c.NotObtuseConstraint, three),
                "nac": wrap(c.NotAcuteConstraint, three), "user": User, "twin": Twin}

    def on_variables(self, con):
        self.calls += 1
        if self.fail is not None and self.calls >= self.fail["n"]:
            exc = self.fail["exc"]
            self.fail = None
            self.fired = True
            self.ctx.faults["constraint fails to name its variables (%s)" % exc] += 1
            raise EXC[exc]("injected")

    def con(self, spec):
        cid = spec["id"]
        if cid not in self.objs:
            self.specs[cid] = spec
            self.objs[cid] = self.build(spec)
        elif self.specs[cid]["kind"] == "twin":
            return self.build(self.specs[cid])
        return self.objs[cid]

    def build(self, spec):
        return self.classes[spec["kind"]](spec["id"], [self.n(v) for v in spec["vs"]])

    def viol(self, kind, detail):
        self.ctx.log("DIVERGENCE", kind)
        raise Violation(kind, detail)

    # ---- questions

    def ask(self, cg, q):
        k = q["q"]
        if k == "variables":
            return list(cg.variables())
        if k == "constraints":
            return list(cg.constraints())
        vs = [self.n(v) for v in q["vs"]]
        if k == "on":
            return cg.get_constraints_on(vs[0])
        if q.get("tuple"):
            vs = tuple(vs)
        return cg.get_constraints_on_all(vs) if k == "all" else cg.get_constraints_on_any(vs)

    def expect(self, g, q):
        _, mv, mc = self.graphs[g]
        k = q["q"]
        if k == "variables":
            return Counter(mv)
        if k == "constraints":
            return Counter(list(mc))
        vs = set(q["vs"])
        if not vs:
            return Counter()
        if k == "on":
            return Counter(c for c, x in mc.items() if q["vs"][0] in x)
        if k == "all":
            return Counter(c for c, x in mc.items() if vs <= set(x))
        return Counter(c for c, x in mc.items() if vs & set(x))

    def judge(self, g, q, ans, where):
        got = normal("query " + q["q"], lambda: Counter(
            x.name if q["q"] == "variables" else x.cid for x in ans))
        want = self.expect(g, q)
        if got != want:
            self.viol("wrong-answer/" + q["q"], "%s: %s on %s answers %s, expected %s" % (
                where, q, g, short(show(got)), short(show(want))))

    def verify(self, where):
        if not self.due:
            return
        for g in sorted(self.graphs):
            cg, mv, mc = self.graphs[g]
            qs = [{"q": "variables"}, {"q": "constraints"}] + \
                [{"q": "on", "vs": [v]} for v in sorted(mv)]
            for q in qs:
                try:
                    ans = self.ask(cg, q)
                except Exception as e:
                    self.viol("unexpected-exception", "%s: %s on %s: %s: %s" % (
                        where, q, g, type(e).__name__, short(str(e))))
                self.judge(g, q, ans, where)

    # ---- operations

    def call(self, fn, fault=None):
        """(result, exception, fired)"""
        self.ctx.steps += 1
        self.calls, self.fail, self.fired = 0, None, False
        lf = None
        if fault:
            self.ctx.planned[fault["k"]] += 1
            if fault["k"] == "line":
                lf = seams.LineFault(fault["n"], fault["exc"], 300000)
            else:
                self.fail = fault
        res = exc = None
        try:
            if lf is not None:
                with lf:
                    res = fn()
            else:
                res = fn()
        except Exception as e:
            exc = e
        except BaseException as e:
            if not isinstance(e, INJECTED):
                raise
            exc = e
        self.fail = None
        if lf is not None and lf.fired:
            self.ctx.faults["interrupt at a line (%s)" % fault["exc"]] += 1
            self.fired = True
        return res, exc, self.fired

    def do(self, o):
        if o.get("g") not in self.graphs:
            return
        self.n_ops += 1
        self.due = self.n_ops % self.every == 0
        getattr(self, "op_" + o["op"])(o)
        self.ctx.states.add(o["g"] + repr(sorted(self.graphs[o["g"]][1])) +
                            repr(sorted(self.graphs[o["g"]][2].items())))

    def op_addv(self, o):
        cg, mv, mc = self.graphs[o["g"]]
        _, exc, _ = self.call(lambda: cg.add_variable(self.n(o["v"])))
        if exc is not None:
            self.viol("unexpected-exception", "add_variable: %r" % exc)
        mv.add(o["v"])
        self.ctx.log("addv", o["v"])
        self.verify("after add_variable(%s)" % o["v"])

    def op_remv(self, o):
        cg, mv, mc = self.graphs[o["g"]]
        v = o["v"]
        _, exc, _ = self.call(lambda: cg.rem_variable(self.n(v)))
        self.ctx.log("remv", v, type(exc).__name__)
        if exc is not None:
            self.viol("unexpected-exception", "rem_variable(%s): %r" % (v, exc))
        if v not in mv:
            self.ctx.probes["absent item removed"] += 1
        else:
            mv.discard(v)
            gone = [c for c, x in mc.items() if v in x]
            for c in gone:
                del mc[c]
            if gone:
                self.ctx.probes["variable removed with constraints on it"] += 1
        self.verify("after rem_variable(%s)" % v)

    def op_addc(self, o):
        cg, mv, mc = self.graphs[o["g"]]
        spec = self.specs.get(o["c"]["id"], o["c"])
        cid = spec["id"]
        con = self.con(spec)
        res, exc, fired = self.call(lambda: cg.add_constraint(con), o.get("fault"))
        self.ctx.log("addc", cid, spec["kind"], type(exc).__name__)
        if exc is not None and not fired:
            self.viol("unexpected-exception", "add_constraint(%s %s): %s: %s" % (
                spec["kind"], spec["vs"], type(exc).__name__, short(str(exc))))
        if cid in mc:
            self.ctx.probes["present constraint added again"] += 1
        elif fired:
            self.ctx.probes["addition failed"] += 1
            if exc is None:
                # the failure was swallowed: was it added or not?
                self.viol("failure-swallowed", "add_constraint(%s) hides that the constraint "
                          "could not name its variables" % cid)
        else:
            if not spec["vs"]:
                self.ctx.probes["constraint on nothing"] += 1
            mc[cid] = list(spec["vs"])
            mv.update(spec["vs"])
        self.verify("after %sadd_constraint(%s on %s)" % (
            "failed " if fired else "", cid, spec["vs"]))

    def op_remc(self, o):
        cg, mv, mc = self.graphs[o["g"]]
        cid = o["id"]
        if cid not in self.objs:
            return
        _, exc, _ = self.call(lambda: cg.rem_constraint(self.con(self.specs[cid])))
        self.ctx.log("remc", cid, type(exc).__name__)
        if exc is not None:
            self.viol("unexpected-exception", "rem_constraint(%s): %r" % (cid, exc))
        if cid not in mc:
            self.ctx.probes["absent item removed"] += 1
        else:
            del mc[cid]
        self.verify("after rem_constraint(%s)" % cid)

    def op_ask(self, o):
        cg = self.graphs[o["g"]][0]
        q = o["q"]
        res, exc, fired = self.call(lambda: self.ask(cg, q), o.get("fault"))
        self.ctx.log("ask", q["q"], type(exc).__name__, fired)
        if exc is not None and not fired:
            self.viol("unexpected-exception", "%s: %s: %s" % (q, type(exc).__name__,
                                                              short(str(exc))))
        if exc is None:
            self.judge(o["g"], q, res, "asked")
        if fired:
            self.verify("after a failed question")

    def op_scribble(self, o):
        """A client changes the list an answer came in"""
        cg = self.graphs[o["g"]][0]
        res, exc, _ = self.call(lambda: self.ask(cg, o["q"]))
        if exc is None and isinstance(res, list):
            res.append("junk")
            del res[:1]
            self.ctx.probes["returned list changed by the client"] += 1
        self.verify("after a client changed the answer to %s" % o["q"])

    def op_walk(self, o):
        """A client removes every constraint an answer lists, one by one"""
        cg, mv, mc = self.graphs[o["g"]]
        q = {"q": "on", "vs": [o["v"]]}
        res, exc, _ = self.call(lambda: self.ask(cg, q))
        if exc is not None:
            self.viol("unexpected-exception", "%s: %r" % (q, exc))
        self.judge(o["g"], q, res, "asked")
        try:
            for con in res:
                cg.rem_constraint(con)
                del mc[con.cid]
        except Exception as e:
            self.viol("unexpected-exception", "removing the constraints on %s: %r" % (o["v"], e))
        self.ctx.log("walk", o["v"])
        self.verify("after removing all constraints on %s" % o["v"])

    def op_readers(self, o):
        cg = self.graphs[o["g"]][0]
        self.fail = None
        cl = conc.Clients(self.ctx, o["sched"], o["scripts"], lambda me, i, q: self.ask(cg, q))
        for me, rs in enumerate(cl.run()):
            for q, res, exc, fired in rs:
                if fired and exc is not None:
                    continue
                if exc is not None:
                    self.viol("unexpected-exception", "reader %d: %s: %r" % (me, q, exc))
                self.judge(o["g"], q, res, "reader %d" % me)
        self.ctx.probes["simultaneous readers"] += 1
        self.verify("after simultaneous readers")


def run(sc, ctx, fresh):
    ctx.extra["scenario"] = sc
    with seams.LogSim(ctx, sc["cfg"].get("log", "off"), 2):
        w = World(ctx, fresh(), sc)
        for i, o in enumerate(sc["ops"]):
            ctx.log("#%d c%s" % (i, o.get("c_", 0)))
            w.do(o)
        w.due = True
        w.verify("in the end")
        if w.every > 1:
            ctx.probes["graph seldom looked at"] += 1
        ctx.nontrivial = ctx.steps > 4


def shrink_lists(sc):
    paths = [["ops"]] + conc.shrink_schedules(sc["ops"])
    for i, o in enumerate(sc["ops"]):
        for j, _ in enumerate(o.get("scripts", ())):
            paths.append(["ops", i, "scripts", j])
    return paths


def gen(prop, rng, tier="quick"):
    nv = rng.randint(2, 7)
    names = ["a%d" % i for i in range(nv)]
    graphs = ["g0"] if rng.random() < .6 else ["g0", "g1"]
    cfg = {"hash": rng.choice(seams.Layout.MODES), "hashseed": rng.randrange(1 << 30),
           "graphs": graphs, "log": rng.choice(["off", "off", "off", "ok", "full"])}
    if rng.random() < .2:
        cfg["every"] = rng.choice([2, 3, 5, 9, 1000])
    kinds = rng.sample(KINDS, rng.randint(1, len(KINDS)))
    faults = rng.random() < .5
    ops, specs = [], []
    weights = dict(addv=2, remv=3, addc=10, remc=4, readd=3, ask=6, scribble=.5, walk=1, readers=.5)
    names_w = sorted(weights)
    n_ops = rng.randint(4, 18) if rng.random() < .7 else rng.randint(15, 45)
    if tier == "thorough" and rng.random() < .3:
        n_ops *= 2

    def question():
        k = rng.choice(["variables", "constraints", "on", "all", "all", "any", "any"])
        q = {"q": k}
        if k == "on":
            q["vs"] = [rng.choice(names + ["zz"])]
        elif k in ("all", "any"):
            q["vs"] = [rng.choice(names + ["zz"] * (rng.random() < .3))
                       for _ in range(rng.choice([0, 1, 1, 2, 2, 2, 3, 4]))]
            if specs and rng.random() < .5:
                vs = rng.choice(specs)["vs"]
                q["vs"] = rng.sample(vs, rng.randint(0, len(vs)))
            q["tuple"] = rng.random() < .2
        return q

    def spec():
        k = rng.choice(kinds)
        n = 3 if k in ("plus", "ncw", "nccw", "nobt", "nac") else rng.choice([0, 1, 2, 2, 3, 4])
        if rng.random() < .2 or n > nv:
            vs = [rng.choice(names) for _ in range(n)]
        else:
            vs = rng.sample(names, n)
        s = {"id": "c%d" % len(specs), "kind": k, "vs": vs}
        specs.append(s)
        return s

    for _ in range(n_ops):
        k = rng.choices(names_w, [weights[x] for x in names_w])[0]
        o = {"op": k, "g": rng.choice(graphs), "c_": rng.randrange(3)}
        if k in ("addv", "remv", "walk"):
            o["v"] = rng.choice(names + (["zz"] if rng.random() < .1 else []))
        elif k in ("addc", "readd"):
            if k == "readd" and not specs:
                continue
            o["op"] = "addc"
            o["c"] = spec() if k == "addc" else rng.choice(specs)
            if faults and rng.random() < .25:
                o["fault"] = {"k": "vars", "n": rng.choice([1, 1, 1, 2]),
                              "exc": rng.choice(["error", "key", "memory", "interrupt"])}
                ops.append(o)
                if rng.random() < .5:
                    o = dict(o)
                    del o["fault"]
                else:
                    continue
        elif k == "remc":
            if not specs:
                continue
            o["id"] = rng.choice(specs)["id"]
        elif k in ("ask", "scribble"):
            o["q"] = question()
            if faults and k == "ask" and rng.random() < .3:
                o["fault"] = {"k": "line", "n": int(2 ** rng.uniform(0, 5)), "exc": "interrupt"} \
                    if rng.random() < .6 else {"k": "vars", "n": rng.randint(1, 3), "exc": "error"}
        elif k == "readers":
            o["scripts"] = [[question() for _ in range(rng.randint(1, 3))]
                            for _ in range(rng.randint(2, 3))]
            if rng.random() < .3:
                rng.choice(rng.choice(o["scripts"]))["fault"] = {
                    "n": rng.randint(1, 80), "exc": "interrupt"}
            o["sched"] = conc.random_spec(rng)
        ops.append(o)
    return {"kind": "cg", "prop": prop, "cfg": cfg, "ops": ops}
