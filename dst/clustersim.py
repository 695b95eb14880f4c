"""Simulation of clusters (C11, C12): several clients make, intersect, compare,
count, print and drop clusters of every kind over shared points, in a seeded
interleaving and simultaneously at bytecode granularity; operations are
interrupted at executed lines and their log sink fails.  Reference: a cluster
is its kind, its centre and its set of points; the sharing rules are written
down in `meet`, what each kind determines in `determines`."""
from itertools import combinations

from . import conc, seams
from .core import INJECTED, Violation, normal, short


def meet(a, b):
    """The rules of sharing: intersection of two (kind, centre, others)"""
    (ka, ca, xa), (kb, cb, xb) = a, b
    if ka == "H" and kb == "H":
        x = xa & xb
        return ("H", ca, x) if ca == cb and len(x) >= 2 else None
    if ka == "H" or kb == "H":
        c, spokes, other = (ca, xa, xb) if ka == "H" else (cb, xb, xa)
        x = spokes & other
        return ("H", c, x) if c in other and len(x) >= 2 else None
    x = xa & xb
    if ka == kb == "R":
        return ("R", None, x) if len(x) >= 2 else None
    return ("B", None, x) if len(x) >= 3 else None


def determines(c):
    """Distances and angles a cluster determines"""
    k, ctr, xs = c
    dist, ang = set(), set()
    if k == "R":
        dist = {("d", frozenset(p)) for p in combinations(sorted(xs), 2)}
    if k == "H":
        ang = {("a", ctr, frozenset(p)) for p in combinations(sorted(xs), 2)}
    else:
        ang = {("a", m, frozenset(p)) for p in combinations(sorted(xs), 2)
               for m in xs if m not in p}
    return dist, ang


class World(object):
    def __init__(self, ctx, sut, sc):
        self.ctx, self.sut, self.sc = ctx, sut, sc
        self.prop = sc["prop"]
        self.layout = seams.Layout(sc["cfg"]["hash"], sc["cfg"]["hashseed"])
        self.pool = {}         # id -> (cluster, model)
        self.log = None

    def n(self, v):
        return self.layout.name(v)

    def viol(self, kind, detail):
        self.ctx.log("DIVERGENCE", kind)
        raise Violation(kind, detail)

    # ---- reading clusters

    def model(self, c):
        """Kind, centre and points of a cluster object"""
        m = self.sut.cluster
        k = "R" if isinstance(c, m.Rigid) else "H" if isinstance(c, m.Hedgehog) else \
            "B" if isinstance(c, m.Balloon) else None
        if k is None:
            self.viol("intersection/type", "not a cluster: %s" % short(c))
        names = [p.name for p in c.vars]
        if k == "H":
            x = frozenset(p.name for p in c.x_vars)
            if set(names) != x | {c.c_var.name}:
                self.viol("hedgehog-inconsistent", "centre %s, spokes %s, but points %s" % (
                    c.c_var, sorted(x), sorted(names)))
            got = (k, c.c_var.name, x)
        else:
            got = (k, None, frozenset(names))
        if sorted(p.name for p in c.var_list()) != sorted(set(names)):
            self.viol("var-list", "var_list() names %s, points are %s" % (
                short([str(p) for p in c.var_list()]), sorted(names)))
        return got

    def check_pool(self, where, ids=None):
        for i in sorted(self.pool) if ids is None else ids:
            c, m, flag = self.pool[i]
            got = normal("cluster", lambda: self.model(c))
            if got != m:
                self.viol("operand-modified", "%s: cluster %s was %s, is %s" % (
                    where, i, fmt(m), fmt(got)))
            if bool(c.overconstrained) != flag:
                self.viol("operand-modified", "%s: overconstrained flag of %s changed to %s" % (
                    where, i, c.overconstrained))

    def canon(self, rels, where):
        """Set of relations in canonical form; duplicates are violations"""
        r = self.sut.relation
        out = []
        for x in rels:
            p = [q.name for q in x.points]
            if isinstance(x, r.Distance):
                out.append(("d", frozenset(p)))
            elif isinstance(x, r.Angle):
                out.append(("a", p[1], frozenset((p[0], p[2]))))
            else:
                self.viol("relation/type", "%s contains %s" % (where, short(x)))
        if len(out) != len(set(out)):
            dup = sorted({fmt_rel(x) for x in out if out.count(x) > 1})
            self.viol("duplicate-relation", "%s lists %s twice" % (where, ", ".join(dup)))
        return set(out)

    # ---- calls

    def call(self, fn, fault=None):
        self.ctx.steps += 1
        lf = None
        if fault:
            self.ctx.planned[fault["k"]] += 1
            if fault["k"] == "line":
                lf = seams.LineFault(fault["n"], fault["exc"], 300000)
            elif self.log.mode == "raising":
                self.log.raise_at = fault["n"]
        fired = []
        self.log.fired = lambda: (fired.append(1), self.ctx.faults.update(
            {"log sink failure reaching the caller": 1}))
        res = exc = None
        try:
            if lf is not None:
                with lf:
                    res = fn()
            else:
                res = fn()
        except Exception as e:
            exc = e
        except BaseException as e:
            if not isinstance(e, INJECTED):
                raise
            exc = e
        self.log.raise_at = None
        if lf is not None and lf.fired:
            self.ctx.faults["interrupt at a line (%s)" % fault["exc"]] += 1
            self.ctx.probes["interrupted in " + lf.where.split(":")[1]] += 1
            fired.append(1)
        return res, exc, bool(fired)

    def do(self, o):
        getattr(self, "op_" + o["op"])(o)

    def op_new(self, o):
        m = self.sut.cluster
        pts = [self.n(v) for v in o["vs"]]
        coll = {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset,
                "iter": iter}[o["coll"]](pts)
        if o["kind"] == "H":
            c = m.Hedgehog(self.n(o["c"]), coll)
            mod = ("H", o["c"], frozenset(o["vs"]) - {o["c"]})
            if o["c"] in o["vs"]:
                self.ctx.probes["centre named among the spokes"] += 1
        else:
            c = (m.Rigid if o["kind"] == "R" else m.Balloon)(coll)
            mod = (o["kind"], None, frozenset(o["vs"]))
        if o.get("over"):
            c.overconstrained = True
        if o["coll"] in ("list", "set") and o.get("scribble"):
            coll.clear()        # the client goes on using its own collection
            self.ctx.probes["client reuses the collection it passed"] += 1
        self.ctx.log("new", o["id"], fmt(mod))
        self.pool[o["id"]] = (c, mod, bool(o.get("over")))
        self.check_pool("after construction")

    def op_small(self, o):
        """Too few points for the kind, some of them named repeatedly"""
        m = self.sut.cluster
        pts = [self.n(v) for v in o["vs"]]
        exc = c = None
        try:
            c = m.Hedgehog(self.n(o["c"]), pts) if o["kind"] == "H" else m.Balloon(pts)
        except ValueError as e:
            exc = e
        self.ctx.steps += 1
        self.ctx.log("small", o["kind"], o["vs"], type(exc).__name__)
        self.ctx.probes["cluster with too few points refused"] += 1
        if exc is None:
            self.viol("small-cluster-accepted", "%s on %s: %s" % (
                {"H": "Hedgehog around %s" % o["c"], "B": "Balloon"}[o["kind"]], o["vs"], short(c)))
        self.check_pool("after a refused construction")

    def op_varlist(self, o):
        """A client uses the list of points it was given as its own"""
        if o["id"] not in self.pool:
            return
        c = self.pool[o["id"]][0]
        mine = c.var_list()
        self.ctx.steps += 1
        self.ctx.log("varlist", o["id"], sorted(p.name for p in mine))
        if isinstance(mine, list):
            mine.append(self.n("junk"))
            del mine[0]
        elif isinstance(mine, set):
            mine.add(self.n("junk"))
        self.check_pool("after a client changed the list of points of %s" % o["id"])

    def op_drop(self, o):
        self.pool.pop(o["id"], None)
        self.ctx.log("drop", o["id"])

    def op_print(self, o):
        if o["id"] in self.pool:
            str(self.pool[o["id"]][0])
            self.check_pool("after printing")

    # ---- C11

    def judge_meet(self, i, j, res, where):
        ma, mb = self.pool[i][1], self.pool[j][1]
        want = meet(ma, mb)
        if res is None:
            got = None
        else:
            got = normal("intersection", lambda: self.model(res))
        self.ctx.states.add(repr((ma[0], mb[0], len(ma[2] & mb[2]), ma[1] == mb[1],
                                  ma[1] in mb[2], mb[1] in ma[2], want and (want[0], len(want[2])))))
        self.ctx.probes["intersection %s%s gives %s" % (ma[0], mb[0], want[0] if want else "none")] += 1
        if got != want:
            self.viol("wrong-intersection", "%s: %s & %s gives %s, expected %s" % (
                where, fmt(ma), fmt(mb), fmt(got), fmt(want)))
        if res is not None:
            if bool(res.overconstrained):
                self.viol("wrong-intersection", "%s: %s & %s is marked overconstrained" % (
                    where, fmt(ma), fmt(mb)))
            if any(res is self.pool[x][0] for x in (i, j)):
                self.viol("result-aliases-operand", "%s: %s & %s returns an operand itself" % (
                    where, fmt(ma), fmt(mb)))
        return got

    def op_meet(self, o):
        i, j = o["a"], o["b"]
        if i not in self.pool or j not in self.pool:
            return
        a, b = self.pool[i][0], self.pool[j][0]
        res, exc, fired = self.call(lambda: a.intersection(b), o.get("fault"))
        self.ctx.log("meet", i, j, type(exc).__name__, fired)
        if exc is not None and not fired:
            self.viol("unexpected-exception", "%s & %s: %s: %s" % (
                fmt(self.pool[i][1]), fmt(self.pool[j][1]), type(exc).__name__, short(str(exc))))
        got = None
        if exc is None:
            got = self.judge_meet(i, j, res, "alone")
        self.check_pool("after %sintersection of %s and %s" % ("failed " if exc else "", i, j))
        if exc is None and o.get("twice"):
            r2 = a.intersection(b)
            self.judge_meet(i, j, r2, "repeated")
            if res is not None and r2 is res:
                self.viol("result-shared", "two intersections return one object")
            r3 = b.intersection(a)
            self.judge_meet(j, i, r3, "swapped")
        if exc is None and res is not None:
            if o.get("scribble"):
                # a client goes on building with the result
                for name in ("vars", "x_vars"):
                    s = getattr(res, name, None)
                    if isinstance(s, set):
                        s.add(self.n("junk"))
                        s.discard(self.n(sorted(got[2])[0]))
                self.ctx.probes["result changed by the client"] += 1
                self.check_pool("after a client changed the result of %s & %s" % (i, j))
                self.judge_meet(i, j, a.intersection(b), "after a client changed the last result")
            elif o.get("store"):
                self.pool[o["store"]] = (res, got, False)
                self.ctx.probes["intersection used as an operand"] += 1

    # ---- C12

    def expect_common(self, what, i, j):
        (da, aa), (db, ab) = determines(self.pool[i][1]), determines(self.pool[j][1])
        d, a = da & db, aa & ab
        return d if what == "distances" else a if what == "angles" else d | a

    def ask_common(self, what, i, j):
        return getattr(self.pool[i][0], "common_" + what)(self.pool[j][0])

    def judge_common(self, what, i, j, res, where):
        w = "%s: common_%s(%s, %s)" % (where, what, fmt(self.pool[i][1]), fmt(self.pool[j][1]))
        got = normal("common", lambda: self.canon(res, w))
        want = self.expect_common(what, i, j)
        self.ctx.states.add(repr((what, self.pool[i][1][0], self.pool[j][1][0], len(want),
                                  len(self.pool[i][1][2] & self.pool[j][1][2]))))
        self.ctx.probes["common %s of %s%s: %s" % (what, self.pool[i][1][0], self.pool[j][1][0],
                                                   "some" if want else "none")] += 1
        if got != want:
            self.viol("wrong-common", "%s: missing %s, wrong %s" % (
                w, [fmt_rel(x) for x in sorted(want - got, key=fmt_rel)][:6],
                [fmt_rel(x) for x in sorted(got - want, key=fmt_rel)][:6]))
        return got

    def op_common(self, o):
        i, j, what = o["a"], o["b"], o["what"]
        if i not in self.pool or j not in self.pool:
            return
        res, exc, fired = self.call(lambda: self.ask_common(what, i, j), o.get("fault"))
        self.ctx.log("common", what, i, j, type(exc).__name__, fired)
        if exc is not None and not fired:
            self.viol("unexpected-exception", "common_%s(%s, %s): %s: %s" % (
                what, fmt(self.pool[i][1]), fmt(self.pool[j][1]), type(exc).__name__,
                short(str(exc))))
        if exc is None:
            self.judge_common(what, i, j, res, "alone")
            # swapped: spelled possibly differently, yet the same set
            other = self.ask_common(what, j, i)
            self.judge_common(what, j, i, other, "swapped")
            same = normal("common", lambda: set(res) == set(other))
            if not same:
                self.viol("spelling", "common_%s of %s and %s differs from the swapped one as a set"
                          % (what, fmt(self.pool[i][1]), fmt(self.pool[j][1])))
            if o.get("scribble") and isinstance(res, set):
                res.clear()
                self.ctx.probes["result changed by the client"] += 1
                self.judge_common(what, i, j, self.ask_common(what, i, j),
                                  "after a client changed the last result")
        self.check_pool("after common_%s" % what)

    def op_count(self, o):
        i = o["a"]
        if i not in self.pool:
            return
        c = self.pool[i][0]
        res, exc, fired = self.call(
            lambda: (c.n_distances(), c.n_angles(), c.n_constraints()), o.get("fault"))
        self.ctx.log("count", i, fired)
        if exc is not None and not fired:
            self.viol("unexpected-exception", "counting %s: %r" % (fmt(self.pool[i][1]), exc))
        if exc is None:
            self.judge_count(i, res, "alone")
            for what, n in zip(("distances", "angles", "constraints"), res):
                if len(self.ask_common(what, i, i)) != n:
                    self.viol("wrong-count", "%s: n_%s() is %s, common with itself are %d" % (
                        fmt(self.pool[i][1]), what, n, len(self.ask_common(what, i, i))))

    def judge_count(self, i, res, where):
        d, a = determines(self.pool[i][1])
        want = (len(d), len(a), len(d) + len(a))
        if tuple(res) != want:
            self.viol("wrong-count", "%s: %s: distances, angles, constraints %s, expected %s" % (
                where, fmt(self.pool[i][1]), res, want))

    def op_relation(self, o):
        """Relations spelled in different ways"""
        r = self.sut.relation

        def make(s):
            pts = [self.n(v) for v in s]
            return (r.Distance if len(s) == 2 else r.Angle)(*pts)

        def canon(s):
            return frozenset(s) if len(s) == 2 else (s[1], frozenset((s[0], s[2])))
        objs = [(make(s), canon(s), s) for s in o["rels"]]
        self.ctx.log("relation", o["rels"])
        self.ctx.steps += 1
        for x, cx, sx in objs:
            for y, cy, sy in objs:
                if (x == y) != (cx == cy) or (x != y) == (cx == cy):
                    self.viol("relation-equality", "%s == %s is %s" % (sx, sy, x == y))
                if cx == cy and hash(x) != hash(y):
                    self.viol("relation-hash", "%s and %s are equal with different hashes" % (sx, sy))
            if x == "other" or x == o:
                self.viol("relation-equality", "%s equals something else" % (sx,))
        if len({x for x, _, _ in objs}) != len({c for _, c, _ in objs}):
            self.viol("relation-equality", "a set of %s holds %d" % (
                o["rels"], len({x for x, _, _ in objs})))

    # ---- simultaneous clients

    def op_clients(self, o):
        scripts = [[q for q in s if all(q[k] in self.pool for k in ("a", "b") if k in q)]
                   for s in o["scripts"]]

        def act(me, i, q):
            a = self.pool[q["a"]][0]
            if q["q"] == "meet":
                return a.intersection(self.pool[q["b"]][0])
            if q["q"] == "common":
                return self.ask_common(q["what"], q["a"], q["b"])
            if q["q"] == "count":
                return (a.n_distances(), a.n_angles(), a.n_constraints())
            return str(a)
        cl = conc.Clients(self.ctx, o["sched"], scripts, act)
        made = []
        for me, rs in enumerate(cl.run()):
            for q, res, exc, fired in rs:
                if exc is not None and fired:
                    continue
                if exc is not None:
                    self.viol("unexpected-exception", "client %d: %s: %r" % (me, q, exc))
                w = "client %d of several" % me
                if q["q"] == "meet":
                    self.judge_meet(q["a"], q["b"], res, w)
                    if res is not None:
                        made.append(res)
                elif q["q"] == "common":
                    self.judge_common(q["what"], q["a"], q["b"], res, w)
                elif q["q"] == "count":
                    self.judge_count(q["a"], res, w)
        if len({id(x) for x in made}) != len(made):
            self.viol("result-shared", "simultaneous intersections return one object")
        self.ctx.probes["simultaneous clients"] += 1
        self.check_pool("after simultaneous clients")


def fmt(m):
    if m is None:
        return "nothing"
    k = {"R": "Rigid", "H": "Hedgehog", "B": "Balloon"}[m[0]]
    return "%s(%s%s)" % (k, m[1] + "; " if m[1] else "", ",".join(sorted(m[2])))


def fmt_rel(x):
    return "d(%s)" % ",".join(sorted(x[1])) if x[0] == "d" else \
        "a(%s at %s)" % (",".join(sorted(x[2])), x[1])


def run(sc, ctx, fresh):
    ctx.extra["scenario"] = sc
    with seams.LogSim(ctx, sc["cfg"].get("log", "off"), 2) as log:
        w = World(ctx, fresh(), sc)
        w.log = log
        for i, o in enumerate(sc["ops"]):
            ctx.log("#%d c%s" % (i, o.get("c_", 0)))
            w.do(o)
        ctx.nontrivial = ctx.steps > 2


def shrink_lists(sc):
    paths = [["ops"]] + conc.shrink_schedules(sc["ops"])
    for i, o in enumerate(sc["ops"]):
        for j, _ in enumerate(o.get("scripts", ())):
            paths.append(["ops", i, "scripts", j])
    return paths


def gen(prop, rng, tier="quick"):
    np_ = rng.choice([3, 4, 5, 5, 6, 7, 8]) if tier == "quick" or rng.random() < .6 \
        else rng.randint(3, 12)
    pts = ["p%d" % i for i in range(np_)]
    cfg = {"hash": rng.choice(seams.Layout.MODES), "hashseed": rng.randrange(1 << 30),
           "log": rng.choice(["off", "off", "ok", "full", "raising"])}
    if cfg["hash"] == "collide":
        pts = pts[:5]      # sets degenerate to lists, keep them small
    ops, ids, n_ids = [], [], [0]
    faults = rng.random() < .5

    def new(base=None):
        i = "k%d" % n_ids[0]
        n_ids[0] += 1
        ids.append(i)
        kind = rng.choice("RRHHB")
        o = {"op": "new", "id": i, "kind": kind,
             "coll": rng.choice(["list", "list", "tuple", "set", "frozenset", "iter"]),
             "scribble": rng.random() < .2, "over": rng.random() < .1}
        lo = {"R": 1 if rng.random() < .15 else 2, "H": 2, "B": 3}[kind]
        pool = list(pts)
        if kind == "H":
            o["c"] = base["c"] if base and base.get("c") and rng.random() < .7 else rng.choice(pts)
            pool.remove(o["c"])
        n = rng.randint(min(lo, len(pool)), min(len(pool), max(lo, rng.choice([3, 4, 5, 8, 12]))))
        o["vs"] = rng.sample(pool, n)
        if rng.random() < .1:
            o["vs"] = o["vs"] + o["vs"][:1]    # named twice
        if kind == "H" and rng.random() < .1:
            o["vs"].insert(rng.randrange(len(o["vs"]) + 1), o["c"])
        if len(set(o["vs"])) < lo and kind == "R":
            pass
        ops.append(o)
        return o

    last = None
    for _ in range(rng.randint(2, 5)):
        last = new(last)

    def pair():
        a = rng.choice(ids)
        return a, (a if rng.random() < .06 else rng.choice(ids))

    def query():
        a, b = pair()
        k = rng.choice(["meet"] * 5 + ["print"] if prop == "C11" else
                       ["common"] * 5 + ["count", "print"])
        q = {"q": k, "a": a}
        if k in ("meet", "common"):
            q["b"] = b
        if k == "common":
            q["what"] = rng.choice(["distances", "angles", "constraints"])
        return q

    weights = dict(new=2, drop=.7, clients=1.0, print=.5)
    weights.update(dict(meet=8, small=.7, varlist=.7) if prop == "C11" else dict(common=8, count=2, relation=1))
    if prop == "C12":
        weights["meet"] = .5
    names = sorted(weights)
    n_ops = rng.randint(3, 10) if rng.random() < .7 else rng.randint(8, 25)
    if tier == "thorough" and rng.random() < .3:
        n_ops *= 2
    for _ in range(n_ops):
        k = rng.choices(names, [weights[x] for x in names])[0]
        if k == "new":
            last = new(last)
            continue
        o = {"op": k, "c_": rng.randrange(3)}
        if k in ("drop", "print", "varlist"):
            o["id"] = rng.choice(ids)
        elif k == "small":
            o["kind"] = rng.choice("HB")
            few = rng.sample(pts[1:], rng.choice([0, 1, 1] if o["kind"] == "H" else [0, 1, 2, 2]))
            o["vs"] = few + [rng.choice(few) for _ in range(rng.randint(0, 3)) if few]
            o["c"] = pts[0]
            if o["kind"] == "H" and rng.random() < .4:
                o["vs"].append(o["c"])      # the centre is no spoke
            rng.shuffle(o["vs"])
        elif k in ("meet", "common", "count"):
            o["a"], o["b"] = pair()
            if k == "common":
                o["what"] = rng.choice(["distances", "angles", "constraints"])
            o["scribble"] = rng.random() < .15
            o["twice"] = rng.random() < .5
            if k == "meet" and rng.random() < .25:
                o["store"] = "k%d" % n_ids[0]
                n_ids[0] += 1
                ids.append(o["store"])
            if faults and rng.random() < .35:
                o["fault"] = {"k": "line", "n": int(2 ** rng.uniform(0, 5.5)),
                              "exc": rng.choice(["interrupt", "memory"])} \
                    if rng.random() < .7 else {"k": "sink", "n": 1, "exc": "io"}
        elif k == "relation":
            o["rels"] = []
            for _ in range(rng.randint(2, 6)):
                o["rels"].append(rng.sample(pts[:4], rng.choice([2, 3, 3])))
            if rng.random() < .7:
                o["rels"].append(list(reversed(o["rels"][0])))
        elif k == "clients":
            o["scripts"] = [[query() for _ in range(rng.randint(1, 3))]
                            for _ in range(rng.randint(2, 3))]
            if rng.random() < .5:     # everybody uses the same pair
                a, b = pair()
                for s in o["scripts"]:
                    for q in s:
                        q["a"] = a
                        if "b" in q:
                            q["a"], q["b"] = rng.choice([(a, b), (b, a)])
            if rng.random() < .3:
                rng.choice(rng.choice(o["scripts"]))["fault"] = {
                    "n": rng.randint(1, 120), "exc": "interrupt"}
            o["sched"] = dict(conc.random_spec(rng), max_steps=4000000)
        ops.append(o)
    return {"kind": "cluster", "prop": prop, "cfg": cfg, "ops": ops}
