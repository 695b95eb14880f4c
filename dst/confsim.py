"""Simulation of configurations (C13, C14, C15): several clients merge, compare,
transform, extend, restrict, copy, print and hash shared configurations in a
seeded order and simultaneously at bytecode granularity; operations are
interrupted at executed lines and their log sink fails.

Reference: a configuration is a dictionary name -> (x, y) and a status; what a
merge must give is judged from the coordinates of its operands; congruence is
decided on the coordinates by aligning the farthest pair of points.  Verdicts
are only demanded where they are clear (far from the package's tolerance)."""
import math

from . import conc, seams
from .core import INJECTED, Violation, normal, short

FAR = 1e-3        # points are in different places
NEAR = 1e-9       # points are in one place
OFF = 1e-6        # a coordinate is wrong


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def deviation(P, Q):
    """How far the labelled figure Q is from being P moved rigidly"""
    ks = sorted(P)
    if len(ks) < 2:
        return 0.0
    best, pair = -1.0, None
    for i, a in enumerate(ks):
        for b in ks[:i]:
            d = dist(P[a], P[b])
            if d > best:
                best, pair = d, (a, b)
    if best < NEAR:
        return max(dist(Q[a], Q[ks[0]]) for a in ks)
    a, b = pair
    ux, uy = (P[b][0] - P[a][0]) / best, (P[b][1] - P[a][1]) / best
    dq = dist(Q[a], Q[b])
    if dq < NEAR:
        return best
    wx, wy = (Q[b][0] - Q[a][0]) / dq, (Q[b][1] - Q[a][1]) / dq
    dev = abs(best - dq)
    for k in ks:
        x, y = P[k][0] - P[a][0], P[k][1] - P[a][1]
        along, across = x * ux + y * uy, y * ux - x * uy
        dev = max(dev, dist(Q[k], (Q[a][0] + along * wx - across * wy,
                                   Q[a][1] + along * wy + across * wx)))
    return dev


def spread(P):
    """Greatest distance between two points"""
    ks = sorted(P)
    return max([dist(P[a], P[b]) for i, a in enumerate(ks) for b in ks[:i]] or [0.0])


def congruent(P, Q):
    """True, False, or None when it is not clear"""
    if set(P) != set(Q):
        return False
    d = deviation(P, Q)
    return True if d < NEAR / 10 else False if d > FAR else None


def place(P, ks):
    """'one' place, 'several' places, or None"""
    ks = sorted(ks)
    d = spread({v: P[v] for v in ks})
    return "one" if d < NEAR else "several" if d > FAR else None


def apply(m, p):
    x, y = p
    w = m[2][0] * x + m[2][1] * y + m[2][2]
    return ((m[0][0] * x + m[0][1] * y + m[0][2]) / w,
            (m[1][0] * x + m[1][1] * y + m[1][2]) / w)


class World(object):
    def __init__(self, ctx, sut, sc):
        self.ctx, self.sut, self.sc = ctx, sut, sc
        self.layout = seams.Layout(sc["cfg"]["hash"], sc["cfg"]["hashseed"])
        self.pool = {}         # id -> (configuration, snapshot)
        self.figure = {}       # id -> figure the points must be congruent to
        self.log = None
        # absolute error a correct computation may reach at this size
        big = max([1.0] + [abs(x) for o in sc["ops"] if o["op"] == "new"
                           for p in o["pts"].values() for x in p])
        self.off = OFF * max(1.0, big / 100)
        self.eps = 4e-15 * big
        self.err = {}          # id -> absolute error its points may have

    def n(self, v):
        return self.layout.name(v)

    def viol(self, kind, detail):
        self.ctx.log("DIVERGENCE", kind)
        raise Violation(kind, detail)

    # ---- reading

    def coords(self, c):
        def read():
            vs = list(c.vars())
            out = {}
            for v in vs:
                p = c.get(v)
                out[v.name] = (float(p.x), float(p.y))
            if len(out) != len(vs):
                self.viol("malformed", "a variable occurs twice in %s" % short(vs))
            return out
        return normal("configuration", read)

    def snap(self, c):
        return (self.coords(c), bool(c.underconstrained), hash(c))

    def check_pool(self, where):
        for i in sorted(self.pool):
            c, s = self.pool[i]
            now = self.snap(c)
            if now != s:
                self.viol("operand-changed", "%s: %s was %s, is %s" % (
                    where, i, short(s), short(now)))

    def keep(self, i, c):
        if i is not None:
            self.pool[i] = (c, self.snap(c))

    # ---- judging

    def merge_err(self, a, b):
        """Error a merge may reach: points far from shared ones that lie close
        together cannot be placed precisely"""
        P, Q = self.pool[a][1][0], self.pool[b][1][0]
        ea, eb = self.err.get(a, self.eps), self.err.get(b, self.eps)
        s = spread({v: P[v] for v in P if v in Q})
        if s < NEAR:
            return max(ea, eb) + self.eps
        return max(ea, eb + (ea + eb + self.eps) * (1 + spread(Q) / s))

    def judge_merge(self, a, b, res, where):
        """a, b: ids"""
        (P, fa, _), (Q, fb, _) = self.pool[a][1], self.pool[b][1]
        m, under = normal("merge", lambda: (res[0], bool(res[1])))
        R = self.coords(m)
        w = "%s: merge of %s (%s) with %s (%s)" % (where, a, fmt(P), b, fmt(Q))
        if set(R) != set(P) | set(Q):
            self.viol("merge/points", "%s has points %s" % (w, sorted(R)))
        for v in P:
            if dist(R[v], P[v]) > self.off:
                self.viol("merge/first-moved", "%s moves %s from %s to %s" % (w, v, P[v], R[v]))
        self.judge_moved(w, P, Q, R, max(self.off, 10 * self.merge_err(a, b)))
        if bool(m.underconstrained) != under:
            self.viol("merge/status", "%s returns underconstrained=%s, the configuration says %s"
                      % (w, under, m.underconstrained))
        self.judge_status(w, P, Q, fa, fb, under)

    def judge_moved(self, w, P, Q, R, off):
        shared = set(P) & set(Q)
        cons = congruent({v: P[v] for v in shared}, {v: Q[v] for v in shared})
        self.ctx.probes["merge sharing %s" % min(len(shared), 3)] += 1
        if cons is None:
            return
        keys = set(Q) if cons else set(Q) - shared
        if not cons:
            self.ctx.probes["merge of disagreeing pieces"] += 1
        d = deviation({v: Q[v] for v in keys}, {v: R[v] for v in keys})
        if d > off:
            self.viol("merge/not-rigid", "%s: the second's points are off by %.3g: %s" % (
                w, d, fmt(R)))

    def judge_status(self, w, P, Q, fa, fb, under):
        shared = set(P) & set(Q)
        want = None
        if fa or fb:
            want = True
            self.ctx.probes["merge with an underconstrained operand"] += 1
        elif not shared:
            want = True
        else:
            one, two = place(P, shared), place(Q, shared)
            if one == two == "several":
                # pinned if two shared points are apart on both sides
                sv = sorted(shared)
                if any(dist(P[x], P[y]) > FAR and dist(Q[x], Q[y]) > FAR
                       for i, x in enumerate(sv) for y in sv[:i]):
                    want = False
            elif one == two == "one":
                if len(P) == 1 or len(Q) == 1:
                    want = False
                else:
                    s = sorted(shared)[0]
                    if all(any(dist(X[s], X[v]) > FAR for v in X) for X in (P, Q)):
                        want = True
                        if len(shared) > 1:
                            self.ctx.probes["all shared points in one place"] += 1
        if want is not None and under != want:
            self.viol("merge/status", "%s is reported underconstrained=%s, expected %s" % (
                w, under, want))
        self.ctx.states.add(repr((min(len(shared), 4), len(P), len(Q), fa, fb, want)))

    def judge(self, q, res, where):
        """Judges the result of one operation on operands of the pool"""
        k = q["q"]
        A, fa, ha = self.pool[q["a"]][1]
        B, fb, hb = self.pool[q["b"]][1] if "b" in q else (None, None, None)
        w = "%s: %s of %s" % (where, k, " and ".join([q["a"]] + ([q["b"]] if "b" in q else [])))
        if k == "merge":
            self.judge_merge(q["a"], q["b"], res, where)
        elif k == "tmat":
            t, under = normal(k, lambda: (res[0], bool(res[1])))
            m = normal(k, lambda: [[float(t.elements[i][j]) for j in range(3)] for i in range(3)])
            R = {v: apply(m, p) for v, p in B.items()}
            d = deviation(B, R)
            if d > self.off:
                self.viol("tmat/not-rigid", "%s is no rigid motion: %s" % (w, m))
            shared = set(A) & set(B)
            if congruent({v: A[v] for v in shared}, {v: B[v] for v in shared}):
                for v in shared:
                    if dist(R[v], A[v]) > self.off:
                        self.viol("tmat/not-aligned", "%s leaves %s at %s, should be %s" % (
                            w, v, R[v], A[v]))
            self.judge_status(w, A, B, fa, fb, under)
        elif k in ("eq", "ne"):
            want = congruent(A, B)
            got = bool(res)
            if want is not None:
                if k == "ne":
                    want = not want
                self.ctx.probes["compared %s: %s" % (k, want)] += 1
                self.ctx.states.add(repr((k, want, len(A), len(B), set(A) == set(B))))
                if got != want:
                    self.viol("wrong-equality", "%s: %s %s %s is %s" % (
                        where, fmt(A), "==" if k == "eq" else "!=", fmt(B), got))
            if k == "eq" and got and ha != hb:
                self.viol("wrong-hash", "%s: equal configurations %s and %s have hashes %s and %s"
                          % (where, fmt(A), fmt(B), ha, hb))
        elif k == "hash":
            if res != ha:
                self.viol("wrong-hash", "%s changed from %s to %s" % (w, ha, res))
        elif k == "add":
            want = dict(B)
            want.update(A)
            self.compare(w, want, res)
        elif k == "select":
            self.compare(w, {v: A[v] for v in q["vs"]}, res)
        elif k == "transform":
            self.compare(w, {v: apply(q["m"], p) for v, p in A.items()}, res)
        elif k == "copy":
            self.compare(w, A, res)
            if bool(res.underconstrained) != fa:
                self.viol("copy/status", "%s loses the underconstrained status" % w)
            if hash(res) != ha:
                self.viol("wrong-hash", "%s has another hash" % w)
            if not (res == self.pool[q["a"]][0]):
                self.viol("wrong-equality", "%s is not equal to the original" % w)
        elif k == "vars":
            if sorted(v.name for v in res) != sorted(A):
                self.viol("vars", "%s gives %s" % (w, sorted(v.name for v in res)))

    def compare(self, w, want, res):
        R = self.coords(res)
        if set(R) != set(want):
            self.viol("wrong-points", "%s names %s, expected %s" % (w, sorted(R), sorted(want)))
        for v in want:
            if dist(R[v], want[v]) > self.off * max(1, abs(want[v][0]), abs(want[v][1])):
                self.viol("wrong-coordinates", "%s puts %s at %s, expected %s" % (
                    w, v, R[v], want[v]))

    # ---- doing

    def perform(self, q):
        c = self.pool[q["a"]][0]
        d = self.pool[q["b"]][0] if "b" in q else None
        k = q["q"]
        if k == "merge":
            return c.merge(d)
        if k == "tmat":
            return c.transformation_matrix(d)
        if k == "eq":
            return c == d
        if k == "ne":
            return c != d
        if k == "add":
            return c.add(d)
        if k == "hash":
            return hash(c)
        if k == "copy":
            return c.copy()
        if k == "vars":
            return list(c.vars())
        if k == "str":
            return (str(c), repr(c))
        if k == "select":
            vs = [self.n(v) for v in q["vs"]]
            return c.select({"list": list, "set": set, "iter": iter, "tuple": tuple}[q["coll"]](vs))
        return c.transform(self.sut.Matrix([list(r) for r in q["m"]]))

    def call(self, fn, fault=None):
        self.ctx.steps += 1
        lf, fired = None, []
        if fault:
            self.ctx.planned[fault["k"]] += 1
            if fault["k"] == "line":
                lf = seams.LineFault(fault["n"], fault["exc"], 300000)
            elif self.log.mode == "raising":
                self.log.raise_at = fault["n"]
        self.log.fired = lambda: (fired.append(1), self.ctx.faults.update(
            {"log sink failure reaching the caller": 1}))
        res = exc = None
        try:
            if lf is not None:
                with lf:
                    res = fn()
            else:
                res = fn()
        except Exception as e:
            exc = e
        except BaseException as e:
            if not isinstance(e, INJECTED):
                raise
            exc = e
        self.log.raise_at = None
        if lf is not None and lf.fired:
            self.ctx.faults["interrupt at a line (%s)" % fault["exc"]] += 1
            self.ctx.probes["interrupted in " + lf.where.split(":")[1]] += 1
            fired.append(1)
        return res, exc, bool(fired)

    def op_new(self, o):
        V = self.sut.Vector
        mapping = {self.n(v): V(*o["pts"][v]) for v in o["order"] if v in o["pts"]}
        c = self.sut.Configuration(mapping)
        if o.get("flag"):
            c.underconstrained = True
        self.pool[o["id"]] = (c, ({v: (float(x), float(y)) for v, (x, y) in o["pts"].items()},
                                  bool(o.get("flag")), hash(c)))
        if o.get("scribble"):
            mapping.clear()     # the client goes on using its own dictionary
            self.ctx.probes["client reuses the dictionary it passed"] += 1
        if o.get("fig"):
            self.figure[o["id"]] = o["fig"]
        self.ctx.log("new", o["id"])
        self.check_pool("after construction")

    def op_drop(self, o):
        self.pool.pop(o["id"], None)
        self.figure.pop(o["id"], None)

    def known(self, q):
        return all(q[k] in self.pool for k in ("a", "b") if k in q) and \
            all(v in self.pool[q["a"]][1][0] for v in q.get("vs", ()))

    def op_do(self, o):
        q = o["q"]
        if not self.known(q):
            return
        res, exc, fired = self.call(lambda: self.perform(q), o.get("fault"))
        self.ctx.log("do", q["q"], q["a"], q.get("b"), type(exc).__name__, fired)
        if exc is not None and not fired:
            self.viol("unexpected-exception", "%s: %s: %s" % (q, type(exc).__name__, short(str(exc))))
        self.check_pool("after %s%s" % ("a failed " if exc else "", q["q"]))
        if exc is not None:
            return
        self.judge(q, res, "alone")
        self.check_pool("after judging")
        if o.get("store"):
            c = res[0] if q["q"] == "merge" else res
            self.keep(o["store"], c)
            self.err[o["store"]] = self.merge_err(q["a"], q["b"]) if q["q"] == "merge" else \
                max(self.err.get(q[k], self.eps) for k in ("a", "b") if k in q)
            if q["q"] == "merge":
                fa, fb = self.figure.get(q["a"]), self.figure.get(q["b"])
                if fa is not None and fa == fb and not bool(res[1]):
                    self.figure[o["store"]] = fa
                    self.ctx.probes["piece of the figure assembled"] += 1
                    R = self.pool[o["store"]][1][0]
                    F = {v: self.sc["figures"][fa][v] for v in R}
                    d = deviation(F, R)
                    if len(R) == len(self.sc["figures"][fa]):
                        self.ctx.probes["whole figure assembled"] += 1
                    if d > max(100 * self.off, 10 * self.err[o["store"]]):
                        self.viol("merge/other-figure", "assembled %s, the figure is %s" % (
                            fmt(R), fmt(F)))

    def op_missing(self, o):
        """Selecting a variable that is not there fails and changes nothing"""
        if o["a"] not in self.pool:
            return
        c = self.pool[o["a"]][0]
        _, exc, _ = self.call(lambda: c.select([self.n("nowhere")]))
        self.ctx.log("missing", type(exc).__name__)
        self.check_pool("after selecting an unknown variable")

    def op_setof(self, o):
        ids = [i for i in o["ids"] if i in self.pool]
        cls = []
        for i in ids:
            A = self.pool[i][1][0]
            v = [congruent(A, self.pool[k[0]][1][0]) for k in cls]
            if None in v:
                return
            if True in v:
                cls[v.index(True)].append(i)
            else:
                cls.append([i])
        res, exc, _ = self.call(lambda: (len(set(self.pool[i][0] for i in ids)),
                                         {self.pool[i][0]: n for n, i in enumerate(ids)}))
        self.ctx.log("set of", ids)
        if exc is not None:
            self.viol("unexpected-exception", "set of configurations: %r" % exc)
        if res[0] != len(cls):
            self.viol("set-membership", "a set of %s holds %d configurations, expected %d" % (
                [fmt(self.pool[i][1][0]) for i in ids], res[0], len(cls)))
        for k in cls:
            for i in k:
                got = res[1].get(self.pool[i][0])
                if got is None or ids[got] not in k:
                    self.viol("set-membership", "%s is not found in a dictionary" % i)
        if len(cls) < len(ids):
            self.ctx.probes["a set merges equal configurations"] += 1
        self.check_pool("after building a set")

    def op_clients(self, o):
        scripts = [[q for q in s if self.known(q)] for s in o["scripts"]]
        cl = conc.Clients(self.ctx, o["sched"], scripts, lambda me, i, q: self.perform(q))
        rs = cl.run()
        self.check_pool("after simultaneous clients")
        for me, lst in enumerate(rs):
            for q, res, exc, fired in lst:
                if exc is not None and fired:
                    continue
                if exc is not None:
                    self.viol("unexpected-exception", "client %d: %s: %r" % (me, q, exc))
                self.judge(q, res, "client %d of several" % me)
        self.ctx.probes["simultaneous clients"] += 1


def fmt(P):
    return "{%s}" % ", ".join("%s: (%.6g, %.6g)" % (v, P[v][0], P[v][1]) for v in sorted(P))


def run(sc, ctx, fresh):
    ctx.extra["scenario"] = sc
    with seams.LogSim(ctx, sc["cfg"].get("log", "off"), 2) as log:
        w = World(ctx, fresh(), sc)
        w.log = log
        for i, o in enumerate(sc["ops"]):
            ctx.log("#%d c%s" % (i, o.get("c_", 0)))
            getattr(w, "op_" + o["op"])(o)
            ctx.log(";".join("%s %s" % (i, w.pool[i][1][:2]) for i in sorted(w.pool)))
        ctx.nontrivial = ctx.steps > 1


def shrink_lists(sc):
    paths = [["ops"]] + conc.shrink_schedules(sc["ops"])
    for i, o in enumerate(sc["ops"]):
        for j, _ in enumerate(o.get("scripts", ())):
            paths.append(["ops", i, "scripts", j])
        if o["op"] == "new":
            paths.append(["ops", i, "order"])
    return [p for p in paths if p[-1] != "order"]


# ----------------------------------------------------------------- generation

ANGLES = [0.0, math.pi / 2, math.pi, -math.pi / 2, math.pi / 4]


def motion(rng, size):
    k = rng.random()
    a = rng.choice(ANGLES) if k < .4 else rng.uniform(-math.pi, math.pi)
    t = (0.0, 0.0) if rng.random() < .2 else (
        float(rng.randint(-5, 5)) * size, float(rng.randint(-5, 5)) * size) if rng.random() < .5 \
        else (rng.uniform(-5, 5) * size, rng.uniform(-5, 5) * size)
    return [[math.cos(a), -math.sin(a), t[0]], [math.sin(a), math.cos(a), t[1]], [0.0, 0.0, 1.0]]


def moved(F, m):
    return {v: list(apply(m, p)) for v, p in F.items()}


def gen_figure(rng, names, size, span):
    """Grid points; some coincide"""
    F = {}
    style = rng.choice(["plain", "plain", "coincident", "line", "few", "near"])
    wide, close = rng.choice([30.0, 125.0]), rng.choice([.01, .005, .002])
    for v in names:
        if F and style == "coincident" and rng.random() < .45:
            F[v] = list(F[rng.choice(sorted(F))])
        elif style == "near":       # crowds of points, far from one another
            x, y = F[rng.choice(sorted(F))] if F and rng.random() < .6 else (
                rng.randint(-span, span) * wide, rng.randint(-span, span) * wide)
            F[v] = [x + rng.randint(-2, 2) * close, y + rng.randint(-2, 2) * close]
        elif style == "line":
            F[v] = [float(rng.randint(-span, span)) * size, 0.0]
        else:
            s = 1 if style == "few" else span
            F[v] = [float(rng.randint(-s, s)) * size, float(rng.randint(-s, s)) * size]
    return F


def gen(prop, rng, tier="quick"):
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7])
    if tier == "thorough" and rng.random() < .3:
        n = rng.randint(3, 10)
    names = ["v%d" % i for i in range(n)]
    size = rng.choice([1.0, 1.0, .5, .1, 3.0, 10.0])
    if prop == "C13":
        size = rng.choice([size, size, .01, 100.0])
    span = rng.choice([2, 3, 8])
    cfg = {"hash": rng.choice(seams.Layout.MODES), "hashseed": rng.randrange(1 << 30),
           "log": rng.choice(["off", "off", "ok", "full", "raising"])}
    faults = rng.random() < .4
    F = gen_figure(rng, names, size, span)
    ops, ids, info = [], [], {}
    sc = {"kind": "conf", "prop": prop, "cfg": cfg, "ops": ops, "figures": {"f0": F}}

    def new(pts, fig=None, flag=False):
        i = "c%d" % len(info)
        info[i] = sorted(pts)
        ids.append(i)
        order = list(pts)
        rng.shuffle(order)
        ops.append({"op": "new", "id": i, "pts": pts, "order": order, "fig": fig, "flag": flag,
                    "scribble": rng.random() < .15, "c_": rng.randrange(3)})
        return i

    def fault(o):
        if faults and rng.random() < .35:
            o["fault"] = {"k": "line", "n": int(2 ** rng.uniform(0, 7)),
                          "exc": rng.choice(["interrupt", "memory"])} \
                if rng.random() < .8 else {"k": "sink", "n": 1, "exc": "io"}
        return o

    def do(q, store=None):
        o = {"op": "do", "q": q, "c_": rng.randrange(3)}
        if store:
            o["store"] = store
        f = fault(dict(o))
        if "fault" in f:
            f.pop("store", None)
            ops.append(f)
            if q["q"] != "merge" and not store and rng.random() < .5:
                return
        ops.append(o)

    def pieces(fig, pts, k):
        out = []
        order = list(pts)
        rng.shuffle(order)
        seen = set()
        for j in range(k):
            m = rng.randint(1, len(order))
            if j == 0:
                part = order[:m]
            else:
                base = sorted(seen)
                part = rng.sample(base, min(len(base), rng.choice([0, 1, 2, 2, 2, 3])
                                            if rng.random() < .9 else len(base)))
                rest = [v for v in order if v not in part]
                part += rng.sample(rest, rng.randint(0 if part else 1, max(
                    0 if part else 1, min(len(rest), rng.randint(1, 4)))) if rest else 0)
            if not part:
                part = order[:1]
            seen.update(part)
            out.append(new(moved({v: pts[v] for v in part}, motion(rng, size)), fig))
        return out

    def query(a=None, b=None, k=None):
        a = a or rng.choice(ids)
        b = b or rng.choice(ids)
        k = k or rng.choice({"C13": ["merge", "merge", "tmat"],
                        "C14": ["eq", "eq", "eq", "ne", "hash", "copy"],
                        "C15": ["merge", "merge", "tmat", "eq", "ne", "add", "add", "select",
                                "select", "transform", "transform", "copy", "hash", "str",
                                "vars"]}[prop])
        q = {"q": k, "a": a}
        if k in ("merge", "tmat", "eq", "ne", "add"):
            q["b"] = b
        elif k == "select":
            vs = info[a]
            q["vs"] = rng.sample(vs, rng.randint(0, len(vs)))
            q["coll"] = rng.choice(["list", "set", "iter", "tuple"])
        elif k == "transform":
            q["m"] = matrix()
        return q

    def matrix():
        k = rng.random()
        if k < .5:
            return motion(rng, size)
        m = [[float(rng.randint(-3, 3)) for _ in range(3)] for _ in range(2)]
        return m + [[0.0, 0.0, rng.choice([1.0, 1.0, 2.0, -1.0, .5])]]

    def store():
        i = "c%d" % len(info)
        return i

    def clients(pairs=True):
        a, b = rng.choice(ids), rng.choice(ids)
        same = rng.random() < .5
        if rng.random() < .4:       # the same operation of the same one, with others
            k = query()["q"]
            alike = [i for i in ids if info[i] == info[a]]

            def some():
                return query(a, rng.choice(alike if rng.random() < .7 else ids), k)
        elif same:
            def some():
                return query(*rng.choice([(a, b), (b, a), (a, b), (a, a)]))
        else:
            some = query
        scripts = [[some() for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 3))]
        if rng.random() < .3:
            rng.choice(rng.choice(scripts))["fault"] = {"n": rng.randint(1, 1500),
                                                        "exc": "interrupt"}
        spec = conc.random_spec(rng)
        spec["max_steps"] = 2000000
        if rng.random() < .5:
            spec["horizon"] = 6000
        ops.append({"op": "clients", "scripts": scripts, "sched": spec})

    n_extra = rng.randint(1, 6) if tier == "quick" or rng.random() < .6 else rng.randint(4, 14)
    if prop == "C13":
        pieces("f0", F, rng.randint(2, 5 if tier == "quick" else 7))
        if rng.random() < .25:      # a piece of another figure over the same points
            G = gen_figure(rng, names, size, span)
            sc["figures"]["f1"] = G
            pieces("f1", G, 1)
        if rng.random() < .15:
            new(moved({v: F[v] for v in rng.sample(names, rng.randint(1, n))}, motion(rng, size)),
                None, True)
        live = list(ids)
        rng.shuffle(live)
        while len(live) > 1:        # a random merge tree
            a, b = rng.sample(live, 2)
            i = store()
            info[i] = sorted(set(info[a]) | set(info[b]))
            ids.append(i)
            do({"q": "merge", "a": a, "b": b}, i)
            live = [x for x in live if x not in (a, b)] + [i]
            if rng.random() < .1:
                live.append(rng.choice((a, b)))   # used again elsewhere
            if len(info) > 16:
                break
        for _ in range(n_extra // 2):
            do(query())
        if rng.random() < .4:
            clients()
    elif prop == "C14":
        variants = [F]
        for _ in range(rng.randint(1, 4)):
            B = {v: list(p) for v, p in rng.choice(variants).items()}
            k = rng.choice(["same", "same", "mirror", "scale", "displace", "permute", "subset",
                            "rename", "collapse", "partial-mirror"])
            if k == "mirror":
                B = {v: [p[0], -p[1]] for v, p in B.items()}
            elif k == "scale":
                f = rng.choice([2.0, .5, -1.0, 1.01])
                B = {v: [p[0] * f, p[1] * f] for v, p in B.items()}
            elif k == "displace" and B:
                v = rng.choice(sorted(B))
                B[v] = [B[v][0] + rng.choice([0, 1, -1]) * size, B[v][1] + rng.choice([1, -1]) * size
                        * rng.choice([1, .1])]
            elif k == "permute" and len(B) > 1:
                ks = sorted(B)
                sh = ks[:]
                rng.shuffle(sh)
                B = {a: B[b] for a, b in zip(ks, sh)}
            elif k == "subset" and B:
                for v in rng.sample(sorted(B), rng.randint(1, len(B))):
                    del B[v]
            elif k == "rename" and B:
                v = rng.choice(sorted(B))
                B["w" + v] = B.pop(v)
            elif k == "collapse" and len(B) > 1:
                a, b = rng.sample(sorted(B), 2)
                B[a] = list(B[b])
            elif k == "partial-mirror" and len(B) > 2:
                for v in rng.sample(sorted(B), rng.randint(1, len(B))):
                    B[v] = [B[v][0], -B[v][1]]
            variants.append(B)
        for B in variants:
            for _ in range(rng.choice([1, 1, 2])):
                new(moved(B, motion(rng, size)) if rng.random() < .8 else
                    {v: list(p) for v, p in B.items()}, None, rng.random() < .1)
        for _ in range(rng.randint(0, 3)):     # configurations made by the package
            a, b = rng.choice(ids), rng.choice(ids)
            k = rng.choice(["merge", "add", "select", "transform", "copy", "merge"])
            q = {"q": k, "a": a}
            vs = info[a]
            if k in ("merge", "add"):
                q["b"] = b
                vs = sorted(set(info[a]) | set(info[b]))
            elif k == "select":
                vs = rng.sample(vs, rng.randint(0, len(vs)))
                q["vs"], q["coll"] = vs, "list"
            elif k == "transform":
                q["m"] = motion(rng, size)
            i = store()
            info[i] = sorted(vs)
            ids.append(i)
            do(q, i)
        for _ in range(n_extra + 2):
            if rng.random() < .7:
                a, b = rng.choice(ids), rng.choice(ids)
                do({"q": "eq", "a": a, "b": b})
                do({"q": "eq", "a": b, "b": a})
            else:
                do(query())
        ops.append({"op": "setof", "ids": rng.sample(ids, rng.randint(1, len(ids)))})
        if rng.random() < .3:
            clients()
    else:
        pieces("f0", F, rng.randint(1, 3))
        if rng.random() < .5:
            new(moved(gen_figure(rng, names[:rng.randint(1, n)] + ["x"], size, span),
                      motion(rng, size)), None, rng.random() < .3)
        if rng.random() < .1:
            new({})
        for _ in range(rng.choice([0, 0, 1, 2])):      # others over the same points
            old = rng.choice([o for o in ops if o["op"] == "new"])["pts"]
            pts = {v: list(p) for v, p in old.items()}
            if pts and rng.random() < .6:
                v = rng.choice(sorted(pts))
                pts[v] = [pts[v][0] + rng.choice([-1, 1, 2]) * size, pts[v][1]]
            new(moved(pts, motion(rng, size)))
        for _ in range(n_extra + 2):
            k = rng.random()
            if k < .15:
                clients()
            elif k < .2:
                ops.append({"op": "missing", "a": rng.choice(ids)})
            elif k < .25 and len(ids) > 2:
                ops.append({"op": "setof", "ids": rng.sample(ids, 2)})
            else:
                q = query()
                st = None
                if q["q"] in ("merge", "add", "select", "transform", "copy") and rng.random() < .4:
                    # keep what stays well away from degenerate sizes
                    if q["q"] != "transform" or q["m"][2] == [0.0, 0.0, 1.0] and \
                            abs(q["m"][0][0] * q["m"][1][1] - q["m"][0][1] * q["m"][1][0] - 1) < 1e-9:
                        st = store()
                        info[st] = sorted(set(info[q["a"]]) | set(info[q["b"]])) if "b" in q else \
                            sorted(q["vs"]) if "vs" in q else info[q["a"]]
                        ids.append(st)
                do(q, st)
        if rng.random() < .4:
            clients()
    return sc
