"""Simulation of vectors, matrices and figures (C19, C20, C21): several clients
make, combine, change and intersect values of a shared pool, in a seeded
interleaving and simultaneously at bytecode granularity; they change the
tolerances in force, calls are interrupted at executed lines and their log sink
fails.  References: exact rational arithmetic, with a band around every decision
the package takes within its tolerances; a value is the numbers it was last
given, whatever has been done with it or with values made from it."""
import math
from fractions import Fraction as Fr

from . import conc, seams
from .core import INJECTED, Violation, normal, short

INTERSECT = {"cc": "cc_int", "cl": "cl_int", "cr": "cr_int", "ll": "ll_int", "lr": "lr_int",
             "rr": "rr_int"}
COMPARE = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b,
           "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


# ------------------------------------------------------------- exact references

class Skip(Exception):
    """The exact answer lies within the tolerances of another one"""


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def minus(a, b):
    return [a[0] - b[0], a[1] - b[1]]


def plus(a, b, t):
    return [a[0] + t * b[0], a[1] + t * b[1]]


def exact(p):
    return [Fr(p[0]), Fr(p[1])]


def root(x):
    """Square root of a rational, good to 30 digits or so"""
    if x <= 0:
        return Fr(0)
    k = 10 ** 40
    return Fr(math.isqrt(int(x * k * k)), k)


class Points(object):
    """What an intersection may and must return"""

    def __init__(self, must, may=(), tol=0.0, twice=False):
        self.must, self.may, self.tol, self.twice = list(must), list(may), tol, twice

    def wrong(self, got):
        left = [list(map(float, p)) for p in self.must]
        others = [list(map(float, p)) for p in self.may]
        todo = left + others
        spare = list(todo) if self.twice else []
        for g in got:
            near = [p for p in todo if abs(p[0] - g[0]) <= self.tol and abs(p[1] - g[1]) <= self.tol]
            if not near:
                near = [p for p in spare
                        if abs(p[0] - g[0]) <= self.tol and abs(p[1] - g[1]) <= self.tol]
                if not near:
                    return "%s is no intersection point, or listed twice" % (g,)
                spare.remove(near[0])
                continue
            best = min(near, key=lambda p: abs(p[0] - g[0]) + abs(p[1] - g[1]))
            todo.remove(best)
        for p in left:
            if p in todo:
                return "%s is missing" % (p,)
        return None


def circles(p1, r1, p2, r2, tol):
    rel, ab = tol
    p1, p2, r1, r2 = exact(p1), exact(p2), Fr(r1), Fr(r2)
    d = minus(p2, p1)
    d2 = dot(d, d)
    if d2 == 0:
        return Points([])
    if d2 <= (10 * ab) ** 2:
        raise Skip
    k = (r1 * r1 - r2 * r2 + d2) / (2 * d2)       # foot of the chord: p1 + k d
    b = k * k * d2
    disc = r1 * r1 - b
    slip = Fr(1, 10 ** 13) * (r1 * r1 + r2 * r2 + d2) / root(d2)       # of the foot's distance
    margin = 10 * (ab + rel * b) + Fr(1, 10 ** 11) * (r1 * r1 + b) + slip * (slip + 2 * root(b))
    scale = float(abs(p1[0]) + abs(p1[1]) + abs(d[0]) + abs(d[1]) + r1 + r2)
    foot = plus(p1, d, k)
    if disc < -margin:
        return Points([])
    if disc <= margin:      # none, one or two, but nowhere else than where they (nearly) touch
        near = 1e-4 * scale + 10 * ab + float(root(margin))
        return Points([foot] if disc == 0 else [], [] if disc == 0 else [foot], near, True)
    h = root(disc / d2)
    n = [-d[1], d[0]]
    if b and root(disc / b) <= 10 * ab or root(r1 * r1 / d2) <= 10 * ab:
        return Points([], [plus(foot, n, h), plus(foot, n, -h)], 1e-7 * scale + 3 * ab)
    return Points([plus(foot, n, h), plus(foot, n, -h)], tol=1e-7 * scale + 3 * ab)


def circle_line(p1, r, p2, v, tol, ray=False):
    rel, ab = tol
    p1, p2, v, r = exact(p1), exact(p2), exact(v), Fr(r)
    d2 = dot(v, v)
    if d2 <= 10 * ab + Fr(1, 10 ** 9):
        raise Skip
    p = minus(p2, p1)
    D = cross(p, v)
    E = r * r * d2 - D * D
    size = r * r * d2 + D * D
    margin = 10 * ab + Fr(1, 10 ** 10) * size
    scale = float(abs(p1[0]) + abs(p1[1]) + abs(p[0]) + abs(p[1]) + r) + 1
    t0 = -dot(p, v) / d2
    if E < -margin:
        return Points([])
    elif E <= margin:       # none, one or two, but nowhere else than where they (nearly) touch
        ts, eps, twice = [t0], 1e-4 * scale + 3 * float(root(Fr(margin) / d2)), True
    else:
        h = root(E) / d2
        fuzz = 1e-13 * scale * scale + 1e-14 * float(size / root(E))       # rounding, amply
        ts, eps, twice = [t0 - h, t0 + h], 1e-7 * scale + 3 * ab, False
    must, may = [], []
    for t in ts:
        side = t * d2
        near = 10 * ab + 1e-9 * scale * scale
        if twice:
            near = max(near, eps * float(root(d2)) * 2)
        if not ray or side > near:
            must.append(plus(p2, v, t))
        elif not twice and abs(side) + fuzz <= ab / 5:
            must.append(plus(p2, v, t))       # the origin itself, as far as can be told
        elif side >= -near:
            may.append(plus(p2, v, t))
    if twice and (E or size > 10 ** 5 or ab < 1e-9):
        must, may = [], must + may
    return Points(must, may, eps, twice)


def lines(p1, v1, p2, v2, tol, ray1, ray2):
    rel, ab = tol
    p1, v1, p2, v2 = exact(p1), exact(v1), exact(p2), exact(v2)
    c = cross(v1, v2)
    len2 = root(dot(v1, v1) * dot(v2, v2))
    if len2 <= 10 * ab + Fr(1, 10 ** 6):
        raise Skip
    if c == 0 or abs(c) * 10 <= ab and len2 >= Fr(1, 100):
        return Points([])
    if abs(c) <= 10 * ab + Fr(1, 10 ** 9) * len2:
        raise Skip
    d = minus(p2, p1)
    t1, t2 = cross(d, v2) / c, cross(d, v1) / c
    s = plus(p1, v1, t1)
    scale = float(abs(p1[0]) + abs(p1[1]) + abs(p2[0]) + abs(p2[1]) + abs(s[0]) + abs(s[1])) + 1
    eps = 1e-9 * scale * float(len2 / abs(c)) + 1e-9
    if eps > 1e-3 * scale:
        raise Skip
    out = Points([s], tol=eps)
    for ray, t, v in ((ray1, t1, v1), (ray2, t2, v2)):
        if not ray:
            continue
        side = t * dot(v, v)
        near = 10 * ab + eps * float(root(dot(v, v))) * 3
        if side < -near:
            return Points([])
        if side <= near and abs(side) + 1e-4 * eps * float(root(dot(v, v))) > ab / 5:
            out.must, out.may = [], [s]
    return out


def orientation(a, b, c, tol):
    """1 counter-clockwise, -1 clockwise, 0 flat"""
    a, b, c = exact(a), exact(b), exact(c)
    u, v = minus(b, a), minus(c, b)
    x = cross(u, v)
    noise = Fr(1, 10 ** 12) * (abs(u[0]) + abs(u[1])) * (abs(v[0]) + abs(v[1]) + abs(u[0]) + abs(u[1]))
    if abs(x) > 2 * tol[1] + noise:
        return 1 if x > 0 else -1
    if x == 0 or abs(x) + noise <= tol[1] / 2:
        if x == 0 and noise > tol[1]:
            raise Skip
        return 0
    raise Skip


def invert(m):
    """Exact inverse, or None"""
    n = len(m)
    a = [[Fr(x) for x in row] + [Fr(int(i == j)) for j in range(n)] for i, row in enumerate(m)]
    for i in range(n):
        piv = next((r for r in range(i, n) if a[r][i] != 0), None)
        if piv is None:
            return None
        a[i], a[piv] = a[piv], a[i]
        a[i] = [x / a[i][i] for x in a[i]]
        for r in range(n):
            if r != i and a[r][i] != 0:
                f = a[r][i]
                a[r] = [x - f * y for x, y in zip(a[r], a[i])]
    return [row[n:] for row in a]


def product(a, b):
    return [[sum(Fr(x) * Fr(y) for x, y in zip(row, col)) for col in zip(*b)] for row in a]


def norm(m):
    return max(sum(abs(x) for x in row) for row in m)


# ------------------------------------------------------------------- the world

class World(object):
    def __init__(self, ctx, sut, sc):
        self.ctx, self.sut, self.sc = ctx, sut, sc
        self.prop = sc["prop"]
        self.g = sut.geometry
        self.pool = {}        # id -> [object, elements]
        self.tol = (1e-5, 1e-8)
        self.own = None       # tolerances of a client's own kind of scalar
        self.log = None

    def viol(self, kind, detail):
        self.ctx.log("DIVERGENCE", kind)
        raise Violation(kind, detail)

    def o(self, i):
        return self.pool[i][0]

    def m(self, i):
        return self.pool[i][1]

    def v(self, i):
        m = self.pool[i][1]
        return [m[0][0], m[1][0]]

    def isvec(self, i):
        return i in self.pool and isinstance(self.pool[i][0], self.sut.Vector)

    def read(self, obj):
        return [list(row) for row in obj.elements]

    def check_pool(self, where):
        for i, (obj, want) in self.pool.items():
            got = normal("value", lambda: self.read(obj))
            if repr(got) != repr(want):
                self.viol("value-changed", "%s: %s was %s and is now %s" % (
                    where, i, short(repr(want)), short(repr(got))))

    def call(self, fn, fault=None):
        self.ctx.steps += 1
        lf, fired = None, []
        if fault:
            self.ctx.planned[fault["k"]] += 1
            if fault["k"] == "line":
                lf = seams.LineFault(fault["n"], fault["exc"], 300000)
            elif self.log.mode == "raising":
                self.log.raise_at = fault["n"]
        self.log.fired = lambda: (fired.append(1), self.ctx.faults.update(
            {"log sink failure reaching the caller": 1}))
        res = exc = None
        try:
            if lf is not None:
                with lf:
                    res = fn()
            else:
                res = fn()
        except Exception as e:
            exc = e
        except BaseException as e:
            if not isinstance(e, INJECTED):
                raise
            exc = e
        self.log.raise_at = None
        if lf is not None and lf.fired:
            self.ctx.faults["interrupt at a line (%s)" % fault["exc"]] += 1
            self.ctx.probes["interrupted in " + lf.where.split(":")[1]] += 1
            fired.append(1)
        return res, exc, bool(fired)

    # ---- values

    def op_new(self, o):
        m = o["m"]
        if o["kind"] == "v":
            obj, _, _ = self.call(lambda: self.sut.Vector(*o["m"]))
            self.pool[o["id"]] = [obj, [[float(m[0])], [float(m[1])]]]
        else:
            obj, _, _ = self.call(lambda: self.sut.Matrix([list(r) for r in m]))
            self.pool[o["id"]] = [obj, [list(r) for r in m]]
        self.ctx.log("new", o["id"])
        self.check_pool("after making %s" % o["id"])

    def op_change(self, o):
        """A client changes a value of its own"""
        i = o["id"]
        if i not in self.pool:
            return
        obj, m = self.pool[i]
        k = o["how"]
        if self.isvec(i):
            if k in ("x", "both"):
                self.call(lambda: setattr(obj, "x", o["x"]))
                m[0][0] = float(o["x"])
            if k in ("y", "both"):
                self.call(lambda: setattr(obj, "y", o["x"]))
                m[1][0] = float(o["x"])
        elif k == "x":
            r, c = o["at"] % len(m), o["at"] % len(m[0])
            obj.elements[r][c] = o["x"]
            m[r][c] = o["x"]
        elif k == "both":
            new = [[x + 1 for x in row] for row in m]
            self.call(lambda: setattr(obj, "elements", [list(r) for r in new]))
            self.pool[i][1] = new
        if k == "round":
            self.call(lambda: obj.round(2))
            self.pool[i][1] = [[round(x, 2) for x in row] for row in m]
        self.ctx.log("change", i, k)
        self.ctx.probes["value changed by its owner"] += 1
        self.check_pool("after changing %s" % i)

    def op_drop(self, o):
        self.pool.pop(o["id"], None)

    def op_tol(self, o):
        """A client sets the tolerances"""
        S = self.g.Scalar
        S.rel_tol, S.abs_tol = o["rel"], o["abs"]
        self.tol = (o["rel"], o["abs"])
        self.ctx.log("tol", o["rel"], o["abs"])
        self.ctx.probes["tolerances changed"] += 1

    # ---- questions

    def ready(self, q):
        for k, i in q.items():
            if k in ("a", "b", "c", "d") and isinstance(i, str):
                if i not in self.pool:
                    return False
                if q["q"] not in ("mmul", "transpose", "inverse", "solve", "round", "shape",
                                  "identity", "refused") and not self.isvec(i):
                    return False
        return True

    def ask(self, q):
        """The call a question stands for, made on the objects of the pool"""
        g, k = self.g, q["q"]
        V = self.sut.Vector
        get = lambda n: self.o(q[n]) if isinstance(q[n], str) else q[n]      # noqa
        if k in INTERSECT:
            f = getattr(g, INTERSECT[k])
            if k == "cc":
                return f(get("a"), q["r"], get("b"), q["s"])
            if k in ("cl", "cr"):
                return f(get("a"), q["r"], get("b"), get("c"))
            return f(get("a"), get("b"), get("c"), get("d"))
        if k == "scalar":
            S = g.Scalar
            if q.get("own"):
                S = type("Coarse", (S,), {"rel_tol": q["own"][0], "abs_tol": q["own"][1]})
            kw = {}
            if q.get("rel") is not None:
                kw["rel_tol"] = q["rel"]
            if q.get("abs") is not None:
                kw["abs_tol"] = q["abs"]
            out = [getattr(S, "tol_" + n)(q["x"], q["y"], **kw)
                   for n in ("eq", "lt", "gt", "le", "ge")]
            return out + [S.tol_zero(q["x"], **kw), S.tol_eq(q["x"], 0, **kw)]
        if k == "vtol":
            a, b = get("a"), get("b")
            return [getattr(a, "tol_" + n)(b) for n in ("eq", "lt", "gt", "le", "ge")]
        if k == "turn":
            a, b, c = get("a"), get("b"), get("c")
            return [(bool(g.is_clockwise(*t)), bool(g.is_counterclockwise(*t)), bool(g.is_flat(*t)))
                    for t in ((a, b, c), (b, c, a), (c, a, b), (c, b, a), (b, a, c), (a, c, b))]
        if k == "angle":
            a, b, c = get("a"), get("b"), get("c")
            return [(g.angle_3p(*t), g.is_acute(*t), g.is_obtuse(*t)) for t in ((a, b, c), (c, b, a))]
        if k == "dist":
            return g.distance_2p(get("a"), get("b"))
        if k == "hcs":
            a, b = get("a"), get("b")
            if q["scale"] == 2:
                return g.make_hcs_scaled(a, b)
            return g.make_hcs(a, b, scale=True) if q["scale"] else g.make_hcs(a, b)
        if k == "cst":
            m = g.make_hcs_scaled if q["scale"] else g.make_hcs
            return g.cs_transform_matrix(m(get("a"), get("b")), m(get("c"), get("d")))
        if k in ("add", "sub", "mul", "div"):
            a, b = get("a"), get("b")
            return a + b if k == "add" else a - b if k == "sub" else a * b if k == "mul" else a / b
        if k == "inplace":
            a, b = get("a"), get("b")
            if q["w"] == "add":
                a += b
            elif q["w"] == "sub":
                a -= b
            elif q["w"] == "mul":
                a *= b
            else:
                a /= b
            return a
        if k == "neg":
            return -get("a")
        if k == "rotate":
            return get("a").rotate(q["x"])
        if k == "dot":
            return get("a").dot(get("b"))
        if k == "measure":
            a = get("a")
            return [a.length, a.azimuth, a[0], a[1], a[-1], a[:], a[1:], a.x, a.y,
                    a.is_positive(), a.is_negative(), a.num_rows, a.num_cols, list(a)]
        if k == "cmp":
            a, b = get("a"), get("b")
            return [COMPARE[n](a, b) for n in sorted(COMPARE)]
        if k == "copy":
            return V(get("a"))
        if k == "column":
            return V(self.sut.Matrix([[x] for x in q["x"]]))
        if k == "origin":
            return V.origin()
        if k == "mmul":
            return get("a") * get("b")
        if k == "transpose":
            return get("a").transpose()
        if k == "inverse":
            return get("a").inverse()
        if k == "solve":
            return get("a").solve(get("b"))
        if k == "identity":
            return self.sut.Matrix.identity(q["n"])
        if k == "long":
            M, n = self.sut.Matrix, q["n"]
            return (M([[1] * n] * 2) * M([[1, 2]] * n)).elements
        if k == "refused":
            w, a, M = q["w"], get("a"), self.sut.Matrix
            if w == "index":
                return a[q["n"]]
            if w in ("row", "col"):
                return (a.append_row if w == "row" else a.append_col)([1.0] * q["n"])
            if w == "vector":
                return V(a)
            if w == "zero":
                return a / 0
            b = get("b") if "b" in q else None
            return a * b if w == "mmul" else a.inverse() if w == "inverse" else a.solve(b)
        if k == "shape":
            a = get("a")
            return [a.num_rows, a.num_cols, a.num_elements, a.num_dim]
        raise AssertionError(k)

    # ---- answers

    def judge(self, q, res, where):
        k = q["q"]
        w = "%s: %s" % (where, self.text(q))
        try:
            if k in INTERSECT:
                self.judge_points(q, res, w)
            elif k in ("scalar", "vtol"):
                self.judge_tol(q, res, w)
            elif k == "turn":
                self.judge_turn(q, res, w)
            elif k == "angle":
                self.judge_angle(q, res, w)
            else:
                self.judge_value(q, res, w)
            self.ctx.probes["%s judged" % k] += 1
        except Skip:
            self.ctx.probes["%s too close to call" % k] += 1

    def text(self, q):
        out = []
        for k in sorted(q):
            if k not in ("q", "fault", "c_"):
                x = q[k]
                out.append("%s=%s" % (k, self.m(x) if isinstance(x, str) and x in self.pool else x))
        return "%s(%s)" % (q["q"], short(", ".join(out)))

    def judge_points(self, q, res, w):
        if not isinstance(res, (list, tuple)):
            self.viol("no-list", "%s gives %s" % (w, short(repr(res))))
        got = normal("points", lambda: [(float(p.x), float(p.y)) for p in res])
        k = q["q"]
        if any(p is x[0] for p in res for x in self.pool.values()):
            self.viol("result-aliases-operand", "%s returns one of its arguments" % w)
        if k == "cc":
            want = circles(self.v(q["a"]), q["r"], self.v(q["b"]), q["s"], self.tol)
        elif k in ("cl", "cr"):
            want = circle_line(self.v(q["a"]), q["r"], self.v(q["b"]), self.v(q["c"]), self.tol,
                               k == "cr")
        else:
            want = lines(self.v(q["a"]), self.v(q["b"]), self.v(q["c"]), self.v(q["d"]), self.tol,
                         k == "rr", k != "ll")
        bad = want.wrong(got)
        if bad:
            self.viol("intersection/" + k, "%s gives %s: %s" % (w, got, bad))
        self.ctx.states.add(repr((k, len(want.must), len(want.may), want.twice, len(got))))
        self.ctx.probes["%s in %d points%s" % (k, len(want.must), ", tangent" if want.twice else "")
                        ] += 1

    def judge_tol(self, q, res, w):
        eq, lt, gt, le, ge = map(bool, res[:5])
        if lt + eq + gt > 1 or q["q"] == "scalar" and lt + eq + gt != 1:
            self.viol("tolerance", "%s: less %s, equal %s, greater %s" % (w, lt, eq, gt))
        if le != (lt or eq) or ge != (gt or eq):
            self.viol("tolerance", "%s: less %s, equal %s, greater %s, but not greater %s, not less %s"
                      % (w, lt, eq, gt, le, ge))
        if q["q"] == "vtol":
            pairs = list(zip(self.v(q["a"]), self.v(q["b"])))
            rel, ab = self.tol
        else:
            pairs = [(q["x"], q["y"])]
            rel, ab = q.get("own") or self.tol
            if q.get("rel") is not None:
                rel = q["rel"]
            if q.get("abs") is not None:
                ab = q["abs"]
            if bool(res[5]) != bool(res[6]):
                self.viol("tolerance", "%s: is zero %s, equals zero %s" % (w, res[5], res[6]))
        sure = []
        for x, y in pairs:
            x, y = Fr(float(x)), Fr(float(y))
            diff, small, large = abs(x - y), min(abs(x), abs(y)), max(abs(x), abs(y))
            if diff <= (ab + rel * small) * .9:
                sure.append(True)
            elif diff > (ab + rel * large) * 1.1 + Fr(1, 10 ** 15) * large:
                sure.append(False)
            else:
                sure.append(None)
        if all(s is True for s in sure) and not eq:
            self.viol("tolerance", "%s: within the tolerances %s, yet not equal" % (w, (rel, ab)))
        if False in sure and eq:
            self.viol("tolerance", "%s: beyond the tolerances %s, yet equal" % (w, (rel, ab)))
        less = all(x < y for x, y in pairs)
        more = all(x > y for x, y in pairs)
        if lt and not less or gt and not more:
            self.viol("tolerance", "%s: less %s, greater %s" % (w, lt, gt))
        if False in sure and (less and not lt or more and not gt):
            self.viol("tolerance", "%s: less %s, greater %s" % (w, lt, gt))
        self.ctx.states.add(repr((q["q"], lt, eq, gt, sure)))

    def judge_turn(self, q, res, w):
        for t in res:
            if sum(t) != 1:
                self.viol("orientation", "%s: clockwise, counter-clockwise, flat: %s" % (w, t))
        a, b, c = (self.v(q[x]) for x in "abc")
        for s, t in zip(((a, b, c), (b, c, a), (c, a, b), (c, b, a), (b, a, c), (a, c, b)), res):
            try:
                want = orientation(*(s + (self.tol,)))
            except Skip:
                continue
            got = 1 if t[1] else -1 if t[0] else 0
            if got != want:
                self.viol("orientation", "%s: %s is %s, not %s" % (w, s, got, want))
            self.ctx.states.add(repr(("turn", want)))

    def judge_angle(self, q, res, w):
        a, b, c = (exact(self.v(q[x])) for x in "abc")
        u, v = minus(a, b), minus(c, b)
        rel, ab = self.tol
        lens = [root(dot(u, u)), root(dot(v, v))]
        (x, acute, obtuse), (y, acute2, obtuse2) = res
        if acute and obtuse or acute2 and obtuse2 or acute != acute2 or obtuse != obtuse2:
            self.viol("angle", "%s: acute and obtuse: %s, %s; end points exchanged: %s, %s" % (
                w, acute, obtuse, acute2, obtuse2))
        if (x is None) != (y is None):
            self.viol("angle", "%s: %s, with the end points exchanged %s" % (w, x, y))
        if any(n == 0 or n * 2 <= ab for n in lens):
            if x is not None or acute or obtuse:
                self.viol("angle", "%s: %s at a point that coincides with another" % (w, x))
            return
        if any(n <= 2 * ab + 1e-12 for n in lens):
            raise Skip
        if x is None:
            self.viol("angle", "%s: no angle" % w)
        want = abs(math.atan2(float(cross(u, v)), float(dot(u, v))))
        # the arc cosine takes small errors to their root at its ends
        if abs(abs(x) - want) > (1e-6 if 1e-3 < want < 3.14 else 3e-6):
            self.viol("angle", "%s: %s, expected +-%s" % (w, x, want))
        turn = orientation(*([self.v(q[n]) for n in "abc"] + [self.tol]))
        if turn and 3e-6 < want and (abs(x + y) > 1e-9 or (x > 0) != (turn < 0)):
            self.viol("angle", "%s: %s, with the end points exchanged %s; the turn is %s" % (
                w, x, y, turn))
        cos = dot(u, v) / (lens[0] * lens[1])
        near = 3 * (ab + rel * 1.6) + 1e-7
        if abs(cos) > near and (bool(acute), bool(obtuse)) != (cos > 0, cos < 0):
            self.viol("angle", "%s: %s rad: acute %s, obtuse %s" % (w, x, acute, obtuse))
        if dot(u, v) == 0 and rel + ab > 1e-12 and (acute or obtuse):
            self.viol("angle", "%s: a right angle: acute %s, obtuse %s" % (w, acute, obtuse))
        self.ctx.states.add(repr(("angle", turn, acute, obtuse)))

    def close(self, w, got, want, scale=None, eps=1e-9):
        """Are these rows what they should be, within floating point error?"""
        got = normal("rows", lambda: [[float(x) for x in row] for row in got])
        if [len(r) for r in got] != [len(r) for r in want]:
            self.viol("value", "%s gives %s, expected %s" % (w, short(repr(got)), fmt(want)))
        if scale is None:
            scale = max([1.0] + [abs(float(x)) for row in want for x in row])
        for r, s in zip(got, want):
            for x, y in zip(r, s):
                if not abs(x - float(y)) <= eps * float(scale):
                    self.viol("value", "%s gives %s, expected %s" % (w, short(repr(got)), fmt(want)))

    def judge_value(self, q, res, w):
        k = q["q"]
        if k not in ("dot", "measure", "cmp", "dist", "long", "shape") and \
                any(res is x[0] for x in self.pool.values()):
            self.viol("result-aliases-operand", "%s returns an operand itself" % w)
        if k in ("add", "sub", "mul", "div", "inplace"):
            a = self.v(q["a"])
            b = self.v(q["b"]) if isinstance(q["b"], str) else [q["b"], q["b"]]
            f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
                 "div": lambda x, y: x / y}[q.get("w", k)]
            a, b = exact(a), exact(b)
            want = [[f(a[0], b[0])], [f(a[1], b[1])]]
            self.close(w, self.read(res), want, max(
                map(abs, a + b + [want[0][0], want[1][0]])) or 1, 1e-12)
        elif k == "neg":
            self.close(w, self.read(res), [[-x] for x in self.v(q["a"])])
        elif k in ("copy", "column", "origin"):
            want = self.v(q["a"]) if k == "copy" else q["x"] if k == "column" else [0, 0]
            self.close(w, self.read(res), [[x] for x in want], eps=0)
        elif k == "rotate":
            (x, y), t = self.v(q["a"]), math.radians(math.fmod(q["x"], 360))
            c, s = math.cos(t), math.sin(t)
            # either sense of rotation is the package's business, as long as it keeps to one
            self.close(w, self.read(res), [[c * x - s * y], [s * x + c * y]],
                       abs(x) + abs(y) + 1e-300, 1e-9)
        elif k == "dot":
            a, b = exact(self.v(q["a"])), exact(self.v(q["b"]))
            scale = abs(a[0] * b[0]) + abs(a[1] * b[1]) or 1
            self.close(w, [[res]], [[dot(a, b)]], scale, 1e-12)
        elif k == "dist":
            d = minus(exact(self.v(q["a"])), exact(self.v(q["b"])))
            self.close(w, [[res]], [[root(dot(d, d))]], eps=1e-9)
        elif k == "measure":
            x, y = self.v(q["a"])
            pos = x >= 0 and y >= 0
            self.close(w, [[res[0]]], [[root(Fr(x) ** 2 + Fr(y) ** 2)]], eps=1e-10)
            self.close(w, [[res[1]]], [[math.degrees(math.atan2(y, x))]], 1, 1e-9)
            got = normal("measure", lambda: [res[2], res[3], res[4], list(res[5]), list(res[6])] +
                         list(res[7:9]) + [bool(res[9]), bool(res[10])] + list(res[11:13])
                         + [list(res[13])])
            if got != [x, y, y, [x, y], [y], x, y, pos, not pos, 2, 1, [x, y]]:
                self.viol("value", "%s gives %s" % (w, got))
        elif k == "cmp":
            a, b = self.v(q["a"]), self.v(q["b"])
            want = [a == b, a[0] >= b[0] and a[1] >= b[1], a[0] > b[0] and a[1] > b[1],
                    a[0] <= b[0] and a[1] <= b[1], a[0] < b[0] and a[1] < b[1], a != b]
            if list(map(bool, res)) != want:
                self.viol("comparison", "%s: %s, expected %s for %s" % (
                    w, list(res), want, sorted(COMPARE)))
        elif k == "hcs":
            self.judge_hcs(q, res, w)
        elif k == "cst":
            self.judge_cst(q, res, w)
        elif k == "mmul":
            a, b = self.m(q["a"]), self.m(q["b"])
            scale = norm(a) * norm(b) or 1
            self.close(w, self.read(res), product(a, b), scale, 1e-12)
        elif k == "transpose":
            self.close(w, self.read(res), [list(r) for r in zip(*self.m(q["a"]))], eps=0)
        elif k in ("inverse", "solve"):
            a = self.m(q["a"])
            inv = invert(a)
            cond = float(norm([[Fr(x) for x in r] for r in a]) * norm(inv))
            if cond > 1e6:
                raise Skip
            want = inv if k == "inverse" else product(inv, self.m(q["b"]))
            scale = float(norm(inv)) * (1 if k == "inverse" else float(norm(self.m(q["b"])) or 1))
            self.close(w, self.read(res), want, scale, 1e-13 * cond + 1e-12)
        elif k == "identity":
            self.close(w, self.read(res), [[int(i == j) for j in range(q["n"])]
                                           for i in range(q["n"])], eps=0)
        elif k == "long":
            self.close(w, res, [[q["n"], 2 * q["n"]]] * 2, eps=0)
        elif k == "shape":
            a = self.m(q["a"])
            r, c = len(a), len(a[0])
            if list(res) != [r, c, r * c, 2 if r > 1 and c > 1 else 1]:
                self.viol("value", "%s gives %s" % (w, list(res)))
        self.ctx.states.add(repr((k, q.get("w"), type(q.get("b")).__name__, q.get("scale"))))

    def judge_hcs(self, q, res, w):
        a, b = self.v(q["a"]), self.v(q["b"])
        u = minus(exact(b), exact(a))
        n = root(dot(u, u))
        if n == 0 or 2 * n <= self.tol[1]:
            if res is not None:
                self.viol("value", "%s: coordinate system of coinciding points" % w)
            return
        if n <= 2 * self.tol[1] + Fr(1, 10 ** 9):
            raise Skip
        if not q["scale"]:
            u = [u[0] / n, u[1] / n]
        if res is None:
            self.viol("value", "%s gives nothing" % w)
        scale = max([1.0] + [abs(x) for x in a + b])
        self.close(w, self.read(res), [[u[0], -u[1], a[0]], [u[1], u[0], a[1]], [0, 0, 1]], scale,
                   1e-9 / min(1.0, float(n)))

    def judge_cst(self, q, res, w):
        """A motion (or similarity) taking one pair of points to another"""
        pts = [self.v(q[x]) for x in "abcd"]
        t = normal("matrix", lambda: self.read(res))
        f = [[float(x) for x in r] for r in t]
        scale = max([1.0] + [abs(x) for p in pts for x in p])

        def image(p):
            h = [r[0] * p[0] + r[1] * p[1] + r[2] for r in f]
            return [h[0] / h[2], h[1] / h[2]]
        n1, n2 = (math.hypot(*minus(pts[i + 1], pts[i])) for i in (0, 2))
        k = n2 / n1 if q["scale"] else 1.0
        eps = 1e-9 * scale * max(1.0, scale / n1) * max(1.0, scale / n2) * max(1.0, k)
        aim = pts[3] if q["scale"] else [
            pts[2][i] + (pts[3][i] - pts[2][i]) * n1 / n2 for i in (0, 1)]
        for p, want in ((pts[0], pts[2]), (pts[1], aim)):
            got = image(p)
            if math.hypot(*minus(got, want)) > eps:
                self.viol("value", "%s takes %s to %s, expected %s" % (w, p, got, want))
        det = f[0][0] * f[1][1] - f[0][1] * f[1][0]
        if abs(det - k * k) > 1e-6 * max(1.0, k * k):
            self.viol("value", "%s has determinant %s, expected %s" % (w, det, k * k))

    def usable(self, q):
        """No question without an answer"""
        k = q["q"]
        if not self.ready(q):
            return False
        if k in ("div", "inplace") and (k == "div" or q["w"] == "div"):
            b = self.v(q["b"]) if isinstance(q["b"], str) else [q["b"]]
            return all(abs(x) > 1e-6 for x in b)
        if k == "mmul":
            # the product of two vectors goes by elements
            return not self.isvec(q["a"]) and len(self.m(q["a"])[0]) == len(self.m(q["b"]))
        if k in ("inverse", "solve"):
            a = self.m(q["a"])
            if self.isvec(q["a"]) or len(a) != len(a[0]):
                return False
            inv = invert(a)
            if inv is None or norm([[Fr(x) for x in r] for r in a]) * norm(inv) > 10 ** 6:
                return False
            return k == "inverse" or len(self.m(q["b"])) == len(a)
        if k == "refused":
            a, w = self.m(q["a"]), q["w"]
            shape = (len(a), len(a[0]))
            if w in ("index", "row", "col", "zero"):
                return self.isvec(q["a"])
            if self.isvec(q["a"]):
                return False
            if w == "vector":
                return shape != (2, 1)
            if w == "mmul":
                return shape[1] != len(self.m(q["b"]))
            if shape[0] == shape[1]:      # singular beyond rounding
                if all(any(r) for r in a) and all(any(c) for c in zip(*a)):
                    return w == "solve" and len(self.m(q["b"])) != len(a)
                return True
            return w == "inverse"
        if k == "cst":
            ns = [math.hypot(*minus(self.v(q[y]), self.v(q[x]))) for x, y in ("ab", "cd")]
            return min(ns) > 1e-3 and min(ns) > 3 * self.tol[1]
        if k in ("cl", "cr"):
            return self.v(q["c"]) != [0, 0]
        if k in ("ll", "lr", "rr"):
            return self.v(q["b"]) != [0, 0] and self.v(q["d"]) != [0, 0]
        return True

    def op_ask(self, o):
        q = o["q_"]
        if not self.usable(q):
            return
        res, exc, fired = self.call(lambda: self.ask(q), o.get("fault"))
        self.ctx.log("ask", q["q"], type(exc).__name__, fired)
        where = "alone"
        if q["q"] == "refused":
            if exc is None:
                self.viol("not-refused", "%s gives %s" % (self.text(q), short(str(res))))
            self.ctx.probes["%s refused" % q["w"]] += 1
            return self.check_pool("after %s was refused" % self.text(q))
        if exc is not None and fired:
            self.check_pool("after %s failed" % self.text(q))
            res, exc, _ = self.call(lambda: self.ask(q))
            where = "repeated after a failure"
        if exc is not None:
            self.viol("unexpected-exception", "%s: %s: %s" % (
                self.text(q), type(exc).__name__, short(str(exc))))
        self.judge(q, res, where)
        self.check_pool("after %s" % self.text(q))
        made = [r for r in (res if isinstance(res, list) else [res])
                if isinstance(r, self.sut.Matrix)]
        if o.get("again"):
            res2, exc, _ = self.call(lambda: self.ask(q))
            if exc is not None:
                self.viol("unexpected-exception", "%s, asked again: %s" % (self.text(q), exc))
            self.judge(q, res2, "asked again")
            for r in res2 if isinstance(res2, list) else [res2]:
                if isinstance(r, self.sut.Matrix):
                    if any(r is x for x in made):
                        self.viol("result-shared", "%s gives one object twice" % self.text(q))
                    made.append(r)
        for j, r in enumerate(made):
            if o.get("store"):
                self.pool["%s.%d" % (o["store"], j)] = [r, normal("value", lambda: self.read(r))]
                self.ctx.probes["result used as an operand"] += 1

    def op_clients(self, o):
        scripts = [[q for q in s if self.usable(q)] for s in o["scripts"]]
        cl = conc.Clients(self.ctx, o["sched"], scripts, lambda me, i, q: self.ask(q))
        made = []
        for me, rs in enumerate(cl.run()):
            for q, res, exc, fired in rs:
                if exc is not None and (fired or q["q"] == "refused"):
                    continue
                if q["q"] == "refused":
                    self.viol("not-refused", "client %d: %s gives %s" % (
                        me, self.text(q), short(str(res))))
                if exc is not None:
                    self.viol("unexpected-exception", "client %d: %s: %r" % (me, self.text(q), exc))
                self.judge(q, res, "client %d of several" % me)
                made += [r for r in (res if isinstance(res, list) else [res])
                         if isinstance(r, self.sut.Matrix)]
        if len({id(x) for x in made}) != len(made):
            self.viol("result-shared", "simultaneous clients are given one object")
        self.ctx.probes["simultaneous clients"] += 1
        self.check_pool("after simultaneous clients")


def fmt(rows):
    return short(repr([[float(x) for x in r] for r in rows]))


def run(sc, ctx, fresh):
    ctx.extra["scenario"] = sc
    with seams.LogSim(ctx, sc["cfg"].get("log", "off"), 2) as log:
        w = World(ctx, fresh(), sc)
        w.log = log
        for i, o in enumerate(sc["ops"]):
            ctx.log("#%d c%s" % (i, o.get("c_", 0)))
            getattr(w, "op_" + o["op"])(o)
        ctx.nontrivial = ctx.steps > 2


def shrink_lists(sc):
    paths = [["ops"]] + conc.shrink_schedules(sc["ops"])
    for i, o in enumerate(sc["ops"]):
        for j, _ in enumerate(o.get("scripts", ())):
            paths.append(["ops", i, "scripts", j])
    return paths


# ----------------------------------------------------------------- generation

TRIPLES = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (0, 1, 1), (1, 0, 1), (4, 3, 5)]


def gen(prop, rng, tier="quick"):
    cfg = {"hash": "spread", "hashseed": 0,
           "log": rng.choice(["off", "off", "ok", "full", "raising"])}
    unit = rng.choice([1.0, 1.0, 1.0, .5, .25, 8.0, 64.0])
    span = rng.choice([2, 4, 10])
    grid = rng.random() < .7
    faults = rng.random() < .5
    ops, vecs, mats, count = [], [], [], [0]
    val = {}
    now = [1e-5, 1e-8]      # tolerances in force
    asked = []

    far = rng.choice([256, 4096, -65536]) * unit if prop != "C21" and rng.random() < .15 else 0

    def coord():
        return far + step()

    def step():
        if grid or rng.random() < .3:
            return rng.randint(-span, span) * unit
        return rng.uniform(-span, span) * unit

    def fresh():
        count[0] += 1
        return "x%d" % count[0]

    def vec(x, y):
        i = fresh()
        ops.append({"op": "new", "id": i, "kind": "v", "m": [x, y], "c_": rng.randrange(3)})
        vecs.append(i)
        val[i] = (x, y)
        return i

    def mat():
        i = fresh()
        r, c = rng.choice([(1, 1), (2, 2), (2, 2), (3, 3), (3, 3), (2, 1), (1, 3), (3, 2), (4, 4),
                           (3, 1)])
        m = [[float(rng.randint(-3, 3)) if rng.random() < .8 else round(rng.uniform(-5, 5), 3)
              for _ in range(c)] for _ in range(r)]
        ops.append({"op": "new", "id": i, "kind": "m", "m": m, "c_": rng.randrange(3)})
        mats.append(i)
        return i

    def some(zero=True):
        if vecs and rng.random() < .6 and (zero or not far):
            return rng.choice(vecs)
        if not zero:
            x = y = 0
            while x == y == 0:
                x, y = step(), step()
            return vec(x, y)
        return vec(coord(), coord())

    def tiny():
        """A little more or less than the tolerances in force, or than usual ones"""
        return rng.choice([-1, 1]) * rng.choice([
            now[1] / 30, now[1] / 10, now[1] * 25, now[1] * 200, 2e-4, 2e-5 * unit, 1e-3 * unit, 2e-3,
            1e-6])

    def figures():
        """A question about two figures, often one that touches"""
        k = rng.choice(sorted(INTERSECT))
        q = {"q": k, "a": some()}
        x, y = val[q["a"]]
        if k == "cc":
            style = rng.choice(["free", "free", "touch", "inside", "same", "crossing", "chord"])
            a, b, c = rng.choice(TRIPLES)
            sx, sy = rng.choice([-1, 1]), rng.choice([-1, 1])
            q["r"] = rng.randint(1, 9) * unit
            if style == "touch":
                q["b"] = vec(x + sx * a * unit, y + sy * b * unit)
                q["r"] = rng.randint(0, c + 4) * unit
                q["s"] = abs(c * unit - q["r"])
            elif style == "crossing":
                q["b"] = vec(x + sx * a * unit, y + sy * b * unit)
                q["s"] = abs(c * unit - q["r"]) + rng.choice([.25, .5, 1]) * unit
            elif style == "chord":       # the common chord goes through a centre
                q["b"] = vec(*rng.choice([(x + sx * a * unit, y), (x, y + sy * a * unit)]))
                q["r"], q["s"] = rng.choice([(b, c), (b, c), (c, b)])
                q["r"], q["s"] = q["r"] * unit, q["s"] * unit
            elif style == "same":
                q["b"] = rng.choice([q["a"], vec(x, y)])
                q["s"] = rng.choice([q["r"], 2 * q["r"]])
            else:
                q["b"] = some()
                q["s"] = rng.choice([rng.randint(0, 9) * unit, rng.uniform(.1, 9) * unit])
                if style == "inside":
                    q["r"] += 40 * unit
            if style in ("touch", "crossing") and rng.random() < .3:
                q["s"] = abs(q["s"] + tiny())
            return q
        if k in ("cl", "cr"):
            a, b, c = rng.choice(TRIPLES)
            q["r"] = rng.choice([c, 1, 2, 3, rng.uniform(.1, 5)]) * unit
            if rng.random() < .45:       # tangent, or through a point of the circle
                q["r"] = c * unit
                t = rng.choice([0, 0, 1, -1, 2, -3])
                d = (-b, a) if rng.random() < .6 else rng.choice([(1, 0), (0, 1), (a, b), (1, 2)])
                f = rng.choice([1, 1, -1, .5, 3])
                q["c"] = vec(d[0] * f, d[1] * f)
                if k == "cr" and rng.random() < .3:        # a little before or behind the origin
                    h = rng.choice([-.1, .1, -.15, .05, 30, -30]) * now[1] / dot(d, d) / f
                    q["b"] = vec(x + a * unit + h * d[0], y + b * unit + h * d[1])
                    return q
                e = [0, 0] if rng.random() < .6 else rng.choice([[tiny(), 0], [0, tiny()]])
                q["b"] = vec(x + a * unit + t * d[0] * unit + e[0],
                             y + b * unit + t * d[1] * unit + e[1])
            else:
                q["b"], q["c"] = some(), direction()
            return q
        q["b"] = direction()
        q["d"] = direction()
        if rng.random() < .15:
            u = val[q["b"]]
            f = rng.choice([1, -1, 2, -.5])
            q["d"] = vec(u[0] * f, u[1] * f)
        r = rng.random()
        if r < .3:                       # through one another's origins
            u = val[q["d"]]
            f = rng.choice([0, 1, -1, 2]) + (tiny() if rng.random() < .3 else 0)
            q["c"] = vec(x + f * u[0], y + f * u[1])
        elif r < .4:                     # a little before or behind the origin
            u = val[q["d"]]
            f = rng.choice([-.1, .1, -.15, .05, 30, -30]) * now[1] / (dot(u, u) or 1)
            q["c"] = vec(x + f * u[0], y + f * u[1])
        elif r < .5:
            u = val[q["b"]]
            f = rng.choice([0, 1, -1, 2]) + (tiny() if rng.random() < .3 else 0)
            q["c"] = vec(x + f * u[0], y + f * u[1])
        else:
            q["c"] = some()
        return q

    def direction():
        r = rng.random()
        if r < .1:                       # all but upright or level
            e = rng.choice([1e-2, -5e-3, 1e-3, -2e-4, 1e-5, 1e-8, -1e-9])
            return vec(*rng.choice([(1, e), (e, 1), (-1, e), (e, -1), (1, 1 + e)]))
        if r < .35:
            return vec(*rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (1, -1), (2, 1)]))
        if r < .5:
            t = rng.uniform(-4, 4)
            return vec(math.cos(t), math.sin(t))
        return some(False)

    def tolerances():
        k = rng.random()
        x = rng.choice([0, 1, -1, 5, 1e3, -1e3, 1e-6, rng.uniform(-9, 9), 10 ** rng.uniform(-9, 6)])
        y = x + rng.choice([0, 1, -1, 1e-9, -1e-9, 1e-7, 1e-4, -1e-4, .2 * abs(x), 1e-6 * abs(x),
                            -1e-6 * abs(x), 1e-4 * abs(x), -5e-5 * abs(x)])
        if k < .1:
            y = -x
        q = {"q": "scalar", "x": x, "y": y}
        if rng.random() < .2:
            q["rel"] = rng.choice([0, 1e-3, .1, 1e-9])
        if rng.random() < .2:
            q["abs"] = rng.choice([0, 1e-3, .1, 1e-9])
        if rng.random() < .15:
            q["own"] = [rng.choice([0, 1e-2]), rng.choice([0, .1])]
        return q

    def near():
        """A point close to another one"""
        i = some()
        x, y = val[i]
        e = rng.choice([1e-9, 1e-7, 1e-5, 1e-3, 1e-4 * unit])
        return i, vec(x + rng.choice([0, e, -e]), y + rng.choice([0, e, -e]))

    def question():
        if asked and rng.random() < .25:         # as before, or nearly
            q = dict(rng.choice(asked))
            if rng.random() < .5:
                names = [x for x in "abcd" if q.get(x) in val]
                if names:
                    x = rng.choice(names)
                    p = list(val[q[x]])
                    p[rng.randrange(2)] += rng.choice([1e-4, -1e-4, 4e-4, unit])
                    q[x] = vec(*p)
            return q
        q = new_question()
        asked.append(q)
        return q

    def new_question():
        if prop == "C19":
            return figures()
        if prop == "C20":
            k = rng.choice(["scalar", "scalar", "vtol", "turn", "turn", "turn", "angle", "angle",
                            "dist"])
            if k == "scalar":
                return tolerances()
            q = {"q": k, "a": some(), "b": some(), "c": some()}
            if rng.random() < .25:
                q["a"], q["b"] = near()
            if k in ("turn", "angle") and rng.random() < .3:       # special triples
                x, y = val[q["b"]]
                dx, dy = step(), step()
                f = rng.choice([1, -1, 2, -.5, 0])
                ends = [(x + dx, y + dy), (x + f * dx, y + f * dy)]
                if rng.random() < .4:                              # thin, or nearly right
                    ends[1] = (ends[1][0] + tiny(), ends[1][1])
                if rng.random() < .5:
                    ends[1] = (x - f * dy + (tiny() if rng.random() < .4 else 0), y + f * dx)
                q["a"], q["c"] = vec(*ends[0]), vec(*ends[1])
            if k in ("vtol", "dist"):
                del q["c"]
            return q
        k = rng.choice(["add", "add", "sub", "mul", "div", "inplace", "neg", "rotate", "rotate",
                        "dot", "measure", "measure", "cmp", "copy", "column", "origin", "hcs",
                        "cst", "mmul", "mmul", "mmul", "transpose", "transpose", "inverse",
                        "inverse", "solve", "identity", "shape", "long", "refused"])
        q = {"q": k}
        if k == "refused":
            q["w"] = rng.choice(["index", "row", "col", "zero", "vector", "mmul", "inverse",
                                 "inverse", "solve", "solve"])
            if q["w"] in ("index", "row", "col", "zero"):
                q.update(a=some(), n=rng.choice([2, 3, 5, -3]))
                return q
            q["a"] = rng.choice(mats) if mats and rng.random() < .5 else mat()
            if rng.random() < .4 and q["w"] in ("inverse", "solve"):
                q["a"] = fresh()
                n = rng.choice([2, 3])
                z = rng.randrange(n)
                m = [[0.0 if i == z else float(rng.randint(-3, 3)) for i in range(n)]
                     for j in range(n)]
                if rng.random() < .5:
                    m = [list(r) for r in zip(*m)]
                ops.append({"op": "new", "id": q["a"], "kind": "m", "m": m, "c_": rng.randrange(3)})
            if q["w"] in ("mmul", "solve"):
                q["b"] = rng.choice(mats + vecs) if mats and rng.random() < .7 else mat()
            return q
        if k in ("add", "sub", "mul", "div", "inplace"):
            q["a"] = some()
            q["b"] = some() if rng.random() < .6 else rng.choice([0, 1, 2, -3, .5, coord()])
            if k == "inplace":
                q["w"] = rng.choice(["add", "sub", "mul", "div"])
        elif k in ("neg", "measure", "copy"):
            q["a"] = some()
        elif k == "rotate":
            q["a"], q["x"] = some(), rng.choice([0, 30, 45, 90, 180, 270, 360, -90, 720, 1,
                                                 rng.uniform(-400, 400)])
        elif k in ("dot", "cmp"):
            q["a"], q["b"] = some(), some()
            if k == "cmp" and rng.random() < .3:
                x, y = val[q["a"]]
                q["b"] = vec(x, y + rng.choice([0, 0, unit]))
        elif k == "column":
            q["x"] = [coord(), coord()]
        elif k == "hcs":
            q.update(a=some(), b=some(), scale=rng.randrange(3))
        elif k == "cst":
            q.update(a=some(), b=some(), c=some(), d=some(), scale=rng.randrange(2))
        elif k == "mmul":
            q["a"] = rng.choice(mats) if mats and rng.random() < .7 else mat()
            q["b"] = rng.choice(mats + vecs) if mats and rng.random() < .8 else mat()
        elif k in ("transpose", "shape"):
            q["a"] = rng.choice(mats + vecs[:1]) if mats and rng.random() < .7 else \
                rng.choice([mat, some])()
        elif k in ("inverse", "solve"):
            q["a"] = rng.choice(mats) if mats and rng.random() < .6 else mat()
            if k == "solve":
                q["b"] = rng.choice(mats + vecs) if mats and rng.random() < .8 else some()
        elif k == "identity":
            q["n"] = rng.choice([1, 2, 3, 4])
        elif k == "long":
            q["n"] = rng.choice([5, 200, 257, 300])
        return q

    for _ in range(rng.randint(2, 5)):
        some()
    if prop == "C21":
        for _ in range(rng.randint(1, 4)):
            mat()
    n_ops = rng.randint(4, 14) if rng.random() < .7 else rng.randint(10, 30)
    if tier == "thorough" and rng.random() < .3:
        n_ops *= 2
    weights = {"ask": 12, "change": 2 if prop == "C21" else 1.2, "tol": 1 if prop != "C21" else .2,
               "clients": 1.5, "drop": .3}
    names = sorted(weights)
    for _ in range(n_ops):
        k = rng.choices(names, [weights[x] for x in names])[0]
        o = {"op": k, "c_": rng.randrange(3)}
        if k == "ask":
            o["q_"] = question()
            o["again"] = rng.random() < .3
            if rng.random() < .35:
                o["store"] = fresh()
                if o["q_"]["q"] in ("add", "sub", "mul", "neg", "rotate", "copy", "origin") \
                        and rng.random() < .6:
                    vecs.append(o["store"] + ".0")
                    val[o["store"] + ".0"] = (unit, -unit)     # only a guess
                elif o["q_"]["q"] in ("mmul", "transpose", "inverse", "identity"):
                    mats.append(o["store"] + ".0")
            if faults and rng.random() < .3:
                o["fault"] = {"k": "line", "n": int(2 ** rng.uniform(0, 6)),
                              "exc": rng.choice(["interrupt", "memory"])} \
                    if rng.random() < .7 else {"k": "sink", "n": 1, "exc": "io"}
        elif k == "change":
            o["id"] = rng.choice(vecs + mats)
            o["how"] = rng.choice(["x", "y", "both", "round"])
            o["x"], o["at"] = coord(), rng.randrange(12)
            i = o["id"]
            if i in val and o["how"] in ("x", "y") and rng.random() < .3:
                o["x"] = val[i]["xy".index(o["how"])] + rng.choice([1e-4, -1e-4, 4e-4])
            if i in val and o["how"] != "round":
                x, y = val[i]
                val[i] = {"x": (o["x"], y), "y": (x, o["x"]), "both": (o["x"], o["x"])}[o["how"]]
        elif k == "drop":
            o["id"] = rng.choice(vecs + mats)
        elif k == "tol":
            o["rel"], o["abs"] = rng.choice([[1e-5, 1e-8], [1e-5, 1e-8], [1e-5, 1e-4], [1e-2, 1e-8],
                                             [1e-9, 1e-12], [1e-3, .01], [0, 0]])
            now[:] = o["rel"], o["abs"]
        else:
            same = question() if rng.random() < .5 else None
            o["scripts"] = []
            for _ in range(rng.randint(2, 3)):
                s = []
                for _ in range(rng.randint(1, 3)):
                    q = question()
                    if same and rng.random() < .6:        # the same question about others
                        for _ in range(12):
                            if q["q"] == same["q"]:
                                break
                            q = question()
                        if q["q"] == same["q"] and rng.random() < .6:
                            for x in "abcd":
                                if x in q and x in same and rng.random() < .5:
                                    q[x] = same[x]
                    s.append(q)
                o["scripts"].append(s)
            if rng.random() < .3:
                rng.choice(rng.choice(o["scripts"]))["fault"] = {
                    "n": rng.randint(1, 400), "exc": "interrupt"}
            o["sched"] = dict(conc.random_spec(rng), max_steps=2000000)
        ops.append(o)
    return {"kind": "geo", "prop": prop, "cfg": cfg, "ops": ops}
