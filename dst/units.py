"""Units: small independent pieces of work on objects of their own, each played
step by step, with everything observed written down.  Used by isosim (C16: a
unit observes the same alone and among others) and diagsim (C17: a unit observes
the same under every logging set-up).  No oracle here: a unit's transcript is
only ever compared with another transcript of the same unit."""
import functools
import math

from . import seams
from .core import INJECTED


class Boom(Exception):
    """Failure of a user supplied computation, part of the scripted history"""


def canon(x):
    """Address-free, order-free text of an observation"""
    if isinstance(x, seams.Name):
        return x.name
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return repr(x)
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, dict):
        return "{%s}" % ",".join(sorted("%s:%s" % (canon(k), canon(v)) for k, v in x.items()))
    if hasattr(x, "mid"):
        return "#" + x.mid
    if isinstance(x, tuple):
        return "(%s)" % ",".join(canon(v) for v in x)
    k = type(x).__name__
    if k == "Vector":
        return "V(%r,%r)" % (x.x, x.y)
    if k == "Matrix":
        return "M%r" % ([[float(e) for e in r] for r in x.elements],)
    if k in ("Distance",):
        return "d(%s)" % ",".join(sorted(canon(p) for p in x.points))
    if k == "Angle":
        return "a(%s;%s)" % (canon(x.points[1]), ",".join(sorted(canon(p) for p in x.points)))
    if k == "Rigid" or k == "Balloon":
        return "%s%s(%s)" % (k, "!" if x.overconstrained else "", ",".join(sorted(map(canon, x.vars))))
    if k == "Hedgehog":
        return "H%s(%s;%s|%s)" % ("!" if x.overconstrained else "", canon(x.c_var), ",".join(
            sorted(map(canon, x.x_vars))), ",".join(sorted(map(canon, x.vars))))
    if k == "Configuration":
        return "C(%s%s)#%s" % ("?" if x.underconstrained else "", canon(dict(x.mapping)), hash(x))
    try:
        return "[%s]" % ",".join(sorted(canon(v) for v in x))
    except TypeError:
        return "<%s>" % k


class Unit(object):
    def __init__(self, sut, layout, spec):
        self.sut, self.layout, self.spec = sut, layout, spec
        self.hook = lambda where: None     # called inside user code
        self.setup()

    def n(self, v):
        return self.layout.name(v)

    def ns(self, vs):
        return [self.n(v) for v in vs]

    def some(self, vs):
        """The points as a collection of some kind, always the same for the same"""
        k = sum(ord(c) for v in vs for c in v) + len(vs)
        names = self.ns(vs)
        return (names, tuple(names), iter(names), (n for n in names))[k % 4]

    def step(self, i):
        """Plays operation i; returns what was observed"""
        op = self.spec["ops"][i]
        try:
            res = "ok " + canon(self.play(*op))
        except INJECTED:
            raise
        except Exception as e:
            res = "raises " + type(e).__name__
        return res + " | " + self.dump()

    def printables(self):
        return []

    def show(self):
        for x in self.printables():
            str(x)
            repr(x)


class GraphUnit(Unit):
    def setup(self):
        self.g = {0: self.sut.Graph()}

    def play(self, k, gi, *a):
        g = self.g.get(gi)
        if g is None:
            return None
        if k == "derive":
            how, to, vs = a
            if how == "copy":
                self.g[to] = g.copy()
            elif how == "reverse":
                self.g[to] = g.reverse()
            elif how == "init":
                self.g[to] = self.sut.Graph(g)
            else:
                self.g[to] = g.subgraph(self.some(vs))
            return None
        if k == "new":
            self.g[a[0]] = self.sut.Graph()
            return None
        val = [x for x in a if not isinstance(x, str)]
        res = getattr(g, k)(*(self.ns([x for x in a if isinstance(x, str)]) + val))
        if k == "path":
            return len(list(res)) > 0
        return res

    def dump(self):
        return ";".join("%s:%s/%s" % (i, canon(list(g.vertices())), canon(
            [(a, b, g.get(a, b)) for a, b in g.edges()])) for i, g in sorted(self.g.items()))

    def printables(self):
        return [self.g[i] for i in sorted(self.g)]


class MethodUnit(Unit):
    def setup(self):
        self.mg = {0: self.sut.MethodGraph(), 1: self.sut.MethodGraph()}
        self.mets, self.mvars = {}, {}
        m, unit = self.sut.method, self

        class Hashed(object):
            def __hash__(self):
                return unit.layout.hash("m" + self.mid)

            def __eq__(self, other):
                return self is other

        def wrap(base):
            class K(Hashed, base):
                pass
            K.__name__ = base.__name__
            return K

        class Term(Hashed, m.Method):
            def execute(self, inmap):
                unit.hook("execute")
                vals = sorted(canon(v) for v in inmap.values())
                if self.fails and any(v in ("3", "7") for v in vals):
                    raise Boom()
                unit.runs = getattr(unit, "runs", 0) + 1
                return {o: "%s(%s)" % (self.mid + canon(o), ",".join(vals)) for o in self.outputs}

        class MTerm(Hashed, m.MultiMethod):
            def multi_execute(self, inmap):
                unit.hook("multi_execute")
                a = [inmap[v] for v in self.inputs]
                return ["%s%s%d" % (self.mid, canon(a), j) for j in range(2)]

        class MV(m.MultiVariable):
            def __hash__(self):
                return unit.layout.hash("mv" + self.vid)

            def __eq__(self, other):
                return self is other
        self.cls = {"term": Term, "mterm": MTerm, "mv": MV}
        for k in ("AddMethod", "SubMethod", "SetMethod", "AssignMethod", "SumProdMethod"):
            self.cls[k] = wrap(getattr(m, k))

    def var(self, v):
        if v.startswith("M"):
            if v not in self.mvars:
                x = self.cls["mv"].__new__(self.cls["mv"])
                x.vid = v
                x.__init__(*([] if v == "M2" else [v]))     # a name is optional
                self.mvars[v] = x
            return self.mvars[v]
        return self.n(v)

    def val(self, v):
        return self.sut.Vector(*v) if isinstance(v, list) else v

    def met(self, mid, kind, ins, outs, extra):
        if mid not in self.mets:
            K = self.cls[kind]
            i, o = [self.var(v) for v in ins], [self.var(v) for v in outs]
            x = K.__new__(K)
            x.mid = mid
            if kind in ("term", "mterm"):
                x.fails = extra
                x.__init__(mid, i, o)
            elif kind == "SetMethod":
                x.__init__(o[0], self.val(extra))
            elif kind == "AssignMethod":
                x.__init__(o[0], i[0])
            else:
                x.__init__(i[0], i[1], o[0])
            self.mets[mid] = x
        return self.mets[mid]

    def play(self, k, gi, *a):
        g = self.mg[gi]
        if k == "addv":
            return g.add_variable(self.var(a[0]), self.val(a[1]))
        if k == "set":
            return g.set(self.var(a[0]), self.val(a[1]), a[2])
        if k == "addm":
            return g.add_method(self.met(*a[:5]), a[5])
        if k == "remm":
            return g.rem_method(self.mets[a[0]]) if a[0] in self.mets else None
        if k == "remv":
            return g.rem_variable(self.var(a[0]))
        if k == "exec":
            return g.execute(self.mets[a[0]]) if a[0] in self.mets else None
        if k == "get":
            return g.get(self.var(a[0]))
        return getattr(g, k)()

    def dump(self):
        out = []
        for i, g in sorted(self.mg.items()):
            out.append("%s:%s/%s" % (i, canon({getattr(v, "vid", None) or str(v): canon(g.get(v))
                                            for v in g.variables()}),
                                     canon(list(g.methods()))))
        return ";".join(out)

    def printables(self):
        return [self.mg[0], self.mg[1]] + [self.mets[m] for m in sorted(self.mets)] + \
            [self.mvars[m] for m in sorted(self.mvars)]


class ConstraintUnit(Unit):
    def setup(self):
        self.g = {0: self.sut.constraint.ConstraintGraph(),
                  1: self.sut.constraint.ConstraintGraph()}
        self.cons = {}
        unit = self

        class Hashed(object):
            def __hash__(self):
                return unit.layout.hash("k" + self.mid)

            def __eq__(self, other):
                return self is other

        self.cls = {}
        for k in ("PlusConstraint", "FunctionConstraint", "NotClockwiseConstraint",
                  "NotCounterClockwiseConstraint", "NotObtuseConstraint", "NotAcuteConstraint"):
            self.cls[k] = type(k, (Hashed, getattr(self.sut.constraint, k)), {})

        class Left(Hashed, self.sut.constraint.SelectionConstraint):
            """A user's selection constraint, with its own verdict"""

            def __init__(self, vs):
                super(Left, self).__init__("left", vs)

            def satisfied(self, mapping):
                unit.hook("verdict")
                x = [mapping[v].x for v in self.variables()]
                return x == sorted(x)
        self.cls["Left"] = Left

    def con(self, cid, kind, vs):
        if cid not in self.cons:
            K = self.cls[kind]
            x = K.__new__(K)
            x.mid = cid
            if kind == "FunctionConstraint":
                def f(*pts):
                    self.hook("predicate")
                    t = sum(p.x * (j + 1) - p.y for j, p in enumerate(pts))
                    if t == 4:
                        raise Boom()
                    return t > 0
                # any callable will do as a predicate, also one without a name
                f = (f, functools.partial(f), Predicate(f), Predicate(f).judge)[
                    sum(map(ord, cid)) % 4]
                x.__init__(f, self.some(vs), name="f" + cid)
            elif kind == "Left":
                x.__init__(self.some(vs))
            else:
                x.__init__(*self.ns(vs))
            self.cons[cid] = x
        return self.cons[cid]

    def play(self, k, gi, *a):
        g = self.g[gi]
        if k in ("add_constraint", "satisfied"):
            c = self.con(*a[:3])
            if k == "satisfied":
                m = {self.n(v): self.sut.Vector(*p) for v, p in a[3].items()}
                if a[1] == "PlusConstraint":
                    m = {v: p.x for v, p in m.items()}
                return (c.satisfied(m), m)
            return g.add_constraint(c)
        if k == "rem_constraint":
            return g.rem_constraint(self.cons[a[0]]) if a[0] in self.cons else None
        if k in ("get_constraints_on_all", "get_constraints_on_any"):
            return list(getattr(g, k)(self.some(a[0])))
        r = getattr(g, k)(*self.ns(a))
        return list(r) if r is not None else None

    def dump(self):
        return ";".join("%s:%s/%s" % (i, canon(list(g.variables())), canon(
            [(c, tuple(c.variables())) for c in g.constraints()])) for i, g in sorted(self.g.items()))

    def printables(self):
        return [self.g[0], self.g[1]] + [self.cons[c] for c in sorted(self.cons)]


class Predicate(object):
    """A user's predicate that is an object"""

    def __init__(self, f):
        self.f = f

    def __call__(self, *pts):
        return self.f(*pts)

    judge = __call__


class ClusterUnit(Unit):
    def setup(self):
        self.c = {}
        self.rel = None

    def play(self, k, *a):
        m = self.sut.cluster
        if k == "new":
            i, kind, c, vs = a
            if kind == "H":
                self.c[i] = m.Hedgehog(self.n(c), self.some(vs))
            else:
                self.c[i] = (m.Rigid if kind == "R" else m.Balloon)(self.some(vs))
            return self.c[i]
        if k == "rel":
            r = self.sut.relation
            x, y = [(r.Distance if len(vs) == 2 else r.Angle)(*self.ns(vs)) for vs in a]
            self.rel = x
            return (x == y, x != y, hash(x) == hash(y), len({x, y}), x, y)
        if a[0] not in self.c or a[1] not in self.c:
            return None
        x, y = self.c[a[0]], self.c[a[1]]
        if k == "flag":
            x.overconstrained = not x.overconstrained
            return None
        if k == "count":
            return (x.n_distances(), x.n_angles(), x.n_constraints(), x.var_list())
        r = getattr(x, k)(y)
        if k == "intersection" and a[2] is not None and r is not None:
            self.c[a[2]] = r
        return r

    def dump(self):
        return canon({i: canon(c) for i, c in self.c.items()})

    def printables(self):
        return [self.c[i] for i in sorted(self.c)] + ([self.rel] if self.rel else [])


class ConfUnit(Unit):
    def setup(self):
        self.c = {}

    def play(self, k, a, *r):
        S = self.sut
        if k == "new":
            self.c[a] = S.Configuration({self.n(v): S.Vector(*p) for v, p in r[0].items()})
            return self.c[a]
        if k == "rebuild":
            x = self.c.get(a)
            if x is not None:
                self.c[r[0]] = S.Configuration(x.mapping)
            return None
        if k == "nudge":     # the client moves a point of its own
            x = self.c.get(a)
            if x is None or not len(x.mapping):
                return None
            v = sorted(x.mapping, key=lambda p: p.name)[0]
            new = dict(x.mapping)
            new[v] = S.Vector(new[v].x + r[0], new[v].y)
            self.c[a] = S.Configuration(new)
            return None
        x = self.c.get(a)
        if x is None:
            return None
        if k == "near":      # how close must figures be to be the same?
            new = dict(x.mapping)
            v = sorted(new, key=lambda p: p.name)[0] if new else None
            if v is None:
                return None
            new[v] = S.Vector(new[v].x, new[v].y + r[0])
            y = S.Configuration(new)
            return (x == y, y == x, x != y)
        if k in ("merge", "add", "eq", "tmat"):
            y = self.c.get(r[0])
            if y is None:
                return None
            if k == "eq":
                return (x == y, x != y, hash(x) == hash(y))
            if k == "tmat":
                return x.transformation_matrix(y)
            res = x.merge(y) if k == "merge" else x.add(y)
            self.c[r[1]] = res[0] if k == "merge" else res
            return res
        if k == "copy":
            self.c[r[0]] = x.copy()
            return x
        if k == "select":
            return x.select(self.some(r[0]))
        if k == "transform":
            self.c[r[1]] = x.transform(S.Matrix([list(q) for q in r[0]]))
            return None
        return (list(x.vars()), hash(x))

    def dump(self):
        return canon({i: canon(c) for i, c in self.c.items()})

    def printables(self):
        return [self.c[i] for i in sorted(self.c)]


class GeoUnit(Unit):
    """Vectors and matrices in registers, changed in place by their owner"""

    def setup(self):
        V = self.sut.Vector
        self.r = [V(*p) for p in self.spec["start"]]
        self.m = self.sut.Matrix([[2.0, 1.0], [0.0, 4.0]])

    def play(self, k, i, j, t, f):
        S, G = self.sut, self.sut.geometry
        a, b = self.r[i], self.r[j]
        if k in ("add", "sub", "neg", "mul", "div", "rot", "copy", "origin"):
            self.r[t] = {"add": lambda: a + b, "sub": lambda: a - b, "neg": lambda: -a,
                         "mul": lambda: a * f, "div": lambda: a / f, "rot": lambda: a.rotate(f),
                         "copy": lambda: S.Vector(a), "origin": lambda: S.Vector.origin()}[k]()
            return self.r[t]
        if k == "setx":
            a.x = f
        elif k == "sety":
            a.y = f
        elif k == "round":
            a.round(1)
        elif k == "matrix":
            self.m = S.Matrix([[a.x, b.x], [a.y, b.y]])
        elif k == "matrixmul":
            return self.m * a
        elif k == "inverse":
            return self.m.inverse()
        elif k == "transpose":
            return self.m.transpose()
        elif k == "matrixset":
            self.m.elements[0][0] = f
        elif k == "identity":
            self.m = S.Matrix.identity(3 if t % 2 else 2)
        elif k == "cmp":
            return (a == b, a != b, a < b, a > b, a <= b, a >= b, a.tol_eq(b))
        elif k == "info":
            return (a.length, a.azimuth, a.dot(b), a[0], tuple(a[:]), a.is_positive(),
                    a.is_negative(), a.num_rows, a.num_dim, G.distance_2p(a, b))
        elif k == "hcs":
            x = G.make_hcs(a, b)
            y = G.make_hcs_scaled(b, a)
            return (x, y) if x is None else (x, y, G.cs_transform_matrix(x, y))
        elif k == "int":
            c, d = self.r[t % len(self.r)], self.r[(t + 1) % len(self.r)]
            return (G.cc_int(a, abs(f), b, 2.0), G.ll_int(a, b, c, d), G.lr_int(a, b, c, d),
                    G.rr_int(a, b, c, d), G.angle_3p(a, b, c), G.is_clockwise(a, b, c),
                    G.is_counterclockwise(a, b, c), G.is_acute(a, b, c), G.is_obtuse(a, b, c))
        elif k == "circle":
            c = self.r[t % len(self.r)]
            return (G.cl_int(a, abs(f), b, c), G.cr_int(a, abs(f), b, c))
        elif k == "tol":
            T = G.Scalar
            return (T.tol_eq(f, a.x), T.tol_zero(a.x), T.tol_gt(f, a.y), T.tol_le(f, a.y),
                    T.sign(f))
        return None

    def dump(self):
        return canon(tuple(self.r)) + canon(self.m)

    def printables(self):
        return self.r + [self.m]


KINDS = {"graph": GraphUnit, "method": MethodUnit, "constraint": ConstraintUnit,
         "cluster": ClusterUnit, "conf": ConfUnit, "geo": GeoUnit}


def build(sut, layout, spec):
    return KINDS[spec["kind"]](sut, layout, spec)


# ----------------------------------------------------------------- generation

def gen_unit(rng, n, kind=None):
    kind = kind or rng.choice(sorted(KINDS))
    spec = {"kind": kind}
    spec["ops"] = GEN[kind](rng, n, spec)
    return spec


def g_graph(rng, n, spec):
    vs = ["a%d" % i for i in range(rng.randint(2, 6))]
    two = ("add_edge", "add_bi_edge", "remove_edge", "remove_bi_edge", "has_edge", "has_bi_edge",
           "has_any_edge", "get", "set", "set_bi_edge", "path")
    one = ("add_vertex", "remove_vertex", "has_vertex", "outgoing_vertices", "ingoing_vertices",
           "adjacent_vertices", "ingoing_edges", "outgoing_edges", "adjacent_edges", "connected",
           "connected_via_outgoing", "connected_via_ingoing")
    none = ("vertices", "edges", "connected_subsets")
    ops, graphs = [["add_vertex", 0, v] for v in vs if rng.random() < .6], [0]
    for _ in range(n):
        k = rng.choice(two + two + one + one + none + ("derive",) * 4 + ("add_edge",) * 10
                       + ("new",))
        g = rng.choice(graphs)
        if k == "derive":
            to = rng.randint(1, 3)
            graphs.append(to)
            ops.append([k, g, rng.choice(["copy", "reverse", "init", "sub"]), to,
                        rng.sample(vs, rng.randint(0, len(vs)))])
        elif k == "new":
            to = rng.randint(1, 3)
            graphs.append(to)
            ops.append([k, g, to])
        elif k in two:
            o = [k, g, rng.choice(vs), rng.choice(vs)]
            if k in ("set", "set_bi_edge") or (k.startswith("add") and rng.random() < .5):
                o.append(rng.randint(0, 5))
            ops.append(o)
        else:
            ops.append([k, g] + ([rng.choice(vs)] if k in one else []))
    return ops


def g_method(rng, n, spec):
    vs = ["x%d" % i for i in range(rng.randint(3, 7))]
    ops, mets = [], {}

    def val():
        return rng.choice([None, 1, 2, 3, 5, 7, 0, -1]) if rng.random() < .8 else \
            [rng.randint(-3, 3), rng.randint(-3, 3)]
    for v in vs:
        if rng.random() < .7:
            ops.append(["addv", 0, v, val()])
    for _ in range(n):
        k = rng.choice(["addv", "set", "set", "set", "addm", "addm", "addm", "addm", "remm",
                        "remv", "exec", "get", "propagate", "propagate", "clear"])
        g = 0 if rng.random() < .8 else 1
        if k == "addv":
            ops.append([k, g, rng.choice(vs), val()])
        elif k == "set":
            ops.append([k, g, rng.choice(vs), val(), rng.random() < .7])
        elif k == "addm":
            if mets and rng.random() < .2:
                ops.append([k, g] + rng.choice(sorted(mets.values())) + [True])
                continue
            mid = "m%d" % len(mets)
            kind = rng.choice(["AddMethod", "SubMethod", "SetMethod", "AssignMethod", "term",
                               "term", "mterm", "SumProdMethod"])
            i = rng.sample(vs, 2 if kind in ("AddMethod", "SubMethod", "SumProdMethod") else
                           0 if kind == "SetMethod" else 1 if kind == "AssignMethod" else
                           rng.randint(0, 2))
            if kind in ("term", "mterm") and rng.random() < .15:
                i = i + ["M0"]
            rest = [v for v in vs if v not in i]
            o = ["M%d" % rng.randrange(2)] if kind in ("mterm", "SumProdMethod") else \
                [rng.choice(rest)] if rest else ["x9"]
            o = [v for v in o if v not in i] or ["M2"]
            if kind == "term" and len(rest) > 1 and rng.random() < .3:
                o = rng.sample(rest, 2)
            extra = val() if kind == "SetMethod" else rng.random() < .3
            mets[mid] = [mid, kind, i, o, extra]
            ops.append([k, g, mid, kind, i, o, extra, rng.random() < .7])
        elif k in ("remm", "exec"):
            if mets:
                ops.append([k, g, rng.choice(sorted(mets))])
        elif k in ("remv", "get"):
            ops.append([k, g, rng.choice(vs)])
        else:
            ops.append([k, g])
    return ops


def g_constraint(rng, n, spec):
    vs = ["p%d" % i for i in range(rng.randint(3, 6))]
    kinds = ["PlusConstraint", "FunctionConstraint", "NotClockwiseConstraint",
             "NotCounterClockwiseConstraint", "NotObtuseConstraint", "NotAcuteConstraint", "Left"]
    ops, cons = [], {}

    def con():
        if cons and rng.random() < .5:
            return cons[rng.choice(sorted(cons))]
        cid = "c%d" % len(cons)
        k = rng.choice(kinds)
        cons[cid] = [cid, k, rng.sample(vs, rng.randint(0, 3)
                                         if k in ("FunctionConstraint", "Left") else 3)]
        return cons[cid]
    for _ in range(n):
        k = rng.choice(["add_constraint"] * 4 + ["satisfied"] * 4 + [
            "rem_constraint", "add_variable", "rem_variable", "get_constraints_on",
            "get_constraints_on_all", "get_constraints_on_any", "variables", "constraints"])
        g = rng.randrange(2)
        if k == "add_constraint":
            ops.append([k, g] + con())
        elif k == "satisfied":
            tiny = 0 if rng.random() < .7 else 10 ** rng.uniform(-9, -2)
            ops.append([k, g] + con() + [{v: [rng.randint(-3, 3) + (tiny and rng.choice(
                [0, tiny, -tiny])), rng.randint(-3, 3)] for v in vs}])
        elif k == "rem_constraint":
            ops.append([k, g, rng.choice(sorted(cons) or ["c0"])])
        elif k.startswith("get_constraints_on_"):
            ops.append([k, g, rng.sample(vs, rng.randint(0, 3))])
        elif k in ("variables", "constraints"):
            ops.append([k, g])
        else:
            ops.append([k, g, rng.choice(vs)])
    return ops


def g_cluster(rng, n, spec):
    pts = ["p%d" % i for i in range(rng.randint(4, 6))]
    ops, ids = [], []

    def new():
        kind = rng.choice("RHB")
        c = rng.choice(pts)
        pool = [p for p in pts if p != c] if kind == "H" else pts
        ids.append("k%d" % len(ids))
        ops.append(["new", ids[-1], kind, c, rng.sample(pool, rng.randint(
            {"R": 1, "H": 2, "B": 3}[kind] if rng.random() < .95 else 1, len(pool)))])
    new()
    new()
    while len(ops) < n:
        k = rng.choice(["new", "rel", "flag", "count", "intersection", "intersection",
                        "common_distances", "common_angles", "common_constraints"])
        a, b = rng.choice(ids), rng.choice(ids)
        if k == "new":
            new()
        elif k == "rel":
            l = rng.choice([2, 3])
            s = rng.sample(pts, l)
            ops.append([k, s, rng.sample(s, l)])
        elif k == "intersection":
            ops.append([k, a, b, "r%d" % rng.randrange(3) if rng.random() < .5 else None])
        else:
            ops.append([k, a, b])
    return ops


def g_conf(rng, n, spec):
    vs = ["v%d" % i for i in range(rng.randint(2, 5))]
    ops, ids = [], []

    def pt():
        return [float(rng.randint(-4, 4)), float(rng.randint(-4, 4))]

    def new():
        ids.append("c%d" % len(ids))
        ops.append(["new", ids[-1], {v: pt() for v in rng.sample(vs, rng.randint(1, len(vs)))}])
    new()
    new()
    while len(ops) < n:
        k = rng.choice(["new", "rebuild", "nudge", "merge", "merge", "add", "eq", "eq", "tmat",
                        "copy", "select", "transform", "vars", "near"])
        a, b, t = rng.choice(ids), rng.choice(ids), "d%d" % rng.randrange(3)
        if k == "new":
            new()
            continue
        if k in ("merge", "add"):
            ops.append([k, a, b, t])
            ids.append(t)
        elif k in ("eq", "tmat"):
            ops.append([k, a, b])
        elif k in ("copy", "rebuild"):
            ops.append([k, a, t])
            ids.append(t)
        elif k == "nudge":
            ops.append([k, a, rng.choice([1.0, -2.0])])
        elif k == "near":
            ops.append([k, a, 10 ** rng.uniform(-9, -2)])
        elif k == "select":
            ops.append([k, a, rng.sample(vs, rng.randint(0, 2))])
        elif k == "transform":
            w = rng.choice([0.0, math.pi / 2, 1.0])
            ops.append([k, a, [[math.cos(w), -math.sin(w), 1.0], [math.sin(w), math.cos(w), -2.0],
                               [0.0, 0.0, 1.0]], t])
            ids.append(t)
        else:
            ops.append([k, a])
    return ops


def g_geo(rng, n, spec):
    spec["start"] = [[rng.randint(-4, 4), rng.randint(-4, 4)] for _ in range(rng.randint(3, 5))]
    m = len(spec["start"])
    ks = ["add", "sub", "neg", "mul", "div", "rot", "copy", "origin", "setx", "sety", "setx", "sety",
          "round", "matrix", "matrixmul", "inverse", "transpose", "matrixset", "identity", "cmp",
          "info", "hcs", "int", "circle", "tol"]
    return [[rng.choice(ks), rng.randrange(m), rng.randrange(m), rng.randrange(m),
             rng.choice([.5, 2.0, -1.0, 90.0, 3.25]) if rng.random() < .8 else
             10 ** rng.uniform(-9, -2)] for _ in range(n)]


GEN = {"graph": g_graph, "method": g_method, "constraint": g_constraint, "cluster": g_cluster,
       "conf": g_conf, "geo": g_geo}
