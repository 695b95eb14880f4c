"""Simulation of large instances (C01-C07, C09-C14): long chains, deep cycles,
wide fans, dense graphs, many combinations, clusters and figures of many points,
in seeded shapes and orders of construction, with seeded failures in between.
The small-world workloads explore histories; this one explores sizes, where
recursion, quadratic bookkeeping and thresholds show.  The references are plain
formulas over the shape."""
import math
import sys
from itertools import combinations, product

from . import seams
from .core import EXC, INJECTED, Violation, normal, short

PROPS = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14")


class Foreign(Exception):
    pass


class World(object):
    def __init__(self, ctx, sut, sc):
        self.ctx, self.sut, self.sc, self.prop = ctx, sut, sc, sc["prop"]
        self.layout = seams.Layout(sc["cfg"]["hash"], sc["cfg"]["hashseed"])

    def n(self, v):
        return self.layout.name(v)

    def viol(self, kind, detail, direct=None):
        self.ctx.log("DIVERGENCE", kind)
        if direct is None or self.prop in direct:
            raise Violation("big/" + kind, detail)
        raise Foreign(kind)

    def call(self, what, fn, direct=None, ok=()):
        """(result, exception of an expected type)"""
        self.ctx.steps += 1
        try:
            return fn(), None
        except (Violation, Foreign):
            raise
        except ok as e:
            return None, e
        except Exception as e:
            self.viol("unexpected-exception", "%s: %s: %s" % (
                what, type(e).__name__, short(str(e))), direct)


# ------------------------------------------------------------- method networks

def structure(o):
    """Methods (id, inputs, output) of a network in topological order, and its
    free variables"""
    s, n = o["shape"], o["n"]
    if s == "chain":
        return [("m%d" % i, ["v%d" % i], "v%d" % (i + 1)) for i in range(n)], ["v0"]
    if s == "fan":
        return [("m%d" % i, ["v0"], "w%d" % i) for i in range(n)], ["v0"]
    if s == "funnel":
        return [("m0", ["v%d" % i for i in range(n)], "w0"),
                ("m1", ["w0"], "w1")], ["v%d" % i for i in range(n)]
    if s == "tree":          # sums of two, upwards
        return [("m%d" % i, ["t%d" % (2 * i + 1), "t%d" % (2 * i + 2)], "t%d" % i)
                for i in reversed(range(n))], ["t%d" % i for i in range(n, 2 * n + 1)]
    if s == "layers":
        w, out = 4, []
        for d in range(n):
            for j in range(w):
                out.append(("m%d.%d" % (d, j), ["l%d.%d" % (d, j), "l%d.%d" % (d, (j + 1) % w)],
                            "l%d.%d" % (d + 1, j)))
        return out, ["l0.%d" % j for j in range(w)]
    raise AssertionError(s)


class Net(World):
    def __init__(self, ctx, sut, sc):
        World.__init__(self, ctx, sut, sc)
        world = self
        self.mg = sut.MethodGraph()
        self.methods, self.objs = {}, {}    # present: id -> (ins, out); objects
        self.vars, self.free = set(), {}
        self.order = []
        self.runs, self.fail_at, self.fail_exc = [], None, None
        self.val = {}
        self.unsettled = False
        lay = self.layout

        class Sum(sut.method.Method):
            def __init__(self, mid, ins, out):
                self.mid = mid
                super(Sum, self).__init__(mid, [world.n(v) for v in ins], [world.n(out)])

            def __hash__(self):
                return lay.hash(self.mid)

            def __eq__(self, other):
                return self is other

            def execute(self, inmap):
                world.on_run(self, inmap)
                return {self.outputs[0]: (1 + sum(inmap[v] for v in self.inputs)) % 1000003}
        self.Sum = Sum

    def on_run(self, m, inmap):
        self.runs.append(m.mid)
        for v in list(m.inputs) + list(m.outputs):
            if v not in inmap or inmap[v] != self.mg.get(v):
                self.ctx.stop_violation = self.ctx.stop_violation or (
                    "stale-input", "%s is given %s for %s, its value is %s" % (
                        m.mid, inmap.get(v, "nothing"), v, self.mg.get(v)))
        if self.fail_at is not None and len(self.runs) >= self.fail_at:
            self.fail_at = None
            self.ctx.faults["method fails (%s)" % self.fail_exc] += 1
            raise EXC[self.fail_exc]("injected")

    def settle(self):
        """Values the network must hold"""
        self.val = dict(self.free)
        for mid in self.order:
            if mid in self.methods:
                ins, out = self.methods[mid]
                x = [self.val.get(v) for v in ins]
                self.val[out] = None if None in x else (1 + sum(x)) % 1000003

    def check(self, where, direct):
        self.settle()
        got = {v.name for v in self.mg.variables()}
        if got != self.vars:
            self.viol("variables", "%s: %s" % (where, diff(got, self.vars)), ("C03", "C04"))
        got = {m.mid for m in self.mg.methods()}
        if got != set(self.methods):
            self.viol("methods", "%s: %s" % (where, diff(got, set(self.methods))),
                      ("C03", "C04"))
        if self.unsettled:
            return
        bad = [(v, self.mg.get(self.n(v)), self.val.get(v)) for v in sorted(self.vars)
               if self.mg.get(self.n(v)) != self.val.get(v)]
        if bad:
            self.viol("wrong-value", "%s: %d of %d variables are wrong: %s is %s, expected %s" % (
                (where, len(bad), len(self.vars)) + bad[0]), direct)
        if self.ctx.stop_violation:
            k, d = self.ctx.stop_violation
            self.ctx.stop_violation = None
            self.viol(k, "%s: %s" % (where, d), ("C06",))

    def down(self, vs):
        vs, seen = set(vs), set()
        for mid in self.order:
            if mid in self.methods and vs & set(self.methods[mid][0]):
                seen.add(mid)
                vs.add(self.methods[mid][1])
        return seen

    def op_net(self, o):
        ms, free = structure(o)
        self.order = [m for m, _, _ in ms]
        spec = {m: (i, x) for m, i, x in ms}
        seq = list(self.order)
        if o["order"] == "backward":
            seq.reverse()
        elif o["order"] == "mixed":
            h = len(seq) // 2
            seq = [x for p in zip(seq[h:2 * h], seq[:h]) for x in p] + seq[2 * h:]
        self.vars.update(free)
        for j, v in enumerate(free):
            x = o["x"] + j
            self.call("add_variable", lambda: self.mg.add_variable(self.n(v)))
            self.call("set", lambda: self.mg.set(self.n(v), x, False))
            self.free[v] = x
        for m in seq:
            ins, out = spec[m]
            self.objs[m] = self.Sum(m, ins, out)
            self.call("add_method %s" % m,
                      lambda: self.mg.add_method(self.objs[m], not o["defer"]), ("C01", "C03"))
            self.methods[m] = (ins, out)
            self.vars.update(ins + [out])
        if o["defer"]:
            if self.runs:
                self.viol("deferred-runs", "deferred additions ran %d methods" % len(self.runs),
                          ("C06",))
            self.call("propagate", self.mg.propagate, ("C01",))
        self.ctx.log("net", o["shape"], o["n"], o["order"], o["defer"])
        self.ctx.probes["network of shape %s" % o["shape"]] += 1
        self.check("after building %d methods" % len(seq), ("C01",))

    def op_set(self, o):
        free = sorted(self.free)
        if not free:
            return
        vs = [free[(o["v"] + j) % len(free)] for j in range(min(o["many"], len(free)))]
        self.runs = []
        for j, v in enumerate(vs):
            last = j == len(vs) - 1
            self.free[v] = o["x"] + j
            if last and o.get("fail"):
                break
            self.call("set %s" % v, lambda: self.mg.set(self.n(v), o["x"] + j, last), ("C01",))
        down = self.down(vs)
        where = "after setting %d variables" % len(vs)
        if o.get("fail"):
            where = "after a failure and another propagation"
            self.fail_at, self.fail_exc = 1 + o["fail"] % max(1, len(down)), o["exc"]
            self.ctx.planned["method fails"] += 1
            caught = None
            try:
                self.mg.set(self.n(vs[-1]), o["x"] + len(vs) - 1)
            except INJECTED as e:
                caught = e
            except Exception as e:
                self.viol("failure-changed", "%s became %s: %s" % (
                    o["exc"], type(e).__name__, short(str(e))), ("C02",))
            if self.fail_at is None and caught is None:
                self.viol("failure-swallowed", "the failure of a method did not reach the caller",
                          ("C02",))
            self.fail_at = None
            self.ctx.steps += 1
            self.call("propagate", self.mg.propagate, ("C02",))
        elif o.get("twice"):
            n = len(self.runs)
            self.call("propagate", self.mg.propagate)
            if len(self.runs) != n:
                self.viol("idle-runs", "propagating a settled network ran %d methods" % (
                    len(self.runs) - n), ("C06",))
        extra = set(self.runs) - down
        if extra:
            self.viol("unjustified-run", "%s: %s ran although nothing it depends on changed" % (
                where, sorted(extra)[:5]), ("C06",))
        if self.sc["ops"][0].get("shape") in ("chain", "fan", "tree") and not o.get("fail") and \
                len(vs) == 1 and len(self.runs) > 2 * len(down) + 2:
            self.viol("too-many-runs", "%s: %d runs of %d methods" % (
                where, len(self.runs), len(down)), ("C06",))
        self.ctx.log("set", len(vs), len(self.runs))
        self.check(where, ("C02",) if o.get("fail") else ("C01",))

    def op_refuse(self, o):
        """A method that closes a cycle through the whole network, or determines
        a determined variable"""
        ms = [m for m in self.order if m in self.methods]
        if not ms or not self.free:
            return
        sut = self.sut.method
        top = ms[o["m"] % len(ms)] if o.get("m") is not None else ms[-1]
        out = self.methods[top][1]
        heads = sorted(v for v in self.free if top in self.down([v]))
        if o["how"] == "cycle":
            if not heads:
                return
            m, want = self.Sum("x", [out], heads[0]), sut.MethodGraphCycleException
        else:
            m, want = self.Sum("x", [], out), sut.MethodGraphDetermineException
        self.runs = []
        _, exc = self.call("adding a method to be refused", lambda: self.mg.add_method(m), ("C03",),
                           (sut.MethodGraphCycleException, sut.MethodGraphDetermineException))
        self.ctx.log("refuse", o["how"], type(exc).__name__)
        self.ctx.probes["%s refused in a large network" % o["how"]] += 1
        if not isinstance(exc, want):
            self.viol("not-refused", "%s over %d methods: %s" % (
                o["how"], len(ms), "accepted" if exc is None else type(exc).__name__), ("C03",))
        if self.runs:
            self.viol("refused-runs", "a refused method made %s run" % self.runs[:5],
                      ("C03", "C06"))
        self.check("after a refused %s" % o["how"], ("C03",))

    def op_remove(self, o):
        ms = [m for m in self.order if m in self.methods]
        if not ms:
            return
        m = ms[o["m"] % len(ms)]
        ins, out = self.methods[m]
        self.settle()
        if o["how"] == "method":
            self.call("rem_method", lambda: self.mg.rem_method(self.objs[m]), ("C04",))
            gone, v = [m], None
        else:
            v = ins[0]
            self.call("rem_variable", lambda: self.mg.rem_variable(self.n(v)), ("C04",))
            gone = [k for k in ms if v in self.methods[k][0] or v == self.methods[k][1]]
            self.vars.discard(v)
            self.free.pop(v, None)
        for k in gone:
            x = self.methods.pop(k)[1]
            if x in self.vars:
                self.free[x] = self.val[x]      # keeps its value
        self.runs = []
        self.ctx.log("remove", o["how"], len(gone))
        self.check("after removing %s" % (m if v is None else v), ("C04",))
        self.call("propagate", self.mg.propagate, ("C04",))
        if set(self.runs) & set(gone):
            self.viol("removed-runs", "removed methods ran: %s" % self.runs[:5], ("C04",))
        self.check("after removing and propagating", ("C04",))

    def op_clear(self, o):
        self.call("clear", self.mg.clear, ("C04",))
        self.vars, self.methods, self.free = set(), {}, {}
        self.ctx.log("clear")
        self.check("after clear", ("C04",))
        self.call("propagate after clear", self.mg.propagate, ("C04",))

    def op_multi(self, o):
        """A method over many combinations, and a chain of multi-valued ones"""
        m, world = self.sut.method, self
        mvs = [m.MultiVariable(x) for x in o["names"]]
        out = m.MultiVariable("out")
        k = self.n("k")

        class Mix(m.MultiMethod):
            def multi_execute(self, inmap):
                x = 0
                for v in self.inputs:
                    x = (x * 31 + inmap[v]) % 1000003
                return [x] if x % 7 else []

        class Step(m.MultiMethod):
            def multi_execute(self, inmap):
                x = inmap[self.inputs[0]]
                return [x, x + 1]
        mg = self.sut.MethodGraph()
        vals = [set((o["x"] + i) * (j + 1) for i in range(s)) for j, s in enumerate(o["sizes"])]
        mg.add_variable(k, 5)
        for v, s in zip(mvs, vals):
            mg.add_variable(v, s)
        mix = Mix("mix", [k] + mvs, [out])
        self.call("add_method", lambda: mg.add_method(mix), ("C05",))

        def want():
            r = set()
            for c in product([5], *vals):
                x = 0
                for y in c:
                    x = (x * 31 + y) % 1000003
                if x % 7:
                    r.add(x)
            return r

        def compare(v, w, where):
            got = normal("multi", lambda: set(mg.get(v)))
            if got != w:
                self.viol("wrong-values", "%s: %s" % (where, diff(got, w)), ("C05",))
        compare(out, want(), "%d combinations" % math.prod(o["sizes"]))
        if vals:
            vals[0] = set(list(sorted(vals[0]))[1:] + [o["x"] + 777])
            self.call("set", lambda: mg.set(mvs[0], vals[0]), ("C05",))
            compare(out, want(), "after changing one input")
        chain = [m.MultiVariable(None) for _ in range(o["chain"] + 1)]
        mg.add_variable(chain[0], {0})
        for a, b in zip(chain, chain[1:]):
            s = Step("step", [a], [b])
            self.call("add_method", lambda: mg.add_method(s), ("C05",))
        compare(chain[-1], set(range(o["chain"] + 1)), "end of a chain")
        self.call("set", lambda: mg.set(chain[0], {10, 11}), ("C05",))
        compare(chain[-1], set(range(10, 12 + o["chain"])), "end of a chain, set again")
        self.ctx.log("multi", o["sizes"], o["chain"])
        self.ctx.probes["many combinations"] += 1


# --------------------------------------------------------------------- graphs

def edges_of(o):
    s, n = o["shape"], o["n"]
    vs = ["b%d" % i for i in range(n)]
    if s in ("chain", "ring", "combs"):
        e = list(zip(vs, vs[1:]))
        if s == "ring":
            e.append((vs[-1], vs[0]))
        if s == "combs":            # every other edge turned round
            e = [x if i % 2 else x[::-1] for i, x in enumerate(e)]
    elif s == "star":
        e = [(vs[0], v) for v in vs[1:]]
    elif s == "dust":
        e = list(zip(vs[0::2], vs[1::2]))
    elif s == "dense":
        e = [(a, b) for i, a in enumerate(vs) for j, b in enumerate(vs) if (i * 7 + j * 3) % 5]
    elif s == "tree":
        e = [(vs[(i - 1) // 2], vs[i]) for i in range(1, n)]
    if o["order"] == "backward":
        e.reverse()
    elif o["order"] == "mixed":
        h = len(e) // 2
        e = [x for p in zip(e[h:2 * h], e[:h]) for x in p] + e[2 * h:]
    return vs, e


class Digraph(World):
    def __init__(self, ctx, sut, sc):
        World.__init__(self, ctx, sut, sc)
        self.g, self.v, self.e = sut.Graph(), set(), {}

    def reach(self, a, ingoing, outgoing):
        nxt = {}
        for x, y in self.e:
            if outgoing:
                nxt.setdefault(x, []).append(y)
            if ingoing:
                nxt.setdefault(y, []).append(x)
        seen, front = set(), list(nxt.get(a, ()))
        while front:
            x = front.pop()
            if x not in seen:
                seen.add(x)
                front.extend(nxt.get(x, ()))
        return seen

    def check(self, g, where, v, e):
        got = {x.name for x in g.vertices()}
        if got != v or len(g.vertices()) != len(v):
            self.viol("vertices", "%s: %s" % (where, diff(got, v)), ("C07",))
        es = [(x.name, y.name) for x, y in g.edges()]
        if len(es) != len(e) or set(es) != set(e):
            self.viol("edges", "%s: %s" % (where, diff(set(es), set(e))), ("C07",))
        for a, b in e:
            if g.get(self.n(a), self.n(b)) != e[(a, b)]:
                self.viol("values", "%s: %s>%s is %s" % (where, a, b, g.get(self.n(a), self.n(b))),
                          ("C07",))
        out, inn = {}, {}
        for a, b in e:
            out.setdefault(a, set()).add(b)
            inn.setdefault(b, set()).add(a)
        for a in v:
            for q, w in (("outgoing_vertices", out), ("ingoing_vertices", inn)):
                got = [x.name for x in getattr(g, q)(self.n(a))]
                if len(got) != len(w.get(a, ())) or set(got) != w.get(a, set()):
                    self.viol(q, "%s: %s of %s: %s" % (where, q, a, diff(
                        set(got), w.get(a, set()))), ("C07",))

    def op_build(self, o):
        vs, es = edges_of(o)
        for i, (a, b) in enumerate(es):
            self.call("add_edge", lambda: self.g.add_edge(self.n(a), self.n(b), i))
            self.e[(a, b)] = i
            self.v.update((a, b))
        for v in vs:
            self.call("add_vertex", lambda: self.g.add_vertex(self.n(v)))
            self.v.add(v)
        self.ctx.log("build", o["shape"], o["n"], o["order"])
        self.ctx.probes["graph of shape %s" % o["shape"]] += 1
        self.check(self.g, "after building", self.v, self.e)

    def op_ask(self, o):
        vs = sorted(self.v, key=lambda x: (len(x), x))
        if not vs:
            return
        a, b = vs[o["a"] % len(vs)], vs[o["b"] % len(vs)]
        p, _ = self.call("path", lambda: self.g.path(self.n(a), self.n(b)), ("C09",))
        p = normal("path", lambda: [x.name for x in p])
        if b in self.reach(a, False, True):
            if len(p) < 2 or p[0] != a or p[-1] != b or any(x not in self.e for x in zip(p, p[1:])):
                self.viol("path", "path(%s, %s) has %d vertices: %s" % (a, b, len(p), short(p)),
                          ("C09",))
        elif p:
            self.viol("path", "path(%s, %s) is %s" % (a, b, short(p)), ("C09",))
        for q, f in (("connected", (True, True)), ("connected_via_outgoing", (False, True)),
                     ("connected_via_ingoing", (True, False))):
            got, _ = self.call(q, lambda: getattr(self.g, q)(self.n(a)), ("C09",))
            got = normal(q, lambda: [x.name for x in got])
            w = self.reach(a, *f) - {a}
            if len(got) != len(w) or set(got) != w:
                self.viol(q, "%s(%s): %s" % (q, a, diff(set(got), w)), ("C09",))
        self.ctx.log("ask", a, b, len(p))

    def op_subsets(self, o):
        got, _ = self.call("connected_subsets", self.g.connected_subsets, ("C09",))
        got = normal("connected_subsets", lambda: sorted(sorted(x.name for x in c) for c in got))
        left, w = set(self.v), []
        while left:
            a = min(left)
            c = self.reach(a, True, True) | {a}
            w.append(sorted(c))
            left -= c
        if got != sorted(w):
            self.viol("subsets", "%d subsets of sizes %s, expected %d of sizes %s" % (
                len(got), [len(x) for x in got][:8], len(w), [len(x) for x in w][:8]), ("C09",))
        self.ctx.log("subsets", len(got))

    def op_change(self, o):
        vs = sorted(self.v, key=lambda x: (len(x), x))
        if not vs:
            return
        if o["how"] == "vertices":
            for j in range(min(o["n"], len(vs))):
                v = vs[(o["a"] + j * 7) % len(vs)]
                if v in self.v:
                    self.call("remove_vertex", lambda: self.g.remove_vertex(self.n(v)))
                    self.v.discard(v)
            self.e = {k: x for k, x in self.e.items() if k[0] in self.v and k[1] in self.v}
        else:
            es = sorted(self.e)
            for j in range(min(o["n"], len(es))):
                k = es[(o["a"] + j * 7) % len(es)]
                if k in self.e:
                    self.call("remove_edge", lambda: self.g.remove_edge(self.n(k[0]),
                                                                        self.n(k[1])))
                    del self.e[k]
        self.ctx.log("change", o["how"], len(self.v), len(self.e))
        self.check(self.g, "after removing", self.v, self.e)

    def op_derive(self, o):
        c, _ = self.call("copy", self.g.copy)
        self.check(c, "a copy", self.v, self.e)
        r, _ = self.call("reverse", self.g.reverse)
        self.check(r, "the reversal", self.v, {(b, a): x for (a, b), x in self.e.items()})
        keep = {v for i, v in enumerate(sorted(self.v)) if i % 3}
        s, _ = self.call("subgraph", lambda: self.g.subgraph([self.n(v) for v in sorted(keep)]))
        self.check(s, "a subgraph", keep, {k: x for k, x in self.e.items()
                                           if k[0] in keep and k[1] in keep})
        self.ctx.log("derive")


# ---------------------------------------------------------- constraint graphs

class Constraints(World):
    def __init__(self, ctx, sut, sc):
        World.__init__(self, ctx, sut, sc)
        self.g, self.v, self.c, self.objs = sut.constraint.ConstraintGraph(), set(), {}, {}

    def op_build(self, o):
        lay = self.layout

        class Plus(self.sut.constraint.PlusConstraint):
            def __hash__(self):
                return lay.hash(self.cid)

            def __eq__(self, other):
                return self is other
        for i in range(o["n"]):
            vs = {"hub": ["hub", "u%d" % i, "w%d" % (i % 5)],
                  "chain": ["u%d" % i, "u%d" % (i + 1), "u%d" % (i + 2)],
                  "pairs": ["u%d" % (i % 17), "u%d" % (i % 13), "w%d" % i]}[o["shape"]]
            c = Plus(*[self.n(v) for v in vs])
            c.cid = "c%d" % i
            self.objs[c.cid] = c
            self.call("add_constraint", lambda: self.g.add_constraint(c))
            self.c[c.cid] = vs
            self.v.update(vs)
        self.ctx.log("build", o["shape"], o["n"])
        self.check("after building")

    def check(self, where):
        got = {v.name for v in self.g.variables()}
        if got != self.v:
            self.viol("variables", "%s: %s" % (where, diff(got, self.v)))
        got = {c.cid for c in self.g.constraints()}
        if got != set(self.c):
            self.viol("constraints", "%s: %s" % (where, diff(got, set(self.c))))

    def op_ask(self, o):
        vs = sorted(self.v)
        some = [vs[(o["a"] + j * 3) % len(vs)] for j in range(min(o["n"], len(vs)))] if vs else []
        for q, vv, w in [("get_constraints_on", some[:1], None)] + [
                ("get_constraints_on_any", some, any), ("get_constraints_on_all", some[:2], all)]:
            if not vv:
                continue
            arg = self.n(vv[0]) if w is None else [self.n(v) for v in vv]
            got, _ = self.call(q, lambda: getattr(self.g, q)(arg))
            got = [c.cid for c in got]
            want = {c for c, x in self.c.items() if (w or any)(v in x for v in vv)}
            if len(got) != len(want) or set(got) != want:
                self.viol(q, "%s(%s): %s" % (q, vv[:4], diff(set(got), want)))
        self.ctx.log("ask", len(some))

    def op_remove(self, o):
        vs = sorted(self.v)
        if not vs:
            return
        v = "hub" if o["hub"] and "hub" in self.v else vs[o["a"] % len(vs)]
        self.call("rem_variable", lambda: self.g.rem_variable(self.n(v)))
        self.v.discard(v)
        self.c = {c: x for c, x in self.c.items() if v not in x}
        self.ctx.log("remove", v, len(self.c))
        self.check("after removing %s" % v)


# ------------------------------------------------------------------- clusters

class Clusters(World):
    def op_pair(self, o):
        m, r = self.sut.cluster, self.sut.relation
        made = []
        for kind, lo, hi in o["two"]:
            pts = ["p%d" % i for i in range(lo, hi)]
            names = [self.n(p) for p in pts]
            if kind == "H":
                made.append((m.Hedgehog(self.n("c"), names), ("H", "c", frozenset(pts))))
            else:
                pts.append("c")
                made.append(((m.Rigid if kind == "R" else m.Balloon)(names + [self.n("c")]),
                             (kind, None, frozenset(pts))))
        (x, mx), (y, my) = made
        if self.prop == "C11":
            from .clustersim import meet
            for a, b, ma, mb in ((x, y, mx, my), (y, x, my, mx)):
                got, _ = self.call("intersection", lambda: a.intersection(b))
                want = meet(ma, mb)
                mod = None if got is None else normal("intersection", lambda: (
                    {m.Rigid: "R", m.Hedgehog: "H", m.Balloon: "B"}[type(got)],
                    got.c_var.name if isinstance(got, m.Hedgehog) else None,
                    frozenset(p.name for p in (got.x_vars if isinstance(got, m.Hedgehog)
                                               else got.vars))))
                if mod != want:
                    self.viol("intersection", "%s: %s, expected %s" % (
                        o["two"], mod and (mod[0], mod[1], len(mod[2])),
                        want and (want[0], want[1], len(want[2]))))
        else:
            from .clustersim import determines
            for c, (k, ctr, xs) in made:
                n = len(xs)
                want = (math.comb(n, 2) if k == "R" else 0,
                        math.comb(n, 2) if k == "H" else 3 * math.comb(n, 3))
                got = (c.n_distances(), c.n_angles())
                if got != want or c.n_constraints() != sum(want):
                    self.viol("counts", "%s of %d points has %s distances and angles, expected %s"
                              % (k, n, got, want))
            if max(hi - lo for _, lo, hi in o["two"]) <= 40:
                dx, ax = determines(mx)
                dy, ay = determines(my)
                for a, b in ((x, y), (y, x)):
                    for q, want in (("common_distances", dx & dy), ("common_angles", ax & ay)):
                        got, _ = self.call(q, lambda: getattr(a, q)(b))
                        got = normal(q, lambda: [
                            ("d", frozenset(p.name for p in t.points))
                            if isinstance(t, r.Distance) else
                            ("a", t.points[1].name, frozenset((t.points[0].name,
                                                               t.points[2].name))) for t in got])
                        if len(got) != len(want) or set(got) != want:
                            self.viol(q, "%s: %d, expected %d" % (o["two"], len(got), len(want)))
        self.ctx.log("pair", o["two"])
        self.ctx.probes["large clusters"] += 1


# ------------------------------------------------------------- configurations

class Figures(World):
    def op_figure(self, o):
        S = self.sut
        n = o["n"]
        F = {"p%d" % i: (o["r"] * math.cos(i * 2.4) * (1 + i % 5), o["r"] * math.sin(i * 2.4)
                         * (1 + i % 3)) for i in range(n)}

        def conf(pts, a, tx, ty):
            return S.Configuration({self.n(v): S.Vector(
                math.cos(a) * F[v][0] - math.sin(a) * F[v][1] + tx,
                math.sin(a) * F[v][0] + math.cos(a) * F[v][1] + ty) for v in pts})
        vs = list(F)
        k = max(2, n // o["pieces"])
        pieces = [vs[max(0, i - 2):i + k] for i in range(0, n, k)]
        if self.prop == "C13":
            made = [conf(p, o["a"] + i, i * 3.0, -i) for i, p in enumerate(pieces)]
            if o["order"] == "backward":
                made.reverse()
            whole = made[0]
            for c in made[1:]:
                (whole, under), _ = self.call("merge", lambda: whole.merge(c))
                if under or whole.underconstrained:
                    self.viol("status", "merging pieces that share two points is reported "
                              "underconstrained")
            got = {v.name: (whole.get(v).x, whole.get(v).y) for v in whole.vars()}
            if set(got) != set(F):
                self.viol("points", diff(set(got), set(F)))
            for a, b in zip(vs, vs[n // 2:] + vs[:n // 2]):
                d = math.hypot(got[a][0] - got[b][0], got[a][1] - got[b][1])
                w = math.hypot(F[a][0] - F[b][0], F[a][1] - F[b][1])
                if abs(d - w) > 1e-5 * o["r"]:
                    self.viol("not-the-figure", "%s and %s are %s apart, in the figure %s" % (
                        a, b, d, w))
        else:
            x, y = conf(vs, 0, 0, 0), conf(list(reversed(vs)), o["a"], 3, -7)
            if not self.call("==", lambda: x == y)[0] or not self.call("==", lambda: y == x)[0]:
                self.viol("equality", "a moved figure of %d points is not equal" % n)
            if hash(x) != hash(y):
                self.viol("hash", "equal figures of %d points have different hashes" % n)
            odd = vs[o["odd"] % n]
            F[odd] = (F[odd][0] + .01 * o["r"], F[odd][1])
            z = conf(vs, 1.0, 0, 2)
            if n > 2 and (self.call("==", lambda: x == z)[0] or self.call("==", lambda: z == x)[0]):
                self.viol("equality", "a figure of %d points equals one with %s displaced" % (
                    n, odd))
        self.ctx.log("figure", n, o["pieces"])
        self.ctx.probes["large figures"] += 1


def diff(got, want):
    a, b = sorted(map(str, set(got) - set(want))), sorted(map(str, set(want) - set(got)))
    return "%d too many (%s), %d missing (%s)" % (
        len(a), ", ".join(a[:4]), len(b), ", ".join(b[:4]))


class Stack(object):
    """Leaves the code under test only so many frames of stack, so that
    recursion over an instance shows at a few hundred elements"""

    def __init__(self, room):
        self.room = room

    def __enter__(self):
        self.saved = sys.getrecursionlimit()
        if self.room:
            f, depth = sys._getframe(), 0
            while f is not None:
                f, depth = f.f_back, depth + 1
            sys.setrecursionlimit(depth + self.room)

    def __exit__(self, *a):
        sys.setrecursionlimit(self.saved)


def run(sc, ctx, fresh):
    ctx.extra["scenario"] = sc
    if not sc["cfg"].get("stack"):
        ctx.extra["no verdict on time"] = True
    cls = {"C07": Digraph, "C09": Digraph, "C10": Constraints, "C11": Clusters, "C12": Clusters,
           "C13": Figures, "C14": Figures}.get(sc["prop"], Net)
    with seams.LogSim(ctx, "off"), Stack(sc["cfg"].get("stack")):
        w = cls(ctx, fresh(), sc)
        try:
            for i, o in enumerate(sc["ops"]):
                ctx.log("#%d" % i)
                getattr(w, "op_" + o["op"])(o)
                ctx.states.add(repr((sc["prop"], sorted(o.items(), key=str))))
        except Foreign:
            pass
        ctx.probes["large instance"] += 1
        ctx.nontrivial = ctx.steps > 0


def shrink_lists(sc):
    return [["ops"]]


def simpler(sc):
    """Smaller sizes"""
    import copy
    out = []
    for i, o in enumerate(sc["ops"]):
        for k in ("n", "chain"):
            if isinstance(o.get(k), int):
                for n in (3, 10, 40, o[k] // 4, o[k] // 2, o[k] * 3 // 4):
                    if 1 < n < o[k]:
                        c = copy.deepcopy(sc)
                        c["ops"][i][k] = n
                        out.append(c)
    return out


# ----------------------------------------------------------------- generation

def gen(prop, rng, tier="quick"):
    cfg = {"hash": "spread", "hashseed": rng.randrange(1 << 30)}
    small = rng.random() < .75
    if small:
        cfg["stack"] = 200
    sc = {"kind": "big", "prop": prop, "cfg": cfg, "ops": []}
    ops = sc["ops"]
    order = rng.choice(["forward", "backward", "mixed"])
    if prop == "C05":
        k = rng.randint(1, 4)
        sizes = [rng.randint(1, {1: 300, 2: 30, 3: 12, 4: 6}[k]) for _ in range(k)]
        ops.append({"op": "multi", "sizes": sizes, "x": rng.randint(1, 999),
                    "names": [rng.choice([None, "a", "a", "b"]) for _ in sizes],
                    "chain": rng.randint(3, 60)})
    elif prop in ("C01", "C02", "C03", "C04", "C06"):
        s = rng.choice(["chain", "chain", "fan", "funnel", "tree", "layers"])
        n = {"chain": rng.choice([230, 260, 150] if small else [1100, 1500]),
             "fan": rng.choice([150, 300] if small else [1200]),
             "funnel": rng.choice([100, 300]), "tree": rng.choice([63, 100, 300]),
             "layers": rng.randint(3, 9)}[s]
        if order != "forward" and s in ("chain", "tree"):
            n = min(n, 150)
        ops.append({"op": "net", "shape": s, "n": n, "order": order, "x": rng.randint(0, 99),
                    "defer": rng.random() < .5})
        for _ in range(rng.randint(2, 5)):
            k = rng.choice(["set", "set", {"C03": "refuse", "C04": "remove"}.get(prop, "set")])
            if k == "set":
                o = {"op": "set", "v": rng.randrange(3000), "many": rng.choice([1, 1, 3, 50]),
                     "x": rng.randint(100, 9999), "twice": rng.random() < .3}
                if rng.random() < (.8 if prop == "C02" else .2):
                    o["fail"] = rng.randint(1, 2000)
                    o["exc"] = rng.choice(["error", "interrupt", "memory", "key", "arith"])
            elif k == "refuse":
                o = {"op": "refuse", "how": rng.choice(["cycle", "cycle", "double"]),
                     "m": rng.choice([None, rng.randrange(3000)])}
            else:
                o = {"op": "remove", "how": rng.choice(["method", "variable"]),
                     "m": rng.randrange(3000)}
            ops.append(o)
        if prop == "C04" and rng.random() < .5:
            ops.append({"op": "clear"})
            ops.append({"op": "net", "shape": s, "n": n, "order": order, "x": 1, "defer": False})
    elif prop in ("C07", "C09"):
        s = rng.choice(["chain", "ring", "combs", "star", "dust", "dense", "tree"])
        n = {"dense": rng.choice([20, 40])}.get(s, rng.choice([150, 230, 300] if small else [1100, 1600]))
        ops.append({"op": "build", "shape": s, "n": n, "order": order})
        for _ in range(rng.randint(2, 4)):
            k = rng.choice(["change", "derive", "ask"] if prop == "C07" else
                           ["ask", "ask", "ask", "subsets", "change"])
            if k == "ask":
                a = rng.choice([0, rng.randrange(n)])
                ops.append({"op": k, "a": a, "b": rng.choice([n - 1, rng.randrange(n), a])})
            elif k == "change":
                ops.append({"op": k, "how": rng.choice(["vertices", "edges"]),
                            "a": rng.randrange(n), "n": rng.choice([1, 20])})
            else:
                ops.append({"op": k})
    elif prop == "C10":
        ops.append({"op": "build", "shape": rng.choice(["hub", "chain", "pairs"]),
                    "n": rng.choice([100, 250] if small else [1100])})
        for _ in range(rng.randint(2, 5)):
            if rng.random() < .6:
                ops.append({"op": "ask", "a": rng.randrange(2000), "n": rng.choice([1, 2, 3, 40])})
            else:
                ops.append({"op": "remove", "a": rng.randrange(2000), "hub": rng.random() < .5})
    elif prop in ("C11", "C12"):
        for _ in range(rng.randint(1, 3)):
            top = rng.choice([12, 25, 40, 40, 300 if prop == "C12" or small else 2000])
            two = []
            for _ in range(2):
                lo = rng.choice([0, 0, rng.randrange(top // 2)])
                two.append([rng.choice("RHB"), lo, rng.randint(lo + 3, max(lo + 3, top))])
            if prop == "C12" and top == 40:
                two = [[k, lo, min(hi, lo + 24)] for k, lo, hi in two]
            ops.append({"op": "pair", "two": two})
    else:
        ops.append({"op": "figure", "n": rng.choice([12, 20, 30]), "r": rng.choice([1.0, .1, 50.0]),
                    "pieces": rng.randint(2, 6), "a": rng.uniform(-3, 3), "order": order,
                    "odd": rng.randrange(99)})
    return sc
