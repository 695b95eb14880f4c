"""Simulation of directed graphs (C07-C09): several clients change, query,
derive from and walk shared graphs in a seeded interleaving; reading calls are
interrupted at executed lines; readers run concurrently at bytecode granularity.
The reference is a set of vertices and a dictionary of valued edges."""
from collections import Counter

from . import conc, seams
from .core import Violation, normal, short
from .values import canon, make, random_value

LINE_BUDGET = 300000


class Foreign(Exception):
    pass


class Model(object):
    def __init__(self, v=(), e=None):
        self.v = set(v)
        self.e = dict(e or {})     # (a, b) -> canonical value

    def copy(self):
        return Model(self.v, self.e)

    def sub(self, keep):
        keep = set(keep) & self.v
        return Model(keep, {k: x for k, x in self.e.items() if k[0] in keep and k[1] in keep})

    def reversed(self):
        return Model(self.v, {(b, a): x for (a, b), x in self.e.items()})

    def out(self, a):
        return [k[1] for k in self.e if k[0] == a]

    def inn(self, a):
        return [k[0] for k in self.e if k[1] == a]

    def drop(self, a):
        self.v.discard(a)
        for k in [k for k in self.e if a in k]:
            del self.e[k]

    def reach(self, a, ingoing, outgoing):
        """Vertices reachable from a over at least one edge"""
        nxt = {}
        for (x, y) in self.e:
            if outgoing:
                nxt.setdefault(x, []).append(y)
            if ingoing:
                nxt.setdefault(y, []).append(x)
        seen, front = set(), list(nxt.get(a, ()))
        while front:
            x = front.pop()
            if x not in seen:
                seen.add(x)
                front.extend(nxt.get(x, ()))
        return seen

    def components(self):
        left, out = set(self.v), []
        while left:
            a = sorted(left)[0]
            c = self.reach(a, True, True) | {a}
            out.append(frozenset(c))
            left -= c
        return sorted(out, key=sorted)

    def key(self):
        return ",".join(sorted(self.v)) + "|" + ",".join(
            "%s>%s=%s" % (a, b, x) for (a, b), x in sorted(self.e.items()))


QUERIES = ("vertices", "edges", "out", "in", "adj", "ie", "oe", "ae", "has", "get",
           "path", "conn", "connout", "connin", "connflags", "subsets")
PATHS = ("path", "conn", "connout", "connin", "connflags", "subsets")


class World(object):
    def __init__(self, ctx, sut, sc):
        self.ctx, self.sut, self.sc, self.prop = ctx, sut, sc, sc["prop"]
        self.layout = seams.Layout(sc["cfg"]["hash"], sc["cfg"]["hashseed"])
        self.graphs = {}         # gid -> (graph, model)
        self.derived = set()
        self.every = sc["cfg"].get("every", 1)   # look at everything how often
        self.n_ops, self.due, self.touched = 0, True, set()
        self.related = False
        self.lists = {}          # hid -> [list, frozen content, iterator, seen]
        self.graphs["g0"] = (sut.Graph(), Model())

    def n(self, v):
        return self.layout.name(v)

    # ---- verdicts

    def viol(self, kind, detail, direct):
        self.ctx.log("DIVERGENCE", kind)
        if self.prop in direct:
            raise Violation(kind, detail)
        self.ctx.probes["ended by another property's divergence: " + kind] += 1
        raise Foreign(kind)

    def call(self, fn, fault=None):
        """(result, exception, fired)"""
        self.ctx.steps += 1
        if fault is None:
            try:
                return fn(), None, False
            except Exception as e:
                return None, e, False
        self.ctx.planned["line"] += 1
        lf = seams.LineFault(fault["n"], fault["exc"], LINE_BUDGET)
        res = exc = None
        try:
            with lf:
                res = fn()
        except Exception as e:
            exc = e
        except BaseException as e:
            if not lf.fired:
                raise
            exc = e
        if lf.fired:
            self.ctx.faults["interrupt at a line (%s)" % fault["exc"]] += 1
            self.ctx.probes["interrupted in " + lf.where.split(":")[-1]] += 1
        return res, exc, lf.fired

    # ---- queries: asking, and judging the answer

    def ask(self, g, q):
        k = q["q"]
        a = self.n(q.get("a", "?"))
        b = self.n(q.get("b", "?"))
        if k == "vertices":
            return g.vertices()
        if k == "edges":
            return g.edges()
        if k == "out":
            return g.outgoing_vertices(a)
        if k == "in":
            return g.ingoing_vertices(a)
        if k == "adj":
            return g.adjacent_vertices(a)
        if k == "ie":
            return g.ingoing_edges(a)
        if k == "oe":
            return g.outgoing_edges(a)
        if k == "ae":
            return g.adjacent_edges(a)
        if k == "has":
            return [g.has_vertex(a), g.has_edge(a, b), g.has_bi_edge(a, b), g.has_any_edge(a, b)]
        if k == "get":
            return g.get(a, b)
        if k == "path":
            return g.path(a, b)
        if k == "conn":
            return g.connected(a)
        if k == "connout":
            return g.connected_via_outgoing(a)
        if k == "connin":
            return g.connected_via_ingoing(a)
        if k == "connflags":
            return g.connected(a, ingoing=q["i"], outgoing=q["o"])
        if k == "subsets":
            return g.connected_subsets()
        raise AssertionError(k)

    def plain(self, q, ans):
        """The answer in comparable form"""
        k = q["q"]
        if k == "has":
            return [bool(x) for x in ans]
        if k == "get":
            return canon(ans)
        if k == "path":
            return [x.name for x in ans]
        if k == "subsets":
            return sorted((frozenset(x.name for x in c) for c in ans), key=sorted)
        if k in ("edges", "ie", "oe", "ae"):
            return Counter((x.name, y.name) for x, y in ans)
        return Counter(x.name for x in ans)

    def absent(self, m, q):
        """Is the question about something that is not there?"""
        k, a, b = q["q"], q.get("a"), q.get("b")
        if k in ("vertices", "edges", "has", "subsets"):
            return False
        if k == "get":
            return (a, b) not in m.e
        if k == "path":
            return a not in m.v or b not in m.v
        return a not in m.v

    def judge(self, m, q, ans, where):
        """Compares an answer with the reference"""
        k, a, b = q["q"], q.get("a"), q.get("b")
        direct = ("C09",) if k in PATHS else ("C07",)
        got = self.shaped("query " + k, lambda: self.plain(q, ans), direct)
        if k == "path":
            reach = b in m.reach(a, False, True)
            if not reach:
                ok = got == []
                want = "[] (not reachable)"
            else:
                ok = len(got) >= 2 and got[0] == a and got[-1] == b and \
                    all((x, y) in m.e for x, y in zip(got, got[1:]))
                want = "a path over edges from %s to %s" % (a, b)
                self.ctx.probes["path of length %d" % min(6, len(got) - 1)] += 1
                if a == b:
                    self.ctx.probes["cycle found"] += 1
        else:
            want = self.expect(m, q)
            if k == "ae":
                # a self-loop is both ingoing and outgoing
                ok = set(got) == set(want) and all(
                    got[x] == 1 or x[0] == x[1] for x in got)
            else:
                ok = got == want
        if not ok:
            self.viol("wrong-answer/" + k, "%s: %s answers %s, expected %s" % (
                where, q, short(show(got)), short(show(want))), direct)

    def expect(self, m, q):
        k, a, b = q["q"], q.get("a"), q.get("b")
        if k == "vertices":
            return Counter(m.v)
        if k == "edges":
            return Counter(list(m.e))
        if k == "out":
            return Counter(m.out(a))
        if k == "in":
            return Counter(m.inn(a))
        if k == "adj":
            return Counter(set(m.out(a)) | set(m.inn(a)))
        if k == "ie":
            return Counter((x, a) for x in m.inn(a))
        if k == "oe":
            return Counter((a, x) for x in m.out(a))
        if k == "ae":
            return Counter(e for e in m.e if a in e)
        if k == "has":
            f, r = (a, b) in m.e, (b, a) in m.e
            return [a in m.v, f, f and r, f or r]
        if k == "get":
            return m.e[(a, b)]
        if k == "conn":
            return Counter(m.reach(a, True, True) - {a})
        if k == "connout":
            return Counter(m.reach(a, False, True) - {a})
        if k == "connin":
            return Counter(m.reach(a, True, False) - {a})
        if k == "connflags":
            return Counter(m.reach(a, q["i"], q["o"]) - {a})
        if k == "subsets":
            return m.components()

    def shaped(self, what, fn, direct):
        try:
            return normal(what, fn)
        except Violation as v:
            self.viol(v.kind, v.detail, direct)

    def scan(self, g):
        """All answers a graph gives about its present vertices and edges"""
        es = [(x, y) for x, y in g.edges()]
        vs = list(g.vertices())
        return {
            "v": Counter(x.name for x in vs),
            "e": Counter((x.name, y.name) for x, y in es),
            "val": {(x.name, y.name): canon(g.get(x, y)) for x, y in es},
            "out": {x.name: Counter(y.name for y in g.outgoing_vertices(x)) for x in vs},
            "in": {x.name: Counter(y.name for y in g.ingoing_vertices(x)) for x in vs},
        }

    def want(self, m):
        out = {a: Counter() for a in m.v}
        inn = {a: Counter() for a in m.v}
        for a, b in m.e:
            out[a][b] += 1
            inn[b][a] += 1
        return {"v": Counter(m.v), "e": Counter(list(m.e)), "val": dict(m.e), "out": out, "in": inn}

    def verify(self, gid, kind, where, direct):
        if self.every > 1:
            # seldom looked at: whose fault it is depends on what happened since
            if not self.due:
                return
            direct = (("C07",) if gid in self.touched else ()) + (
                ("C08",) if gid not in self.touched or gid in self.derived else ())
        g, m = self.graphs[gid]
        try:
            got = self.scan(g)
        except Exception as e:
            self.viol(kind + "/broken", "%s: %s cannot be read: %s: %s" % (
                where, gid, type(e).__name__, short(str(e))), direct)
        want = self.want(m)
        for k in ("v", "e", "val", "out", "in"):
            if got[k] != want[k]:
                self.viol(kind, "%s: %s of %s are %s, expected %s" % (
                    where, {"v": "vertices", "e": "edges", "val": "edge values",
                            "out": "outgoing vertices", "in": "ingoing vertices"}[k],
                    gid, short(show(got[k])), short(show(want[k]))), direct)

    def verify_all(self, changed, where):
        """After an operation on `changed`, everything is as it should be"""
        for gid in sorted(self.graphs):
            if gid == changed:
                self.verify(gid, "wrong-state", where, ("C07",))
            else:
                self.verify(gid, "shows-through", where + " (on %s)" % changed, ("C08",))

    # ---- operations

    def mutation(self, o, name, fn, refused, effect):
        gid = o["g"]
        g, m = self.graphs[gid]
        res, exc, _ = self.call(lambda: fn(g))
        self.ctx.log(name, gid, "->", "refused" if exc is not None else "ok")
        if refused:
            self.ctx.probes["refused operation"] += 1
            if exc is None:
                self.viol("not-refused", "%s on %s was not refused" % (name, gid), ("C07",))
        else:
            if exc is not None:
                self.viol("unexpected-exception", "%s on %s: %s: %s" % (
                    name, gid, type(exc).__name__, short(str(exc))), ("C07",))
            effect(m)
        self.verify_all(gid, "after " + name)
        self.ctx.states.add(m.key())

    def do(self, o):
        k = o["op"]
        if o.get("g") is not None and o["g"] not in self.graphs:
            return
        if self.due:
            self.touched = set()
        self.n_ops += 1
        self.due = self.n_ops % self.every == 0
        if k in ("addv", "adde", "set", "remv", "reme"):
            self.touched.add(o["g"])
        getattr(self, "op_" + k)(o)

    def value(self, o):
        return make(self.sut, o["val"])

    def op_addv(self, o):
        a = o["a"]
        self.mutation(o, "add_vertex(%s)" % a, lambda g: g.add_vertex(self.n(a)), False,
                      lambda m: m.v.add(a))

    def op_adde(self, o):
        a, b = o["a"], o["b"]
        bi = o.get("bi")
        val = self.value(o) if "val" in o else 1
        args = (val,) if "val" in o else ()

        def fn(g):
            f = g.add_bi_edge if bi else g.add_edge
            if o.get("kw") and args:
                f(self.n(a), self.n(b), value=val)
            else:
                f(self.n(a), self.n(b), *args)

        def effect(m):
            m.v.update((a, b))
            if (a, b) in m.e:
                self.ctx.probes["existing edge added again"] += 1
            m.e.setdefault((a, b), canon(val))
            if bi:
                m.e.setdefault((b, a), canon(val))
        self.mutation(o, "add_%sedge(%s, %s)" % ("bi_" if bi else "", a, b), fn, False, effect)

    def op_set(self, o):
        a, b = o["a"], o["b"]
        bi = o.get("bi")
        val = self.value(o)

        def effect(m):
            m.v.update((a, b))
            m.e[(a, b)] = canon(val)
            if bi:
                m.e[(b, a)] = canon(val)
        self.mutation(o, "set%s(%s, %s)" % ("_bi_edge" if bi else "", a, b),
                      lambda g: (g.set_bi_edge if bi else g.set)(self.n(a), self.n(b), val),
                      False, effect)

    def op_remv(self, o):
        a = o["a"]
        m = self.graphs[o["g"]][1]
        if a in m.v and (a, a) in m.e:
            self.ctx.probes["vertex with a self-loop removed"] += 1
        self.mutation(o, "remove_vertex(%s)" % a, lambda g: g.remove_vertex(self.n(a)),
                      a not in m.v, lambda m: m.drop(a))

    def op_reme(self, o):
        a, b = o["a"], o["b"]
        bi = o.get("bi")
        m = self.graphs[o["g"]][1]
        f, r = (a, b) in m.e, (b, a) in m.e

        def effect(m):
            m.e.pop((a, b), None)
            if bi:
                m.e.pop((b, a), None)
        if bi and f != r:
            self.ctx.probes["two-way removal refused halfway"] += 1
        self.mutation(o, "remove_%sedge(%s, %s)" % ("bi_" if bi else "", a, b),
                      lambda g: (g.remove_bi_edge if bi else g.remove_edge)(
                          self.n(a), self.n(b)),
                      not (f and r) if bi else not f, effect)

    def op_ask(self, o):
        g, m = self.graphs[o["g"]]
        q = o["q"]
        absent = self.absent(m, q)
        res, exc, fired = self.call(lambda: self.ask(g, q), o.get("fault"))
        self.ctx.log("ask", q["q"], q.get("a", ""), q.get("b", ""), o["g"], "->",
                     "interrupted" if fired else type(exc).__name__ if exc is not None else "ok")
        direct = ("C09",) if q["q"] in PATHS else ("C07",)
        if absent:
            self.ctx.probes["question about something absent"] += 1
            if exc is None and not fired and q["q"] in ("get", "out", "in", "adj", "ie", "oe", "ae"):
                # answering "nothing" is as good as refusing
                if res is not None and normal("query", lambda: len(list(res))):
                    self.viol("wrong-answer/" + q["q"], "%s of something absent answers %s"
                              % (q, short(res)), direct)
            if exc is None and not fired and q["q"] == "path" and \
                    normal("path", lambda: len(list(res))):
                self.viol("wrong-answer/path", "%s answers %s" % (q, short(res)), direct)
        elif fired and exc is not None:
            pass
        elif exc is not None:
            self.viol("unexpected-exception", "%s: %s: %s" % (q, type(exc).__name__,
                                                              short(str(exc))), direct)
        else:
            self.judge(m, q, res, "on " + o["g"])
        if fired or absent:
            for gid in sorted(self.graphs):
                self.verify(gid, "reading-changed", "after %s %s" % (
                    "interrupted" if fired else "refused", q), direct + (
                        ("C08",) if gid in self.derived or self.derived else ()))

    def op_askall(self, o):
        """Every path and connectivity question there is"""
        g, m = self.graphs[o["g"]]
        vs = sorted(m.v)
        for a in vs:
            for k in ("conn", "connout", "connin"):
                self.op_ask({"g": o["g"], "q": {"q": k, "a": a}})
            for b in vs:
                self.op_ask({"g": o["g"], "q": {"q": "path", "a": a, "b": b}})
        self.op_ask({"g": o["g"], "q": {"q": "subsets"}})
        self.verify_all(o["g"], "after questions")

    def op_derive(self, o):
        g, m = self.graphs[o["g"]]
        how, new = o["how"], o["new"]
        if new in self.graphs or len(self.graphs) > 6:
            return
        if how == "copy":
            fn, want = g.copy, m.copy()
        elif how == "ctor":
            fn, want = (lambda: self.sut.Graph(g)), m.copy()
        elif how == "reverse":
            fn, want = g.reverse, m.reversed()
        else:
            keep = o["keep"]
            names = [self.n(v) for v in keep]
            coll = {"list": list, "set": set, "tuple": tuple}[o.get("coll", "list")](names)
            fn, want = (lambda: g.subgraph(coll)), m.sub(keep)
            if len(names) != len(m.sub(keep).v):
                self.ctx.probes["subgraph over absent or repeated vertices"] += 1
        res, exc, fired = self.call(fn, o.get("fault"))
        self.ctx.log("derive", how, o["g"], new, "->", "interrupted" if fired else
                     type(exc).__name__ if exc is not None else "ok")
        if exc is not None and not fired:
            self.viol("unexpected-exception", "%s of %s: %s: %s" % (
                how, o["g"], type(exc).__name__, short(str(exc))), ("C08",))
        if exc is None:
            if res is g:
                self.viol("not-a-copy", "%s returned its source" % how, ("C08",))
            self.graphs[new] = (res, want)
            self.derived.add(new)
            self.verify(new, "wrong-derivation/" + how, "just derived from %s" % o["g"], ("C08",))
        for gid in sorted(self.graphs):
            self.verify(gid, "source-changed", "after %s of %s" % (how, o["g"]), ("C08",))

    def op_hold(self, o):
        g, m = self.graphs[o["g"]]
        q = o["q"]
        if self.absent(m, q):
            return
        res, exc, _ = self.call(lambda: self.ask(g, q))
        direct = ("C09",) if q["q"] in PATHS else ("C07",)
        if exc is not None:
            self.viol("unexpected-exception", "%s: %s: %s" % (q, type(exc).__name__,
                                                              short(str(exc))), direct)
        self.judge(m, q, res, "on " + o["g"])
        frozen = self.content(res)
        self.lists[o["h"]] = {"obj": res, "frozen": frozen, "it": iter(res), "seen": [], "q": q}
        self.ctx.log("hold", q["q"], o["h"], len(frozen))

    def content(self, res):
        return [tuple(y.name for y in x) if type(x) is tuple else
                (frozenset(y.name for y in x) if isinstance(x, (set, frozenset)) else x.name)
                for x in res]

    def op_step(self, o):
        h = self.lists.get(o["h"])
        if h is None:
            return
        self.ctx.steps += 1
        try:
            for _ in range(o.get("n", 1)):
                h["seen"].append(self.content([next(h["it"])])[0])
        except StopIteration:
            self.ctx.probes["list walked to the end"] += 1
            if h["seen"] != h["frozen"]:
                self.viol("list-changed", "walking the list of %s saw %s, it was %s" % (
                    h["q"], short(show(h["seen"])), short(show(h["frozen"]))), ("C08",))
            del self.lists[o["h"]]
        except RuntimeError as e:
            self.viol("list-changed", "walking the list of %s failed: %s" % (h["q"], e), ("C08",))

    def op_look(self, o):
        for hid in sorted(self.lists):
            h = self.lists[hid]
            now = self.shaped("held list", lambda: self.content(h["obj"]), ("C08",))
            if now != h["frozen"]:
                self.viol("list-changed", "the list of %s is now %s, it was %s" % (
                    h["q"], short(show(now)), short(show(h["frozen"]))), ("C08",))

    def op_scribble(self, o):
        """A client empties or reorders a list it was given"""
        h = self.lists.pop(o["h"], None)
        if h is None or not isinstance(h["obj"], list):
            return
        self.ctx.probes["returned list changed by the client"] += 1
        if o["how"] == "clear":
            del h["obj"][:]
        elif o["how"] == "append":
            h["obj"].append(self.n("zz"))
        else:
            h["obj"].reverse()
            h["obj"].append(("zz", "zz"))
        for gid in sorted(self.graphs):
            self.verify(gid, "shows-through", "after a client changed its list of %s"
                        % h["q"], ("C08",))

    def op_readers(self, o):
        """Clients that only read, at the same time"""
        g, m = self.graphs[o["g"]]
        scripts = [[q for q in s if not self.absent(m, q)] for s in o["scripts"]]
        if sum(1 for s in scripts if s) < 2:
            return
        cl = conc.Clients(self.ctx, o["sched"], scripts, lambda me, i, q: self.ask(g, q))
        results = cl.run()
        self.ctx.probes["simultaneous readers"] += 1
        for me, rs in enumerate(results):
            for q, res, exc, fired in rs:
                direct = ("C09",) if q["q"] in PATHS else ("C07",)
                if fired and exc is not None:
                    continue
                if exc is not None:
                    self.viol("unexpected-exception", "reader %d: %s: %s: %s" % (
                        me, q, type(exc).__name__, short(str(exc))), direct)
                self.judge(m, q, res, "reader %d of %s" % (me, o["g"]))
        for gid in sorted(self.graphs):
            self.verify(gid, "reading-changed", "after simultaneous readers",
                        ("C09", "C07", "C08"))

    def finish(self):
        self.op_look({})
        if self.every > 1:
            self.due = True
            for gid in sorted(self.graphs):
                self.verify(gid, "wrong-state", "in the end", ())
            self.ctx.probes["graph seldom looked at"] += 1
            self.every = 1
        for gid in sorted(self.graphs):
            m = self.graphs[gid][1]
            vs = sorted(m.v)
            for a in vs:
                for k in ("out", "in", "adj", "ie", "oe", "ae", "conn", "connout", "connin"):
                    self.op_ask({"g": gid, "q": {"q": k, "a": a}})
                for b in vs:
                    self.op_ask({"g": gid, "q": {"q": "has", "a": a, "b": b}})
            for a in vs[:4]:
                for b in vs[-4:]:
                    self.op_ask({"g": gid, "q": {"q": "path", "a": a, "b": b}})
            self.op_ask({"g": gid, "q": {"q": "subsets"}})
            for e in sorted(m.e):
                self.op_ask({"g": gid, "q": {"q": "get", "a": e[0], "b": e[1]}})


def show(x):
    if isinstance(x, Counter):
        return sorted(x.elements())
    if isinstance(x, dict):
        return {k: show(v) for k, v in sorted(x.items())}
    return x


def run(sc, ctx, fresh):
    ctx.extra["scenario"] = sc
    with seams.LogSim(ctx, "off"):
        w = World(ctx, fresh(), sc)
        try:
            for i, o in enumerate(sc["ops"]):
                ctx.log("#%d c%s" % (i, o.get("c", 0)))
                w.do(o)
            w.finish()
        except Foreign:
            pass
        ctx.nontrivial = ctx.steps > 4


def shrink_lists(sc):
    paths = [["ops"]] + conc.shrink_schedules(sc["ops"])
    for i, o in enumerate(sc["ops"]):
        for j, _ in enumerate(o.get("scripts", ())):
            paths.append(["ops", i, "scripts", j])
    return paths


# ------------------------------------------------------------------- generator

PROFILES = {
    "C07": dict(addv=4, adde=14, set=8, remv=5, reme=8, ask=8, derive=1.2, hold=.3, step=.3,
                look=.1, scribble=.2, readers=.4, askall=0),
    "C08": dict(addv=3, adde=11, set=6, remv=4, reme=5, ask=1, derive=7, hold=6, step=8,
                look=2, scribble=2, readers=.1, askall=0),
    "C09": dict(addv=2, adde=12, set=2, remv=2, reme=3, ask=8, derive=.7, hold=.2, step=.2,
                look=.1, scribble=.1, readers=1.3, askall=1),
}


def shape(rng, names):
    """Edges of a structured graph"""
    k = rng.choice(["chain", "ring", "tree", "two", "complete", "ladder", "star", "dag", "none"])
    n = len(names)
    e = []
    if k in ("chain", "ring"):
        e = list(zip(names, names[1:]))
        if k == "ring":
            e.append((names[-1], names[0]))
    elif k == "tree":
        e = [(names[(i - 1) // 2], names[i]) for i in range(1, n)]
    elif k == "two":
        h = n // 2
        e = list(zip(names[:h], names[1:h])) + list(zip(names[h:], names[h + 1:]))
        if h > 1:
            e.append((names[h - 1], names[0]))
    elif k == "complete":
        e = [(a, b) for a in names[:5] for b in names[:5] if a != b]
    elif k == "ladder":
        e = [(names[i], names[i + 1]) for i in range(n - 1)] + \
            [(names[i + 2], names[i]) for i in range(n - 2)]
    elif k == "star":
        e = [(names[0], x) if rng.random() < .5 else (x, names[0]) for x in names[1:]]
    elif k == "dag":
        e = [(names[i], names[j]) for i in range(n) for j in range(i + 1, n)
             if rng.random() < .35]
    if rng.random() < .3:
        e = [(b, a) for a, b in e]
    rng.shuffle(e)
    return e


def gen(prop, rng, tier="quick"):
    w = PROFILES[prop]
    kinds = sorted(w)
    weights = [w[k] for k in kinds]
    nv = rng.randint(2, 6) if prop == "C08" or rng.random() < .6 else rng.randint(5, 11)
    names = ["a%d" % i for i in range(nv)]
    order = list(names)
    rng.shuffle(order)
    cfg = {"hash": rng.choice(seams.Layout.MODES), "hashseed": rng.randrange(1 << 30)}
    if rng.random() < .2:
        cfg["every"] = rng.choice([2, 3, 5, 9, 1000])
    clients = rng.randint(1, 4)
    faults = rng.random() < (.6 if prop == "C08" else .4)
    ops, held, gids, uid = [], [], ["g0"], [0]
    loops = rng.random() < .6
    n_ops = rng.randint(4, 20) if rng.random() < .7 else rng.randint(15, 45)
    if tier == "thorough" and rng.random() < .3:
        n_ops *= 2

    def val():
        uid[0] += 1
        return random_value(rng, uid[0]) if rng.random() < .8 else ["none"]

    def pair():
        a = rng.choice(names)
        b = rng.choice(names)
        while b == a and not loops and nv > 1:
            b = rng.choice(names)
        return a, b

    def question(kinds=QUERIES):
        k = rng.choice(kinds)
        a, b = pair()
        q = {"q": k, "a": a, "b": b}
        if k == "path" and rng.random() < .2:
            q["b"] = a
        if k == "connflags":
            q["i"], q["o"] = rng.choice([(True, True), (True, False), (False, True)])
        if k in ("vertices", "edges", "subsets"):
            del q["a"], q["b"]
        return q

    def fault():
        return {"n": int(2 ** rng.uniform(0, 7)), "exc": rng.choice(["interrupt", "memory"])}

    if rng.random() < .75:
        for a, b in shape(rng, order)[:40]:
            o = {"op": "adde", "g": "g0", "a": a, "b": b, "c": 0}
            if rng.random() < .5:
                o["val"] = val()
            ops.append(o)
    for _ in range(n_ops):
        k = rng.choices(kinds, weights)[0]
        g = rng.choice(gids) if rng.random() < .6 else rng.choice([gids[0], gids[-1]])
        o = {"op": k, "g": g, "c": rng.randrange(clients)}
        if k in ("addv", "remv"):
            o["a"] = rng.choice(names)
        elif k in ("adde", "set", "reme"):
            o["a"], o["b"] = pair()
            if rng.random() < .25:
                o["bi"] = True
            if k == "set" or (k == "adde" and rng.random() < .6):
                o["val"] = val()
                if rng.random() < .2:
                    o["kw"] = True
        elif k == "ask":
            o["q"] = question(PATHS if prop == "C09" and rng.random() < .8 else QUERIES)
            if faults and rng.random() < .3:
                o["fault"] = fault()
        elif k == "derive":
            if len(gids) > 4:
                continue
            o["how"] = rng.choice(["copy", "ctor", "subgraph", "subgraph", "reverse"])
            o["new"] = "g%d" % len(gids)
            if o["how"] == "subgraph":
                o["keep"] = [v for v in names + ["zz"] if rng.random() < .7]
                if rng.random() < .2 and o["keep"]:
                    o["keep"].append(rng.choice(o["keep"]))
                rng.shuffle(o["keep"])
                o["coll"] = rng.choice(["list", "set", "tuple"])
            if faults and rng.random() < .35:
                o["fault"] = fault()
                # the client tries again after the interrupt
                ops.append(o)
                o = dict(o)
                del o["fault"]
            gids.append(o["new"])
        elif k == "hold":
            o["q"] = question(("vertices", "vertices", "edges", "out", "in", "adj", "ie", "oe",
                               "ae", "path", "conn", "connout", "subsets"))
            o["h"] = "h%d" % len(held)
            held.append(o["h"])
        elif k in ("step", "scribble"):
            if not held:
                continue
            o["h"] = rng.choice(held[-3:])
            if k == "step":
                o["n"] = rng.choice([1, 1, 2, 30])
            else:
                o["how"] = rng.choice(["clear", "append", "reverse"])
        elif k == "readers":
            o["scripts"] = [[question(PATHS if prop == "C09" else QUERIES)
                             for _ in range(rng.randint(1, 3))]
                            for _ in range(rng.randint(2, 3))]
            if rng.random() < .3:
                rng.choice(rng.choice(o["scripts"]))["fault"] = {
                    "n": rng.randint(1, 120), "exc": "interrupt"}
            o["sched"] = conc.random_spec(rng)
        ops.append(o)
    if prop == "C09":
        ops.append({"op": "askall", "g": rng.choice(gids)})
    return {"kind": "graph", "prop": prop, "cfg": cfg, "ops": ops}
