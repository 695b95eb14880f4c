"""Simulation of method graphs (C01-C06): a client issues a seeded history of
updates, deferred updates, propagations, additions, removals and refused
operations, while methods fail, suffer outages, propagation is interrupted at
arbitrary executed lines, and log sinks fail.  The oracle is a reference model
that knows the structure and what each method computes."""
from collections import Counter

from . import seams
from .core import (EXC, INJECTED, Ctx, SimHang, SimStop, Violation, digest,
                   normal, short)
from .values import ATOMS, canon, make, random_value

LINE_BUDGET = 400000


class Foreign(Exception):
    """A divergence that is another property's business: the run ends here"""

    def __init__(self, kind):
        Exception.__init__(self, kind)
        self.kind = kind


# ------------------------------------------------------------------ reference

def reachable_methods(methods, start_vars, start_methods):
    """Methods downstream of the given variables and methods"""
    seen = set(start_methods)
    front = list(start_methods)
    vs = set(start_vars)
    for m, s in methods.items():
        if m not in seen and vs & set(s["ins"]):
            seen.add(m)
            front.append(m)
    while front:
        m = front.pop()
        if m not in methods:
            continue
        outs = set(methods[m]["outs"])
        for k, s in methods.items():
            if k not in seen and outs & set(s["ins"]):
                seen.add(k)
                front.append(k)
    return seen


def closes_cycle(methods, spec):
    """Would adding spec close a dependency cycle?"""
    if set(spec["ins"]) & set(spec["outs"]):
        return True
    down = set()
    front = list(spec["outs"])
    while front:
        v = front.pop()
        if v in down:
            continue
        down.add(v)
        for s in methods.values():
            if v in s["ins"]:
                front.extend(s["outs"])
    return bool(down & set(spec["ins"]))


def run_bound(methods):
    """Upper bound for the runs any work-list propagation may need"""
    prod = {}
    for m, s in methods.items():
        for o in s["outs"]:
            prod[o] = m
    memo = {}

    def b(m):
        if m not in memo:
            memo[m] = 0
            memo[m] = 2 + sum(1 + (b(prod[v]) if v in prod else 0)
                              for v in set(methods[m]["ins"]))
        return memo[m]
    return 8 + 2 * sum(b(m) for m in methods)


def term_outputs(sut, spec, ins):
    """What a term method yields: {output name: value}; ins: canonical texts"""
    d = digest(spec["id"] + "|" + "|".join(ins))
    n = int(d, 16)
    out = {}
    beh = spec.get("beh", "norm")
    for i, o in enumerate(spec["outs"]):
        k = n >> (3 * i)
        if beh == "sparse" and k % 3 == 0:
            continue
        if beh == "empty" and n % 2 == 0:
            continue
        if beh == "nones" and k % 2 == 0:
            out[o] = None
        elif beh == "rich":
            out[o] = make(sut, ATOMS[k % len(ATOMS)])
        elif beh == "num":
            out[o] = k % 5
        else:
            out[o] = "%s.%d:%s" % (spec["id"], i, d)
            if spec.get("style") == "keep":
                out[o] = [out[o]]
    return out


# values of a multi-valued variable, all different
ELEMS = [None, "", 0, (), "s", 2.5, (1, None), frozenset(), -1]


def mterm_outputs(spec, ins):
    n = int(digest(spec["id"] + "|" + "|".join(ins)), 16)
    out = [n % 11] if n % 5 else ([n % 11, n % 7] if n % 3 else [])
    if spec.get("elems"):
        out = [ELEMS[i % len(ELEMS)] for i in out]
    return out


def is_multi(v):
    return v[0] in "xq"


# ----------------------------------------------------------------------- world

class World(object):
    def __init__(self, ctx, sut, scenario):
        self.ctx = ctx
        self.sut = sut
        self.sc = scenario
        self.cfg = scenario["cfg"]
        self.prop = scenario["prop"]
        self.layout = seams.Layout(self.cfg["hash"], self.cfg["hashseed"])
        self.names = {}
        self.multi = {}
        self.back = {}
        self.objs = {}          # mid -> method object
        self.mid_of = {}        # id(method object) -> mid
        self.specs = {}         # mid -> spec, every method ever made
        self.methods = {}       # mid -> spec, present ones
        self.vars = {}          # name -> True, present ones
        self.free = {}          # free or overwritten variable -> canonical value
        self.override = {}      # determined variable overwritten by hand
        self.legit = {}         # name -> canonical values it may ever hold
        self.removed = set()
        self.refused = set()
        self.broken = {}        # mid -> exception kind: outage
        self.dirty = set()      # changed since last settled
        self.pending = set()    # methods added and not run yet
        self.settled = True
        self.op = None          # context of the current call
        self.foreign = []
        self.n_refused = self.n_removed = self.n_faults = 0
        self.classes = self._classes()
        self.mg = self.mutate("new graph", sut.MethodGraph)

    # ---- names and methods

    def var(self, v):
        """The object naming a variable: equal, usually not identical"""
        if is_multi(v):
            if v not in self.multi:
                self.multi[v] = self.classes["mvar"](v)
            return self.multi[v]
        return self.layout.name(v)

    def vname(self, obj):
        return obj.name if isinstance(obj, seams.Name) else str(obj.name)

    def _classes(self):
        sut, world, lay = self.sut, self, self.layout
        m = sut.method

        class MV(m.MultiVariable):
            def __hash__(self):
                return lay.hash("mv" + self.name)

            def __eq__(self, other):
                return self is other

        class Hashed(object):
            def __hash__(self):
                return lay.hash(self.mid)

            def __eq__(self, other):
                return self is other

        class Term(Hashed, m.Method):
            def __init__(self, spec):
                self.mid, self.spec, self.kept = spec["id"], spec, {}
                m.Method.__init__(self, spec["id"], [world.var(v) for v in spec["ins"]],
                                  [world.var(v) for v in spec["outs"]])

            def execute(self, inmap):
                world.on_run(self, inmap)
                ins = [canon(inmap[world.var(v)]) for v in self.spec["ins"]]
                out = term_outputs(sut, self.spec, ins)
                res = {world.var(o): val for o, val in out.items()}
                if self.spec.get("style") == "selfmap":
                    for o in self.spec["outs"]:
                        inmap.pop(world.var(o), None)
                    inmap.update(res)
                    res = inmap
                elif self.spec.get("style") == "keep":
                    # the same object every time, with new contents
                    for o, val in out.items():
                        if isinstance(val, list):
                            self.kept.setdefault(o, [])[:] = val
                            res[world.var(o)] = self.kept[o]
                elif self.spec.get("style") == "scribble":
                    inmap.clear()
                world.on_done(self, res)
                return res

        class MTerm(Hashed, m.MultiMethod):
            def __init__(self, spec):
                self.mid, self.spec = spec["id"], spec
                m.MultiMethod.__init__(self, spec["id"], [world.var(v) for v in spec["ins"]],
                                       [world.var(v) for v in spec["outs"]])

            def execute(self, inmap):
                world.on_run(self, inmap)
                res = m.MultiMethod.execute(self, inmap)
                world.on_done(self, res)
                return res

            def multi_execute(self, inmap):
                world.on_multi(self)
                ins = [canon(inmap[world.var(v)]) for v in self.spec["ins"]]
                return mterm_outputs(self.spec, ins)

        def real(base, ctor):
            class R(Hashed, base):
                def __init__(self, spec):
                    self.mid, self.spec = spec["id"], spec
                    ctor(self, spec)

                def execute(self, inmap):
                    world.on_run(self, inmap)
                    res = base.execute(self, inmap)
                    world.on_done(self, res)
                    return res
            return R

        def abc(base):
            def ctor(self, s):
                base.__init__(self, world.var(s["ins"][0]), world.var(s["ins"][1]),
                              world.var(s["outs"][0]))
            return ctor

        class SumProd(real(m.SumProdMethod, abc(m.SumProdMethod))):
            def multi_execute(self, inmap):
                world.on_multi(self)
                return m.SumProdMethod.multi_execute(self, inmap)

        return {
            "mvar": MV, "term": Term, "mterm": MTerm,
            "add": real(m.AddMethod, abc(m.AddMethod)),
            "sub": real(m.SubMethod, abc(m.SubMethod)),
            "sumprod": SumProd,
            "setm": real(m.SetMethod, lambda self, s: m.SetMethod.__init__(
                self, world.var(s["outs"][0]), make(sut, s["value"]))),
            "assign": real(m.AssignMethod, lambda self, s: m.AssignMethod.__init__(
                self, world.var(s["outs"][0]), world.var(s["ins"][0]))),
        }

    def method(self, spec):
        mid = spec["id"]
        if mid not in self.objs:
            self.specs[mid] = spec
            self.objs[mid] = self.mutate("construct " + spec["kind"],
                                         lambda: self.classes[spec["kind"]](spec))
            self.mid_of[id(self.objs[mid])] = mid
        return self.objs[mid]

    # ---- verdicts

    def viol(self, kind, detail, direct=(), cond=()):
        """Reports a divergence that breaks the properties in direct, and those
        in cond if it does not happen without what they are about"""
        self.ctx.log("DIVERGENCE", kind)
        if self.prop in direct:
            raise Violation(kind, detail)
        if self.prop in cond and self.precondition():
            raise Conditional(kind, detail)
        raise Foreign(kind)

    def precondition(self):
        return {"C02": self.n_faults, "C03": self.n_refused,
                "C04": self.n_removed}.get(self.prop, 0) > 0

    def stop(self, kind, detail, direct=(), cond=()):
        """Same, from inside a callback"""
        try:
            self.viol(kind, detail, direct, cond)
        except Exception as e:
            self.ctx.stop_violation = e
            raise SimStop()

    COND = ("C02", "C03", "C04")

    # ---- callbacks

    def on_run(self, met, inmap):
        ctx, op = self.ctx, self.op
        mid = met.mid
        if op is None:
            return
        op["runs"] += 1
        ctx.log("  run", mid)
        op["ran"].append(mid)
        if mid not in self.methods and mid not in op["adding"]:
            if mid in self.refused:
                self.stop("refused-method-ran", "%s was refused and runs during %s"
                          % (mid, op["name"]), direct=("C03",))
            self.stop("removed-method-ran", "%s was removed and runs during %s"
                      % (mid, op["name"]), direct=("C04",))
        if mid in op["adding"] and op["expect_refusal"]:
            self.stop("refused-method-ran", "%s must be refused but is run" % mid,
                      direct=("C03",))
        spec = met.spec
        for v in spec["ins"] + spec["outs"]:
            key = self.var(v)
            try:
                given = inmap[key]
                now = self.peek(key)
            except Exception as e:
                self.stop("input-map-incomplete", "%s gets no value for %s: %r" % (mid, v, e),
                          direct=("C06",), cond=self.COND)
            if v in spec["ins"] and given is None:
                self.stop("run-without-input", "%s is run while %s has no value" % (mid, v),
                          direct=("C06",))
            if canon(given) != canon(now):
                self.stop("input-map-stale", "%s is given %s for %s, which holds %s"
                          % (mid, short(canon(given)), v, short(canon(now))), direct=("C06",))
        if op["allowed"] is not None and mid not in op["allowed"] and \
                mid not in self.allowed_now(op):
            self.stop("unjustified-run", "%s is run by %s although nothing it depends on "
                      "changed" % (mid, op["name"]), direct=("C06",))
        if op["runs"] > op["bound"]:
            self.stop("too-many-runs", "%s needs more than %d method runs"
                      % (op["name"], op["bound"]), direct=("C06",) + (
                          ("C02",) if self.n_faults else ()))
        if mid in self.broken:
            self.fire(op, "method outage", self.broken[mid])
        f = op["fault"]
        if f and f["k"] == "raise" and op["runs"] == f["n"]:
            self.fire(op, "method failure (%s)" % f["exc"], f["exc"])

    def peek(self, key):
        """Reads a variable for the oracle: no fault is injected here"""
        lf = self.lf
        if lf is not None:
            lf.paused = True
        try:
            return self.mg.get(key)
        finally:
            if lf is not None:
                lf.paused = False

    def on_multi(self, met):
        op = self.op
        if op is None:
            return
        op["multi"] += 1
        f = op["fault"]
        if f and f["k"] == "raisemulti" and op["multi"] == f["n"]:
            if op["multi"] > 1:
                self.ctx.probes["multi computation failed midway"] += 1
            self.fire(op, "multi-valued computation failure (%s)" % f["exc"], f["exc"])

    def fire(self, op, what, exc):
        self.ctx.faults[what] += 1
        self.n_faults += 1
        op["fired"] = True
        op["fired_kind"] = what
        op["exc"] = EXC[exc]
        self.ctx.log("  fault", what)
        raise EXC[exc]("injected")

    def on_done(self, met, res):
        spec = met.spec
        for o in spec["outs"]:
            self.override.pop(o, None)
            self.legit.setdefault(o, set())
            self.dirty.add(o)
            try:
                self.legit[o].add(canon(res.get(self.var(o))))
            except Exception:
                pass

    def allowed_now(self, op):
        """Methods that may run during the current call: downstream of changes"""
        return reachable_methods(self.methods_plus(op), self.dirty | op["touch"],
                                 self.pending | op["adding"] | op["execs"])

    def methods_plus(self, op):
        if not op["adding"]:
            return self.methods
        d = dict(self.methods)
        for m in op["adding"]:
            d[m] = self.specs[m]
        return d

    # ---- calls

    def mutate(self, name, fn):
        """A call outside a modelled operation that must succeed"""
        try:
            return fn()
        except Exception as e:
            self.viol("unexpected-exception", "%s: %s: %s" % (name, type(e).__name__, e),
                      direct=("C01", "C05") if "construct" in name else ("C01",))

    def call(self, name, fn, fault=None, adding=(), touch=(), execs=(),
             expect_refusal=False):
        """Runs one public call; returns (result, exception or None, fault fired)"""
        op = {"name": name, "runs": 0, "multi": 0, "ran": [], "fault": fault,
              "adding": set(adding), "touch": set(touch), "execs": set(execs),
              "expect_refusal": expect_refusal, "fired": False, "fired_kind": None,
              "exc": None, "allowed": None, "bound": 0}
        self.last = op
        op["bound"] = run_bound(self.methods_plus(op))
        op["allowed"] = self.allowed_now(op)
        self.op = op
        ctx = self.ctx
        ctx.steps += 1
        lf = None
        if fault:
            ctx.planned[fault["k"]] += 1
            if fault["k"] == "line":
                lf = seams.LineFault(fault["n"], fault["exc"], LINE_BUDGET)
            elif fault["k"] == "log" and self.logsim.mode == "raising":
                self.logsim.raise_at = fault["n"]

                def fired():
                    op["fired"] = True
                    op["fired_kind"] = "log sink failure"
                    op["exc"] = EXC["io"]
                    ctx.faults["log sink failure"] += 1
                    self.n_faults += 1
                self.logsim.fired = fired
        if lf is None and ctx.extra.get("budget"):
            lf = seams.LineFault(None, "error", LINE_BUDGET)
        self.lf = lf
        res = exc = None
        try:
            if lf is not None:
                with lf:
                    res = fn()
            else:
                res = fn()
        except SimStop:
            self.op = None
            raise ctx.stop_violation
        except SimHang as e:
            self.op = None
            self.viol("no-termination", "%s: %s" % (name, e), direct=("C06", "C01"),
                      cond=self.COND)
        except Exception as e:
            exc = e
        except BaseException as e:
            if not isinstance(e, INJECTED):
                self.op = None
                raise
            exc = e
        self.op = self.lf = None
        if self.logsim is not None:
            self.logsim.raise_at = None
        ctx.check_stop()
        if lf is not None and lf.fired:
            op["fired"] = True
            op["fired_kind"] = "interrupt at a line (%s)" % fault["exc"]
            op["exc"] = lf.exc
            ctx.faults[op["fired_kind"]] += 1
            ctx.probes["interrupted in " + (lf.where or "?").split(":")[-1]] += 1
            self.n_faults += 1
        if op["fired"]:
            if op["fired_kind"].startswith("method") or op["fired_kind"].startswith("multi"):
                if exc is None:
                    self.viol("failure-swallowed", "%s: a method failed during %s, which "
                              "returned normally" % (op["exc"].__name__, name), direct=("C02",))
                if not isinstance(exc, op["exc"]):
                    self.viol("failure-masked", "a method failed with %s during %s, which raised "
                              "%s: %s" % (op["exc"].__name__, name, type(exc).__name__, exc),
                              direct=("C02",))
        ctx.log(name, "->", type(exc).__name__ if exc is not None else "ok",
                "runs", op["runs"])
        return res, exc, op["fired"]

    def value(self, v):
        try:
            return self.mg.get(self.var(v))
        except Exception as e:
            self.viol("unexpected-exception", "reading %s: %s: %s" % (v, type(e).__name__, e),
                      direct=("C01",), cond=self.COND)

    def snapshot(self):
        return {v: canon(self.value(v)) for v in self.vars}

    def listing(self, direct, extra_ok=()):
        """variables() and methods() list what is present"""
        got_v = normal("variables", lambda: sorted(self.vname(o) for o in self.mg.variables()))
        got_m = normal("methods", lambda: sorted(
            self.mid_of.get(id(o), "?") for o in self.mg.methods()))
        want_v = sorted(self.vars)
        for v in sorted(set(got_v) - set(want_v)):
            if v in extra_ok:
                self.vars[v] = True
                self.free[v] = canon(self.value(v))
                self.legit.setdefault(v, set()).update(["None"])
                if self.free[v] != "None":
                    self.viol("free-value-changed", "new variable %s holds %s" % (v, self.free[v]),
                              direct=direct, cond=self.COND)
        want_v = sorted(self.vars)
        if got_v != want_v:
            self.viol("variables-wrong", "variables() lists %s, expected %s" % (got_v, want_v),
                      direct=direct, cond=self.COND)
        want_m = sorted(self.methods)
        if got_m != want_m:
            self.viol("methods-wrong", "methods() lists %s, expected %s" % (got_m, want_m),
                      direct=direct, cond=self.COND)

    def producer(self, v):
        for m, s in self.methods.items():
            if v in s["outs"]:
                return m
        return None

    def check_free(self, direct):
        for v in self.vars:
            if self.producer(v) is None:
                got = canon(self.value(v))
                if got != self.free[v]:
                    self.viol("free-value-changed", "%s holds %s, last set to %s"
                              % (v, short(got), short(self.free[v])), direct=direct,
                              cond=self.COND)

    def check_garbage(self):
        for v in self.vars:
            got = canon(self.value(v))
            if got != "None" and got not in self.legit.get(v, ()):
                self.viol("garbage-value", "%s holds %s, which was never set nor computed for it"
                          % (v, short(got)), direct=("C02",) if self.n_faults else ("C01",),
                          cond=("C03", "C04"))

    def expected(self, spec, vals):
        """{output: set of acceptable canonical values} from input values"""
        outs = spec["outs"]
        if any(v is None for v in vals):
            return {o: "None" for o in outs}
        k = spec["kind"]
        if k == "term":
            t = term_outputs(self.sut, spec, [canon(v) for v in vals])
            return {o: canon(t.get(o)) for o in outs}
        if k == "add":
            return {outs[0]: canon(vals[0] + vals[1])}
        if k == "sub":
            return {outs[0]: canon(vals[0] - vals[1])}
        if k == "setm":
            return {outs[0]: canon(make(self.sut, spec["value"]))}
        if k == "assign":
            return {outs[0]: canon(vals[0])}
        combos = [[]]
        seen = {}
        for v, val in zip(spec["ins"], vals):
            if v in seen:
                combos = [c + [c[seen[v]]] for c in combos]
            elif is_multi(v):
                combos = [c + [x] for c in combos for x in val]
            else:
                combos = [c + [val] for c in combos]
            seen.setdefault(v, spec["ins"].index(v))
        out = set()
        for c in combos:
            if k == "mterm":
                out.update(mterm_outputs(spec, [canon(x) for x in c]))
            else:
                out.update([c[0] + c[1], c[0] * c[1]])
        return {outs[0]: canon(out)}

    def check_settled(self, where):
        ctx = self.ctx
        self.check_free(("C01",))
        for mid, spec in self.methods.items():
            vals = [self.value(v) for v in spec["ins"]]
            want = normal("input of " + mid, lambda: self.expected(spec, vals))
            for o in spec["outs"]:
                got = self.value(o)
                raw = canon(got)
                if is_multi(o) and got is not None and not isinstance(got, set):
                    got = normal("multi value", lambda: set(got))
                got = canon(got)
                if o in self.override:
                    ok = raw == self.override[o] or (
                        got == "None" and any(v is None for v in vals))
                    ctx.probes["settled with an overwritten variable"] += 1
                else:
                    ok = got == want[o]
                if not ok:
                    direct = ("C01",) + (("C05",) if is_multi(o) else ())
                    self.viol("settled-mismatch/" + ("multi" if is_multi(o) else "single"),
                              "after %s: %s (from %s) holds %s, its method computes %s"
                              % (where, o, mid, short(got), short(want[o])),
                              direct=direct, cond=self.COND)
        self.dirty.clear()
        self.pending.clear()
        self.settled = True
        state = digest("|".join("%s=%s" % (v, canon(self.value(v))) for v in sorted(self.vars)) +
                       "#" + ",".join(sorted(self.methods)))
        ctx.states.add(state)
        ctx.log("  settled", state)

    # ---- operations

    def track_changes(self, before):
        """Everything whose value changed counts as changed since last settled"""
        for v in self.vars:
            if before.get(v) != canon(self.value(v)):
                self.dirty.add(v)

    def after_failure(self, before):
        self.settled = False
        self.track_changes(before)
        for m in self.last["ran"]:
            for o in self.specs[m]["outs"]:
                if o in self.vars:
                    self.dirty.add(o)
        self.check_garbage()
        self.ctx.probes["failed mid-propagation"] += 1 if self.last["runs"] else 0

    def unexpected(self, name, exc, direct=("C01",)):
        self.viol("unexpected-exception", "%s: %s: %s" % (name, type(exc).__name__,
                                                          short(str(exc))),
                  direct=direct, cond=self.COND)

    def do(self, o):
        getattr(self, "op_" + o["op"])(o)
        if not self.settled:
            self.check_free(("C01",))

    def op_addvar(self, o):
        v = o["v"]
        val = make(self.sut, o["val"])
        before = self.snapshot()
        new = v not in self.vars
        args = (self.var(v),) if o["val"] == ["none"] else (self.var(v), val)
        res, exc, _ = self.call("add_variable(%s)" % v, lambda: self.mg.add_variable(*args))
        if exc is not None:
            self.unexpected("add_variable(%s)" % v, exc)
        if new:
            self.vars[v] = True
            self.free[v] = canon(val)
            self.legit.setdefault(v, set()).add(canon(val))
        else:
            self.ctx.probes["existing variable added again"] += 1
            now = self.snapshot()
            if now != before:
                self.viol("free-value-changed", "adding %s again changed values" % v,
                          direct=("C01",), cond=self.COND)
        self.listing(("C01",))
        self.no_runs("adding a variable")

    def no_runs(self, what):
        if self.last["runs"] and self.settled:
            self.viol("unjustified-run", "%s ran %s" % (what, self.last["ran"]), direct=("C06",))

    def op_set(self, o, retry=False):
        v, prop = o["v"], o["prop"]
        val = make(self.sut, o["val"])
        if o.get("inplace") and v in self.vars and isinstance(self.value(v), list):
            # the stored list is changed in place and set again: same object
            val = self.value(v)
            aliases = [w for w in self.vars if self.value(w) is val]
            val.append(o["val"][1] if isinstance(o["val"][1], int) else 1)
            for w in aliases:
                self.legit.setdefault(w, set()).add(canon(val))
                if w in self.free:
                    self.free[w] = canon(val)
                if w in self.override:
                    self.override[w] = canon(val)
                if w != v:
                    # a determined alias changed under its readers' feet: they
                    # are only refreshed if something tells the graph
                    raise Skip("in-place change of a shared value")
            self.ctx.probes["same object set again after in-place change"] += 1
        name = "set(%s, %s, %s)" % (v, short(canon(val), 40), prop)
        before = self.snapshot()
        determined = self.producer(v) is not None
        if v not in self.vars:
            res, exc, fired = self.call(name, lambda: self.mg.set(self.var(v), val, prop))
            if exc is None:
                # an implementation may instead create the variable
                self.vars[v] = True
                self.free[v] = canon(val)
                self.legit.setdefault(v, set()).add(canon(val))
                self.listing(("C01",))
                self.check_free(("C01",))
                return
            self.ctx.probes["set of an unknown variable refused"] += 1
            self.listing(("C01",))
            if self.snapshot() != before:
                self.viol("refused-set-changed", "%s was refused but changed values" % name,
                          direct=("C01",), cond=self.COND)
            return
        self.legit.setdefault(v, set()).add(canon(val))
        if determined:
            self.override[v] = canon(val)
            self.ctx.probes["determined variable overwritten"] += 1
        old_free = self.free.get(v)
        if not determined:
            self.free[v] = canon(val)
        res, exc, fired = self.call(name, lambda: self.mg.set(self.var(v), val, prop),
                                    fault=o.get("fault"), touch=[v])
        self.dirty.add(v)
        if exc is not None:
            if not fired:
                self.unexpected(name, exc)
            # either the new or the old value
            got = canon(self.value(v))
            if not determined and got != canon(val):
                if got != old_free:
                    self.viol("garbage-value", "%s failed and left %s" % (name, short(got)),
                              direct=("C02",))
                self.free[v] = old_free
            self.after_failure(before)
            if determined and v in self.override and got != canon(val):
                self.override.pop(v)
            if self.last["fired_kind"].startswith(("interrupt", "log")):
                # the call itself was interrupted: the client repeats it
                self.ctx.probes["interrupted call repeated"] += 1
                o2 = dict(o)
                o2.pop("fault", None)
                o2.pop("inplace", None)
                self.op_set(o2, retry=True)
            return
        if fired and prop:
            pass   # fault in a sink that was tolerated
        if prop:
            self.check_settled(name)
        else:
            self.settled = False
            self.ctx.probes["deferred update"] += 1
            if self.last["runs"]:
                self.viol("deferred-ran", "%s ran %s" % (name, self.last["ran"]), direct=("C06",))
            if canon(self.value(v)) != canon(val):
                self.viol("free-value-changed", "%s holds %s" % (name, canon(self.value(v))),
                          direct=("C01",), cond=self.COND)

    def op_prop(self, o):
        before = self.snapshot()
        was_settled = self.settled
        res, exc, fired = self.call("propagate()", self.mg.propagate, fault=o.get("fault"))
        if exc is not None:
            if not fired:
                self.unexpected("propagate()", exc)
            self.after_failure(before)
            return
        if was_settled and self.last["runs"]:
            self.viol("unjustified-run", "nothing is pending, yet propagate() ran %s"
                      % self.last["ran"], direct=("C06",))
        self.check_settled("propagate()")

    def op_exec(self, o):
        mid = o["m"]
        if mid not in self.objs:
            return
        before = self.snapshot()
        present = mid in self.methods
        res, exc, fired = self.call("execute(%s)" % mid, lambda: self.mg.execute(self.objs[mid]),
                                    fault=o.get("fault") if present else None,
                                    execs=[mid] if present else [])
        if not present:
            if exc is None or isinstance(exc, INJECTED):
                self.viol("not-refused", "execute(%s) accepted, it is not in the graph" % mid,
                          direct=("C04",) if mid in self.removed else ("C03",))
            self.listing(("C01",))
            if self.snapshot() != before:
                self.viol("refused-changed", "refused execute(%s) changed values" % mid,
                          direct=("C04",) if mid in self.removed else ("C03",))
            return
        if exc is not None:
            if not fired:
                self.unexpected("execute(%s)" % mid, exc)
            self.after_failure(before)
            if self.last["fired_kind"].startswith(("interrupt", "log")):
                self.ctx.probes["interrupted call repeated"] += 1
                o2 = dict(o)
                o2.pop("fault", None)
                self.op_exec(o2)
            return
        self.check_settled("execute(%s)" % mid)
        if mid not in self.last["ran"] and all(
                before[v] != canon(None) for v in self.methods[mid]["ins"]):
            self.viol("not-executed", "execute(%s) did not run it" % mid, direct=("C01",))

    def op_addm(self, o):
        spec = o["spec"]
        self.add(spec, o["prop"], o.get("fault"))

    def op_readd(self, o):
        if o["m"] in self.specs:
            self.add(self.specs[o["m"]], o["prop"], o.get("fault"))

    def add(self, spec, prop, fault):
        mid = spec["id"]
        if fault and fault["k"] in ("line", "log"):
            fault = None    # interrupts are only claimed for propagating updates
        met = self.method(spec)
        before = self.snapshot()
        name = "add_method(%s: %s -> %s, %s)" % (mid, spec["ins"], spec["outs"], prop)
        if mid in self.methods:
            res, exc, fired = self.call(name, lambda: self.mg.add_method(met, prop), fault=fault)
            if exc is not None and not fired:
                self.unexpected(name, exc)
            if exc is not None:
                self.after_failure(before)
            self.ctx.probes["present method added again"] += 1
            self.listing(("C01",))
            self.track_changes(before)
            return
        dup = any(self.producer(v) is not None for v in spec["outs"])
        cyc = closes_cycle(self.methods, spec)
        refuse = dup or cyc
        new = [v for v in spec["ins"] + spec["outs"] if v not in self.vars]
        if refuse:
            if cyc:
                self.ctx.probes["cycle refused"] += 1
            if dup:
                self.ctx.probes["second determination refused"] += 1
            res, exc, fired = self.call(name, lambda: self.mg.add_method(met, prop), fault=fault,
                                        adding=[mid], expect_refusal=True)
            m = self.sut.method
            if exc is None or isinstance(exc, INJECTED):
                self.viol("not-refused", "%s must be refused (%s)" % (
                    name, "cycle" if cyc else "second method"), direct=("C03",))
            ok = []
            if dup:
                ok.append(m.MethodGraphDetermineException)
            if cyc:
                ok.append(m.MethodGraphCycleException)
            if not isinstance(exc, tuple(ok)):
                self.viol("wrong-error", "%s: refused with %s: %s" % (
                    name, type(exc).__name__, exc), direct=("C03",))
            self.refused.add(mid)
            self.removed.discard(mid)
            self.n_refused += 1
            self.ctx.log("  refused", mid)
            self.listing(("C03",), extra_ok=new)
            now = self.snapshot()
            for v in before:
                if now.get(v) != before[v]:
                    self.viol("refused-changed", "refused %s changed %s from %s to %s"
                              % (name, v, before[v], now.get(v)), direct=("C03",))
            return
        res, exc, fired = self.call(name, lambda: self.mg.add_method(met, prop), fault=fault,
                                    adding=[mid])
        if exc is not None and not fired:
            m = self.sut.method
            if isinstance(exc, (m.MethodGraphDetermineException, m.MethodGraphCycleException)):
                self.viol("wrongly-refused", "%s: %s" % (name, exc), direct=("C03",),
                          cond=self.COND)
            self.unexpected(name, exc)
        present = True
        if exc is not None:
            present = normal("methods", lambda: any(x is met for x in self.mg.methods()))
        if present:
            self.methods[mid] = spec
            self.refused.discard(mid)
            self.removed.discard(mid)
            self.pending.add(mid)
        for v in new:
            if v not in self.vars:
                self.vars[v] = True
                self.free[v] = "None"
                self.legit.setdefault(v, set()).add("None")
        if present:
            for v in spec["outs"]:
                if v not in self.override and not prop and exc is None:
                    pass
                # until its method runs, the variable keeps what it had
                self.legit.setdefault(v, set()).add(self.free.get(v, "None"))
        self.listing(("C01", "C03"), extra_ok=new)
        if exc is not None:
            self.after_failure(before)
            return
        if prop:
            self.check_settled(name)
        else:
            self.settled = False
            self.ctx.probes["deferred addition"] += 1
            if self.last["runs"]:
                self.viol("deferred-ran", "%s ran %s" % (name, self.last["ran"]), direct=("C06",))

    def drop_method(self, mid):
        spec = self.methods.pop(mid)
        self.removed.add(mid)
        self.pending.discard(mid)
        for v in spec["outs"]:
            if v in self.vars:
                self.override.pop(v, None)
                self.free[v] = canon(self.value(v))
                self.legit.setdefault(v, set()).add(self.free[v])

    def op_remm(self, o):
        mid = o["m"]
        if mid not in self.objs:
            return
        before = self.snapshot()
        present = mid in self.methods
        res, exc, fired = self.call("rem_method(%s)" % mid,
                                    lambda: self.mg.rem_method(self.objs[mid]))
        if not present:
            self.refused_removal("rem_method(%s)" % mid, exc, before)
            return
        if exc is not None:
            self.unexpected("rem_method(%s)" % mid, exc, direct=("C04",))
        self.n_removed += 1
        self.drop_method(mid)
        self.removal_checks("rem_method(%s)" % mid, before)

    def refused_removal(self, name, exc, before):
        self.ctx.probes["removal of an absent item"] += 1
        if exc is None:
            self.viol("not-refused", "%s: not there, but not refused" % name, direct=("C04",))
        self.listing(("C04",))
        if self.snapshot() != before:
            self.viol("refused-changed", "refused %s changed values" % name, direct=("C04",))

    def removal_checks(self, name, before):
        if not self.settled:
            self.ctx.probes["removal while updates are pending"] += 1
        self.listing(("C04",))
        now = self.snapshot()
        for v in self.vars:
            if now[v] != before[v]:
                self.viol("removal-changed-value", "%s changed %s from %s to %s"
                          % (name, v, before[v], now[v]), direct=("C04",))

    def op_remv(self, o):
        v = o["v"]
        before = self.snapshot()
        name = "rem_variable(%s)" % v
        res, exc, fired = self.call(name, lambda: self.mg.rem_variable(self.var(v)))
        if v not in self.vars:
            self.refused_removal(name, exc, before)
            return
        if exc is not None:
            self.unexpected(name, exc, direct=("C04",))
        self.n_removed += 1
        del self.vars[v]
        self.free.pop(v, None)
        self.override.pop(v, None)
        self.dirty.discard(v)
        for mid in [m for m, s in self.methods.items() if v in s["ins"] + s["outs"]]:
            self.drop_method(mid)
            self.ctx.probes["variable removed with a method on it"] += 1
        self.removal_checks(name, before)

    def op_clear(self, o):
        res, exc, fired = self.call("clear()", self.mg.clear)
        if exc is not None:
            self.unexpected("clear()", exc, direct=("C04",))
        self.n_removed += 1
        # methods without any variable stay
        self.vars.clear()
        for mid in [m for m, t in self.methods.items() if t["ins"] + t["outs"]]:
            self.drop_method(mid)
        self.free.clear()
        self.override.clear()
        self.dirty.clear()
        self.listing(("C04",))
        self.ctx.probes["cleared"] += 1

    def op_badm(self, o):
        """A multi-valued method without one multi-valued output is refused, and nothing else"""
        try:
            self.classes[o["kind"]](o["spec"])
        except Exception:
            self.ctx.probes["malformed multi-valued method refused"] += 1
            self.listing(("C05",))
            return
        self.viol("malformed-method-accepted", "a multi-valued method with outputs %s" % (
            o["spec"]["outs"],), direct=("C05",))

    def op_break(self, o):
        if o["m"] in self.methods:
            self.broken[o["m"]] = o["exc"]
            self.ctx.log("outage of", o["m"])

    def op_mend(self, o):
        self.broken.pop(o["m"], None)

    def finish(self):
        """Faults stop; one propagation must settle everything, the next must
        have nothing to do"""
        self.broken.clear()
        self.op_prop({"op": "prop"})
        if self.n_faults:
            self.ctx.probes["recovered after faults"] += 1
        self.op_prop({"op": "prop"})
        self.listing(("C01",))
        self.ctx.check_stop()


class Skip(Exception):
    """The rest of the run would be meaningless"""


class Conditional(Exception):
    """Violates the property only if it needs what the property is about"""

    def __init__(self, kind, detail):
        Exception.__init__(self, kind)
        self.kind = kind
        self.detail = detail


def execute(scenario, ctx, sut):
    """Plays a scenario; raises Violation, Conditional or Foreign"""
    with seams.LogSim(ctx, scenario["cfg"].get("log", "off"),
                      scenario["cfg"].get("logperiod", 3)) as logsim:
        World.logsim = None
        w = World.__new__(World)
        w.logsim = logsim
        w.last = {"runs": 0, "ran": []}
        try:
            w.__init__(ctx, sut, scenario)
            for i, o in enumerate(scenario["ops"]):
                ctx.log("#%d" % i)
                w.do(o)
            w.finish()
        except Skip as e:
            ctx.probes["skipped: %s" % e] += 1
        ctx.nontrivial = len(w.specs) > 0 and ctx.steps > 4
        ctx.extra["world"] = w


def without(scenario, prop, refused, removed_any):
    """The same history without what the property is about"""
    s = dict(scenario)
    ops = []
    for o in scenario["ops"]:
        if prop == "C02":
            if o["op"] in ("break", "mend"):
                continue
            o = dict(o)
            o.pop("fault", None)
        elif prop == "C03":
            if o["op"] in ("addm", "readd") and o.get("_refused"):
                continue
        elif prop == "C04":
            if o["op"] in ("remm", "remv", "clear"):
                continue
        ops.append(o)
    s["ops"] = ops
    return s


def shrink_lists(sc):
    return [["ops"]] + [["ops", i, "sweep"] for i, o in enumerate(sc["ops"]) if "sweep" in o]


def run(scenario, ctx, fresh):
    """Entry point: plays the scenario; one whose operation is to be cut short
    at each of many lines is played once for each of them"""
    at = [i for i, o in enumerate(scenario["ops"]) if "sweep" in o]
    if not at:
        return run_one(scenario, ctx, fresh)
    for n in scenario["ops"][at[0]]["sweep"]:
        ops = list(scenario["ops"])
        o = dict(ops[at[0]])
        del o["sweep"]
        o["fault"] = {"k": "line", "n": n, "exc": o.pop("sweepexc", "interrupt")}
        ops[at[0]] = o
        before = sum(c for k, c in ctx.faults.items() if k.startswith("interrupt at"))
        ctx.log("sweep", n)
        run_one(dict(scenario, ops=ops), ctx, fresh)
        ctx.probes["call cut short at each of its lines"] += 1
        if ctx.extra.get("foreign") or before == sum(
                c for k, c in ctx.faults.items() if k.startswith("interrupt at")):
            break      # beyond the last line of the call


def run_one(scenario, ctx, fresh):
    """Plays the scenario and attributes divergences"""
    prop = scenario["prop"]
    try:
        execute(scenario, ctx, fresh())
    except Foreign as f:
        ctx.probes["ended by another property's divergence: " + f.kind] += 1
        ctx.extra["foreign"] = f.kind
    except Conditional as c:
        if prop == "C03":
            marked = mark_refused(scenario, fresh)
        else:
            marked = scenario
        other = Ctx()
        other.extra["budget"] = ctx.extra.get("budget")
        same = False
        try:
            execute(without(marked, prop, None, None), other, fresh())
        except (Violation, Foreign, Conditional):
            same = True
        if not same:
            raise Violation(c.kind, c.detail + {
                "C02": " (does not happen without the faults)",
                "C03": " (does not happen without the refused additions)",
                "C04": " (does not happen without the removals)"}[prop])
        ctx.probes["ended by another property's divergence: " + c.kind] += 1
        ctx.extra["foreign"] = c.kind


def mark_refused(scenario, fresh):
    """Marks the additions the reference model refuses"""
    methods, specs, s = {}, {}, dict(scenario)
    ops = []
    for o in scenario["ops"]:
        o = dict(o)
        if o["op"] == "addm" or (o["op"] == "readd" and o["m"] in specs):
            spec = o["spec"] if o["op"] == "addm" else specs[o["m"]]
            specs.setdefault(spec["id"], spec)
            spec = specs[spec["id"]]
            if spec["id"] not in methods:
                have = set(v for m in methods.values() for v in m["outs"])
                if have & set(spec["outs"]) or closes_cycle(methods, spec):
                    o["_refused"] = True
                else:
                    methods[spec["id"]] = spec
        elif o["op"] == "remm":
            methods.pop(o["m"], None)
        elif o["op"] == "remv":
            for m in [m for m, t in methods.items() if o["v"] in t["ins"] + t["outs"]]:
                del methods[m]
        elif o["op"] == "clear":
            for m in [m for m, t in methods.items() if t["ins"] + t["outs"]]:
                del methods[m]
        ops.append(o)
    s["ops"] = ops
    return s


# ------------------------------------------------------------------- generator

PROFILES = {
    # weights: set, deferred share, prop, addm, readd, remm, remv, clear, exec, addvar
    "C01": dict(w=dict(set=10, prop=3, addm=8, readd=.5, remm=1, remv=.5, clear=.05,
                       exec=1, addvar=2), bad=.12, faults=0, override=.04, multi=.2),
    "C02": dict(w=dict(set=10, prop=4, addm=7, readd=.5, remm=.7, remv=.3, clear=.03,
                       exec=1.5, addvar=1.5, outage=1.5), bad=.05, faults=.35,
                override=.02, multi=.25),
    "C03": dict(w=dict(set=6, prop=3, addm=14, readd=4, remm=2, remv=.7, clear=.1,
                       exec=.7, addvar=1.5), bad=.5, faults=.03, override=.02, multi=.1),
    "C04": dict(w=dict(set=8, prop=3, addm=9, readd=3, remm=5, remv=3.5, clear=.25,
                       exec=.7, addvar=2), bad=.1, faults=.02, override=.04, multi=.15),
    "C05": dict(w=dict(set=10, prop=3, addm=9, readd=.5, remm=.7, remv=.3, clear=.03,
                       exec=1, addvar=2, outage=.4, badm=.3), bad=.05, faults=.15,
                override=.02, multi=.8),
    "C06": dict(w=dict(set=10, prop=4, addm=8, readd=.7, remm=1.2, remv=.6, clear=.05,
                       exec=2, addvar=2, outage=.5), bad=.08, faults=.12, override=.03,
                multi=.2),
}


def gen(prop, rng, tier="quick"):
    pr = PROFILES[prop]
    faults = pr["faults"] if rng.random() < (.85 if prop == "C02" else .5) else 0
    if prop == "C02":
        faults = max(faults, .2)
    cfg = {"hash": rng.choice(seams.Layout.MODES), "hashseed": rng.randrange(1 << 30),
           "log": "off", "faults": bool(faults)}
    if faults and rng.random() < .3:
        cfg["log"] = "raising"
    elif rng.random() < .05:
        cfg["log"] = rng.choice(["ok", "full", "short"])
    nv = rng.randint(2, 8)
    single = ["v%d" % i for i in range(nv)]
    nums = ["n%d" % i for i in range(rng.randint(2, 4))]
    multi = ["x%d" % i for i in range(rng.randint(1, 3))]
    sums = ["q%d" % i for i in range(2)]
    use_multi = rng.random() < pr["multi"]
    use_num = use_multi or rng.random() < .4
    elems = use_multi and rng.random() < .3      # values of any kind
    p_defer = rng.choice([0, .2, .5, .9])
    p_bad = pr["bad"] if rng.random() < .8 else 0
    rich = rng.random() < .5
    behs = rng.sample(["norm", "sparse", "empty", "nones", "rich", "norm"], rng.randint(1, 4))
    styles = rng.sample(["plain", "plain", "selfmap", "scribble", "keep"], 2)
    max_m = rng.randint(1, 9)
    wide = rng.random() < .4        # many readers per variable
    n_ops = rng.randint(3, 14) if rng.random() < .6 else rng.randint(10, 40)
    if tier == "thorough" and rng.random() < .3:
        n_ops *= 2
    lf_kinds = rng.sample(["raise", "raise", "line", "line", "log"], rng.randint(1, 4))
    if use_multi:
        lf_kinds.append("raisemulti")
    excs = rng.sample(["error", "interrupt", "memory", "arith", "key"], rng.randint(1, 3))
    ops = []
    uid = [0]
    mids = []
    methods = {}       # rough idea of the structure
    all_vars = list(single)
    if use_num:
        all_vars += nums
    if use_multi:
        all_vars += multi + sums

    def value(v):
        uid[0] += 1
        if rng.random() < .06:
            return ["none"]
        if v[0] == "n":
            return rng.choice([["int", rng.randint(-4, 9)], ["int", uid[0]],
                               ["float", rng.randint(-3, 3) / 2.0], ["bool", True],
                               ["int", 0]])
        if v[0] in "xq":
            k = rng.choice(["list", "set", "tuple"])
            if elems:
                return [k, [rng.choice([None, "", "s", 0, 2.5, 3, "t"])
                            for _ in range(rng.choice([0, 1, 2, 2, 3]))]]
            return [k, [rng.randint(-3, 6) for _ in range(rng.choice([0, 1, 2, 2, 3]))]]
        return random_value(rng, uid[0], rich)

    def mspec():
        mid = "m%d" % len(mids)
        bad = rng.random() < p_bad
        r = rng.random()
        if use_multi and r < .5:
            if rng.random() < .4:
                ins = [rng.choice(nums if elems else nums + multi) for _ in range(2)]
                outs = [rng.choice(sums if not bad else sums + multi)]
                return {"id": mid, "kind": "sumprod", "ins": ins, "outs": outs}
            pool = multi + sums + single[:2] + nums
            ins = [rng.choice(pool) for _ in range(rng.randint(1, 3))]
            if sum(1 for v in ins if v[0] == "q") > 1:
                ins = [v for v in ins if v[0] != "q"] or [multi[0]]
            if bad:
                outs = [rng.choice(multi)]
            else:
                top = max([int(v[1:]) for v in ins if v[0] == "x"] + [-1])
                cand = [v for v in multi if int(v[1:]) > top]
                if not cand:
                    ins = [v for v in ins if v[0] != "x"] or [nums[0]]
                    cand = multi[-1:]
                outs = [rng.choice(cand)]
            spec = {"id": mid, "kind": "mterm", "ins": ins, "outs": outs}
            if elems:
                spec["elems"] = True
            return spec
        if use_num and r < .7:
            kind = rng.choice(["add", "add", "sub", "assign", "setm"])
            k = sorted(rng.sample(range(len(nums)), 2))
            out = [nums[k[1]]]
            a = nums[k[0]]
            b = nums[rng.randrange(0, k[1])] if k[1] > 0 else nums[0]
            if bad:
                a = rng.choice(nums)
            if kind == "setm":
                return {"id": mid, "kind": kind, "ins": [], "outs": out,
                        "value": rng.choice([["int", rng.randint(-4, 9)], ["int", 0]])}
            if kind == "assign":
                return {"id": mid, "kind": kind, "ins": [a], "outs": out}
            ins = [a, b]
            rng.shuffle(ins)
            return {"id": mid, "kind": kind, "ins": ins, "outs": out}
        n_out = rng.choice([1, 1, 1, 2, 2, 3])
        if bad:
            outs = [rng.choice(single) for _ in range(n_out)]
            ins = [rng.choice(all_vars[:nv + 2]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        else:
            lo = rng.randint(0, nv - 1)
            have = set(o for m in methods.values() for o in m["outs"])
            cand = [v for v in single[lo:] if v not in have] or \
                   [v for v in single if v not in have] or single[-1:]
            outs = rng.sample(cand, min(n_out, len(cand)))
            top = min(single.index(v) for v in outs)
            pool = single[:top] + (nums if use_num else [])
            if wide and top > 1:
                pool = single[:2]
            k = rng.choice([1, 1, 2, 2, 3]) if pool else 0
            ins = [rng.choice(pool) for _ in range(k)] if pool else []
            if rng.random() < .03:
                ins = []
            if rng.random() < .04:
                outs = []       # an observer; without inputs: on nothing
        spec = {"id": mid, "kind": "term", "ins": ins, "outs": sorted(set(outs), key=outs.index),
                "beh": rng.choice(behs)}
        st = rng.choice(styles)
        if st != "plain":
            spec["style"] = st
        return spec

    def fault():
        if not faults or rng.random() > faults:
            return None
        k = rng.choice(lf_kinds)
        exc = rng.choice(excs)
        if k == "line":
            return {"k": k, "n": int(2 ** rng.uniform(0, 7.2)), "exc": rng.choice(
                ["interrupt", "interrupt", "memory"])}
        if k == "log":
            return {"k": k, "n": rng.randint(1, 6)}
        return {"k": k, "n": rng.choice([1, 1, 2, 2, 3, 4, 5]), "exc": exc}

    for v in all_vars:
        if rng.random() < (.5 if v[0] == "v" else .8):
            ops.append({"op": "addvar", "v": v, "val": value(v) if rng.random() < .8 else ["none"]})
    rng.shuffle(ops)
    weights = dict(pr["w"])
    names = sorted(weights)
    for i in range(n_ops):
        k = rng.choices(names, [weights[n] for n in names])[0]
        if k == "addm" and len(methods) >= max_m:
            k = "set"
        if i < 3 and rng.random() < .6:
            k = "addm"
        if k == "set":
            determined = set(o for m in methods.values() for o in m["outs"])
            free = [v for v in all_vars if v not in determined]
            if not free or rng.random() < pr["override"]:
                v = rng.choice(all_vars)
            else:
                v = rng.choice(free)
            o = {"op": "set", "v": v, "val": value(v), "prop": rng.random() >= p_defer}
            if rng.random() < .06 and v[0] == "v":
                o["inplace"] = True
                o["val"] = ["list", [1]]
            if rng.random() < .25 and v[0] != "v":
                # a burst: several deferred updates
                ops.append(dict(o, prop=False, v=rng.choice(free or all_vars)))
                ops[-1]["val"] = value(ops[-1]["v"])
        elif k == "prop":
            o = {"op": "prop"}
        elif k == "addm":
            s = mspec()
            mids.append(s["id"])
            have = set(v for m in methods.values() for v in m["outs"])
            if not (have & set(s["outs"]) or closes_cycle(methods, s)):
                methods[s["id"]] = s
            o = {"op": "addm", "spec": s, "prop": rng.random() >= p_defer * .7}
        elif k in ("readd", "remm", "exec"):
            if not mids:
                continue
            m = rng.choice(mids)
            if k == "remm" and methods and rng.random() < .85:
                m = rng.choice(sorted(methods))
            if k == "remm":
                methods.pop(m, None)
            o = {"op": k, "m": m}
            if k == "readd":
                o["prop"] = rng.random() >= p_defer * .7
        elif k == "remv":
            v = rng.choice(all_vars)
            for m in [m for m, s in methods.items() if v in s["ins"] + s["outs"]]:
                del methods[m]
            o = {"op": "remv", "v": v}
        elif k == "clear":
            methods.clear()
            o = {"op": "clear"}
        elif k == "outage":
            if not methods or not faults:
                continue
            m = rng.choice(sorted(methods))
            o = {"op": "break", "m": m, "exc": rng.choice(excs)} if rng.random() < .6 \
                else {"op": "mend", "m": m}
        elif k == "badm":
            kind = rng.choice(["mterm", "sumprod"])
            outs = [rng.choice(single + nums)]
            if kind == "mterm" and rng.random() < .5:
                outs = rng.choice([[], multi[:1] + sums[:1], multi[:1] * 2, multi[:1] + single[:1],
                                   single[:1] + sums[:1]])
            o = {"op": "badm", "kind": kind,
                 "spec": {"id": "bad", "kind": kind, "ins": [rng.choice(multi + nums)] * 2,
                          "outs": outs}}
        elif k == "addvar":
            v = rng.choice(all_vars)
            o = {"op": "addvar", "v": v, "val": value(v)}
        if o["op"] in ("set", "prop", "addm", "readd", "exec"):
            f = fault()
            if f:
                o["fault"] = f
        ops.append(o)
        # biased placement: act right after a fault or a structural change
        if "fault" in o and rng.random() < .4 and mids:
            ops.append(rng.choice([{"op": "prop"}, {"op": "remm", "m": rng.choice(mids)},
                                   {"op": "prop"}]))
    sc = {"kind": "mg", "prop": prop, "cfg": cfg, "ops": ops}
    if prop == "C02" and rng.random() < .12:
        sweep(rng, sc)
    return sc


def sweep(rng, sc):
    """One propagating call of the scenario is cut short at each of its lines"""
    read = set(v for o in sc["ops"] if o["op"] == "addm" for v in o["spec"]["ins"])
    for o in sc["ops"]:
        if o.get("fault", {}).get("k") == "line":
            del o["fault"]
    ok = [i for i, o in enumerate(sc["ops"]) if o["op"] in ("set", "exec", "prop", "addm") and
          o.get("prop", True) and not o.get("inplace")]
    sets = [i for i in ok if sc["ops"][i]["op"] == "set" and sc["ops"][i]["v"] in read]
    if not ok:
        return
    i = rng.choice(sets if sets and rng.random() < .6 else ok)
    o = sc["ops"][i]
    if o["op"] == "set" and rng.random() < .4:
        o["val"] = ["none"]
    o.pop("fault", None)
    lo = rng.choice([1, 1, 1, 40, 100])
    o["sweep"] = list(range(lo, lo + rng.choice([40, 80, 150])))
    o["sweepexc"] = rng.choice(["interrupt", "interrupt", "memory"])
    del sc["ops"][i + rng.randint(1, 4):]
    if rng.random() < .35:       # what was under way may be gone before the next attempt
        specs = [x["spec"] for x in sc["ops"][:i + 1] if x["op"] == "addm"]
        there = [x["id"] for x in specs if read & set(x["outs"])] or [x["id"] for x in specs]
        if o["op"] == "set" and rng.random() < .7:
            there = [x["id"] for x in specs if x["id"] in there and o["v"] in x["ins"]] or there
        gone = {"op": "remm", "m": rng.choice(there)} if there and rng.random() < .7 else \
            {"op": "remv", "v": rng.choice(sorted(read))} if read else {"op": "prop"}
        sc["ops"].insert(i + 1, gone)
