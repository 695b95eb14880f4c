"""Batches of simulated runs, minimisation, replay and evidence."""
import copy
import gc
import json
import os
import resource
import signal
import subprocess
import sys
import time
from collections import Counter

from . import bigsim, sut
from .core import (Ctx, HangSuspect, SimHang, Violation, digest, rng_for, short)
from .props import PROPS, workload
from .seams import LineFault

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = sys.executable
BIG_EVERY = 150           # every so many runs is one of bigsim's
WALL_GUARD = 10.0         # seconds one run may take before it is suspected to hang


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ single runs

def _alarm(signum, frame):
    raise HangSuspect()


def workload_of(sc):
    return bigsim if sc["kind"] == "big" else workload(sc["prop"])


def make_scenario(prop, seed, index, tier):
    rng = rng_for(seed, prop, index)
    wl = bigsim if prop in bigsim.PROPS and index % BIG_EVERY == BIG_EVERY // 2 else \
        workload(prop)
    sc = wl.gen(prop, rng, tier)
    sc["seed"] = seed
    sc["index"] = index
    return sc


def raised_by_sut(e):
    """Did a call the harness expects to succeed fail inside the code under test?"""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename.startswith(sut.PREFIX)


UNUSABLE = (TypeError, AttributeError, KeyError, IndexError, ValueError)


def where_in_harness(e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return "%s:%d" % (tb.tb_frame.f_code.co_name, tb.tb_lineno)


def play(sc, keep_log=False, guard=True):
    """Plays one scenario.  Returns (ctx, Violation or None)."""
    wl = workload_of(sc)
    sc = copy.deepcopy(sc)
    for budget in (False, True):
        ctx = Ctx(keep_log)
        if budget:
            ctx.extra["budget"] = True
        if guard and not budget:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, WALL_GUARD)
        try:
            if budget:
                with LineFault(None, "error", 20000000 if sc["kind"] == "big" else 3000000):
                    wl.run(sc, ctx, sut.fresh)
            else:
                wl.run(sc, ctx, sut.fresh)
            return ctx, None
        except Violation as v:
            return ctx, v
        except HangSuspect:
            if ctx.extra.get("no verdict on time"):
                ctx.probes["large run cut short"] += 1
                return ctx, None
            continue       # decide under a deterministic step budget
        except SimHang as h:
            return ctx, Violation("no-termination", str(h))
        except Exception as e:
            if raised_by_sut(e):
                return ctx, Violation("unexpected-exception", "%s: %s" % (
                    type(e).__name__, short(str(e))))
            if not isinstance(e, UNUSABLE):
                raise
            # the oracle could not make sense of what the package handed out (on the
            # unchanged tree no run ends here)
            return ctx, Violation("unusable-result", "%s: %s at %s" % (
                type(e).__name__, short(str(e)), where_in_harness(e)))
        finally:
            if guard and not budget:
                signal.setitimer(signal.ITIMER_REAL, 0)
            sys.settrace(None)
    raise HarnessError("run neither ended nor exceeded its step budget")


# ---------------------------------------------------------------------- workers

def worker(prop, seed, tier, start, step, count, deadline, out_path):
    """Plays runs start, start+step, ... < count"""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except (ValueError, OSError):
        pass
    gc.disable()
    agg = {"runs": 0, "steps": 0, "probes": Counter(), "faults": Counter(),
           "planned": Counter(), "nontrivial": 0, "extra": Counter()}
    states, scen, samples = set(), set(), []
    res = {"violation": None, "error": None}
    t0 = time.time()
    try:
        for i in range(start, count, step):
            if time.time() > deadline:
                break
            sc = make_scenario(prop, seed, i, tier)
            ctx, v = play(sc)
            agg["runs"] += 1
            agg["steps"] += ctx.steps
            agg["probes"].update(ctx.probes)
            agg["faults"].update(ctx.faults)
            agg["planned"].update(ctx.planned)
            for k, n in ctx.extra.get("counts", {}).items():
                agg["extra"][k] += n
            if ctx.nontrivial:
                d = ctx.digest()[:16]
                if d not in scen:
                    scen.add(d)
                    agg["nontrivial"] += 1
            states.update(digest(s, 12) for s in ctx.states)
            if len(samples) < 1 and ctx.nontrivial and ctx.faults:
                samples.append({"scenario": sc, "log": ctx.digest()})
            if v is not None:
                res["violation"] = {"index": i, "scenario": ctx.extra.get("scenario", sc),
                                    "kind": v.kind, "detail": v.detail,
                                    "digest": ctx.digest()}
                break
            if agg["runs"] % 50 == 0:
                gc.collect()
    except BaseException as e:     # noqa
        import traceback
        res["error"] = "run %s of %s: %s" % (locals().get("i"), prop, traceback.format_exc())
    res.update(agg={k: (dict(x) if isinstance(x, Counter) else x) for k, x in agg.items()},
               states=sorted(states), scen=sorted(scen), samples=samples,
               wall=time.time() - t0)
    with open(out_path, "w") as f:
        json.dump(res, f)


def batch(prop, seed, tier, count, wall, workers):
    """Runs a batch over worker processes; returns the merged result"""
    outdir = os.path.join(VERIF, "evidence", ".tmp-%s-%d" % (prop, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    deadline = time.time() + wall
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", PYTHONWARNINGS="ignore")
    procs = []
    for w in range(workers):
        out = os.path.join(outdir, "%d.json" % w)
        procs.append((w, out, subprocess.Popen(
            [PY, "-B", "-m", "dst.check", "--worker", prop, str(seed), tier, str(w),
             str(workers), str(count), repr(deadline), out], cwd=VERIF, env=env,
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    merged = {"runs": 0, "steps": 0, "probes": Counter(), "faults": Counter(),
              "planned": Counter(), "extra": Counter(), "states": set(), "scen": set(),
              "samples": [], "violations": [], "errors": []}
    for w, out, p in procs:
        try:
            _, err = p.communicate(timeout=max(60, deadline - time.time() + 120))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            merged["errors"].append("worker %d did not end and was killed" % w)
            continue
        if not os.path.exists(out):
            merged["errors"].append("worker %d died (%s): %s" % (
                w, p.returncode, err.decode(errors="replace")[-2000:]))
            continue
        with open(out) as f:
            r = json.load(f)
        os.unlink(out)
        if r["error"]:
            merged["errors"].append(r["error"])
        a = r["agg"]
        merged["runs"] += a["runs"]
        merged["steps"] += a["steps"]
        for k in ("probes", "faults", "planned", "extra"):
            merged[k].update(a[k])
        merged["states"].update(r["states"])
        merged["scen"].update(r["scen"])
        merged["samples"] += r["samples"]
        if r["violation"]:
            merged["violations"].append(r["violation"])
    try:
        os.rmdir(outdir)
    except OSError:
        pass
    return merged


# ----------------------------------------------------------------- minimisation

def ddmin(items, test, deadline):
    """Removes chunks of a list while test(list) stays true"""
    n = 2
    items = list(items)
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        i, reduced = 0, False
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + size:]
            if test(cand):
                items, reduced = cand, True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(sc, kind, seconds=40):
    """Shrinks a failing scenario, keeping the violation class"""
    deadline = time.time() + seconds
    evals = [0]

    def fails(cand):
        evals[0] += 1
        try:
            _, v = play(cand)
        except Exception:
            return False
        return v is not None and v.kind == kind

    wl = workload_of(sc)
    best = copy.deepcopy(sc)
    for _ in range(4):
        before = json.dumps(best, sort_keys=True)
        k = 0
        while time.time() < deadline:
            paths = wl.shrink_lists(best) if hasattr(wl, "shrink_lists") else [["ops"]]
            if k >= len(paths):
                break
            path = paths[k]
            k += 1

            def put(lst, path=path):
                c = copy.deepcopy(best)
                x = c
                for key in path[:-1]:
                    x = x[key]
                x[path[-1]] = lst
                return c
            x = best
            for key in path:
                x = x[key]
            best = put(ddmin(x, lambda lst: fails(put(lst)), deadline))
        for cand in simpler(best, wl):
            if time.time() > deadline:
                break
            if fails(cand):
                best = cand
        if json.dumps(best, sort_keys=True) == before or time.time() > deadline:
            break
    return best, evals[0]


def simpler(sc, wl):
    """Candidate simplifications of single fields, generated against a moving
    target: each candidate is built from the scenario handed in"""
    out = []
    for k, val in (("log", "off"), ("hash", "spread")):
        if sc.get("cfg", {}).get(k) not in (None, val):
            c = copy.deepcopy(sc)
            c["cfg"][k] = val
            out.append(c)
    for i, o in enumerate(sc.get("ops", [])):
        if isinstance(o, dict) and "fault" in o:
            c = copy.deepcopy(sc)
            del c["ops"][i]["fault"]
            out.append(c)
    if hasattr(wl, "simpler"):
        out += wl.simpler(sc)
    return out


# ---------------------------------------------------------------------- replay

def replay_file(prop, seed, viol, sc, kind, detail, dig, evals):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, seed, viol["index"]))
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "index": viol["index"],
                   "violation": {"kind": kind, "detail": detail},
                   "event_log_sha1": dig, "minimised_in_runs": evals,
                   "replay_with": "./replay %s" % os.path.relpath(path, VERIF),
                   "scenario": sc}, f, indent=1)
        f.write("\n")
    return path


def replay(path, verbose=True):
    """Plays a replay file; returns (reproduced, violation, digest)"""
    with open(path) as f:
        r = json.load(f)
    ctx, v = play(r["scenario"], keep_log=True)
    if verbose:
        for line in ctx.lines:
            print("   ", line)
        print("violation:", "none" if v is None else "%s: %s" % (v.kind, v.detail))
        print("event log:", ctx.digest())
    ok = v is not None and v.kind == r["violation"]["kind"] \
        and ctx.digest() == r["event_log_sha1"]
    return ok, v, ctx.digest(), r["violation"]["kind"]


def confirm(path):
    """Replays in fresh processes.  Returns (verdict, text): "exact" when two
    processes reproduce the violation and the event log, "kind" when only the
    violation comes back every time, "" when it does not"""
    kinds, why = 0, ""
    for hs in ("0", "4242"):
        try:
            p = subprocess.run([PY, "-B", "-m", "dst.check", "--replay-quiet", path], cwd=VERIF,
                               env=dict(os.environ, PYTHONHASHSEED=hs,
                                        PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=150)
        except subprocess.TimeoutExpired:
            why = "the replay took more than 150 s"
            continue
        if p.returncode == 0:
            kinds += 1
        else:
            why = p.stdout.decode(errors="replace")[-1500:]
            if p.returncode == 4:
                kinds += 1
    if not why:
        return "exact", ""
    return ("kind" if kinds == 2 else ""), why


# -------------------------------------------------------------------- the check

def known_findings():
    """Entries of KNOWN_FINDINGS.txt that suppress something: 'known: ...'"""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                fields = dict(x.split("=", 1) for x in line[6:].split("|")[0].split())
                out.append((fields.get("property"), fields.get("kind"),
                            line.split("|", 1)[1].strip() if "|" in line else ""))
    return out


def check(prop, tier, seed, workers=None, count=None, wall=None):
    t0 = time.time()
    spec = PROPS[prop]
    workers = workers or min(8, os.cpu_count() or 1)
    count = count or spec[tier]
    wall = wall or (240 if tier == "quick" else 780)
    print("check %s tier=%s VERIF_SEED=%s runs=%d workers=%d" % (
        prop, tier, seed, count, workers), flush=True)
    m = batch(prop, seed, tier, count, wall, workers)
    status, vcount, line = 0, 0, None
    known = [k for k in known_findings() if k[0] == prop]
    for _, kind, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    viols = sorted(m["violations"], key=lambda v: v["index"])
    viols = [v for v in viols if not any(v["kind"] == k[1] for k in known)]
    for v in viols:
        sc, evals = minimise(v["scenario"], v["kind"])
        for cand, n in ((sc, evals), (v["scenario"], 0)):
            ctx, vv = play(cand)
            if vv is None:
                continue
            path = replay_file(prop, seed, v, cand, vv.kind, vv.detail, ctx.digest(), n)
            ok, why = confirm(path)
            if ok:
                break
        else:
            m["errors"].append("violation of run %d (%s) does not reproduce%s" % (
                v["index"], v["kind"], ": " + why if vv is not None else ""))
            continue
        vcount = len(viols)
        status = 1
        print("%s: %s" % (vv.kind, vv.detail))
        if ok != "exact":
            print("(the violation reproduces; the event log differs between processes, so "
                  "the code under test depends on memory addresses or hash randomisation)")
        line = "VIOLATION property=%s replay=%s" % (prop, path)
        break
    if status == 0 and m["errors"]:
        status = 2
    if status == 0 and m["runs"] < min(count, 20):
        m["errors"].append("only %d runs completed" % m["runs"])
        status = 2
    for e in m["errors"][:1]:
        print("HARNESS-ERROR (%d in total) %s" % (len(m["errors"]), e), file=sys.stderr)
    write_evidence(prop, tier, seed, m, time.time() - t0, vcount, workers)
    print("%d runs, %d distinct non-trivial, %d states, faults %s" % (
        m["runs"], len(m["scen"]), len(m["states"]), dict(m["faults"])))
    if line:
        print(line, flush=True)
    return status


def write_evidence(prop, tier, seed, m, wall, vcount, workers):
    spec = PROPS[prop]
    samples = [dict(scenario=s["scenario"], event_log_sha1=s["log"]) for s in m["samples"][:2]]
    if not samples:
        samples = [{"scenario": make_scenario(prop, seed, 0, tier)}]
    cov = {
        "evaluations": m["runs"],
        "distinct_nontrivial": len(m["scen"]),
        "rule": spec["rule"],
        "samples": samples,
        "simulated_runs": m["runs"],
        "runs_per_hour": int(m["runs"] / max(wall, .01) * 3600),
        "seeds": "VERIF_SEED=%s, run indexes 0..%d, each run seeded by sha256(seed/property/index)"
                 % (seed, max(0, m["runs"] - 1)),
        "simulated_time": {
            "unit": "logical steps (calls into the package; for multi-client runs also "
                    "scheduler steps at executed bytecodes or lines). The package has no clock.",
            "total": m["steps"]},
        "fault_kinds_fired": dict(sorted(m["faults"].items())),
        "fault_kinds_configured": dict(sorted(m["planned"].items())),
        "rare_conditions_reached": dict(sorted(m["probes"].items())),
        "distinct_states": len(m["states"]),
        "state_measure": spec["measure"],
        "components_real": spec["real"],
        "components_stub": spec["stub"],
        "counts": dict(sorted(m["extra"].items())),
        "workers": workers,
        "harness_errors": len(m["errors"]),
        "exhaustive": False,
    }
    ev = {"property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
          "coverage": cov, "assumptions": spec["assume"], "wall_s": round(wall, 2),
          "violations": vcount}
    path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".%d.tmp" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, path)
