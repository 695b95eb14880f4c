"""The seams: hash iteration order, interrupts at executed lines, thread
scheduling at bytecode granularity, log sinks."""
import hashlib
import logging
import sys
import threading

from . import locks
from . import sut as _sut
from .core import EXC, SimHang

# ---------------------------------------------------------------- hash layout


class Layout(object):
    """Decides the hash values of all simulated names, and with them the
    iteration order of every set they are put into"""

    MODES = ("spread", "small", "collide", "mixed")

    def __init__(self, mode="spread", seed=0):
        self.mode = mode
        self.seed = seed
        self._cache = {}
        self.falsy = seed % 5 == 0     # some names are false in a truth test
        self.same = (seed // 5) % 2 == 0  # equal names are one object
        look = (seed // 10) % 4
        self.alike = look == 0         # all names print the same
        self.odd = look == 1           # names print like format strings
        self.kind = TupleName if (seed // 40) % 4 == 0 else Name
        self._names = {}

    def name(self, name):
        """A name object: a new one every time, or the same one every time"""
        if not self.same:
            return self.kind(name, self)
        n = self._names.get(name)
        if n is None:
            n = self._names.setdefault(name, self.kind(name, self))
        return n

    def text(self, name):
        return "point" if self.alike else "%%d{0}{x}%%(y)s%s" % name if self.odd else name

    def hash(self, name):
        h = self._cache.get(name)
        if h is None:
            d = hashlib.sha1(("%s|%s" % (self.seed, name)).encode()).digest()
            n = int.from_bytes(d[:7], "big")
            if self.mode == "spread":
                h = n
            elif self.mode == "small":
                h = n % 16
            elif self.mode == "collide":
                h = 7
            else:
                h = n if n % 2 else n % 4
            self._cache[name] = h
        return h


class Name(object):
    """A variable, vertex or point name: hashable, immutable, equal by name or,
    where the layout says so, by identity"""

    def __init__(self, name, layout):
        self.name = name
        self.layout = layout

    def __eq__(self, other):
        if self.layout.same:
            return self is other
        return isinstance(other, Name) and other.name == self.name

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return self.layout.hash(self.name)

    def __bool__(self):
        return not (self.layout.falsy and self.name[-1:] in "024")

    def __str__(self):
        return self.layout.text(self.name)

    def __repr__(self):
        return "<%s>" % self.layout.text(self.name)


class TupleName(Name, tuple):
    """A name that is a tuple of two, which must not be taken apart"""

    def __new__(cls, name, layout):
        return tuple.__new__(cls, (name, 1))

    def __init__(self, name, layout):
        Name.__init__(self, name, layout)

    def __getnewargs__(self):
        return self.name, self.layout


# ---------------------------------------------------------- interrupts by line

def in_sut(frame):
    return frame.f_code.co_filename.startswith(_sut.PREFIX)


class LineFault(object):
    """Context manager: raises at the n-th line executed in the code under test,
    and/or limits the number of lines"""

    def __init__(self, n=None, exc="interrupt", budget=None):
        self.n = n
        self.exc = EXC[exc] if isinstance(exc, str) else exc
        self.budget = budget
        self.count = 0
        self.fired = False
        self.where = None
        self.paused = False

    def _trace(self, frame, event, arg):
        if event == "call":
            if self.paused or not in_sut(frame):
                return None
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.n is not None and not self.fired and self.count >= self.n:
                self.fired = True
                self.where = "%s:%s" % (frame.f_code.co_filename[len(_sut.PREFIX):],
                                        frame.f_code.co_name)
                raise self.exc("injected at line event %d" % self.n)
            if self.budget is not None and self.count > self.budget:
                raise SimHang("more than %d lines executed" % self.budget)
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        if self.fired:
            locks.abandon()
        return False


# ------------------------------------------------------------------ scheduler

TOOL = 4       # tool id for sys.monitoring


class Scheduler(object):
    """Runs client functions in real threads of which exactly one is ever
    released; who runs next is decided at every line or bytecode executed in
    the code under test, by a seeded policy or by an explicit list of switches.
    """

    def __init__(self, rng=None, policy="random", p=0.02, depth=3, horizon=2000,
                 switches=None, opcodes=True, max_steps=400000):
        self.rng = rng
        self.policy = policy if switches is None else "explicit"
        self.p = p
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.steps = 0
        self.trail = []               # (step, from, to): taken switches
        self.explicit = {int(s): int(t) for s, t in (switches or [])}
        self.horizon = horizon
        self.depth = depth
        self.hang = False
        self.preempts = 0
        self.stolen = False
        self.steals = 0

    def run(self, clients, on_step=None):
        """clients: list of functions(thread_index).  Returns list of outcomes
        (None or the exception that ended the client)."""
        n = len(clients)
        self.n = n
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.outcome = [None] * n
        self.main = threading.Semaphore(0)
        self.on_step = on_step
        self.blocked = set()           # wait for a lock held by a parked client
        self.waiting = {}              # client -> simulated lock it waits for
        locks.SCHEDULER[0] = self
        self.line_fault = [None] * n   # per thread (n-th event, exc)
        self.events = [0] * n
        if self.policy == "pct":
            order = list(range(n))
            self.rng.shuffle(order)
            self.prio = {t: n - i + 100 for i, t in enumerate(order)}
            self.change = set(self.rng.randrange(1, max(2, self.horizon))
                              for _ in range(self.depth))
            first = max(range(n), key=lambda t: self.prio[t])
        elif self.policy == "explicit":
            first = self.explicit.get(0, 0)
        else:
            first = self.rng.randrange(n)
        if not 0 <= first < n:
            first = 0
        self.trail.append((0, -1, first))
        self.current = first
        # Not sys.settrace: CPython 3.12 turns tracing off in a thread whose
        # trace function raises and then crashes in it while others trace.
        # The set of monitored events never changes while clients are alive.
        old = sys.gettrace()
        sys.settrace(None)
        mon = sys.monitoring
        event = mon.events.INSTRUCTION if self.opcodes else mon.events.LINE
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, "dst scheduler")
        mon.register_callback(TOOL, event, self._event)
        codes = _sut.code_objects()
        for c in codes:
            mon.set_local_events(TOOL, c, event)
        threads = []
        for i, c in enumerate(clients):
            t = threading.Thread(target=self._body, args=(i, c), daemon=True)
            threads.append(t)
            t.start()
        try:
            return self._release(threads, first)
        finally:
            locks.SCHEDULER[0] = None
            for c in codes:
                mon.set_local_events(TOOL, c, 0)
            mon.register_callback(TOOL, event, None)
            sys.settrace(old)

    def _release(self, threads, first):
        self.idents = {t.ident: i for i, t in enumerate(threads)}
        self.locks[first].release()
        seen = -1
        while not self.main.acquire(timeout=2.0):
            # no progress: the running client may be blocked on a lock that
            # a parked client holds; let another one run
            if self.steps == seen:
                live = [t for t in self._runnable() if t != self.current]
                if live and not self.main._value:
                    self.stolen = True
                    self.blocked.add(self.current)
                    live = [t for t in live if t not in self.blocked] or live
                    self.current = live[self.steals % len(live)]
                    self.steals += 1
                    self.locks[self.current].release()
            seen = self.steps
        for t in threads:
            t.join()
        return self.outcome

    def _body(self, i, client):
        self.locks[i].acquire()
        try:
            client(i)
        except BaseException as e:     # noqa
            self.outcome[i] = e
        self.done[i] = True
        self._finish(i)

    def _runnable(self):
        return [t for t in range(self.n) if not self.done[t]]

    def _finish(self, i):
        live = self._runnable()
        if not live:
            self.main.release()
            return
        if self.policy == "pct":
            nxt = max(live, key=lambda t: self.prio[t])
        elif self.policy == "explicit":
            nxt = self.explicit.get(-(i + 1), live[0])
            if nxt not in live:
                nxt = live[0]
        else:
            nxt = live[self.rng.randrange(len(live))]
        self.blocked.discard(i)
        if self.parked(nxt):
            nxt = ([t for t in live if not self.parked(t)] or [nxt])[0]
        self.trail.append((-(i + 1), i, nxt))
        self.current = nxt
        self.locks[nxt].release()

    def _decide(self, me):
        s = self.steps
        if self.policy == "explicit":
            nxt = self.explicit.get(s, me)
            return nxt if 0 <= nxt < self.n and not self.done[nxt] else me
        if self.policy == "pct":
            if s in self.change:
                self.prio[me] = -s
            return max([t for t in self._runnable() if not self.parked(t)] or [me],
                       key=lambda t: self.prio[t])
        if self.rng.random() < self.p:
            live = self._runnable()
            return live[self.rng.randrange(len(live))]
        return me

    def _event(self, code, where):
        """Called before every bytecode (or line) of the code under test"""
        me = self.current
        if self.stolen:
            mine = self.idents[threading.get_ident()]
            self.blocked.discard(mine)
            while mine != self.current and not self.done[self.current]:
                self.locks[mine].acquire()
            me = self.current = mine
        self.steps += 1
        self.events[me] += 1
        lf = self.line_fault[me]
        if lf is not None and self.events[me] >= lf[0]:
            self.line_fault[me] = None
            lf[2](code.co_name)
            raise lf[1]("injected at event %d" % lf[0])
        if self.steps > self.max_steps:
            self.hang = True
            raise SimHang("more than %d scheduler steps" % self.max_steps)
        nxt = self._decide(me)
        if nxt != me and not self.parked(nxt):
            self.preempts += 1
            self.trail.append((self.steps, me, nxt))
            self.current = nxt
            self.locks[nxt].release()
            self.locks[me].acquire()

    def parked(self, t):
        """Is there no point in letting this client run?"""
        return t in self.blocked or (t in self.waiting and self.waiting[t].owner is not None)

    def wait(self, lock):
        """The running client needs a lock that another one holds; returns
        whether there was anybody else to run"""
        if self.stolen:
            me = self.idents[threading.get_ident()]
        else:
            me = self.current
        self.steps += 1
        if self.steps > self.max_steps:
            self.hang = True
            raise SimHang("more than %d scheduler steps" % self.max_steps)
        self.waiting[me] = lock
        live = [t for t in self._runnable() if t != me and not self.parked(t)]
        if not live:
            del self.waiting[me]
            return False
        if self.policy == "explicit":
            nxt = self.explicit.get(self.steps, live[0])
            if nxt not in live:
                nxt = live[0]
        elif self.policy == "pct":
            nxt = max(live, key=lambda t: self.prio[t])
        else:
            nxt = live[self.rng.randrange(len(live))]
        self.trail.append((self.steps, me, nxt))
        self.current = nxt
        self.locks[nxt].release()
        self.locks[me].acquire()
        self.waiting.pop(me, None)
        return True

    def pause(self):
        """The running client waits for something slow: another one runs"""
        me = self.current
        if self.stolen:
            return
        self.steps += 1
        live = [t for t in self._runnable() if t != me and not self.parked(t)]
        if self.policy == "explicit":
            nxt = self.explicit.get(self.steps, me)
            if nxt not in live:
                return
        elif not live:
            return
        else:
            nxt = live[self.rng.randrange(len(live))]
            if self.policy == "pct":
                self.prio[me] = -self.steps
        self.preempts += 1
        self.trail.append((self.steps, me, nxt))
        self.current = nxt
        self.locks[nxt].release()
        self.locks[me].acquire()

    def arm(self, me, n, exc, note):
        self.line_fault[me] = (self.events[me] + n, EXC[exc], note)

    def disarm(self, me):
        self.line_fault[me] = None

    def switch_list(self):
        """The schedule, as the explicit list that replays it"""
        return [[s, t] for s, f, t in self.trail]


# ------------------------------------------------------------------- log sinks

LOGGERS = ("method", "geometry", "configuration", "cluster", "constraint")


class _Stream(object):
    """Simulated output device behind a standard StreamHandler"""

    def __init__(self, ctx, mode, period, sim):
        self.ctx = ctx
        self.sim = sim
        self.mode = mode
        self.period = max(1, period)
        self.n = 0
        self.text = []

    def write(self, s):
        self.n += 1
        if self.mode == "slow" and self.sim.slow is not None and self.n % self.period == 0:
            self.ctx.faults["log sink slow, others run meanwhile"] += 1
            self.sim.slow()
        elif self.mode != "ok" and self.n % self.period == 0:
            self.ctx.faults["log sink " + self.mode] += 1
            if self.mode == "full":
                raise OSError(28, "No space left on device")
            if self.mode == "closed":
                raise ValueError("I/O operation on closed file")
            if self.mode == "short":
                self.text.append(s[:max(0, len(s) // 2)])
                return len(s) // 2
        self.text.append(s)
        return len(s)

    def flush(self):
        if self.mode == "flushfail":
            self.ctx.faults["log sink flush"] += 1
            raise OSError(5, "Input/output error")


class _Handler(logging.StreamHandler):
    """Standard handler that counts rendering failures instead of printing"""

    def __init__(self, stream, sim):
        logging.StreamHandler.__init__(self, stream)
        self.sim = sim

    def handleError(self, record):
        exc = sys.exc_info()[1]
        if isinstance(exc, (OSError, ValueError)) and "device" in str(exc) \
                or "Input/output error" in str(exc) or "closed file" in str(exc):
            return
        self.sim.render_failures.append("%s: %s in %r" % (
            type(exc).__name__, exc, record.msg))

    def createLock(self):
        self.lock = None    # rendering runs code under test, which may be preempted

    def emit(self, record):
        self.sim.emitted += 1
        logging.StreamHandler.emit(self, record)


class _Raising(logging.Handler):
    """A sink whose failure reaches the caller, at the n-th record"""

    def __init__(self, sim):
        logging.Handler.__init__(self)
        self.sim = sim

    def createLock(self):
        self.lock = None

    def emit(self, record):
        self.sim.emitted += 1
        if self.sim.raise_at is not None:
            self.sim.raise_at -= 1
            if self.sim.raise_at <= 0:
                self.sim.raise_at = None
                self.sim.fired()
                raise EXC["io"](28, "No space left on device (injected)")


class LogSim(object):
    """Owns the library's loggers during a run"""

    def __init__(self, ctx, mode="off", period=3):
        # modes: off | ok | full | closed | short | flushfail | slow | raising
        self.ctx = ctx
        self.mode = mode
        self.period = period
        self.render_failures = []
        self.emitted = 0
        self.raise_at = None
        self.fired = lambda: None
        self.slow = None
        self.handler = None

    def __enter__(self):
        self.saved = []
        logging.lastResort = None
        root = logging.getLogger()
        self.root_state = (root.level, list(root.handlers))
        if self.mode == "off":
            for n in LOGGERS:
                lg = logging.getLogger(n)
                self.saved.append((lg, lg.level, lg.disabled, lg.propagate))
                lg.setLevel(logging.CRITICAL + 10)
            root.setLevel(logging.CRITICAL + 10)
            root.handlers[:] = []
        else:
            if self.mode == "raising":
                self.handler = _Raising(self)
            else:
                self.handler = _Handler(_Stream(self.ctx, self.mode, self.period, self), self)
            root.setLevel(logging.DEBUG)
            root.handlers[:] = [self.handler]
            for n in LOGGERS:
                lg = logging.getLogger(n)
                self.saved.append((lg, lg.level, lg.disabled, lg.propagate))
                lg.setLevel(logging.DEBUG)
        return self

    def __exit__(self, *a):
        root = logging.getLogger()
        root.setLevel(self.root_state[0])
        root.handlers[:] = self.root_state[1]
        for lg, level, disabled, prop in self.saved:
            lg.setLevel(level)
            lg.disabled = disabled
            lg.propagate = prop
        return False
