"""Locks made by the code under test: a client that has to wait for one hands the
control to another client, as the scheduler decides.  Nothing ever blocks for real."""
import threading
import types
import _thread

from .core import SimHang

SCHEDULER = [None]       # the one at work, if any
HELD = []                # locks that are held


class Lock(object):
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            sched = SCHEDULER[0]
            if sched is None or not sched.wait(self):
                if timeout is not None and timeout >= 0:
                    return False
                raise SimHang("deadlock: a lock is waited for that nobody will release")
            if timeout is not None and timeout >= 0 and self.owner is not None:
                return False
        self.owner = me
        self.count += 1
        HELD.append(self)
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner != threading.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        HELD.remove(self)
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    reentrant = True

    def _is_owned(self):
        return self.owner == threading.get_ident()


def abandon():
    """The caller was interrupted: whatever it still holds is let go (between
    the end of a with block and the release nothing protects a lock in Python)"""
    me = threading.get_ident()
    for lock in [k for k in HELD if k.owner == me]:
        lock.owner, lock.count = None, 0
    HELD[:] = [k for k in HELD if k.owner is not None]


def reset():
    del HELD[:]


_modules = {}


def module(name):
    if name not in _modules:
        real = {"threading": threading, "_thread": _thread}[name]
        m = types.ModuleType(name)
        m.__dict__.update(vars(real))
        m.Lock = m.allocate_lock = Lock
        m.RLock = RLock
        if name == "threading":
            del m.allocate_lock
        _modules[name] = m
    return _modules[name]
