"""Real threads under a simulated scheduler that may start and end at any time.

install() replaces what the threading module offers (before the code under test is imported); inside a World exactly one thread runs,
and control moves only at executed lines of repository code and where a thread waits.  Outside a World the genuine behaviour stays.
"""
import _thread
import os
import queue
import sys
import threading
import time

from .core import Hang, in_repo

_alloc = _thread.allocate_lock
_RealThread = threading.Thread
_RealRLock = threading.RLock
_real_current = threading.current_thread
_real_sleep = time.sleep
WORLD = None
LIMIT = 3_000_000


class Deadlock(Exception):
    pass


class NoProgress(Exception):
    pass


class Task:
    def __init__(self, wid, name, event):
        self.id = wid
        self.name = name
        self.event = event       # what the user had started when this thread was created
        self.gate = _alloc()
        self.gate.acquire()
        self.cond = None
        self.deadline = None
        self.alive = True
        self.owner = None
        self.boom = None
        self.parked = False      # waits for work, not in the middle of some


POOL = ('concurrent/futures/thread.py', 'concurrent/futures/_base.py')


def waits_for_work(f):
    while f is not None:
        fn = f.f_code.co_filename
        if fn.endswith('/queue.py') and f.f_code.co_name == 'get' or fn.endswith(POOL[0]) and f.f_code.co_name == '_worker':
            return True
        f = f.f_back
    return False


def in_work(f):
    """A pool's worker that carries out a piece of work is not waiting for one, whatever it waits for."""
    while f is not None:
        if f.f_code.co_filename.endswith(POOL[0]) and f.f_code.co_name == 'run':
            return True
        f = f.f_back
    return False


class World:
    """The calling thread becomes task 0."""

    def __init__(self, clock, switches, tail, files=None):
        self.clock = clock
        self.switches = [tuple(s) for s in switches]
        self.tail = max(1, int(tail))
        self.pos = -1
        self.left = 0
        self.count = 0
        self.handovers = 0
        self.tasks = []
        self.cur = None
        self.idle = False
        self.pooled = False      # some thread serves several pieces of work
        self.event = None
        self.uncaught = []
        self.started = 0
        self.where = {}
        self.line_hook = None
        self._cache = {}
        self.main = self._task('gui')
        self.cur = self.main
        self.ident = {_thread.get_ident(): self.main}
        self.left, self._which = self._next()

    def _task(self, name):
        t = Task(len(self.tasks), name, self.event)
        self.tasks.append(t)
        return t

    def _next(self):
        self.pos += 1
        if self.pos < len(self.switches):
            return max(1, int(self.switches[self.pos][0])), int(self.switches[self.pos][1])
        return self.tail, self.pos

    def draw(self):
        """The next choice of the schedule."""
        self.left, w = self._next()
        return w

    def me(self):
        return self.ident.get(_thread.get_ident())

    # -- choosing ---------------------------------------------------------------------------------
    def _can(self, t):
        if not t.alive:
            return False
        if t.cond is None:
            return True
        if t.deadline is not None and self.clock.t >= t.deadline:
            return True
        return bool(t.cond())

    def runnable(self):
        r = [t for t in self.tasks[1:] if self._can(t)]
        self.idle = not r
        if self._can(self.main):
            r.insert(0, self.main)
        return r

    def others_live(self):
        return [t for t in self.tasks[1:] if t.alive and not (t.parked and not self._can(t))]

    def _hand(self, me, to):
        if to is me:
            return
        self.handovers += 1
        self.cur = to
        to.gate.release()
        if me.alive:
            me.gate.acquire()
            self._resumed(me)

    def _resumed(self, me):
        if me.boom is not None:
            e, me.boom = me.boom, None
            raise e

    def _select(self, me):
        """Pick a task that can run, moving the clock when all of them wait for a time."""
        while True:
            r = self.runnable()
            if r:
                return r[self.draw() % len(r)]
            ds = [t.deadline for t in self.tasks if t.alive and t.deadline is not None]
            if ds:
                d = min(ds)
                if d > self.clock.t:
                    self.clock.elapsed += d - self.clock.t
                    self.clock.t = d
                continue
            return None

    def block(self, cond, timeout=None):
        """Wait until cond(); False when the time ran out."""
        me = self.me()
        me.cond = cond
        me.deadline = None if timeout is None else self.clock.t + max(0.0, timeout)
        if me is not self.main:
            f = sys._getframe(1)
            me.parked = waits_for_work(f) and not in_work(f)
            self.pooled = self.pooled or me.parked
        try:
            to = self._select(me)
            if to is None:
                self._dead(me)
            else:
                self._hand(me, to)
            return bool(cond())
        finally:
            me.cond = None
            me.deadline = None
            me.parked = False

    def _dead(self, me):
        e = Deadlock('; '.join('%s waits' % t.name for t in self.tasks if t.alive))
        if me is self.main:
            raise e
        self.main.boom = e
        self._hand(me, self.main)

    def point(self, frame):
        self.count += 1
        if self.count > LIMIT:
            raise NoProgress('%d lines executed' % self.count)
        if self.line_hook is not None:
            self.line_hook(frame)
        self.left -= 1
        if self.left <= 0:
            me = self.me()
            to = self._select(me)
            if to is not None and to is not me:
                k = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                self.where[k] = self.where.get(k, 0) + 1
                self._hand(me, to)

    # -- tracing ----------------------------------------------------------------------------------
    def _local(self, frame, event, arg):
        if event == 'line':
            self.point(frame)
        return self._local

    def tracer(self, frame, event, arg):
        if event == 'call':
            co = frame.f_code
            r = self._cache.get(co)
            if r is None:
                r = self._cache[co] = in_repo(os.path.realpath(co.co_filename))
            if r:
                return self._local
        return None

    # -- threads ----------------------------------------------------------------------------------
    def spawn(self, fn, name, owner):
        t = self._task(name)
        p = self.me()
        t.event = p.event if p is not self.main and p is not None else self.event
        t.owner = owner
        self.started += 1
        _thread.start_new_thread(self._body, (t, fn))
        return t

    def _body(self, t, fn):
        t.gate.acquire()
        self.ident[_thread.get_ident()] = t
        try:
            self._resumed(t)
            sys.settrace(self.tracer)
            try:
                fn()
            finally:
                sys.settrace(None)
        except SystemExit:
            pass
        except BaseException as e:  # noqa
            if isinstance(e, (Hang, NoProgress)):
                self.main.boom = e
            self.uncaught.append((t, e))
        sys.settrace(None)
        t.alive = False
        self.ident.pop(_thread.get_ident(), None)
        if self.main.boom is not None:
            to = self.main
        else:
            to = self._select(t)
            if to is None:
                self.main.boom = Deadlock('; '.join('%s waits' % x.name for x in self.tasks if x.alive))
                to = self.main
        self.cur = to
        self.handovers += 1
        to.gate.release()

    def sleep(self, s):
        if self.me() is None:
            return
        self.block(lambda: False, max(0.0, s))

    def __enter__(self):
        global WORLD
        WORLD = self
        self._sleep = time.sleep
        time.sleep = self.sleep
        sys.settrace(self.tracer)
        return self

    def __exit__(self, *a):
        global WORLD
        sys.settrace(None)
        time.sleep = self._sleep
        WORLD = None
        return False


# ------------------------------------------------------------------------------------------------
# stand-ins for what threading offers

def inside():
    """The World, when the calling thread belongs to it."""
    w = WORLD
    return w if w is not None and w.me() is not None else None


class SimLock:
    """A lock of the World; a genuine one for threads outside it."""

    def __init__(self):
        self._held = False
        self._lock = _alloc()

    def acquire(self, blocking=True, timeout=-1):
        w = inside()
        if w is None:
            return self._lock.acquire(blocking, timeout)
        if self.locked():
            if not blocking:
                return False
            if not w.block(lambda: not self.locked(), None if timeout is None or timeout < 0 else timeout):
                return False
        self._held = True
        return True

    def release(self):
        if self._held:
            self._held = False
        else:
            self._lock.release()

    def locked(self):
        return self._held or self._lock.locked()

    def _at_fork_reinit(self):
        self._held = False
        self._lock = _alloc()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._n += 1
            return True
        if not self._block.acquire(blocking, timeout):
            return False
        self._owner, self._n = me, 1
        return True

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._n -= 1
        if not self._n:
            self._owner = None
            self._block.release()

    def _release_save(self):
        s = (self._n, self._owner)
        self._n, self._owner = 0, None
        self._block.release()
        return s

    def _acquire_restore(self, s):
        self._block.acquire()
        self._n, self._owner = s

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _recursion_count(self):
        return self._n if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner, self._n = None, 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class _SimThread:
    """threading.Thread inside a World."""
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        _SimThread._n += 1
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self._name = str(name or 'Thread-%d' % _SimThread._n)
        self._daemonic = bool(daemon)
        self._task = None
        self._real = None

    def start(self):
        if self._task is not None or self._real is not None:
            raise RuntimeError('threads can only be started once')
        w = WORLD
        if w is None or w.me() is None:
            self._real = _RealThread(target=self.run, daemon=True)
            self._real.start()
            return
        self._task = w.spawn(self.run, self._name, self)

    def run(self):
        try:
            if self._target is not None:
                self._target(*self._args, **self._kwargs)
        finally:
            self._target = self._args = self._kwargs = None

    def join(self, timeout=None):
        if self._real is not None:
            return self._real.join(timeout)
        if self._task is None:
            raise RuntimeError('cannot join thread before it is started')
        if not self._task.alive:
            return
        w = WORLD
        if w is not None and w.me() is not None:
            w.block(lambda: not self._task.alive, timeout)

    def is_alive(self):
        return self._task is not None and self._task.alive or self._real is not None and self._real.is_alive()

    name = property(lambda s: s._name, lambda s, v: setattr(s, '_name', str(v)))
    daemon = property(lambda s: s._daemonic, lambda s, v: setattr(s, '_daemonic', bool(v)))
    ident = property(lambda s: s._task.id + 1000 if s._task else None)
    native_id = ident

    def getName(self):
        return self._name

    def setName(self, n):
        self._name = n

    def isDaemon(self):
        return self._daemonic

    def setDaemon(self, d):
        self._daemonic = bool(d)

    def __repr__(self):
        return '<Thread(%s)>' % self._name


class _Timer(_SimThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.interval, self.function, self.args, self.kwargs = interval, function, args or [], kwargs or {}
        self.finished = threading.Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


def _current():
    w = WORLD
    t = w.me() if w is not None else None
    if getattr(t, 'owner', None) is not None:
        return t.owner
    return _real_current()


def _now():
    return time.monotonic()


def install():
    """Permanent for this process; call before importing the code under test."""
    if threading.Thread is _SimThread:
        return
    import concurrent.futures  # noqa
    import concurrent.futures.thread as cft
    import logging  # noqa
    import multiprocessing  # noqa
    threading.Thread = _SimThread
    threading.Timer = _Timer
    threading.Lock = threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._time = _now
    threading.current_thread = threading.currentThread = _current
    queue.SimpleQueue = queue._PySimpleQueue
    queue._time = queue.time = _now
    cft._global_shutdown_lock = SimLock()
