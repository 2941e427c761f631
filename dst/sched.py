"""Cooperative scheduler for real threads: exactly one runs at a time; control moves only at executed lines of repository code, to the
thread the plan names, and where a thread has to wait for a lock of the threading module (when simthreads.install() was called)."""
import _thread
import os
import sys
import time

from . import simthreads
from .core import Hang, in_repo


class Deadlock(Exception):
    pass


class Scheduler:
    main = None
    pooled = False

    def __init__(self, n, switches, tail=400, clock=None):
        """switches: [(lines until the switch, which)], repeated round-robin every `tail` lines when exhausted."""
        self.n = n
        self.switches = list(switches)
        self.pos = 0
        self.tail = tail
        self.left = self.switches[0][0] if self.switches else tail
        self.cur = None
        self.gates = []
        self.live = []
        self.result = []
        self.error = []
        self.hit = []               # [lines left, exception] per thread
        self.fired = []
        self.conds = {}             # what a waiting thread waits for
        self.deadlines = {}
        self.ident = {}
        self.clock = clock
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.count = 0
        self.handovers = 0
        self.waits = 0
        self.where = {}
        self._cache = {}
        self.trace = []
        self.folder = None
        self.leaks = []             # where control changed hands while the current folder was not that of the start
        for _ in range(n):
            self._new()

    def _new(self):
        g = _thread.allocate_lock()
        g.acquire()
        self.gates.append(g)
        self.live.append(len(self.gates) - 1)
        for l, v in ((self.result, None), (self.error, None), (self.hit, None), (self.fired, False)):
            l.append(v)
        return len(self.gates) - 1

    @staticmethod
    def _folder():
        """The current folder belongs to the process: every other thread's relative names depend on it."""
        try:
            return os.getcwd()
        except OSError:
            return None

    def touched(self):
        """State of the process was changed: the next line already belongs to another thread."""
        self.left = 1

    def _is_repo(self, co):
        r = self._cache.get(co)
        if r is None:
            r = self._cache[co] = in_repo(os.path.realpath(co.co_filename))
        return r

    def _next(self):
        """Advance the schedule; -> index into live."""
        self.pos += 1
        if self.pos < len(self.switches):
            self.left, which = self.switches[self.pos]
        else:
            self.left, which = self.tail, self.pos
        return which

    def _can(self, t):
        c = self.conds.get(t)
        if c is None:
            return True
        d = self.deadlines.get(t)
        return bool(d is not None and self._now() >= d or c())

    def _now(self):
        return self.clock.t if self.clock is not None else 0

    def _able(self):
        return [t for t in self.live if self._can(t)]

    def tracer(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self.count += 1
                h = self.hit[me]
                if h is not None:
                    h[0] -= 1
                    if h[0] < 0:
                        self.hit[me] = None
                        self.fired[me] = True
                        raise h[1]
                self.left -= 1
                if self.left <= 0:
                    which = self._next()
                    live = self._able() if self.conds else self.live
                    if len(live) > 1:
                        to = live[which % len(live)]
                        if to != me:
                            self.handovers += 1
                            k = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                            self.where[k] = self.where.get(k, 0) + 1
                            if len(self.trace) < 5000:
                                self.trace.append((me, to, self.count))
                            if len(self.leaks) < 5 and self._folder() != self.folder:
                                self.leaks.append((me,) + k)
                            self.switch(me, to)
            return local

        def glob(frame, event, arg):
            if event == 'call' and self._is_repo(frame.f_code):
                return local
            return None
        return glob

    def switch(self, me, to):
        self.cur = to
        self.gates[to].release()
        self.gates[me].acquire()

    # -- what the stand-ins of simthreads ask of a World ---------------------------------------------
    def me(self):
        return self.ident.get(_thread.get_ident())

    def block(self, cond, timeout=None):
        me = self.me()
        self.waits += 1
        self.conds[me] = cond
        if timeout is not None:
            self.deadlines[me] = self._now() + max(0.0, timeout)
        try:
            to = self._choose()
            if to is None:
                self._end()
                self.gates[me].acquire()
            elif to != me:
                self.switch(me, to)
            return bool(cond())
        finally:
            self.conds.pop(me, None)
            self.deadlines.pop(me, None)

    def _choose(self):
        while True:
            able = self._able()
            if able:
                return able[self._next() % len(able)]
            ds = [self.deadlines[t] for t in self.live if t in self.deadlines]
            if not ds or self.clock is None:
                return None
            self.clock.elapsed += max(0, min(ds) - self.clock.t)
            self.clock.t = max(self.clock.t, min(ds))

    def _end(self):
        """Nobody can run: either only idle helpers are left or the threads wait for each other."""
        for t in self.live:
            if t < self.n:
                self.error[t] = Deadlock('thread %d waits for ever' % t)
        if self.done.locked():
            self.done.release()

    def sleep(self, s):
        if self.me() is not None:
            self.block(lambda: False, max(0.0, s))

    class _Helper:
        def __init__(self, s, i):
            self.s, self.i = s, i

        @property
        def alive(self):
            return self.i in self.s.live

    def spawn(self, fn, name, owner):
        i = self._new()
        _thread.start_new_thread(self.body, (i, fn))
        return self._Helper(self, i)

    def body(self, me, fn):
        self.gates[me].acquire()
        self.ident[_thread.get_ident()] = me
        try:
            sys.settrace(self.tracer(me))
            try:
                self.result[me] = fn()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa
            self.error[me] = e
        self.ident.pop(_thread.get_ident(), None)
        self.live.remove(me)
        to = None
        if self.live:
            to = self._able()[0] if self._able() else self._choose()
        if to is None:
            self._end()
        else:
            self.cur = to
            self.gates[to].release()

    def run(self, fns):
        for i, f in enumerate(fns):
            _thread.start_new_thread(self.body, (i, f))
        simthreads.WORLD = self
        real = time.sleep, os.chdir
        self.folder = self._folder()
        if self.clock is not None:
            time.sleep = self.sleep

        def chdir(path):
            real[1](path)
            self.touched()
        os.chdir = chdir
        try:
            self.cur = 0
            self.gates[0].release()
            self.done.acquire()
        finally:
            simthreads.WORLD = None
            time.sleep, os.chdir = real
        for e in self.error:
            if isinstance(e, Hang):
                raise e
