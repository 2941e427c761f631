"""Process-wide seams: stdout, warnings, clock, scratch directory, line tracing, allocation faults."""
import io
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import warnings

from .core import REPO, in_repo
from . import core, simdisk

_real_time = {n: getattr(time, n) for n in ('time', 'perf_counter', 'monotonic', 'time_ns', 'sleep', 'process_time')}

ONNX_TOOL_MODULES = ['onnx_tool', 'onnx_tool.fusion', 'onnx_tool.graph', 'onnx_tool.model', 'onnx_tool.node',
                     'onnx_tool.quantization', 'onnx_tool.serialization', 'onnx_tool.tensor', 'onnx_tool.utils',
                     'onnx_tool.llm', 'onnx_tool.device', 'onnx_tool.model_configs']


def preload():
    """Import everything a run may need, so that forks are cheap and imports never fall into a schedule."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import importlib
    import numpy  # noqa
    import onnx  # noqa
    import onnx.reference  # noqa
    import onnx.numpy_helper  # noqa
    for m in ONNX_TOOL_MODULES:
        mod = importlib.import_module(m)
        p = os.path.realpath(mod.__file__)
        if not in_repo(p):
            raise RuntimeError('imported %s from %s, not from %s' % (m, p, REPO))
    from . import models, oracle  # noqa


class ThreadOut(io.TextIOBase):
    """sys.stdout that keeps one buffer per simulated thread."""

    def __init__(self):
        self.bufs = {}

    def _buf(self):
        i = threading.get_ident()
        b = self.bufs.get(i)
        if b is None:
            b = self.bufs[i] = io.StringIO()
        return b

    def write(self, s):
        return self._buf().write(s)

    def writable(self):
        return True

    def flush(self):
        pass

    def take(self):
        b = self._buf()
        s = b.getvalue()
        b.seek(0)
        b.truncate()
        return s


class SimClock:
    """A clock that ticks once per reading and jumps or stalls where the plan says so."""

    def __init__(self):
        self.t = 1.7e9
        self.n = 0
        self.jumps = []
        self.stall = False
        self.fired = []
        self.elapsed = 0.0

    def arm(self, spec):
        """spec: {"jumps": [[nth_reading, seconds], ...], "stall": bool}"""
        self.n = 0
        self.fired = []
        self.jumps = [tuple(j) for j in (spec or {}).get('jumps', [])]
        self.stall = bool((spec or {}).get('stall'))

    def read(self):
        self.n += 1
        for n, d in self.jumps:
            if n == self.n:
                self.t += d
                self.elapsed += abs(d)
                self.fired.append('clock_jump_back' if d < 0 else 'clock_jump_forward')
        if self.stall:
            if self.n == 1:
                self.fired.append('clock_stall')
        else:
            self.t += 0.001
            self.elapsed += 0.001
        return self.t

    def read_ns(self):
        return int(self.read() * 1e9)

    def sleep(self, s):
        self.t += s
        self.elapsed += s

    def install(self):
        time.time = self.read
        time.perf_counter = self.read
        time.monotonic = self.read
        time.process_time = self.read
        time.time_ns = self.read_ns
        time.sleep = self.sleep

    def uninstall(self):
        for n, f in _real_time.items():
            setattr(time, n, f)


class Injector:
    """Raise an exception at the n-th executed line of repository code, or count lines."""

    def __init__(self):
        self.count = 0
        self.at = None
        self.exc = None
        self.fired = False
        self.where = None
        self.only = None
        self._cache = {}

    def _is_repo(self, co):
        r = self._cache.get(co)
        if r is None:
            fn = co.co_filename
            r = in_repo(os.path.realpath(fn))
            self._cache[co] = r
        return r

    def _global(self, frame, event, arg):
        if event == 'call' and self._is_repo(frame.f_code):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line' and not self.fired:
            self.count += 1
            if self.at is not None and self.count > self.at:
                self.fired = True
                self.where = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise self.exc
        return self._local

    def run(self, fn, at=None, exc=None):
        """Returns (kind, value): ('ok', v) or ('exc', e)."""
        self.count = 0
        self.at = at
        self.exc = exc
        self.fired = False
        self.where = None
        old = sys.gettrace()
        sys.settrace(self._global)
        try:
            v = fn()
            return ('ok', v)
        except BaseException as e:  # noqa
            from .core import Hang
            if isinstance(e, Hang):
                raise
            return ('exc', e)
        finally:
            sys.settrace(old)


class _Wrapped:
    def __init__(self, g, f):
        self.__dict__['_g'] = g
        self.__dict__['_f'] = f

    def __call__(self, *a, **k):
        return self._g(*a, **k)

    def __getattr__(self, n):
        return getattr(self._f, n)


class AllocFault:
    """Refuse the n-th numpy allocation requested directly by repository code."""
    NAMES = ('zeros', 'ones', 'empty', 'zeros_like', 'ones_like', 'empty_like', 'array', 'frombuffer', 'fromiter',
             'full', 'concatenate', 'take', 'clip', 'matmul', 'minimum', 'maximum', 'arange', 'transpose')

    def __init__(self):
        import numpy
        self.np = numpy
        self.real = {}
        self.n = 0
        self.at = None
        self.fired = False

    def install(self, at, only=None):
        self.n = 0
        self.at = at
        self.fired = False
        for name in self.NAMES:
            f = getattr(self.np, name)
            self.real[name] = f
            setattr(self.np, name, self._wrap(name, f))

    def _wrap(self, name, f):
        def g(*a, **k):
            fr = sys._getframe(2)
            if in_repo(os.path.realpath(fr.f_code.co_filename)):
                i = self.n
                self.n += 1
                if self.at is not None and i == self.at:
                    self.fired = True
                    raise MemoryError('simulated: cannot allocate (%s)' % name)
            return f(*a, **k)
        return _Wrapped(g, f)

    def uninstall(self):
        for name, f in self.real.items():
            setattr(self.np, name, f)
        self.real = {}


class Sandbox:
    """Everything a run may touch; entered once per (forked) run."""

    def __enter__(self):
        import numpy
        base = os.environ.get('VERIF_SCRATCH')
        self.dir = tempfile.mkdtemp(prefix='run', dir=base)
        self.root = os.path.join(self.dir, 'd')
        os.mkdir(self.root)
        self.oldcwd = os.getcwd()
        os.chdir(self.root)
        random.seed(0)
        numpy.random.seed(0)
        # process numbers and the system's random source are part of the simulation
        self._sys = os.getpid, os.urandom, random._urandom, tempfile._name_sequence
        rng = random.Random(1)
        os.getpid = lambda: core.PIDS[0]
        os.urandom = random._urandom = lambda n: rng.randbytes(n)
        tempfile._name_sequence = iter('%08x' % k for k in iter(lambda: rng.getrandbits(32), -1))
        self.disk = simdisk.SimDisk(self.root)
        self.disk.install()
        self.clock = SimClock()
        self.clock.install()
        self.out = ThreadOut()
        self.err = ThreadOut()
        self._so, self._se = sys.stdout, sys.stderr
        sys.stdout = self.out
        sys.stderr = self.err
        warnings.resetwarnings()
        warnings.simplefilter('always')
        self.warned = []
        self._sw = warnings.showwarning

        def show(message, category, filename, lineno, file=None, line=None):
            self.warned.append((threading.get_ident(), category.__name__, str(message)))
        warnings.showwarning = show
        numpy.seterr(all='ignore')
        self._hook = sys.unraisablehook
        self.unraisable = []
        sys.unraisablehook = lambda u: self.unraisable.append(type(u.exc_value).__name__)
        return self

    def take_warnings(self):
        me = threading.get_ident()
        w = [(c, m) for t, c, m in self.warned if t == me]
        self.warned = [x for x in self.warned if x[0] != me]
        return w

    def take_out(self):
        return self.out.take()

    def __exit__(self, *a):
        sys.settrace(None)
        os.getpid, os.urandom, random._urandom, tempfile._name_sequence = self._sys
        self.disk.uninstall()
        self.clock.uninstall()
        sys.stdout, sys.stderr = self._so, self._se
        warnings.showwarning = self._sw
        sys.unraisablehook = self._hook
        os.chdir(self.oldcwd)
        shutil.rmtree(self.dir, ignore_errors=True)
        return False
