"""Core of the deterministic simulator: run context, forked runs, zygote protocol.

A *plan* is a JSON value.  gen(rng, tier) -> plan is the only place where random numbers are drawn;
run(plan, ctx) executes the plan against the real code and draws none.
"""
import hashlib
import json
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))

CPU_BUDGET = float(os.environ.get('VERIF_CPU_BUDGET', '60'))


class Violation(Exception):
    def __init__(self, cls, msg, key=''):
        super().__init__(msg)
        self.cls = cls
        self.msg = str(msg)
        self.key = str(key)


class Hang(BaseException):
    pass


class Discard(Exception):
    """The plan is not a valid experiment (only happens while minimising)."""


class Ctx:
    def __init__(self, hashseed='0'):
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.nlog = 0
        self.h = hashlib.sha256()
        self.steps = 0
        self.simtime = 0.0
        self.trace = []
        self.keep_trace = False
        self.nontrivial = False
        self.hashseed = hashseed

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def log(self, *ev):
        """Everything logged here must be a function of the plan alone."""
        s = repr(ev)
        self.nlog += 1
        self.h.update(s.encode('utf-8', 'backslashreplace'))
        self.h.update(b'\n')
        if self.keep_trace and len(self.trace) < 4000:
            self.trace.append(s[:600])

    def state(self, *sig):
        self.states.add(hashlib.sha256(repr(sig).encode('utf-8', 'backslashreplace')).hexdigest()[:16])

    def step(self, n=1):
        self.steps += n

    def violate(self, cls, msg, key=''):
        raise Violation(cls, msg, key)

    def check(self, cond, cls, msg, key=''):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg, key)

    def result(self):
        return {'faults': self.faults, 'probes': self.probes, 'states': sorted(self.states)[:64],
                'digest': self.h.hexdigest(), 'nlog': self.nlog, 'steps': self.steps,
                'simtime': self.simtime, 'nontrivial': self.nontrivial,
                'trace': self.trace if self.keep_trace else None}


def in_repo(filename):
    return filename.startswith(REPO + os.sep)


def repo_frames(tb):
    out = []
    for fs in traceback.extract_tb(tb):
        if in_repo(os.path.realpath(fs.filename)):
            out.append('%s:%s' % (os.path.basename(fs.filename), fs.name))
    return out


def exc_key(e):
    fr = repo_frames(e.__traceback__)
    return '%s@%s' % (type(e).__name__, fr[-1] if fr else '?')


def short(e, n=300):
    return ('%s: %s' % (type(e).__name__, e))[:n]


# ------------------------------------------------------------------------------------------------
# fork helpers

def _read_exact(fd, n, deadline=None):
    buf = b''
    while len(buf) < n:
        if deadline is not None:
            left = deadline - time.monotonic()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                return None
        b = os.read(fd, n - len(buf))
        if not b:
            return buf
        buf += b
    return buf


_cov = None


def cov_start():
    """Development aid (VERIF_COV=folder): which lines of the code under test do the scenarios reach?"""
    global _cov
    mon = sys.monitoring
    _cov = set()
    mon.use_tool_id(3, 'dst-cov')

    def line(code, n):
        if code.co_filename.startswith(REPO):
            _cov.add('%s:%d' % (code.co_filename[len(REPO) + 1:], n))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


_getpid = os.getpid


def cov_dump():
    if _cov:
        with open('%s/%d' % (os.environ['VERIF_COV'], _getpid()), 'w') as f:
            f.write('\n'.join(sorted(_cov)) + '\n')


def forked(fn, *args, timeout=None):
    """Run fn(*args) in a forked child of this process and return ('ok', value) or ('exc', repr, tb)
    or ('dead', status).  Perfect isolation: nothing the child does is seen by the parent."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                val = ('ok', fn(*args))
            except BaseException as e:  # noqa
                val = ('exc', '%s: %s' % (type(e).__name__, e), traceback.format_exc())
            try:
                data = pickle.dumps(val)
            except BaseException as e:  # noqa
                data = pickle.dumps(('exc', 'unpicklable result: %r' % e, ''))
            data = struct.pack('<Q', len(data)) + data
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
            if _cov is not None:
                cov_dump()
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    deadline = None if timeout is None else time.monotonic() + timeout
    try:
        hdr = _read_exact(r, 8, deadline)
        if hdr is not None and len(hdr) == 8:
            n = struct.unpack('<Q', hdr)[0]
            data = _read_exact(r, n, deadline)
            if data is not None and len(data) == n:
                os.waitpid(pid, 0)
                return pickle.loads(data)
        if hdr is None or deadline is not None and time.monotonic() >= deadline:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            return ('timeout',)
        _, st = os.waitpid(pid, 0)
        return ('dead', st)
    finally:
        os.close(r)


PIDS = [4001, 4001]     # number of this simulated process, last number given


def isolated(fn, *args):
    """Like forked but unwraps; used inside runs for fresh-process twins.  Hang and Violation pass through."""
    PIDS[1] += 1
    res = forked(_iso_body, fn, args)
    if res[0] == 'exc' and any(in_repo(os.path.realpath(l.split('"')[1])) for l in res[2].splitlines() if l.strip().startswith('File "')):
        raise Violation('unexpected_exception', 'in a fresh process: %s\n%s' % (res[1][:300], res[2][-3000:]), 'twin:' + res[1].split(':')[0])
    if res[0] != 'ok':
        raise RuntimeError('isolated twin failed: %r' % (res,))
    kind, val = res[1]
    if kind == 'ok':
        return val
    if kind == 'violation':
        raise Violation(*val)
    if kind == 'hang':
        raise Hang(val)
    raise RuntimeError('isolated twin: ' + val)


def _iso_body(fn, args):
    PIDS[0] = PIDS[1]
    try:
        return ('ok', fn(*args))
    except Violation as v:
        return ('violation', (v.cls, v.msg, v.key))
    except Hang as h:
        return ('hang', str(h))


# ------------------------------------------------------------------------------------------------
# one run

UNREADABLE = (LookupError, ValueError, ArithmeticError, struct.error)


def where(e):
    return traceback.extract_tb(e.__traceback__)[-1].name


def _on_prof(signum, frame):
    where = []
    f = frame
    while f is not None:
        if in_repo(os.path.realpath(f.f_code.co_filename)):
            where.append('%s:%s' % (os.path.basename(f.f_code.co_filename), f.f_code.co_name))
        f = f.f_back
    raise Hang('cpu budget %.0fs exceeded in %s' % (CPU_BUDGET, where[0] if where else '(harness)'))


def run_plan_here(scen, plan, keep_trace=False, hashseed='0'):
    """Execute one plan in this process (which must be a throw-away process)."""
    from . import env
    ctx = Ctx(hashseed)
    ctx.keep_trace = keep_trace
    out = {'violation': None, 'error': None, 'discard': False}
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CPU_BUDGET)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    t0 = time.monotonic()
    try:
        with env.Sandbox() as sb:
            ctx.sb = sb
            scen.run(plan, ctx)
    except Discard as d:
        out['discard'] = str(d) or True
    except Violation as v:
        out['violation'] = {'cls': v.cls, 'msg': v.msg[:4000], 'key': v.key}
    except Hang as hgt:
        if 'harness' in str(hgt):
            out['error'] = 'hang in harness: %s' % hgt
        else:
            out['violation'] = {'cls': 'hang', 'msg': str(hgt), 'key': str(hgt)[-60:]}
    except BaseException as e:  # noqa
        fr = repo_frames(e.__traceback__)
        tb = traceback.format_exc()
        if fr:
            out['violation'] = {'cls': 'unexpected_exception',
                                'msg': '%s raised from %s\n%s' % (short(e), fr[-1], tb[-3000:]),
                                'key': exc_key(e)}
        elif isinstance(e, UNREADABLE):
            # the oracle reads what the code produced as the property lays it down, and it was not like that
            out['violation'] = {'cls': 'uninterpretable', 'msg': tb[-3000:], 'key': '%s:%s' % (type(e).__name__, where(e))}
        else:
            out['error'] = tb[-4000:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if out['violation'] and hasattr(scen, 'excuse'):
        why = scen.excuse(out['violation']['msg'])
        if why:     # the run says nothing about the code under test
            out['discard'], out['violation'] = 'the substitute lacks ' + why, None
            out['gap'] = why
    out.update(ctx.result())
    out['wall'] = time.monotonic() - t0
    return out


def plan_for(scen, prop, seed, idx, tier):
    import random
    rng = random.Random('%s/%s/%s' % (seed, prop, idx))
    plan = scen.gen(rng, tier, idx)
    return json.loads(json.dumps(plan))


def load_scen(prop):
    import importlib
    return importlib.import_module('dst.scen.' + prop.lower())
