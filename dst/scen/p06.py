"""P06: models processed by concurrent callers do not influence each other."""
import os

from .. import simthreads
simthreads.install()
from .. import hist, oracle, programs  # noqa
from ..core import isolated  # noqa
from ..sched import Scheduler  # noqa

RECHECK_HASHSEED = '0'  # the history holds counts of executed lines, which depend on the order of sets
RUNS = {'quick': 900, 'thorough': 20000}
RULE = ('2-4 threads, each performing a seeded API program of 18 kinds on objects of its own, under a scheduler that lets one thread run '
        'at a time and moves control at executed source lines of the package: seeded switch points (bursts of 1-3 lines, log-uniform '
        'quanta up to 3000 lines, and a shared prefix where all threads run the same program), one thread possibly hit by an exception at a seeded line, clock jumps and '
        'stalls; every thread must see call by call what it sees when it runs alone in a fresh process; non-trivial: control changed '
        'hands at least twice')
STATES = 'source lines at which control changed hands'
REAL = 'the whole onnx_tool package, real Python threads'
STUB = 'scheduler (switches only at source lines of the package), clock, file device, standard output, warnings'
ASSUME = ['switches inside numpy, protobuf or a single source line are not explored', 'threads use folders of their own',
          'a thread that was made to fail is not compared, only the others']


def gen(rng, tier, idx):
    big = tier == 'thorough'
    n = rng.choice([2, 2, 2, 3, 3, 4])
    progs = []
    kinds = dict(programs.KINDS)
    kinds['custom'] = .5
    first = programs.gen(rng, kinds, size=(1, 4))
    for i in range(n):
        if i and rng.random() < .35:
            # another program of the same kind, so that the same code runs at the same time
            p = programs.gen(rng, {first['kind']: 1}, size=(1, 4))
        else:
            p = first if i == 0 else programs.gen(rng, kinds, size=(1, 4))
        if p['kind'] == 'custom':
            p['a'] = p['a'] // 3 * 3 + i % 3
        progs.append(p)
    sw = []
    style = rng.choice(['fine', 'mixed', 'mixed', 'coarse', 'few'])
    for _ in range(rng.randint(2, 6) if style == 'few' else rng.randint(10, 400 if big else 150)):
        if style == 'fine':
            q = rng.randint(1, 4)
        elif style == 'mixed':
            q = hist.log_at(rng, 3)
        elif style == 'few':
            q = hist.log_at(rng, 4.3)
        else:
            q = rng.randint(100, 3000)
        sw.append([q, rng.randrange(12)])
    if style == 'fine':
        # a burst of fine switches somewhere in the middle
        sw.insert(0, [hist.log_at(rng, 4), 0])
    plan = {'progs': progs, 'sw': sw, 'tail': rng.choice([3, 10, 50, 400, 3000])}
    if rng.random() < .25:
        plan['hit'] = [rng.randrange(n), hist.log_at(rng, 4.3), rng.choice(['KeyboardInterrupt', 'MemoryError'])]
    if rng.random() < .3:
        plan['clock'] = {'jumps': [[rng.randint(1, 6), rng.choice([-1e6, 1e6, -1, 3600])] for _ in range(rng.randint(1, 3))],
                         'stall': rng.random() < .3}
    return plan


def run(plan, ctx):
    sb = ctx.sb
    P = plan['progs']
    dirs = ['d%d' % i for i in range(len(P))]
    want = []
    for p, d in zip(P, dirs):
        w = isolated(programs.alone, sb, p, d)
        want.append(w)
    progs = []
    for p, d in zip(P, dirs):
        programs.wipe(sb, d)
        progs.append(programs.Prog(p, sb, d))
    s = Scheduler(len(P), plan['sw'], plan['tail'], sb.clock)
    if plan.get('hit') and plan['hit'][0] < len(P):
        s.hit[plan['hit'][0]] = [plan['hit'][1], hist.mk_exc(plan['hit'][2])]
    if plan.get('clock'):
        sb.clock.arm(plan['clock'])
    s.run([lambda q=q: programs.perform(q) for q in progs])
    for f in set(sb.clock.fired):
        ctx.fault(f, sb.clock.fired.count(f))
    ctx.step(s.count)
    ctx.log(s.count, s.handovers, s.trace[:200])
    ctx.fault('preemption', s.handovers)
    for k in s.where:
        ctx.state(*k)
    ctx.check(not s.leaks, 'depends_on_other_threads', lambda: 'threads %r: another thread goes on while the current folder of the process '
              'is not what it was: %r' % ([q['kind'] for q in P], s.leaks), 'current folder')
    for i, p in enumerate(P):
        if s.fired[i]:
            ctx.fault('thread_interrupted')
            continue
        if s.error[i] is not None:
            raise s.error[i]
        got = s.result[i]
        w = want[i]
        ctx.log(i, p['kind'], [(g[0], g[1]) for g in got])
        ctx.check([g[:2] for g in got] == [x[:2] for x in w], 'depends_on_other_threads', lambda: 'thread %d (%s): %r alone %r' % (
            i, p['kind'], [g[:2] for g in got], [x[:2] for x in w]), p['kind'])
        for g, x in zip(got, w):
            ctx.check(g == x, 'depends_on_other_threads', lambda: 'thread %d (%s) of %r, call %s: %s' % (
                i, p['kind'], [q['kind'] for q in P], g[0], oracle.diff(list(g), list(x))), '%s %s' % (p['kind'], g[0]))
            ctx.probe('calls_compared')
    ctx.nontrivial = s.handovers >= 2
