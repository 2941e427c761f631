"""P07: earlier calls leave no trace in later ones."""
import os

from .. import hist, oracle, programs
from ..core import isolated

RUNS = {'quick': 2500, 'thorough': 50000}
RULE = ('a seeded history of 1-4 API programs of 18 kinds (module functions with all options, model wrappers with inferences, edits, '
        'fusions, quantisation, shape engines, language-model builders, operator registrations) whose calls fail, are interrupted at a '
        'seeded executed line, are refused allocations or meet storage faults; then a seeded probe program, which must give, call by '
        'call, the results, exceptions, warnings, output, files and graph states that it gives in a fresh process; non-trivial: the '
        'history executed a call')
STATES = '(kinds of the history with outcomes, kind of the probe) tuples'
REAL = 'the whole onnx_tool package'
STUB = 'clock, file device, standard output, warnings'
ASSUME = ['an operator registration affects later models that contain that operator: that is what it is for']


def gen(rng, tier, idx):
    big = tier == 'thorough'
    probe = programs.gen(rng)
    kinds = dict(programs.KINDS)
    kinds[probe['kind']] = kinds[probe['kind']] * 4
    h = []
    for _ in range(rng.randint(1, 5 if big else 4)):
        p = programs.gen(rng, kinds)
        for _ in range(rng.randint(0, 2)):
            f = {'n': rng.randrange(4)}
            r = rng.random()
            if r < .5:
                f['at'] = hist.log_at(rng, 4)
                f['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'SystemExit'])
            elif r < .7:
                f['alloc'] = rng.randrange(10)
            elif r < .9:
                f['disk'] = [rng.choice([{'op': 'open', 'nth': 0, 'err': 'EACCES'}, {'op': 'write', 'nth': 0, 'err': 'ENOSPC', 'part': 10},
                                         {'op': 'close', 'nth': 0, 'err': 'EIO'}, {'op': 'openr', 'nth': 0, 'err': 'EIO'},
                                         {'op': 'mkdir', 'nth': 0, 'err': 'EACCES'}])]
            else:
                f['clock'] = {'jumps': [[rng.randint(1, 4), rng.choice([-1e6, 1e6])]], 'stall': False}
            p.setdefault('faults', []).append(f)
        h.append(p)
    if rng.random() < .25:
        # the same program before, possibly failing
        import copy
        q = copy.deepcopy(probe)
        q['faults'] = [{'n': rng.randrange(3), 'at': hist.log_at(rng, 4), 'exc': 'KeyboardInterrupt'}]
        h[-1] = q
    return {'hist': h, 'probe': probe}


def execute(ctx, plan, prog, stop=True):
    """Run with the failures of the plan.  -> [(label, outcome)]"""
    out = []
    n = 0
    it = prog.todo()
    while True:
        try:
            label, fn = next(it)
        except StopIteration:
            break
        f = next((f for f in plan.get('faults', []) if f['n'] == n), {})
        n += 1
        r, fired = hist.call(ctx, fn, f.get('at'), f.get('exc'), f.get('alloc'), f.get('disk'), f.get('clock'))
        out.append((label, hist.exc_name(r)))
        ctx.log(plan['kind'], label, hist.exc_name(r), fired)
        if r[0] == 'exc' and label == 'load':
            break
    return out


def run(plan, ctx):
    sb = ctx.sb
    want = isolated(programs.alone, sb, plan['probe'], 'd')
    did = []
    for h in plan['hist']:
        programs.wipe(sb, 'd')
        p = programs.Prog(h, sb, 'd')
        ctx.log(p.sig())
        try:
            did.append((h['kind'], tuple(execute(ctx, h, p))))
        finally:
            sb.disk.disarm()
        ctx.nontrivial = ctx.nontrivial or bool(did[-1][1])
    programs.wipe(sb, 'd')
    got = programs.alone(sb, plan['probe'], 'd')
    ctx.step(len(got))
    ctx.check(len(got) == len(want), 'trace_of_earlier_calls', lambda: 'calls %r, fresh %r' % ([g[:2] for g in got], [w[:2] for w in want]),
              plan['probe']['kind'])
    for g, w in zip(got, want):
        ctx.check(g == w, 'trace_of_earlier_calls', lambda: 'probe %s call %s after %r: now vs fresh: %s' % (
            plan['probe']['kind'], g[0], did, oracle.diff(list(g), list(w))), '%s %s' % (plan['probe']['kind'], g[0]))
        ctx.probe('probe_calls')
        ctx.probe('probe_%s_%s' % (plan['probe']['kind'], 'ok' if g[1] == 'ok' else 'exc'))
    for k, o in did:
        ctx.state(k, o, plan['probe']['kind'])
