"""P08: calls do not modify the caller's model object or arguments."""
from .. import hist, oracle, programs
from ..core import isolated
from . import p07

RUNS = {'quick': 2500, 'thorough': 50000}
RULE = ('a seeded API program of 18 kinds over objects of the caller (model protos, input arrays, weights, configurations, exclusion lists, '
        'name lists, pattern descriptions, size descriptions), each call returning, failing, interrupted at a seeded executed line, refused '
        'an allocation or hit by a storage fault; after every call all objects handed over so far are compared with their content before '
        'it; then the program is run again with the very same objects and must give what it gives with fresh objects in a fresh process; '
        'non-trivial: a call received an object')
STATES = '(kind, call, outcome, number of owned objects) tuples'
REAL = 'the whole onnx_tool package'
STUB = 'clock, file device, standard output, warnings'
ASSUME = ['what the caller asked to be changed (the model wrapper, graphs and patterns returned by the tool) may change']


def gen(rng, tier, idx):
    kinds = dict(programs.KINDS, build=1.5, pattern=2, llm=.8)
    p = programs.gen(rng, kinds)
    # objects in memory, rather than files, are what this is about
    p['path'] = False
    faults = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        f = {'n': rng.choice([0, 0, 1, 2, 3, 4])}
        r = rng.random()
        if r < .6:
            f['at'] = hist.log_at(rng, 4)
            f['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
        elif r < .8:
            f['alloc'] = rng.randrange(10)
        else:
            f['disk'] = [rng.choice([{'op': 'open', 'nth': 0, 'err': 'EACCES'}, {'op': 'write', 'nth': 0, 'err': 'ENOSPC', 'part': 10}])]
        faults.append(f)
    p['faults'] = faults
    p['readonly'] = rng.random() < .25
    return p


def freeze(v):
    """Arrays of the caller that must not even be written to and restored."""
    import numpy as np
    if isinstance(v, np.ndarray):
        v.flags.writeable = False
    elif isinstance(v, dict):
        for x in v.values():
            freeze(x)


def run(plan, ctx):
    sb = ctx.sb
    want = isolated(programs.alone, sb, plan, 'd')
    given = {}
    for round_ in range(2):
        programs.wipe(sb, 'd')
        sb.take_out()
        sb.take_warnings()
        pr = programs.Prog(plan, sb, 'd', given)
        ctx.log(plan['kind'], plan['a'], pr.sig())
        it = pr.todo()
        n = 0
        while True:
            try:
                label, fn = next(it)
            except StopIteration:
                break
            before = pr.owned()
            f = next((f for f in plan['faults'] if f['n'] == n), {}) if round_ == 0 else {}
            r, fired = hist.call(ctx, fn, f.get('at'), f.get('exc'), f.get('alloc'), f.get('disk'))
            after = pr.owned()
            ctx.log(round_, label, hist.exc_name(r), fired)
            what = plan['kind'] + ' ' + label
            for k, v in before.items():
                ctx.check(after[k] == v, 'argument_modified', lambda: '%s (%s %r) changed %r: %s' % (
                    what, hist.exc_name(r), fired, k, oracle.diff(v, after[k])), what + ' ' + k.rstrip('0123456789'))
            fresh = {k: v for k, v in after.items() if k not in before}
            if fresh:
                # handed over for the first time by this call: compare with what the caller made
                twin = given_content(ctx, plan, pr, fresh)
                for k, v in fresh.items():
                    ctx.check(k not in twin or twin[k] == v, 'argument_modified', lambda: '%s (%s %r) changed %r: %s' % (
                        what, hist.exc_name(r), fired, k, oracle.diff(twin[k], v)), what + ' ' + k.rstrip('0123456789'))
            ctx.state(plan['kind'], label, hist.exc_name(r), len(after))
            ctx.nontrivial = ctx.nontrivial or bool(after)
            ctx.probe('objects_watched', len(after))
            if plan['readonly']:
                for v in pr.own.values():
                    freeze(v)
            if round_ == 1 and label != 'register':
                w = want[n] if n < len(want) else ('none', 'none', None)
                got = (label, hist.exc_name(r) if r[0] == 'ok' else programs.err(r[1]), pr.look(r[1] if r[0] == 'ok' else None))
                ctx.check(got == tuple(w), 'reuse_gives_other_result', lambda: '%s with objects used before: %s' % (
                    what, oracle.diff(list(got), list(w))), what)
            else:
                sb.take_out()
                sb.take_warnings()
            n += 1
            if r[0] == 'exc' and label == 'load':
                break
        given = dict(pr.own)


def given_content(ctx, plan, pr, names):
    return {k: v for k, v in pr.made.items() if k in names}
