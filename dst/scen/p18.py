"""P18: the inference runtime answers rightly after any history of requests and failures."""
import hashlib
import os
import sys

import numpy as np

from .. import simthreads
simthreads.install()
from .. import core, edits, env, hist, models, oracle, sched, torchshim  # noqa
from ..core import REPO, isolated, short  # noqa
from . import p17  # noqa

torchshim.install()
if os.path.join(REPO, 'inference') not in sys.path:
    sys.path.insert(1, os.path.join(REPO, 'inference'))
env.preload()
import infer  # noqa
import kernels  # noqa
import memory_pool  # noqa

RUNS = {'quick': 800, 'thorough': 20000}
RULE = ('a seeded random model whose sizes depend on 1-3 variables (and in some runs a second one with the same names and other '
        'weights or attributes), loaded by one to three runtimes (different element types or declared '
        'ranges) through the simulated disk, their construction interrupted or refused memory in some runs; a seeded history of 4-16 '
        'requests at varied sizes, values, layouts and flags, among them requests with the tensors of an earlier one (rewritten or not) and requests with missing, misshapen, conflicting or oversized '
        'inputs, and requests during which an operator kernel dies half-way through its write, an allocation is refused, any '
        'executed line raises, or the clock jumps, and pairs of requests to two runtimes, or a request during the construction of another '
        'runtime, by two threads that take turns at seeded source lines; every completed request is compared with the reference evaluation of the model, '
        'every failing one must raise, weights are compared with those of a new runtime after every request; non-trivial: two '
        'different sizes were answered or a fault fired')
STATES = '(request kind, outcome, size changed or not, outcome before, flags) tuples'
REAL = 'inference/infer.py, inference/kernels.py, inference/memory_pool.py, onnx_tool model, shape engine and memory planner'
STUB = 'scheduler, torch (array semantics over numpy: strided views, in-place writes, refused allocations, half-done writes), file device, clock, output'
ASSUME = ['torch is not installed here: a substitute implements the functions the runtime calls by their documentation; elements of '
          'uninitialised memory hold a poison pattern',
          'outputs are views into the pool of the runtime: they are read before the next request',
          'elements on which the reference evaluation itself is unstable under a relative input change of 1e-6 to 3e-5 are not compared',
          'models whose sizes the shape engine can express, operators the runtime has kernels for (others must raise every time)']
LEVEL_NOTE = ('GraphInfer outputs are views into the memory pool; requests in one runtime are sequential (several runtimes interleave, also by threads); '
              'sizes outside the declared range may be answered or refused')
BAD = ['missing', 'rank', 'fixed', 'conflict', 'huge']
NOTYPE = {'Not', 'Abs', 'Exp', 'Softplus', 'Ceil', 'Floor', 'Sin', 'Cos', 'Elu', 'HardSigmoid', 'Max', 'Min', 'Sum', 'ConvTranspose',
          'InstanceNormalization', 'PRelu', 'LRN', 'ReduceMin', 'ArgMax', 'Dropout', 'CumSum', 'Trilu', 'LSTM', 'Einsum'}
NOKERNEL = ['abs', 'exp', 'floor', 'cos', 'elu', 'max', 'sum', 'instnorm', 'prelu', 'argmax', 'cumsum', 'trilu', 'convtranspose']


excuse = torchshim.excuse


def gen(rng, tier, idx):
    big = tier == 'thorough'
    while True:
        plan = p17.gen(rng, tier, idx)
        rec = plan['rec']
        if rec['family'] in models.FAMILIES:
            break
    fam = rec['family']
    vars_ = models.VARS[fam]
    sub = models.gen_recipe(rng, need='SAI', nlayers=(1, 11 if big else 7), fixed=False, family=fam)
    rec = dict(sub, sizes=rec['sizes'])
    if rng.random() < .06:
        have = [n for n in NOKERNEL if n in models.OPS]
        rec['layers'].insert(rng.randrange(len(rec['layers']) + 1),
                             {'op': rng.choice(have), 'in': [0, 0, 0], 'p': rng.randrange(720), 'share': False})
    K = len(rec['sizes'])
    ranges = plan['ranges']
    cfgs = [{'dt': 'float64' if rng.random() < .15 else 'float32', 'grow': 0}]
    rec2 = None
    crowd = rng.random() < .3  # mostly requests by two threads
    if crowd or rng.random() < .3:
        cfgs.append({'dt': cfgs[0]['dt'] if rng.random() < .7 else rng.choice(['float32', 'float64']), 'grow': 0 if crowd else rng.choice([0, 1])})
    if rng.random() < .25:
        # another model with the same names everywhere
        rec2 = dict(rec, wseed=rng.randrange(1000), layers=[dict(L, p=rng.randrange(720)) if rng.random() < .3 else dict(L) for L in rec['layers']])
        cfgs.append({'dt': rng.choice(['float32', 'float32', 'float64']), 'grow': rng.choice([0, 0, 1]), 'm': 1})
    for c in cfgs:
        c['load'] = {}
        r = rng.random()
        if r < .08:
            c['load'] = {'at': hist.log_at(rng, 4.3), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])}
        elif r < .12:
            c['load'] = {'alloc': rng.randint(0, 40)}
        elif r < .16:
            c['load'] = {'fault': ['alloc', rng.randint(0, 8)]}
        elif r < .2:
            c['load'] = {'disk': [rng.choice([{'op': 'openr', 'nth': 0, 'err': 'EIO'}, {'op': 'read', 'nth': rng.randint(0, 2), 'err': 'EIO'},
                                             {'op': 'shortread', 'sizes': [rng.choice([1, 7, 100, 4000])]}])]}
    ops = []
    n = rng.randint(4, 16 if big else 11)
    k = rng.randrange(K)
    for i in range(n):
        r = rng.random()
        o = {'op': 'fwd', 'r': rng.randrange(len(cfgs)), 'd': rng.randrange(6), 'st': rng.choice(['plain', 'plain', 'perm', 'wide', 'extra'])}
        troubled = ops and any(q in ops[-1] for q in ('bad', 'fault', 'at'))
        r2 = rng.random()
        if troubled and r2 < .45 and len(ops) > 1 and ops[-2]['op'] == 'fwd':
            k = ops[-2]['k']  # back to the sizes before the one that went wrong
            if r2 < .4:
                o['r'] = ops[-1]['r'] if ops[-1]['op'] == 'fwd' else o['r']
        elif r2 > .5:
            k = rng.randrange(K)
        o['k'] = k
        if rng.random() < .25:
            o['again'] = rng.choice(['same', 'rewritten'])
        if rng.random() < .15:
            o['debug'] = 1
        if rng.random() < .15:
            o['profile'] = 1
        if rng.random() < (.5 if crowd else .06):
            q = rng.choice(['fine', 'fine', 'mixed', 'mixed', 'coarse'])
            sw = [[rng.randint(1, 4) if q == 'fine' else hist.log_at(rng, 2.7) if q == 'mixed' else rng.randint(50, 800), rng.randrange(12)]
                  for _ in range(rng.randint(2, 60))]
            o = {'op': 'pair', 'r': [rng.randrange(3), rng.randrange(3)] if rng.random() < .3 else [0, 1],
                 'k': [k, k if rng.random() < .75 else rng.randrange(K)], 'd': [o['d'], rng.randrange(6)],
                 'st': [o['st'], 'plain'], 'build': rng.random() < .2, 'sw': sw, 'tail': rng.choice([1, 1, 2, 3]) if q == 'fine' else rng.choice([2, 5, 20, 100, 1000])}
            if rng.random() < .15:
                o['at'] = hist.log_at(rng, 3.5)
                o['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
        elif r < .5:
            pass
        elif r < .62:
            o['bad'] = rng.choice(BAD)
            o['n'] = rng.randrange(4)
        elif r < .74:
            o['fault'] = [rng.choice(['alloc', 'torn', 'torn']), round(rng.random(), 3)]
        elif r < .86:
            o['at'] = hist.log_at(rng, 3.7) if rng.random() < .55 else rng.randint(10, 150)
            o['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'OSError'])
        elif r < .9:
            o['clock'] = {'jumps': [[rng.randint(1, 6), rng.choice([-1e6, -3.5, 1e6])]], 'stall': rng.random() < .2}
            o['profile'] = 1
        else:
            o = {'op': 'look', 'r': o['r'], 'what': rng.choice(['summary', 'shape', 'block', 'get'])}
        ops.append(o)
    for r in range(len(cfgs)):
        ops.append({'op': 'fwd', 'r': r, 'd': 7, 'k': rng.randrange(K), 'st': 'plain'})
    return {'rec': rec, 'rec2': rec2, 'ranges': ranges, 'fixed': plan['fixed'], 'cfgs': cfgs, 'ops': ops}


def digest(gi):
    return {n: (str(t.a.dtype), tuple(t.a.shape), hashlib.sha256(np.ascontiguousarray(t.a).tobytes()).hexdigest()[:12])
            for n, t in gi._constant_tensors.items()}


def construct(path, desc, rng_, dt):
    import torch
    return infer.GraphInfer(path, {n: list(d) for n, d in desc.items()}, dict(rng_), dtype=getattr(torch, dt))


def request(feeds, style, dt):
    import torch
    out = {}
    for i, (n, a) in enumerate(feeds.items()):
        if style == 'wide' and a.dtype == np.float32:
            a = a.astype(np.float64)
        if style == 'perm' and a.ndim > 1:
            a = np.ascontiguousarray(np.moveaxis(a, 0, -1))
            t = torch.from_numpy(a.copy())
            t = t.permute(*([a.ndim - 1] + list(range(a.ndim - 1))))
        else:
            t = torch.from_numpy(a.copy())
        out[n] = t
    if style == 'extra':
        out['surplus_input'] = torch.from_numpy(np.ones((2, 2), np.float32))
    return out


def answers(path, desc, rng_, dt, todo):
    """On a new runtime for each: {(k, d): outputs or the name of the exception}, and the weights' digest."""
    out = {}
    gi = construct(path, desc, rng_, dt)
    for (k, d), feeds in todo:
        try:
            r = gi.forward(request(feeds, 'plain', dt))
            out[k, d] = {n: np.array(t.a) for n, t in r.items()}
        except Exception as e:
            out[k, d] = short(e)
        gi = construct(path, desc, rng_, dt)
    return out, digest(gi)


def compare(b, proto, feeds, got, want, dt):
    """None or what is wrong with one output."""
    want = want.astype(dt)
    d = oracle.close(got, want)
    if d is None or got.shape != want.shape or got.dtype != want.dtype:
        return d, False
    return d, True


def unstable(b, feeds, name, got, want):
    """True when every differing element also changes when the inputs change by one part in a million."""
    bad = ~np.isclose(got, want, rtol=2e-3, atol=1e-3, equal_nan=True)
    moved = np.zeros(bad.shape, bool)
    for t in range(9):
        rs = np.random.RandomState(t)
        x = {n: (a + (np.abs(a) + .1) * (1e-6, 1e-5, 3e-5)[t % 3] * rs.choice([-1, 1], size=a.shape)).astype(a.dtype) if a.dtype.kind == 'f' else a
             for n, a in feeds.items()}
        y = oracle.ref_run(b.proto, x, [name])[name]
        moved |= ~np.isclose(y.astype(np.float64), want, rtol=1e-3, atol=5e-4, equal_nan=True)
    return bool((moved | ~bad).all())


class Mod:
    """One of the models of a run; .good: the sizes at which the tool has to answer rightly, or None when outside the class."""

    def __init__(self, rec, plan, path):
        self.b = b = models.build(rec)
        self.path = path
        self.data = b.proto.SerializeToString(deterministic=True)
        vars_ = models.VARS[rec['family']]
        sizes = rec['sizes']
        self.K = K = len(sizes)
        self.pts = pts = [dict(zip(vars_, z)) for z in sizes]
        self.good = None
        if K < 2 + 2 * len(plan['ranges']):
            return
        shapes = isolated(p17.direct, self.data, {'constant_folding': True}, [(k, models.zeros(b, k)) for k in range(K)])
        f = p17.fit(shapes, pts, vars_, K, plan['ranges'])
        if f is None:
            return
        self.good = [k for k in range(K) if p17.fits(f, shapes[k], pts[k])]
        with open(path, 'wb') as fd:
            fd.write(self.data)
        self.desc, self.rng0 = p17.args(b, plan['ranges'], plan['fixed'])
        self.full = not NOTYPE & {n.op_type for n in b.proto.graph.node}

    def ranges(self, c):
        return {v: (lo, hi * 2 if c['grow'] else hi) for v, (lo, hi) in self.rng0.items()}


def run(plan, ctx):
    mod0 = Mod(plan['rec'], plan, 'm.onnx')
    K = mod0.K
    if K < 2 + 2 * len(plan['ranges']):
        raise core.Discard('sizes')
    if mod0.good is None:
        ctx.probe('outside_class')
        return
    mods = [mod0]
    if plan.get('rec2') and any(c.get('m') for c in plan['cfgs']):
        mod1 = Mod(dict(plan['rec2'], sizes=plan['rec']['sizes']), plan, 'm2.onnx')
        if mod1.good is None:
            ctx.probe('second_model_outside_class')
        else:
            mods.append(mod1)
    cfgs = [c for c in plan['cfgs'] if c.get('m', 0) < len(mods)] or plan['cfgs'][:1]
    mod = [mods[c.get('m', 0) % len(mods)] for c in cfgs]
    nrt = len(cfgs)
    rts, fresh, consts, descs = [], [], [], []
    FAULTS = torchshim.FAULTS
    todo = [{} for _ in mods]
    for op in plan['ops']:
        if op['op'] == 'fwd':
            m = mod[op['r'] % nrt]
            if op['k'] % K in m.good:
                todo[mods.index(m)][op['k'] % K, op['d']] = models.data(m.b, op['k'] % K, op['d'])
    todo = [sorted(t.items(), key=lambda q: q[0]) for t in todo]
    nfired = 0
    for c, m in zip(cfgs, mod):
        rg = m.ranges(c)
        fr, dg = isolated(answers, m.path, m.desc, rg, c['dt'], todo[mods.index(m)][-2:])
        ld = c['load']
        if ld:
            if 'fault' in ld:
                FAULTS.arm(*ld['fault'])
                n0 = len(FAULTS.fired)
            r, fired = hist.call(ctx, lambda: construct(m.path, m.desc, rg, c['dt']), ld.get('at'), ld.get('exc'), ld.get('alloc'),
                                 ld.get('disk'))
            if 'fault' in ld:
                FAULTS.clear()
                fired = fired + ['torch_' + x for x in FAULTS.fired[n0:]]
                for x in FAULTS.fired[n0:]:
                    ctx.fault('torch_' + x)
            nfired += len(fired)
            ctx.check(r[0] == 'ok' or fired, 'construction_fails', lambda: short(r[1]))
            ctx.log('load', hist.exc_name(r), fired)
        r, _ = hist.call(ctx, lambda: construct(m.path, m.desc, rg, c['dt']))
        if r[0] == 'exc':
            ctx.violate('construction_fails', short(r[1]), type(r[1]).__name__)
        rts.append(r[1])
        fresh.append(fr)
        consts.append(dg)
        descs.append(rg)
    points = [None] * nrt
    before = [('new', None)] * nrt
    sizes_ok = set()
    lastreq = [None] * nrt
    for i, op in enumerate(plan['ops']):
        if op['op'] == 'pair':
            nfired += pair(ctx, i, op, K, cfgs, mod, rts, consts, descs, before, sizes_ok)
            continue
        j = op['r'] % nrt
        gi, c, rg = rts[j], cfgs[j], descs[j]
        b, desc, good, pts, full = mod[j].b, mod[j].desc, mod[j].good, mod[j].pts, mod[j].full
        if op['op'] == 'look':
            look(ctx, gi, op['what'], b, c)
            continue
        k = op['k'] % K
        x = models.data(b, k, op['d'])
        feeds = dict(x)
        must_raise = None
        bad = op.get('bad')
        if bad:
            must_raise = spoil(b, feeds, bad, op.get('n', 0), desc, rg, gi)
        req = request(feeds, op.get('st', 'plain'), c['dt'])
        last = lastreq[j]
        if op.get('again') and not bad and last:
            # the caller hands over the very tensors of an earlier request, as they are or with new contents
            if op['again'] == 'same':
                k, d, req = last
                x = models.data(b, k, d)
            elif last[0] == k:
                for n, t in last[2].items():
                    if n in x:
                        t.a[...] = x[n]
                req = last[2]
                d = op['d']
            else:
                d = op['d']
        else:
            d = op['d']
        if not bad:
            lastreq[j] = (k, d, req)
        kept = {n: (id(t), np.array(t.a)) for n, t in req.items()}
        flags = {q: True for q in ('debug', 'profile') if op.get(q)}
        torch_fault = op.get('fault')
        p0 = FAULTS.count
        n0 = len(FAULTS.fired)
        if torch_fault:
            FAULTS.arm(torch_fault[0], int(torch_fault[1] * (points[j] or 20)))
        FAULTS.resized = 0
        r, fired = hist.call(ctx, lambda: gi.forward(req, **flags), op.get('at'), op.get('exc'), None, None, op.get('clock'))
        resized = FAULTS.resized
        if torch_fault:
            FAULTS.clear()
            for q in FAULTS.fired[n0:]:
                ctx.fault('torch_' + q)
                fired = fired + ['torch_' + q]
        nfired += len(fired)
        if bad:
            ctx.fault('bad_request_' + bad)
        res = None
        if r[0] == 'ok':
            res = {n: np.array(t.a) for n, t in r[1].items() if n != '__profile__'}
            if not fired and not bad:
                points[j] = (FAULTS.count - p0) or 1
        ctx.check(set(req) == set(kept) and all(id(t) == kept[n][0] and t.a.shape == kept[n][1].shape and t.a.tobytes() == kept[n][1].tobytes()
                                               for n, t in req.items()), 'request_modified',
                  lambda: 'step %d: the tensors of the caller were changed' % i)
        dg = digest(gi)
        ctx.check(dg == consts[j], 'weights_changed', lambda: 'step %d: %s' % (i, oracle.diff(consts[j], dg)))
        same = before[j][1] == k
        ctx.state(bad or (torch_fault and torch_fault[0]) or ('line' if op.get('at') else 'plain'), r[0], same, before[j][0], sorted(flags))
        ctx.log(i, j, k, r[0], hist.exc_name(r) if r[0] == 'exc' else sorted((n, a.shape) for n, a in res.items()), fired)
        if must_raise:
            ctx.check(r[0] == 'exc', 'unsuitable_request_answered', lambda: 'step %d (%s): %s' % (i, bad, must_raise), bad)
        elif bad:
            pass
        elif k in good:
            if r[0] == 'exc':
                if not fired and full:
                    ctx.violate('request_fails', 'step %d at %r after %r: %s' % (i, pts[k], before[j], short(r[1])), type(r[1]).__name__)
            else:
                check_answer(ctx, b, i, x, res, c, pts[k], before[j], resized)
                sizes_ok.add((j, k))
                fr = fresh[j].get((k, d))
                if fr is not None:
                    ctx.check(isinstance(fr, dict), 'answered_where_a_new_runtime_refuses', lambda: 'step %d: %s' % (i, fr))
            fr = fresh[j].get((k, d))
            if fr is not None and r[0] == 'exc' and not fired:
                ctx.check(not isinstance(fr, dict), 'request_fails', lambda: 'step %d at %r after %r, where a new runtime answers: %s' % (
                    i, pts[k], before[j], short(r[1])), type(r[1]).__name__)
        before[j] = ('ok' if r[0] == 'ok' else 'failed', k)
    ctx.nontrivial = len({k for _, k in sizes_ok}) > 1 or nfired > 0


def pair(ctx, i, op, K, cfgs, mod, rts, consts, descs, before, sizes_ok):
    """Two threads: each sends a request to a runtime of its own; the second one may have to construct its runtime first."""
    n = len(rts)
    j = [op['r'][0] % n, op['r'][1] % n]
    build = op['build'] or j[0] == j[1]
    reqs, kept, xs, ks = [], [], [], []
    for t in range(2):
        k = op['k'][t] % K
        x = models.data(mod[j[t]].b, k, op['d'][t])
        req = request(x, op['st'][t], cfgs[j[t]]['dt'])
        ks.append(k)
        xs.append(x)
        reqs.append(req)
        kept.append({q: np.array(v.a) for q, v in req.items()})
    new = [None]

    def one(t):
        gi = rts[j[t]]
        if t and build:
            new[0] = gi = construct(mod[j[1]].path, mod[j[1]].desc, descs[j[1]], cfgs[j[1]]['dt'])
        return {q: np.array(v.a) for q, v in gi.forward(reqs[t]).items()}
    s = sched.Scheduler(2, op['sw'], op['tail'], ctx.sb.clock)
    if op.get('at') is not None:
        s.hit[0] = [op['at'], hist.mk_exc(op['exc'])]
    torchshim.FAULTS.resized = 0
    s.run([lambda: one(0), lambda: one(1)])
    ctx.step(s.count)
    ctx.fault('preemption', s.handovers)
    if s.fired[0]:
        ctx.fault('thread_interrupted')
    for t in range(2):
        jt, k = j[t], ks[t]
        m, c = mod[jt], cfgs[jt]
        gi = new[0] if t and build else rts[jt]
        e = s.error[t]
        hit = t == 0 and s.fired[0]
        prev = before[jt]
        ctx.log(i, 'pair', t, jt, k, short(e) if e is not None else sorted((q, a.shape) for q, a in s.result[t].items()), s.count, s.handovers)
        ctx.state('pair', build and t, 'exc' if e is not None else 'ok', hit, min(s.handovers, 3))
        if not (t and build):
            before[jt] = ('failed' if e is not None else 'ok', k)
        if gi is not None:
            dg = digest(gi)
            ctx.check(dg == consts[jt], 'weights_changed', lambda: 'step %d, thread %d of two: %s' % (i, t, oracle.diff(consts[jt], dg)))
        ctx.check(all(v.a.shape == kept[t][q].shape and v.a.tobytes() == kept[t][q].tobytes() for q, v in reqs[t].items()),
                  'request_modified', lambda: 'step %d, thread %d of two: the tensors of the caller were changed' % (i, t))
        if isinstance(e, sched.Deadlock):
            ctx.violate('threads_wait_for_ever', 'step %d: %s' % (i, e))
        if k not in m.good or hit:
            continue
        if e is not None:
            if m.full:
                ctx.violate('request_fails', 'step %d at %r, thread %d of two (%d switches): %s' % (i, m.pts[k], t, s.handovers, short(e)),
                            type(e).__name__)
            continue
        check_answer(ctx, m.b, i, xs[t], s.result[t], c, m.pts[k], 'thread %d of two, %r' % (t, prev), torchshim.FAULTS.resized)
        sizes_ok.add((jt, k))
        ctx.probe('pairs_answered')
    return int(s.handovers >= 2)


def check_answer(ctx, b, i, x, res, c, pt, prev, resized):
    want = oracle.ref_run(b.proto, x)
    ctx.check(set(res) == set(want), 'outputs_missing', lambda: 'step %d: %s' % (i, sorted(set(res) ^ set(want))))
    for n, w in want.items():
        w = np.asarray(w).astype(c['dt'])
        got = res[n]
        d = oracle.close(got, w)
        if d is None:
            continue
        if got.shape == w.shape and got.dtype == w.dtype and unstable(b, x, n, got, w):
            ctx.probe('ill_conditioned')
            continue
        ctx.violate('wrong_answer', 'step %d at %r after %r, output %r: %s%s' % (
            i, pt, prev, n, d, ' (a result was written outside the pool)' if resized else ''))


def spoil(b, feeds, bad, n, desc, rg, gi):
    """Make the request unsuitable; what must be refused about it, or None when it may be answered."""
    names = [nm for nm, _, _, _ in b.inputs]
    nm = names[n % len(names)]
    used = nm in gi._cg.input and nm in gi._tensor_views
    a = feeds[nm]
    if bad == 'missing':
        del feeds[nm]
        return 'input %r is missing' % nm if used else None
    if bad == 'rank':
        feeds[nm] = a[None] if n % 2 else a.reshape(-1)
        return 'input %r has another rank' % nm if used and feeds[nm].ndim != a.ndim else None
    if bad == 'fixed':
        for ax, d in enumerate(desc[nm]):
            if not isinstance(d, str):
                feeds[nm] = np.concatenate([a, np.take(a, [0], ax)], ax)
                return 'input %r has another fixed size' % nm if used else None
        return None
    if bad == 'conflict':
        seen = {}
        for m in names:
            for ax, d in enumerate(desc[m]):
                if isinstance(d, str):
                    if d in seen and seen[d] != m:
                        feeds[m] = np.concatenate([feeds[m]] * 2, ax)
                        both = all(q in gi._cg.input and q in gi._tensor_views for q in (m, seen[d]))
                        return 'inputs %r and %r disagree on %s' % (seen[d], m, d) if both else None
                    seen.setdefault(d, m)
        return None
    if bad == 'huge':
        shape = list(a.shape)
        for ax, d in enumerate(desc[nm]):
            if isinstance(d, str) and d in rg:
                shape[ax] = rg[d][1] * 2 + 8
        vol = int(np.prod(shape))
        cap = int(np.prod([rg[d][1] if isinstance(d, str) and d in rg else d for d in desc[nm]]))
        feeds[nm] = np.resize(a, shape)
        return 'input %r is larger than the declared range' % nm if used and vol > cap else None


def look(ctx, gi, what, b, c):
    if what == 'summary':
        gi.print_summary()
    elif what == 'shape':
        for n in b.outputs:
            gi.get_tensor_shape(n)
    elif what == 'block':
        for n in b.outputs:
            gi.get_tensor_block(n)
    else:
        for n in b.outputs:
            if gi.get_tensor_block(n):
                gi.get_tensor(n)
