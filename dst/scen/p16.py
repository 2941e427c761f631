"""P16: the memory plan never lets two live tensors share memory."""
import random

import numpy as np

from .. import edits, hist, models, oracle
from ..core import isolated, short

RUNS = {'quick': 1200, 'thorough': 25000}
RULE = ('a seeded random model, a history of 0-6 calls (inferences at other sizes, plans, edits that fuse nodes or add outputs, '
        'interrupted plans), then a plan at the largest size with a seeded padding, executed node by node in a pool filled with '
        'seeded garbage for a seeded sequence of requests of the same and smaller sizes, some of them aborted part-way so that '
        'the pool is left dirty; non-trivial: two tensors with disjoint lives share memory, or a fault fired')
STATES = '(padding, model family, number of blocks shared, requests, aborts) tuples'
REAL = 'onnx_tool Graph.compress_memory, shape inference, compute-graph extraction'
STUB = 'the memory pool is a simulated byte array; operator kernels are replaced by the values of a reference execution'
ASSUME = ['a kernel may write its outputs before it has finished reading its inputs',
          'rank-0 tensors have no block (documented limit) and are not checked']
BIG = {'img': (3, 16, 24), 'seq': (4, 96), 'ids': (4, 96), 'mat': (300,)}


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, branchy=True, need='SV', avoid=('splitnum',), nlayers=(2, 16 if big else 11), fixed=rng.random() < .08)
    if rng.random() < .15:
        rec['shuffle'] = rng.randrange(1000)
    top = [max(s[i] for s in rec['sizes']) for i in range(len(rec['sizes'][0]))]
    if rec['family'] in BIG and len(rec['sizes']) > 1 and rng.random() < .6:
        top = [max(a, b) for a, b in zip(top, BIG[rec['family']])]
    if top not in rec['sizes']:
        rec['sizes'].append(top)
    K = len(rec['sizes'])
    mcfg = {'constant_folding': True} if rng.random() < .2 else {}
    ops = []
    for _ in range(rng.randint(0, 5)):
        if rng.random() < .5:
            ops += hist.gen_history(rng, 1, K, {'plan': 3, 'regress': .5, 'reorder': 0, 'save': .2}, intr=.3, allocp=.1)
        else:
            ops.append(edits.gen(rng, {'fuse_names': 1, 'postop': 1, 'add_dump': 1.5, 'rm_dangling': .3}))
    reqs = []
    for _ in range(rng.randint(1, 5)):
        r = {'k': rng.randrange(K) if rng.random() < .7 else K - 1, 'd': rng.randrange(20)}
        if rng.random() < .25:
            r['stop'] = rng.randrange(12)
        reqs.append(r)
    return {'rec': rec, 'mcfg': mcfg, 'ops': ops, 'top': rec['sizes'].index(top), 'pad': rng.choice([1, 16, 64, 64, 256, 4096]),
            'which': rng.choice(['g', 'g', 'cg']), 'reqs': reqs, 'fill': rng.randrange(256), 'again': rng.random() < .5}


def twin(data, mcfg, reorder, x, pad, which, ops):
    m = hist.fresh_model(data, mcfg, reorder)
    g = m.graph
    g.shape_infer(x)
    for i, o in ops:
        e = edits.prepare(g, o, uid=i)
        if e:
            try:
                e.call()
            except Exception:
                pass
    g.graph_reorder_nodes()
    if which == 'cg':
        g = g.get_compute_graph()
    p, n = g.compress_memory(size_padding=pad)
    return sorted((k, tuple(v)) for k, v in p.items()), n


def run(plan, ctx):
    s = hist.Session(ctx, plan['rec'], plan.get('mcfg'))
    g = s.m.graph
    reorder = s.rec.get('shuffle') is not None
    K = len(s.rec['sizes'])
    top, pad = min(plan['top'], K - 1), max(1, plan['pad'])
    nfired = 0
    es = []
    for i, op in enumerate(plan['ops']):
        if op['op'] == 'edit':
            # fused nodes cannot be inferred any more: edits come after the last inference
            es.append((i, op))
            continue
        if 'k' in op:
            op = dict(op, k=op['k'] % K)
        r, fired = s.exec(op)
        nfired += len(fired)
        ctx.log(i, op['op'], hist.exc_name(r), fired)
    x = s.inputs(top)
    r, _ = hist.call(ctx, lambda: g.shape_infer(x))
    if r[0] == 'exc':
        ctx.violate('inference_fails', short(r[1]), type(r[1]).__name__)
    for i, op in es:
        e = edits.prepare(g, op, uid=i)
        if e:
            if op['v'] % 2:
                g.compress_memory(size_padding=pad)     # a plan for the graph as it is between two edits
            r, _ = hist.call(ctx, e.call)
            ctx.log(i, e.kind, hist.exc_name(r))
    g.graph_reorder_nodes()
    p = g
    if plan['which'] == 'cg':
        r, _ = hist.call(ctx, g.get_compute_graph)
        if r[0] == 'exc':
            ctx.violate('extraction_fails', short(r[1]), type(r[1]).__name__)
        p = r[1]
    ctx.sb.take_warnings()
    before = oracle.graph_digest(p)
    r, _ = hist.call(ctx, lambda: p.compress_memory(size_padding=pad))
    if r[0] == 'exc':
        ctx.violate('plan_fails', short(r[1]), type(r[1]).__name__)
    mem, total = r[1]
    ctx.check(oracle.graph_digest(p) == before, 'plan_changes_graph', lambda: oracle.diff(oracle.graph_digest(p), before))
    mine = (sorted((k, tuple(v)) for k, v in mem.items()), total)
    if plan['again']:
        hist.call(ctx, lambda: p.compress_memory(size_padding=pad), at=40 + 13 * plan['fill'], exc='KeyboardInterrupt')
        mem2, total2 = p.compress_memory(size_padding=pad)
        ctx.check((sorted((k, tuple(v)) for k, v in mem2.items()), total2) == mine, 'plan_not_repeatable',
                  lambda: oracle.diff(mine[0], sorted((k, tuple(v)) for k, v in mem2.items())))
    want = isolated(twin, s.bytes, s.mcfg, reorder, x, pad, plan['which'], es)
    ctx.check(mine == want, 'plan_depends_on_history', lambda: 'total %r, fresh %r; %s' % (mine[1], want[1], oracle.diff(
        dict(mine[0]), dict(want[0]))))
    ctx.log('plan', mine)
    # static demands on the plan
    for t, (off, n) in mem.items():
        ctx.check(off >= 0 and off % pad == 0, 'block_not_aligned', lambda: '%r at %d with padding %d' % (t, off, pad))
        ctx.check(off + n <= total, 'block_outside_pool', lambda: '%r ends at %d, pool is %d' % (t, off + n, total))
    # execution
    pool = bytearray(random.Random(plan['fill']).randbytes(total))
    shared = False
    refs = {}
    for j, rq in enumerate(plan['reqs']):
        k = rq['k'] % K
        feeds = s.inputs(k, 'data', rq['d'])
        ref = dict(oracle.ref_all(s.b.proto, feeds), **feeds)
        where = {}
        stop = rq.get('stop')

        def put(t):
            a = np.asarray(ref[t])
            if t not in mem:
                return
            off, n = mem[t]
            ctx.check(a.nbytes <= n, 'block_too_small', lambda: 'request %d (size %r): %r needs %d bytes, its block has %d' % (
                j, s.rec['sizes'][k], t, a.nbytes, n))
            pool[off:off + a.nbytes] = a.tobytes()
            where[t] = a

        def look(t, who):
            a = where.get(t)
            if a is None:
                return
            off, n = mem[t]
            got = bytes(pool[off:off + a.nbytes])
            ctx.check(got == a.tobytes(), 'live_tensor_overwritten', lambda: 'request %d (size %r): when %s reads %r at block %r, '
                      'it does not hold what was written (others there: %r)' % (
                          j, s.rec['sizes'][k], who, t, mem[t], [u for u, b in mem.items() if u != t and b[0] < off + a.nbytes and
                                                                 off < b[0] + b[1]]))

        for t in p.input:
            if t in ref:
                ctx.check(t in mem or np.ndim(ref[t]) == 0 or np.size(ref[t]) == 0, 'tensor_without_block',
                          lambda: 'input %r' % t)
                put(t)
        for c, (name, node) in enumerate(p.nodemap.items()):
            if stop is not None and c >= stop:
                ctx.fault('execution_aborted')
                nfired += 1
                break
            for t in node.input:
                look(t, name)
            for t in node.output:
                if t in ref and t:
                    ctx.check(t in mem or np.ndim(ref[t]) == 0 or np.size(ref[t]) == 0, 'tensor_without_block',
                              lambda: 'output %r of %s' % (t, name))
                    put(t)
            for t in node.input:
                look(t, name + ' (while writing its outputs)')
            for t in node.output:
                look(t, name + ' (own outputs)')
            ctx.step()
        else:
            for t in p.output:
                if t in where:
                    look(t, 'the caller')
    bl = sorted(mem.values())
    for a, b in zip(bl, bl[1:]):
        if b[0] < a[0] + a[1]:
            shared = True
    ctx.state(pad, s.rec['family'], plan['which'], len(mem), len(plan['reqs']), nfired)
    if shared:
        ctx.probe('blocks_shared')
    ctx.nontrivial = shared or nfired > 0
