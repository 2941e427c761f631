"""P09: inferred shapes depend only on the model and the inputs, not on the history."""
import numpy as np

from .. import hist, models, oracle
from ..core import isolated, short

RUNS = {'quick': 1500, 'thorough': 20000}
RULE = ('a seeded random ONNX model (1-10 operator patterns out of about 70, dynamic or fixed sizes, renamed/unnamed nodes, '
        'shuffled node order, constant folding on or off) and a seeded history of 1-8 API calls at other sizes with '
        'interruptions at any executed line, allocation failures, failing operators and unsuitable inputs between them, '
        'followed by clean inferences; non-trivial: at least one fault fired or two different sizes were inferred')
STATES = '(history operation, outcome, injected fault) triples'
REAL = 'onnx_tool Model/Graph/Node/Tensor and everything they call'
STUB = 'clock, file device, standard output; reference shapes from onnx.reference'
ASSUME = ['operators outside the generated vocabulary are not exercised',
          'true shapes come from onnx.reference executed on the same model']


def gen(rng, tier, idx):
    big = tier == 'thorough'
    fixed = rng.random() < .15
    rec = models.gen_recipe(rng, branchy=True, ctl=rng.choice([0, 0, 0, .3, .6]), need='S', nlayers=(1, 14 if big else 9), fixed=fixed)
    if rng.random() < .25:
        rec['shuffle'] = rng.randrange(1000)
    if rec['family'] in ('img', 'img2') and rng.random() < (.4 if rec.get('odd') else .1):
        # operators that work out something from the size they see
        rec['layers'].insert(rng.randint(0, min(2, len(rec['layers']))), {'op': rng.choice(['convauto', 'convauto', 'maxpool', 'resize', 'pad']),
                                                                          'in': [0, 0, 0], 'p': rng.randrange(720), 'share': False})
    mcfg = {}
    if rng.random() < .2:
        mcfg['constant_folding'] = True
        rec['nofold'] = 1
    if rng.random() < .1:
        mcfg['node_rename'] = True
    K = len(rec['sizes'])
    ops = hist.gen_history(rng, rng.randint(1, 12 if big else 7), K)
    ops.append({'op': 'si', 'k': rng.randrange(K), 'st': 'zeros'})
    return {'rec': rec, 'mcfg': mcfg, 'ops': ops}


def twin(data, mcfg, reorder, x):
    m = hist.fresh_model(data, mcfg, reorder)
    m.graph.shape_infer(x)
    return oracle.infer_result(m.graph)


def run(plan, ctx):
    s = hist.Session(ctx, plan['rec'], plan.get('mcfg'))
    cache = {}
    ref = {}

    def want(k):
        if k not in cache:
            cache[k] = isolated(twin, s.bytes, s.mcfg, s.rec.get('shuffle') is not None, s.inputs(k))
        return cache[k]

    def truth(k):
        if k not in ref:
            ref[k] = {n: (tuple(a.shape), np.dtype(a.dtype).name) for n, a in
                      oracle.ref_all(s.b.proto, s.inputs(k, 'data', 1)).items()}
        return ref[k]

    last = None
    sizes = set()
    nfired = 0
    n = len(plan['ops'])
    for i, op in enumerate(plan['ops']):
        r, fired = s.exec(op)
        nfired += len(fired)
        out = hist.exc_name(r)
        ctx.log(i, op['op'], out, fired)
        ctx.state(op['op'], op.get('bad'), out, tuple(fired))
        clean = not any(k in op for k in ('at', 'alloc')) or not fired
        if op['op'] == 'si':
            if not fired and r[0] == 'exc':
                ctx.violate('clean_inference_fails', 'step %d %r: %s' % (i, op, short(r[1])), type(r[1]).__name__)
            last = op['k'] if r[0] == 'ok' else None
            if r[0] != 'ok':
                continue
            k = op['k']
        elif op['op'] == 'si_none':
            if last is None or r[0] != 'ok':
                last = None if r[0] != 'ok' else last
                continue
            k = last
            ctx.probe('reinfer_without_inputs')
        elif op['op'] in ('vi', 'si_bad', 'regress'):
            last = None
            continue
        else:
            continue
        sizes.add(k)
        got = oracle.infer_result(s.m.graph)
        d = oracle.diff(got, want(k))
        ctx.check(not d, 'history_dependent_shape', lambda: 'step %d %r: session vs fresh copy: %s' % (i, op, d),
                  op['op'])
        if i == n - 1:
            t = truth(k)
            bad = [(nme, got[nme], t[nme]) for nme in got if nme in t and got[nme] != t[nme]]
            ctx.check(not bad, 'wrong_shape', lambda: 'size %d: inferred vs real: %r' % (k, bad[:4]))
            # repetition changes nothing
            s.m.graph.shape_infer(None)
            again = oracle.infer_result(s.m.graph)
            ctx.check(again == got, 'repeat_changes', lambda: '%s' % oracle.diff(again, got))
            ctx.log('final', sorted(got.items()))
    ctx.nontrivial = nfired > 0 or len(sizes) > 1
