"""P12: value inference returns the outputs for the inputs it was given, every time."""
import numpy as np

from .. import hist, models, oracle
from ..core import isolated, short

RUNS = {'quick': 1000, 'thorough': 25000}
RULE = ('a seeded random model whose operators can be evaluated, and a seeded history of 1-9 API calls (evaluations at other '
        'sizes, values and element layouts or with the array objects of an earlier one, rewritten in place, inferences, profiles, saves, edits that keep the function; interruptions at any '
        'executed line, refused allocations, failing operators, unsuitable inputs) with clean evaluations between them; '
        'non-trivial: a fault fired or two evaluations with different inputs completed')
STATES = '(history operation, outcome, injected fault) triples'
REAL = 'onnx_tool Model/Graph/Node/Tensor and numpy'
STUB = 'clock, file device, standard output; reference outputs from onnx.reference'
ASSUME = ['operators outside the generated vocabulary are not exercised',
          'true values come from onnx.reference executed on the same model, compared up to float32 rounding']


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, branchy=True, ctl=rng.choice([0, 0, 0, .3, .6]), need='SV', nlayers=(1, 14 if big else 8), fixed=rng.random() < .1)
    if rng.random() < .2:
        rec['shuffle'] = rng.randrange(1000)
    mcfg = {'constant_folding': True} if rng.random() < .2 else {}
    K = len(rec['sizes'])
    w = {'vi': 7, 'si': 2, 'si_bad': 1.5, 'prof': .7, 'save': .5, 'table': .3, 'setw': .5}
    ops = []
    for op in hist.gen_history(rng, rng.randint(1, 12 if big else 7), K, w):
        if op['op'] == 'vi' and rng.random() < .25:
            op['lay'] = rng.choice(['F', 'rev', 'ro', 'view'])
        if op['op'] == 'vi' and rng.random() < .2 and ops:
            # the caller evaluates again with the very array objects of an earlier evaluation
            op['reuse'] = rng.choice(['write', 'write', 'as_is'])
            op.pop('lay', None)
        elif op['op'] == 'vi' and rng.random() < .12:
            op = dict(op, bad=rng.choice(['rank', 'incompat', 'dtype']), n=rng.randrange(10))
        ops.append(op)
    ops.append({'op': 'vi', 'k': rng.randrange(K), 'd': rng.randrange(50)})
    return {'rec': rec, 'mcfg': mcfg, 'ops': ops}


def layout(x, lay):
    """The same values in another memory layout."""
    out = {}
    for k, a in x.items():
        if lay == 'F' and a.ndim:
            a = np.asfortranarray(a)
        elif lay == 'rev' and a.ndim:
            a = np.ascontiguousarray(a[::-1])[::-1]
        elif lay == 'view' and a.ndim:
            big = np.zeros((a.shape[0] * 2,) + a.shape[1:], a.dtype)
            big[::2] = a
            a = big[::2]
        elif lay == 'ro':
            a = a.copy()
            a.setflags(write=False)
        out[k] = a
    return out


def twin(data, mcfg, reorder, x):
    m = hist.fresh_model(data, mcfg, reorder)
    return [oracle.arr_sig(a) for a in m.graph.value_infer(x)]


def run(plan, ctx):
    s = hist.Session(ctx, plan['rec'], plan.get('mcfg'))
    g = s.m.graph
    reorder = s.rec.get('shuffle') is not None
    kept = []
    held = {}
    seen = set()
    nfired = 0

    def check_kept(i, op):
        for j, nm, a, c in kept:
            same = a.shape == c.shape and a.dtype == c.dtype and a.tobytes() == c.tobytes()
            ctx.check(same, 'returned_value_changed',
                      lambda: 'output %s returned by step %d was changed by step %d %r' % (nm, j, i, op), op['op'])

    for i, op in enumerate(plan['ops']):
        if op['op'] == 'vi':
            x = s.inputs(op['k'], 'data', op.get('d', 0))
            if op.get('bad') == 'dtype':
                nm = s.b.inputs[op['n'] % len(s.b.inputs)][0]
                x[nm] = x[nm].astype(np.float64 if x[nm].dtype != np.float64 else np.float32)
            elif op.get('bad'):
                _, x = s.bad_inputs(op)
            x = layout(x, op.get('lay'))
            if op.get('reuse') and op['k'] in held:
                old = held[op['k']]
                if op['reuse'] == 'write':
                    # a result that is the caller's own array changes with it
                    kept = [e for e in kept if not any(np.may_share_memory(e[2], a) for a in old.values())]
                    for k, a in old.items():
                        np.copyto(a, x[k])
                x = old
            elif not op.get('bad') and all(type(a) is np.ndarray and a.flags.writeable for a in x.values()):
                held[op['k']] = x
            keep = {k: a.copy() for k, a in x.items()}
            r, fired = hist.call(ctx, lambda: g.value_infer(x), op.get('at'), op.get('exc'), op.get('alloc'))
            for k, a in x.items():
                ctx.check(a.tobytes() == keep[k].tobytes(), 'input_modified', lambda: 'step %d %r input %s' % (i, op, k))
        else:
            r, fired = s.exec(op)
        nfired += len(fired)
        ctx.log(i, op['op'], hist.exc_name(r), fired)
        ctx.state(op['op'], op.get('bad'), op.get('lay'), op.get('reuse'), hist.exc_name(r), tuple(fired))
        check_kept(i, op)
        if op['op'] != 'vi' or op.get('bad'):
            continue
        if r[0] == 'exc':
            if not fired:
                ctx.violate('evaluation_fails', 'step %d %r: %s' % (i, op, short(r[1])), type(r[1]).__name__)
            continue
        seen.add((op['k'], op.get('d')))
        outs = list(g.output)
        got = r[1]
        ctx.check(len(got) == len(outs), 'output_missing', lambda: 'step %d: %d results for %d outputs' % (
            i, len(got), len(outs)))
        ref = oracle.ref_run(s.b.proto, keep)
        for nm, a in zip(outs, got):
            ctx.check(a is not None, 'output_missing', lambda: 'step %d: no value for %s' % (i, nm))
            d = oracle.close(a, ref[nm])
            if d:
                ctx.probe('stepwise_comparison')
                w = oracle.stepwise(s.b.proto, keep, lambda n: g.tensormap[n].numpy if n in g.tensormap else None)
                d = d + '; ' + w if w else None
            ctx.check(not d, 'wrong_value', lambda: 'step %d %r output %s: %s' % (i, op, nm, d))
        sig = [oracle.arr_sig(a) for a in got]
        if i == len(plan['ops']) - 1 or op['k'] == 0:
            want = isolated(twin, s.bytes, s.mcfg, reorder, layout(keep, op.get('lay')))
            ctx.check(sig == want, 'history_dependent_value',
                      lambda: 'step %d %r: %r, a fresh model gives %r' % (i, op, sig, want))
        ctx.log('values', sig)
        kept += [(i, nm, a, a.copy()) for nm, a in zip(outs, got) if isinstance(a, np.ndarray)]
        kept = kept[-12:]
    ctx.nontrivial = nfired > 0 or len(seen) > 1
