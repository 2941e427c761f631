"""P10: a failed inference is never reported as a result."""
import numpy as np

from .. import hist, models, oracle
from ..core import isolated, short

RUNS = {'quick': 1500, 'thorough': 20000}
RULE = ('a seeded random model, a history of 0-4 API calls, then 1-4 rounds of: a failing or interrupted inference, value '
        'inference or profile (bad sizes, failing operator, interruption at any executed line, refused allocation), calls '
        'that would use its result, and a corrected inference; non-trivial: at least one failure happened')
STATES = '(how the call failed, what was asked of the graph afterwards) pairs'
REAL = 'onnx_tool Model/Graph/Node/Tensor, profile and table printing'
STUB = 'clock, file device, standard output'
ASSUME = ['failures inside C code of numpy and onnx are represented by their Python-level exceptions']


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, branchy=True, ctl=rng.choice([0, 0, 0, .3, .6]), need='S' if rng.random() < .7 else 'SV', nlayers=(1, 12 if big else 7),
                            fixed=rng.random() < .1)
    mcfg = {'constant_folding': True} if rng.random() < .15 else {}
    K = len(rec['sizes'])
    ops = hist.gen_history(rng, rng.randint(0, 4), K, intr=.1, allocp=.05)
    rounds = []
    for _ in range(rng.randint(1, 5 if big else 3)):
        r = rng.random()
        if r < .35:
            f = hist.gen_op(rng, 'si', K, intr=0, allocp=0)
            if rng.random() < .7:
                f['at'] = hist.log_at(rng)
                f['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'RuntimeError'])
            else:
                f['alloc'] = rng.randrange(12)
        elif r < .7:
            f = hist.gen_op(rng, 'si_bad', K, intr=0, allocp=0)
        elif r < .88:
            f = hist.gen_op(rng, 'prof', K, intr=0, allocp=0)
            f['at'] = hist.log_at(rng)
            f['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'RuntimeError'])
        else:
            f = hist.gen_op(rng, 'vi', K, intr=0, allocp=0)
            f['at'] = hist.log_at(rng)
            f['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
        uses = [rng.choice(['prof', 'console', 'txt', 'csv', 'prof', 'si_none', 'cg']) for _ in range(rng.randint(1, 4))]
        rounds.append({'f': f, 'uses': uses, 'fix': rng.randrange(K), 'prof_before': rng.random() < .5,
                       'k0': rng.randrange(K)})
    return {'rec': rec, 'mcfg': mcfg, 'ops': ops, 'rounds': rounds}


def twin(data, mcfg, reorder, x):
    m = hist.fresh_model(data, mcfg, reorder)
    try:
        m.graph.shape_infer(x)
    except Exception as e:
        return ('exc', type(e).__name__)
    return ('ok', oracle.infer_result(m.graph))


def twin_vi(data, mcfg, x):
    m = hist.fresh_model(data, mcfg)
    m.graph.value_infer(x)
    return oracle.infer_result(m.graph)


def counts(g):
    return ([repr(getattr(g, a, None)) for a in ('macs', 'params', 'memory')],
            {n: [repr(getattr(nd, a, None)) for a in ('macs', 'params', 'memory')] for n, nd in g.nodemap.items()})


def run(plan, ctx):
    s = hist.Session(ctx, plan['rec'], plan.get('mcfg'))
    g = s.m.graph
    sb = ctx.sb
    cache = {}

    def want(k):
        if k not in cache:
            cache[k] = isolated(twin, s.bytes, s.mcfg, False, s.inputs(k))
        return cache[k]

    for i, op in enumerate(plan['ops']):
        r, fired = s.exec(op)
        ctx.log('h', i, hist.exc_name(r), fired)
    nfail = 0
    for i, rd in enumerate(plan['rounds']):
        if rd['prof_before']:
            g.shape_infer(s.inputs(rd['k0']))
            g.profile()
        f = rd['f']
        before = (bool(g.valid_shape), bool(g.valid_profile), oracle.infer_result(g), counts(g) if g.valid_profile else None)
        r, fired = s.exec(f)
        out = hist.exc_name(r)
        how = (f['op'], f.get('bad'), out, tuple(fired))
        ctx.log(i, how)
        kind = f['op']
        if fired and r[0] == 'exc' and kind in ('si', 'vi') and g.valid_profile and not g.valid_shape and \
                oracle.infer_result(g) == before[2] and before[1]:
            # between the two first statements: the profile of the unchanged shapes is still there
            ctx.probe('interrupted_before_it_began')
            continue
        if fired and r[0] == 'exc' and g.valid_shape and kind in ('si', 'vi'):
            now = oracle.infer_result(g)
            if now == before[2] and before[0]:
                ctx.probe('interrupted_before_it_began')
                continue
            if kind == 'vi' and before[0] and now == isolated(twin_vi, s.bytes, s.mcfg, s.inputs(f['k'], 'data', f['d'])):
                ctx.probe('interrupted_after_it_finished')
                continue
        if fired and r[0] == 'exc' and kind == 'prof' and g.valid_profile:
            ctx.check(before[1] or not g.valid_shape, 'interrupted_profile_valid', lambda: '%r' % (how,))
            if before[1]:
                # the interruption must have come before the profile touched anything: the table is still the old one
                ctx.check(counts(g) == before[3], 'interrupted_profile_valid',
                          lambda: '%r: a profile that counted only part of the nodes is valid: %r' % (how, counts(g)[0]))
                ctx.probe('interrupted_before_it_began')
                continue
        if kind in ('si', 'si_bad') and r[0] == 'exc':
            nfail += 1
            ctx.check(not g.valid_shape, 'failed_inference_considered_valid',
                      lambda: '%r: the model is still considered shape-inferred' % (how,))
            if kind == 'si_bad' and isinstance(r[1], Exception):
                msg = str(r[1])
                names = list(g.nodemap) + list(g.input)
                ctx.check(any(n and n in msg for n in names), 'failure_names_nothing',
                          lambda: '%r: %s names no node or input' % (how, short(r[1])))
                if f['bad'] == 'boom':
                    keys = list(g.nodemap)
                    nn = keys[f.get('n', 0) % len(keys)]
                    ctx.check(nn in msg, 'failure_names_wrong_node', lambda: '%r should name %r: %s' % (how, nn, msg))
        elif kind == 'si' and fired and r[0] == 'ok':
            # the failure was absorbed: then the result must be the right one
            w = want(f['k'])
            got = oracle.infer_result(g)
            ctx.check(w[0] == 'ok' and got == w[1], 'failure_swallowed',
                      lambda: '%r returned normally with a wrong result: %s' % (how, oracle.diff(got, w[1])))
        elif kind == 'si_bad':
            bad = f['bad']
            if r[1] == 'noop':
                continue
            if bad in ('neg', 'str') and len(s.b.inputs[f.get('n', 0) % len(s.b.inputs)][2]) and \
                    s.b.inputs[f.get('n', 0) % len(s.b.inputs)][0] in g.input:
                ctx.violate('invalid_size_accepted', '%r: inference accepted an input of invalid size' % (how,), bad)
            if bad == 'boom':
                ctx.violate('failure_swallowed', '%r: an operator failed, the inference returned normally' % (how,), 'boom')
            if bad in ('rank', 'zero_rank', 'incompat'):
                w = isolated(twin, s.bytes, s.mcfg, False, s.bad_inputs(f)[1])
                got = oracle.infer_result(g)
                ctx.check(w[0] == 'ok' and got == w[1], 'bad_input_result',
                          lambda: '%r returned normally, a fresh model gives %s' % (
                              how, w[1] if w[0] == 'exc' else oracle.diff(got, w[1])))
                ctx.probe('unusual_input_accepted')
        elif kind == 'prof' and r[0] == 'exc':
            nfail += 1
        elif kind == 'vi' and r[0] == 'exc':
            nfail += 1
            if fired:
                ctx.check(not g.valid_shape, 'failed_evaluation_considered_valid',
                          lambda: '%r: tensors of two sizes are considered valid' % (how,))
        bad_shape = not g.valid_shape
        if kind == 'prof' and r[0] == 'ok':
            bad_prof = not g.valid_profile
        else:
            bad_prof = True       # no profile has completed since
        failed = r[0] == 'exc' or (kind == 'prof' and not g.valid_profile)
        for u in rd['uses']:
            ctx.state(how, u)
            ctx.step()
            if not failed:
                break
            sb.take_out()
            sb.take_warnings()
            if u == 'prof':
                g.profile()
                if bad_shape:
                    ctx.check(not g.valid_profile, 'profile_of_failed_inference',
                              lambda: '%r: a profile of the failed inference is valid' % (how,))
                    ctx.check(sb.take_warnings(), 'profile_silent', lambda: '%r: profile() said nothing' % (how,))
                else:
                    bad_prof = not g.valid_profile
            elif u in ('console', 'txt', 'csv') and bad_prof:
                fn = {'console': None, 'txt': 'u.txt', 'csv': 'u.csv'}[u]
                before = sb.disk.snapshot()
                rr, _ = hist.call(ctx, lambda: g.print_node_map(fn))
                text = sb.take_out()
                ctx.check('Total' not in text, 'table_of_failed_inference',
                          lambda: '%r: a table was printed: %s' % (how, text[-300:]), u)
                after = sb.disk.snapshot()
                ctx.check(before == after, 'table_of_failed_inference', lambda: '%r: a table file was written' % (how,), u)
            elif u == 'si_none':
                rr, _ = hist.call(ctx, lambda: g.shape_infer(None))
                ctx.log('again', hist.exc_name(rr))
                if kind == 'si_bad' and f['bad'] in ('neg', 'str') and r[0] == 'exc':
                    ctx.check(rr[0] == 'exc', 'failure_forgotten', lambda: '%r: repeating it succeeds' % (how,))
                bad_shape = not g.valid_shape
                ctx.check(bad_shape == (rr[0] == 'exc'), 'failed_inference_considered_valid',
                          lambda: 'repeat after %r: outcome %s valid_shape %s' % (how, hist.exc_name(rr), g.valid_shape))
                bad_prof = True
                if not bad_shape:
                    break
            elif u == 'cg':
                rr, _ = hist.call(ctx, lambda: g.get_compute_graph())
                if rr[0] == 'ok' and bad_shape:
                    ctx.check(not rr[1].valid_shape, 'failed_inference_considered_valid',
                              lambda: '%r: extracted graph considered shape-inferred' % (how,), 'cg')
        # the corrected call
        k = rd['fix']
        w = want(k)
        rr, _ = hist.call(ctx, lambda: g.shape_infer(s.inputs(k)))
        ctx.check(rr[0] == w[0], 'corrected_call_fails', lambda: 'after %r size %d: %s, fresh model: %s' % (
            how, k, short(rr[1]) if rr[0] == 'exc' else 'ok', w))
        got = oracle.infer_result(g)
        ctx.check(got == w[1], 'corrected_call_differs', lambda: 'after %r size %d: %s' % (how, k, oracle.diff(got, w[1])))
        ctx.check(g.valid_shape, 'corrected_call_not_valid', lambda: 'after %r' % (how,))
        g.profile()
        ctx.check(g.valid_profile, 'corrected_profile_not_valid', lambda: 'after %r' % (how,))
        sb.take_out()
        g.print_node_map(None)
        text = sb.take_out()
        ctx.check('Total' in text, 'corrected_table_missing', lambda: 'after %r: %s' % (how, text[-200:]))
        ctx.log('fixed', k, sorted(got.items()), repr(g.macs), g.params, g.memory)
    ctx.nontrivial = nfail > 0
