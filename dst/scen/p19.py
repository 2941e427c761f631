"""P19: quantising weights is order-independent and touches only its target."""
import numpy as np
import onnx
from onnx import helper, numpy_helper

from .. import hist, models, oracle
from ..core import isolated, short

RUNS = {'quick': 1000, 'thorough': 25000}
RULE = ('a seeded random model with 2-6 further two-dimensional weights (1-3 consumers each, Gemm of both layouts, odd sizes, '
        'constant, tiny, huge, half and double precision) and a seeded sequence of 3-14 quantisation attempts in seeded order: '
        'repeated, of activations and unsuitable tensors, with an unknown scheme, with weights whose storage fails or is '
        'interrupted at a seeded element access, with refused allocations and non-finite weights; saves and profiles in between; '
        'the final graph is compared with the same selection quantised once in name order in a fresh process; '
        'non-trivial: two weights were quantised or an attempt failed')
STATES = '(scheme, kind of attempt, outcome, weight shape class, number of consumers) tuples'
REAL = 'onnx_tool quantization, Graph, serialisation through onnx'
STUB = 'weight storage (an array whose element accesses can fail), clock, file device'
ASSUME = ['weights that share a consumer are quantised with the same parameters (the parameters are attributes of the consumer)',
          'the computation on quantised graphs is not executed (the tool has no kernels for it)']

SHAPES = [(1, 1), (1, 5), (4, 1), (3, 4), (5, 7), (6, 6), (8, 16), (2, 33), (7, 8), (4, 9)]


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, need='S', nlayers=(1, 5), family=rng.choice(['seq', 'mat', 'ids', 'img']))
    for _ in range(rng.randint(0, 2)):
        rec['layers'].append({'op': rng.choice(['matmul', 'gemm']), 'in': [0, 0, 0], 'p': rng.randrange(720), 'share': rng.random() < .4})
    ws = []
    for i in range(rng.randint(2, 6)):
        ws.append({'s': rng.randrange(len(SHAPES)), 'seed': rng.randrange(1000), 'dt': rng.choice(['f32', 'f32', 'f32', 'f16', 'f64']),
                   'kind': rng.choice(['id', 'id', 'gemm0', 'gemm1', 'matmul']), 'n': rng.choice([1, 1, 1, 2, 3]), 'nm': rng.choice([0, 0, 0, 0, 0, 1, 2, 3]),
                   'v': rng.choice(['n', 'n', 'n', 'const', 'zero', 'pos', 'neg', 'tiny', 'big', 'zrow', 'outlier'])})
    cfg = lambda: {'block': rng.choice([-1, 0, 1, 2, 4, 5, 32, 100]), 'type': rng.choice(['sym', 'asym']), 'bits': rng.choice([4, 8])}
    cfgs = [cfg() for _ in range(1 if rng.random() < .5 else 4)]
    ops = []
    for _ in range(rng.randint(3, 16 if big else 10)):
        r = rng.random()
        o = {'op': 'q', 'w': rng.randrange(40)}
        if r < .55:
            pass
        elif r < .65:
            o['bad'] = rng.choice(['type', 'act', 'int', 'vec', 'unused', 'suffix'])
        elif r < .82:
            o['io'] = [int(10 ** rng.uniform(0, 2.6)), rng.choice(['KeyboardInterrupt', 'OSError', 'MemoryError'])]
        elif r < .88:
            o['nan'] = rng.choice(['nan', 'inf', '-inf'])
        elif r < .94:
            o['alloc'] = rng.randrange(3)
        else:
            o = {'op': rng.choice(['save', 'read', 'digest'])}
        ops.append(o)
    return {'rec': rec, 'ws': ws, 'cfgs': cfgs, 'ops': ops, 'k': 0}


def value(w, shape):
    r = np.random.RandomState(w['seed'])
    a = r.uniform(-1, 1, shape)
    v = w['v']
    if v == 'const':
        a[:] = a.flat[0]
    elif v == 'zero':
        a[:] = 0
    elif v == 'pos':
        a = np.abs(a) + .25
    elif v == 'neg':
        a = -np.abs(a) - .25
    elif v == 'tiny':
        a *= 2.0 ** -9
    elif v == 'big':
        a *= 1000
    elif v == 'zrow':
        a[0, :] = 0
    elif v == 'outlier':
        a.flat[a.size // 2] = 60
    return a.astype(models.DT[w['dt']])


def make(plan):
    p = onnx.ModelProto()
    p.CopyFrom(models.build(plan['rec']).proto)
    g = p.graph
    for i, w in enumerate(plan['ws']):
        shape = SHAPES[w['s']]
        a = value(w, shape)
        # only a name that ends with a suffix belongs to an already quantised weight
        nm = ('qw%d', 'q_ot_scale%d', 'w_ot_q.%d', '_ot_z%d')[w.get('nm', 0)] % i
        g.initializer.append(numpy_helper.from_array(a, nm))
        et = helper.np_dtype_to_tensor_dtype(a.dtype)
        for j in range(w['n']):
            o = 'qo%d_%d' % (i, j)
            kind = w['kind'] if j == 0 else 'id'
            if kind == 'id':
                g.node.append(helper.make_node('Identity', [nm], [o], name='qn%d_%d' % (i, j)))
                oshape = shape
            else:
                tb = kind == 'gemm1'
                inner, cols = (shape[1], shape[0]) if tb else shape
                x = 'qx%d' % i
                g.input.append(helper.make_tensor_value_info(x, et, [2, inner]))
                if kind == 'matmul':
                    g.node.append(helper.make_node('MatMul', [x, nm], [o], name='qn%d_%d' % (i, j)))
                else:
                    at = {'transB': int(tb)} if tb or w['seed'] % 2 else {}
                    g.node.append(helper.make_node('Gemm', [x, nm], [o], name='qn%d_%d' % (i, j), **at))
                oshape = (2, cols)
            g.output.append(helper.make_tensor_value_info(o, et, oshape))
    for nm, a in (('q_int', np.arange(12).reshape(3, 4)), ('q_vec', np.arange(6, dtype=np.float32)), (
            'named_ot_q', np.ones((2, 2), np.float32))):
        g.initializer.append(numpy_helper.from_array(a, nm))
        g.node.append(helper.make_node('Identity', [nm], ['o_' + nm], name='n_' + nm))
        g.output.append(helper.make_tensor_value_info('o_' + nm, helper.np_dtype_to_tensor_dtype(a.dtype), a.shape))
    g.initializer.append(numpy_helper.from_array(np.ones((3, 3), np.float32), 'q_unused'))
    return p


def targets(g):
    return [t for t in g.initials if g.consumedby.get(t) and g.tensormap[t].numpy is not None and g.tensormap[t].numpy.ndim == 2 and
            g.tensormap[t].numpy.dtype.kind == 'f' and g.tensormap[t].numpy.size and not t.endswith(('_ot_q', '_ot_s', '_ot_z'))]


def assign(g, plan):
    """Parameters per weight; weights that share a consumer get the same."""
    ts = sorted(targets(g))
    grp = {t: t for t in ts}

    def find(t):
        while grp[t] != t:
            t = grp[t]
        return t
    for n in g.nodemap.values():
        mine = [t for t in n.input if t in grp]
        for a in mine[1:]:
            grp[find(a)] = find(mine[0])
    return {t: plan['cfgs'][ts.index(find(t)) % len(plan['cfgs'])] for t in ts}


class Flaky(np.ndarray):
    """A weight in memory-mapped storage: the n-th element access fails."""
    left = [None, None, False]

    def __getitem__(self, i):
        st = Flaky.left
        if st[0] is not None:
            st[0] -= 1
            if st[0] < 0:
                st[0] = None
                st[2] = True
                raise hist.mk_exc(st[1])
        r = np.ndarray.__getitem__(self, i)
        return r


def sig(g):
    d = oracle.graph_digest(g, shapes=True)
    d['tensors'] = {k: v for k, v in d['tensors'].items()}
    d['dynamics'] = sorted(g.dynamics)
    return d


def twin(data, todo):
    from onnx_tool import quantization
    m = hist.fresh_model(data)
    for t, c in todo:
        quantization.graph_quantize(m.graph, t, block=c['block'], type=c['type'], bits=c['bits'])
    return sig(m.graph)


def unpack(q, cols, signed):
    lo, hi = q & 15, q >> 4
    out = np.empty(q.shape[:-1] + (q.shape[-1] * 2,), np.int64)
    out[..., 0::2] = lo
    out[..., 1::2] = hi
    if signed:
        out = np.where(out > 7, out - 16, out)
    return out[..., :cols]


def groups(a, block):
    if block == 0:
        yield (slice(None), slice(None)), ()
    elif block == -1:
        for i in range(a.shape[0]):
            yield (slice(i, i + 1), slice(None)), (i,)
    else:
        for i in range(a.shape[0]):
            for b, j in enumerate(range(0, a.shape[1], block)):
                yield (slice(i, i + 1), slice(j, j + block)), (i, b)


def check_values(ctx, g, t, w, c, transposed):
    a = np.asarray(w, np.float64)
    if transposed:
        a = a.T
    q = np.asarray(g.tensormap[t + '_ot_q'].numpy)
    s = np.asarray(g.tensormap[t + '_ot_s'].numpy, np.float64)
    asym = c['type'] == 'asym'
    z = np.asarray(g.tensormap[t + '_ot_z'].numpy, np.int64) if asym else None
    want = ('uint8' if asym or c['bits'] == 4 else 'int8')
    ctx.check(str(q.dtype) == want, 'stored_type', lambda: '%s is %s, expected %s' % (t, q.dtype, want))
    if c['bits'] == 4:
        ctx.check(q.shape == (a.shape[0], (a.shape[1] + 1) // 2), 'stored_shape', lambda: '%s %r for weight %r' % (t, q.shape, a.shape))
        q = unpack(q, a.shape[1], not asym)
    else:
        ctx.check(q.shape == a.shape, 'stored_shape', lambda: '%s %r for weight %r' % (t, q.shape, a.shape))
        q = q.astype(np.int64)
    lay = () if c['block'] == 0 else a.shape[:1] if c['block'] == -1 else (a.shape[0], -(-a.shape[1] // c['block']))
    for w in [s] + ([z] if asym else []):
        ctx.check(w.shape == lay, 'scale_layout', lambda: '%s %r: scales or zero points %r, expected %r' % (t, c, w.shape, lay), '%s%d' % (c['type'], c['bits']))
    for sl, ix in groups(a, c['block']):
        b = a[sl]
        if asym:
            step = (max(b.max(), 0) - min(b.min(), 0)) / (2 ** c['bits'] - 1)
        else:
            step = np.abs(b).max() / (2 ** (c['bits'] - 1) - 1)
        sc = s[ix]
        deq = (q[sl] - (z[ix] if asym else 0)) * sc
        err = np.abs(deq - b).max()
        # 4-bit scales are stored in half precision, whose smallest step is 6e-8; a value is up to 15 scales large
        tol = step * (.5 + (.01 if c['bits'] == 4 else 1e-3)) + 1e-9 + (15 * 3.1e-8 if c['bits'] == 4 else 0)
        ctx.check(err <= tol, 'value_not_reproduced', lambda: '%s %r group %r: error %g, half a step is %g' % (t, c, ix, err, step / 2),
                  '%s%d' % (c['type'], c['bits']))
        if step > 0:
            ctx.check(abs(sc / step - 1) < (.01 if c['bits'] == 4 else 1e-3) or step < 1e-4, 'scale_wrong', lambda: '%s %r group %r: scale %g, expected %g' % (
                t, c, ix, sc, step), '%s%d' % (c['type'], c['bits']))


def run(plan, ctx):
    from onnx_tool import quantization
    p = make(plan)
    raw = p.SerializeToString(deterministic=True)
    m = hist.fresh_model(raw)
    g = m.graph
    cfg = assign(g, plan)
    all_t = sorted(cfg)
    orig = {t: np.array(g.tensormap[t].numpy) for t in all_t}
    cons = {t: list(dict.fromkeys(g.consumedby[t])) for t in all_t}
    tr = {t: g.nodemap[cons[t][0]].op_type in ('Gemm', 'MatMul') and not g.nodemap[cons[t][0]].attr.get('transB', 0) for t in all_t}
    done = []
    failed = 0
    ops = list(plan['ops'])
    for i, op in enumerate(ops):
        if op['op'] == 'save':
            r, _ = hist.call(ctx, lambda: m.save_model('q.onnx'))
            ctx.log(i, 'save', hist.exc_name(r))
            continue
        if op['op'] in ('read', 'digest'):
            g.get_initials_from_nodenames(list(g.nodemap))
            continue
        if not all_t:
            break
        t = all_t[op['w'] % len(all_t)]
        c = cfg[t]
        bad = op.get('bad')
        typ = c['type']
        if bad == 'type':
            typ = 'symmetric'
        elif bad == 'act':
            dy = [d for d in g.dynamics if d not in g.initials]
            t = dy[op['w'] % len(dy)]
        elif bad:
            t = {'int': 'q_int', 'vec': 'q_vec', 'unused': 'q_unused', 'suffix': 'named_ot_q'}[bad]
        before = sig(g)
        ten = g.tensormap.get(t)
        saved = ten.numpy if ten is not None else None
        restore = False
        Flaky.left = [None, None, False]
        if ten is not None and t in g.initials and t in cfg and not bad:
            if op.get('io'):
                ten.numpy = saved.view(Flaky)
                Flaky.left = [op['io'][0], op['io'][1], False]
                restore = True
            elif op.get('nan'):
                x = saved.copy()
                x.flat[op['w'] % x.size] = float(op['nan'])
                ten.numpy = x
                restore = True
        r, fired = hist.call(ctx, lambda: quantization.graph_quantize(g, t, block=c['block'], type=typ, bits=c['bits']),
                             alloc=op.get('alloc'))
        if Flaky.left[2]:
            ctx.fault('weight_access_' + op['io'][1])
            fired = fired + ['io']
        Flaky.left = [None, None, False]
        if restore and t in g.tensormap:
            ten.numpy = saved
        after = sig(g)
        ctx.log(i, t, c, bad, hist.exc_name(r), fired)
        ctx.state(c['type'], c['bits'], c['block'], bad or op.get('nan') or ('io' if op.get('io') else ''), hist.exc_name(r),
                  len(cons.get(t, [])), saved.shape[1] % 2 if saved is not None and saved.ndim == 2 else None)
        if r[0] == 'exc':
            failed += 1
            ctx.fault('attempt_fails')
            if not (fired or op.get('nan') or bad in ('type', 'unused')):
                ctx.violate('quantisation_fails', 'step %d %s %r: %s' % (i, t, c, short(r[1])), type(r[1]).__name__)
            ctx.check(after == before, 'failed_attempt_changes_graph', lambda: 'step %d %s %r %s: %s' % (
                i, t, c, short(r[1]), oracle.diff(before, after)), bad or '')
            continue
        ctx.check(bad != 'type' or t in done, 'unknown_scheme_accepted', lambda: 'step %d %r' % (i, typ))
        if bad or t in done:
            ctx.check(after == before, 'unsuitable_tensor_changed', lambda: 'step %d %s: %s' % (i, t, oracle.diff(before, after)), bad)
            continue
        if op.get('nan'):
            ctx.violate('nonfinite_weight_accepted', 'step %d %s with %s: quantised without complaint' % (i, t, op['nan']), op['nan'])
        done.append(t)
        names = [t + '_ot_q', t + '_ot_s'] + ([t + '_ot_z'] if c['type'] == 'asym' else [])
        # nothing but the target changes
        want_nodes = []
        for n in before['nodes']:
            ins = n[3]
            at = n[5]
            if t in ins:
                ins = tuple(y for x in ins for y in (names if x == t else [x]))
                at = dict(at)
                at.update({'OTQ_Block': ('i', c['block']), 'OTQ_Type': ('s', c['type']), 'OTQ_Bits': ('i', c['bits'])})
                at = tuple(sorted(at.items()))
            want_nodes.append((n[0], n[1], n[2], ins, n[4], at))
        ctx.check(after['nodes'] == want_nodes, 'nodes_after', lambda: 'step %d %s: %s' % (i, t, oracle.diff(want_nodes, after['nodes'])))
        ctx.check(set(after['initials']) == set(before['initials']) - {t} | set(names), 'weights_after', lambda: '%r' % oracle.diff(
            before['initials'], after['initials']))
        same = {k: v for k, v in before['tensors'].items() if k != t}
        ctx.check({k: v for k, v in after['tensors'].items() if k not in names} == same, 'other_tensor_changed',
                  lambda: oracle.diff(same, after['tensors']))
        badi = oracle.integrity(g, check_links=False)
        ctx.check(not badi, 'not_intact', lambda: '; '.join(badi[:3]))
        for nm in names:
            ctx.check(sorted(g.consumedby.get(nm, [])) == sorted(cons[t]), 'consumers_after', lambda: '%s is consumed by %r, the weight '
                      'was by %r' % (nm, g.consumedby.get(nm), cons[t]))
        check_values(ctx, g, t, orig[t], c, tr[t])
    todo = [(t, cfg[t]) for t in sorted(done)]
    want = isolated(twin, raw, todo)
    mine = sig(g)
    ctx.check(mine == want, 'order_dependent_graph', lambda: 'order %r: %s' % (done, oracle.diff(mine, want)))
    # what is stored survives a save
    m.save_model('end.onnx')
    q = onnx.ModelProto()
    q.ParseFromString(ctx.sb.disk.read_bytes('end.onnx'))
    got = oracle.proto_inits(q)
    for t, c in todo:
        for suf in ('_ot_q', '_ot_s') + (('_ot_z',) if c['type'] == 'asym' else ()):
            ctx.check(got.get(t + suf) == oracle.arr_sig(g.tensormap[t + suf].numpy), 'saved_tensor', lambda: '%s: %r vs %r' % (
                t + suf, got.get(t + suf), oracle.arr_sig(g.tensormap[t + suf].numpy)))
    for t in all_t:
        if t not in done:
            ctx.check(oracle.arr_sig(g.tensormap[t].numpy) == oracle.arr_sig(orig[t]), 'other_tensor_changed', lambda: t)
    ctx.log('end', sorted(done), sorted(got.items()))
    ctx.nontrivial = len(done) > 1 or failed > 0
