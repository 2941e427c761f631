"""P17: the shape engine agrees with direct inference after any update history."""
import copy
import random
from fractions import Fraction

import numpy as np

from .. import edits, hist, models, oracle
from ..core import isolated, short

RUNS = {'quick': 1300, 'thorough': 25000}
RULE = ('a seeded random model whose sizes depend on 1-3 variables, regressed over seeded ranges after a seeded history (failed '
        'and interrupted regressions included), and a seeded sequence of 4-16 engine operations: variables set in any order and '
        'repeatedly, recomputations interrupted at any executed line, queries, queries of derived inputs, serialisation, '
        'inferences, edits and plans of the graph in between; after every completed recomputation the shapes of all tensors are '
        'compared with direct inference by a fresh copy; non-trivial: more than one assignment was compared or a fault fired')
STATES = '(variables regressed, operation, outcome, operation before) tuples'
REAL = 'onnx_tool Graph.shape_regress, ShapeEngine, ValueExpr, shape inference, serialize_shape_engine'
STUB = 'clock, file device, standard output'
ASSUME = ['models in which each size is a whole multiple or a whole fraction of one variable plus a constant; what the engine '
          'cannot express (products of variables, slopes such as 3/2) is out of the class and skipped',
          'fractional sizes are queried at multiples of the divisor']
UNIT = {'N': 1, 'B': 1, 'M': 2, 'H': 8, 'W': 8, 'S': 8}    # total down-scaling a model may apply


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, branchy=True, need='SA', nlayers=(1, 12 if big else 7), fixed=False, family=rng.choice(
        ['img', 'img', 'img2', 'seq', 'mat', 'ids']))
    vars_ = models.VARS[rec['family']]
    live = [v for v in vars_ if rng.random() < .75] or [rng.choice(vars_)]
    ranges, fixedv = {}, {}
    for v in vars_:
        u = UNIT[v]
        a = rng.randint(1, 4 if u == 1 else 2)
        b = a + 2 * rng.randint(1, 3 if rec['family'] in ('seq', 'ids', 'mat') else 2)
        if v in live:
            ranges[v] = (a * u, b * u)
        else:
            fixedv[v] = a * u
    base = {v: ranges[v][0] if v in ranges else fixedv[v] for v in vars_}
    pts = [dict(base), {v: ranges[v][1] if v in ranges else fixedv[v] for v in vars_}]
    for v in ranges:
        pts.append(dict(base, **{v: sum(ranges[v]) // 2}))
        pts.append(dict(base, **{v: ranges[v][1]}))
    n0 = len(pts)
    for _ in range(rng.randint(2, 6 if big else 4)):
        q = dict(base)
        for v in ranges:
            lo, hi = ranges[v]
            u = UNIT[v] if rng.random() < .75 else 1
            q[v] = rng.randrange(lo, hi + 1, u)
        pts.append(q)
    sizes = [[p[v] for v in vars_] for p in pts]
    rec['sizes'] = sizes
    mcfg = {'constant_folding': True} if rng.random() < .2 else {}
    K = len(sizes)
    pre = hist.gen_history(rng, rng.randint(0, 3), K, {'regress': 2, 'save': .3, 'table': .2, 'reorder': 0}, intr=.4, allocp=.15)
    ops = []
    vs = sorted(ranges)
    for _ in range(rng.randint(3, 16 if big else 10)):
        r = rng.random()
        if r < .45:
            q = rng.randrange(n0 - 1, K)
            order = vs + ([rng.choice(vs)] if rng.random() < .3 else [])
            rng.shuffle(order)
            ops.append({'op': 'go', 'q': q, 'order': order, 'noise': rng.random() < .3})
        elif r < .6:
            ops.append({'op': 'set', 'v': rng.choice(vs), 'x': rng.randint(1, 64)})
        elif r < .75:
            ops.append({'op': 'upd', 'at': hist.log_at(rng, 2.5), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        elif r < .8:
            # sizes the sampled ones say nothing about, next to each other
            at = {v: rng.randint(1, 40) for v in vs}
            for _ in range(rng.randint(1, 3)):
                ops.append({'op': 'off', 'x': dict(at)})
                v = rng.choice(vs)
                at[v] = max(1, at[v] + rng.choice([-2, -1, 1, 1, 2, 8]))
        elif r < .82:
            ops.append({'op': 'ser'})
        elif r < .9:
            ops += hist.gen_history(rng, 1, K, {'reorder': 0}, intr=.2, allocp=0)
        else:
            ops.append(edits.gen(rng))
    ops.append({'op': 'go', 'q': K - 1, 'order': vs, 'noise': False})
    api = rng.randrange(1, 1000) if rng.random() < .4 else 0
    return {'rec': rec, 'mcfg': mcfg, 'api': api, 'ranges': {v: list(r) for v, r in ranges.items()}, 'fixed': fixedv, 'pre': pre, 'ops': ops,
            'n0': n0}


def args(b, ranges, fixedv):
    desc = {n: [fixedv.get(d, d) if isinstance(d, str) else d for d in dims] for n, dt, dims, _ in b.inputs}
    return desc, {v: tuple(r) for v, r in ranges.items()}


def direct(data, mcfg, feeds):
    """Direct inference at every size: {size index: {tensor: shape}}"""
    out = {}
    for k, x in feeds:
        m = hist.fresh_model(data, mcfg)
        m.graph.shape_infer(x)
        out[k] = {t: tuple(int(v) for v in m.graph.tensormap[t].get_shape()) for t in m.graph.dynamics}
    return out


def ask(se, tensors):
    """What the engine answers now, at any sizes"""
    out = {}
    for t in tensors:
        try:
            out[t] = tuple(int(v) for v in se.get_tensorshape(t))
        except Exception as e:
            out[t] = type(e).__name__
    return out


def twin_engine(data, mcfg, desc, rng_, pts, tensors):
    """A fresh engine, and what copies of it answer that were only ever given one assignment"""
    from .. import writers
    m = hist.fresh_model(data, mcfg)
    se = m.graph.shape_regress(desc, rng_)
    st = writers.engine_state(se)
    answers = []
    for pt in pts:
        e = copy.deepcopy(se)
        for v, x in pt.items():
            e.update_variable(v, x)
        e.update_variables()
        answers.append(ask(e, tensors))
    return st, answers


def fit(shapes, pts, vars_, n0, ranges):
    """{(tensor, axis): (variable or None, slope, constant)} or None when outside the class."""
    slopes = {}
    out = {}
    base = pts[0]
    col = {}
    j = 2
    for v in ranges:
        col[v] = (j, j + 1)
        j += 2
    for t, s0 in shapes[0].items():
        if any(len(shapes[k][t]) != len(s0) for k in range(n0)):
            return None
        for ax, d0 in enumerate(s0):
            dep = []
            for v in ranges:
                mid, hi = col[v]
                sl = Fraction(shapes[hi][t][ax] - d0, pts[hi][v] - base[v])
                if Fraction(shapes[mid][t][ax] - d0) != sl * (pts[mid][v] - base[v]):
                    return None
                if sl:
                    dep.append((v, sl))
            if len(dep) > 1:
                return None
            if dep:
                v, sl = dep[0]
                if sl < 0 or (sl.numerator != 1 and sl.denominator != 1):
                    return None
                slopes.setdefault(v, set()).add(sl)
                out[t, ax] = (v, sl, d0 - sl * base[v])
            else:
                out[t, ax] = (None, Fraction(0), Fraction(d0))
    for v, ss in slopes.items():
        for a in ss:
            for b in ss:
                q = a / b
                if q.numerator != 1 and q.denominator != 1:
                    return None
    return out


def fits(f, shape, pt):
    for t, s in shape.items():
        for ax, d in enumerate(s):
            v, sl, c = f[t, ax]
            if Fraction(d) != (sl * pt[v] if v else 0) + c:
                return False
    return True


def run(plan, ctx):
    import onnx_tool
    from onnx_tool import serialization
    from .. import writers
    s = hist.Session(ctx, plan['rec'], plan.get('mcfg'))
    g = s.m.graph
    vars_ = models.VARS[s.rec['family']]
    sizes = s.rec['sizes']
    K = len(sizes)
    n0 = 2 + 2 * len(plan['ranges'])
    if K < n0:
        from ..core import Discard
        raise Discard('sizes')
    pts = [dict(zip(vars_, z)) for z in sizes]
    nfired = 0
    for i, op in enumerate(plan['pre']):
        if 'k' in op:
            op = dict(op, k=op['k'] % K)
        r, fired = s.exec(op)
        nfired += len(fired)
        ctx.log('pre', i, op['op'], hist.exc_name(r), fired)
    shapes = isolated(direct, s.bytes, s.mcfg, [(k, models.zeros(s.b, k)) for k in range(K)])
    f = fit(shapes, pts, vars_, n0, plan['ranges'])
    if f is None:
        ctx.probe('outside_class')
        return
    good = [k for k in range(K) if fits(f, shapes[k], pts[k])]
    desc, rng_ = args(s.b, plan['ranges'], plan['fixed'])
    ctx.sb.take_warnings()
    r, _ = hist.call(ctx, lambda: g.shape_regress(desc, rng_))
    if r[0] == 'exc':
        ctx.violate('regression_fails', short(r[1]), type(r[1]).__name__)
    se = r[1]
    tensors = [t for t in shapes[0]]
    live = [{v: pt[v] for v in plan['ranges']} for pt in pts]
    offs = [op['x'] for op in plan['ops'] if op['op'] == 'off']
    want, alone = isolated(twin_engine, s.bytes, s.mcfg, *args(s.b, plan['ranges'], plan['fixed']), live + offs, tensors)
    noff = K
    mine = writers.engine_state(se)
    ctx.check(mine == want, 'engine_depends_on_history', lambda: oracle.diff(mine, want))
    ctx.log('engine', sorted(mine['e'].items()), sorted((k, v) for k, v in mine['d'].items()))
    prev = 'regress'
    compared = set()
    clean = False
    for i, op in enumerate(plan['ops']):
        kind = op['op']
        if kind == 'off' and set(op['x']) != set(plan['ranges']):
            noff += 1
            continue
        if kind == 'go':
            q = op['q'] % K
            pt = pts[q]
            for v in op['order']:
                if v not in plan['ranges']:
                    continue
                if op.get('noise'):
                    se.update_variable(v, pt[v] + 7)
                se.update_variable(v, pt[v])
            for v in plan['ranges']:
                if v not in op['order']:
                    se.update_variable(v, pt[v])
            r, _ = hist.call(ctx, se.update_variables)
            if r[0] == 'exc':
                ctx.violate('recomputation_fails', 'step %d: %s' % (i, short(r[1])), type(r[1]).__name__)
            ctx.state(len(plan['ranges']), kind, prev, hist.exc_name(r))
            if q in good:
                for t in tensors:
                    try:
                        got = tuple(int(v) for v in se.get_tensorshape(t))
                    except Exception as e:
                        ctx.violate('no_shape', 'step %d: shape of %r at %r: %s' % (i, t, pt, short(e)), type(e).__name__)
                    ctx.check(got == shapes[q][t], 'engine_shape_wrong', lambda: 'step %d: %r at %r is %r, direct inference %r '
                              '(%r)' % (i, t, pt, got, shapes[q][t], se.tensor_desc[t]))
                gi = se.generate_input()
                for n, dt, dims, sh in s.b.inputs:
                    ctx.check(gi[n].shape == tuple(sh[q]), 'generated_input', lambda: '%r at %r: %r' % (n, pt, gi[n].shape))
                compared.add(q)
            else:
                ctx.probe('outside_class_query')
            got = ask(se, tensors)
            ctx.check(got == alone[q], 'answer_depends_on_history', lambda: 'step %d at %r: %s' % (i, live[q], oracle.diff(got, alone[q])))
        elif kind == 'off':
            for v, x in op['x'].items():
                se.update_variable(v, x)
            r, _ = hist.call(ctx, se.update_variables)
            if r[0] == 'exc':
                ctx.violate('recomputation_fails', 'step %d: %s' % (i, short(r[1])), type(r[1]).__name__)
            got = ask(se, tensors)
            ctx.check(got == alone[noff], 'answer_depends_on_history', lambda: 'step %d at %r: %s' % (
                i, op['x'], oracle.diff(got, alone[noff])))
            noff += 1
        elif kind == 'set':
            se.update_variable(op['v'], op['x'])
        elif kind == 'upd':
            r, fired = hist.call(ctx, se.update_variables, op['at'], op['exc'])
            nfired += len(fired)
            ctx.state(len(plan['ranges']), kind, hist.exc_name(r), prev)
        elif kind == 'ser':
            b4 = writers.engine_state(se)
            serialization.serialize_shape_engine(se, 'e.bin')
            ctx.check(writers.engine_state(se) == b4, 'engine_changed_by_serialisation', lambda: oracle.diff(b4, writers.engine_state(se)))
        elif kind == 'edit':
            e = edits.prepare(g, op, uid=i)
            if e:
                r, _ = hist.call(ctx, e.call)
        else:
            if 'k' in op:
                op = dict(op, k=op['k'] % K)
            try:
                r, fired = s.exec(op)
            except IndexError:
                continue
            nfired += len(fired)
        st = writers.engine_state(se)
        ctx.check(st['d'] == mine['d'] and st['e'] == mine['e'] and st['i'] == mine['i'], 'engine_changed_afterwards',
                  lambda: 'step %d %s: %s' % (i, kind, oracle.diff(mine, st)), kind)
        prev = kind
        ctx.log(i, kind)
    if plan.get('api') and not s.rec.get('ifs'):
        # the same model, its nodes in no particular order, by the call that takes a model
        import onnx
        p = onnx.ModelProto()
        p.ParseFromString(s.bytes)
        nodes = list(p.graph.node)
        random.Random(plan['api']).shuffle(nodes)
        del p.graph.node[:]
        p.graph.node.extend(nodes)
        r, _ = hist.call(ctx, lambda: onnx_tool.model_shape_regress(p, *args(s.b, plan['ranges'], plan['fixed'])))
        if r[0] == 'exc':
            ctx.violate('regression_fails', 'of the unsorted model: %s' % short(r[1]), type(r[1]).__name__)
        se, cg = r[1]
        for q in good:
            for v in plan['ranges']:
                se.update_variable(v, pts[q][v])
            se.update_variables()
            got = ask(se, tensors)
            ctx.check(got == shapes[q], 'engine_shape_wrong', lambda: 'unsorted model at %r: %s' % (pts[q], oracle.diff(got, shapes[q])))
        ctx.log('api', len(good), len(cg.nodemap))
    ctx.nontrivial = len(compared) > 1 or nfired > 0
