"""P04: deployment artefacts decode to the state they were made from."""
import math

import numpy as np

from .. import edits, hist, models, oracle, writers
from ..core import Discard, short
from ..simdisk import SimCrash

RUNS = {'quick': 1500, 'thorough': 25000}
RULE = ('a seeded random model with a seeded history of inference calls, graph edits and interrupted calls; one artefact (compute graph, '
        'shape engine, memory plan) written 1-4 times on a device with partial writes, interruptions and errors, with engine updates, '
        'further inference and unrepresentable content between the writes; every file of a call that returned is decoded by an independent '
        'decoder; non-trivial: at least one file was decoded')
STATES = '(artefact, step kinds so far, outcome) tuples'
REAL = 'serialization.py, get_compute_graph, shape_regress, ShapeEngine, compress_memory, all graph processing before the write'
STUB = 'file device under the io buffers, clock, standard output'
ASSUME = ['the little-endian layout of serialization.py as read at the pinned commit is the documented format',
          'a consumer evaluates the decoded expressions in double precision']

KINDS = {'cg': 3, 'se': 3, 'cm': 1.5, 'se_hand': 1}


def gen(rng, tier, idx):
    big = tier == 'thorough'
    kind = rng.choices(list(KINDS), list(KINDS.values()))[0]
    rec = models.gen_recipe(rng, need='S', nlayers=(1, 12 if big else 7), fixed=rng.random() < .2)
    K = len(rec['sizes'])
    ops = []
    for _ in range(rng.randint(0, 6 if big else 4)):
        if kind == 'cg' and rng.random() < .5:
            ops.append(edits.gen(rng, {'rm_dangling': 1, 'skip': 1, 'add_dump': 1, 'reorder': 1, 'fuse_names': 1, 'chain': .5,
                                       'postop': .5, 'convbn': .7, 'quant': 1.5, 'add_init': 1}))
        else:
            ops.append(hist.gen_op(rng, rng.choice(['si', 'vi', 'prof', 'save', 'reorder', 'cg', 'regress', 'plan']), K))
    steps = []
    for _ in range(rng.randint(1, 4)):
        for _ in range(rng.randint(0, 4)):
            steps.append({'s': rng.choice(['set', 'set', 'upd', 'infer', 'query']), 'v': rng.randrange(8), 'x': rng.randrange(1, 40),
                          'k': rng.randrange(K), 'at': rng.randrange(1, 40) if rng.random() < .3 else None})
        st = {'s': 'write'}
        r = rng.random()
        if r < .35:
            st['disk'] = [{'op': 'short', 'sizes': [rng.choice([1, 7, 100, 5000])]}]
            if rng.random() < .5:
                st['disk'].append({'op': 'eintr', 'nth': rng.randrange(2)})
        elif r < .45:
            st['disk'] = [{'op': rng.choice(['write', 'close', 'open']), 'nth': 0, 'err': 'EIO', 'part': 3}]
        elif r < .6:
            st['unenc'] = rng.randrange(720)
        steps.append(st)
    hand = {'dims': rng.randint(1, 3), 'nt': rng.randint(1, 5), 'x': [rng.randrange(1 << 20) for _ in range(70)]}
    return {'rec': rec, 'kind': kind, 'ops': ops, 'k': rng.randrange(K), 'a': rng.randrange(720), 'steps': steps, 'hand': hand,
            'probe': [rng.randrange(1, 65) for _ in range(8)]}


def hand_engine(h):
    """An engine put together by its user, through the public methods."""
    from onnx_tool.graph import ShapeEngine, ValueExpr
    x = iter(h['x'])
    names = ['N', 'H', 'W', 'länge'][:h['dims'] + 1]
    se = ShapeEngine({'in%d' % i: [1 + next(x) % 4] + [n] for i, n in enumerate(names)})
    for n in names:
        se.update_variable(n, 1 + next(x) % 50)
    vs = list(names)
    for i in range(h['nt']):
        a, b = 1 + next(x) % 30, 31 + next(x) % 60
        m, c = 1 + next(x) % 5, next(x) % 9 - 3
        src = [a, (a + b) // 2, b]
        dst = [v * m + c for v in src] if next(x) % 2 else [-(-v // m) + c for v in src]
        if dst[-1] == dst[0]:
            continue
        se.add_expr('v%d' % i, vs[next(x) % len(vs)], ValueExpr(src, dst))
        vs.append('v%d' % i)
        se.add_tensor_desc('t%d/é' % i, [next(x) % 100, 'v%d' % i, vs[next(x) % len(vs)], 2 ** 31 - 1][: 1 + next(x) % 4])
    return se, names


def plain(v):
    """What the binary format keeps of an attribute: a list of values of one kind."""
    if not isinstance(v, (list, tuple)):
        v = [v]
    out = []
    for x in v:
        if isinstance(x, bytes):
            x = x.decode('utf-8')
        if isinstance(x, (bool, np.bool_)):
            x = int(x)
        if isinstance(x, float):
            x = float(np.float32(x))
        out.append(x)
    return out


def check_cg(ctx, cg, data):
    try:
        nodes, inits = oracle.decode_cg(data)
    except ValueError as e:
        ctx.violate('not_decodable', 'compute graph: %s' % e, 'cg')
    want = [(k, n.op_type, list(n.input), list(n.output), {a: plain(v) for a, v in n.attr.items()}) for k, n in cg.nodemap.items()]
    ctx.check(repr(nodes) == repr(want), 'decoded_nodes', lambda: '%r' % oracle.diff(nodes, want)[:3], 'cg')
    a = {k: oracle.arr_sig(v) for k, v in inits.items()}
    b = {k: oracle.arr_sig(cg.tensormap[k].numpy) for k in cg.initials}
    ctx.check(a == b and list(a) == list(cg.initials), 'decoded_weights', lambda: '%r' % oracle.diff(a, b)[:3], 'cg')


def evaluate(dec, vals):
    variables, desc, expr = dec
    v = dict(vals)
    for name, (src, a, b, factor, trunc) in expr.items():
        y = a * v[src] + b if factor == 0 else v[src] / a + b
        v[name] = math.floor(y) if trunc else math.ceil(y)
    return {t: [d if isinstance(d, int) else v[d] for d in ds] for t, ds in desc.items()}


def check_se(ctx, se, data, base, probes):
    try:
        dec = oracle.decode_se(data)
    except ValueError as e:
        ctx.violate('not_decodable', 'shape engine: %s' % e, 'se')
    variables, desc, expr = dec
    ctx.check(variables == list(se.variables), 'decoded_variables', lambda: '%r, in memory %r' % (variables, list(se.variables)), 'se')
    ctx.check(desc == {k: list(v) for k, v in se.tensor_desc.items()}, 'decoded_descriptions',
              lambda: '%r' % oracle.diff(desc, {k: list(v) for k, v in se.tensor_desc.items()})[:3], 'se')
    mem = {k: (v[0], float(v[1].alpha), float(v[1].beta), v[1].factor, v[1].truncmode) for k, v in se.tensor_epxr.items()}
    ctx.check(list(expr) == list(mem) and expr == mem, 'decoded_expressions', lambda: '%r' % oracle.diff(expr, mem)[:3], 'se')
    keep = dict(se.variables)
    for i in range(0, len(probes) - len(base) + 1):
        vals = {n: probes[i + j] for j, n in enumerate(base)}
        for n in base:
            se.update_variable(n, vals[n])
        se.update_variables()
        got = evaluate(dec, vals)
        bad = [(t, se.get_tensorshape(t), got[t]) for t in se.tensor_desc if se.get_tensorshape(t) != got[t]]
        ctx.check(not bad, 'decoded_engine_differs', lambda: 'at %r tensor %r: in memory %r, decoded %r' % ((vals,) + bad[0]), 'se')
        ctx.probe('engine_points')
    se.variables.clear()
    se.variables.update(keep)


def check_cm(ctx, obj, data):
    try:
        size, blocks, mx = oracle.decode_cm(data)
    except ValueError as e:
        ctx.violate('not_decodable', 'memory plan: %s' % e, 'cm')
    plan, mxs = obj
    ctx.check(size == plan[1] and blocks == {k: [int(a) for a in v[:2]] for k, v in plan[0].items()} and mx == mxs, 'decoded_plan',
              lambda: '%r' % oracle.diff([size, blocks, mx], [plan[1], {k: list(v[:2]) for k, v in plan[0].items()}, mxs])[:3], 'cm')


def run(plan, ctx):
    sb = ctx.sb
    s = hist.Session(ctx, plan['rec'])
    g = s.m.graph
    inferable = True
    for i, op in enumerate(plan['ops']):
        if op['op'] == 'edit':
            e = edits.prepare(g, op, uid=i)
            if e is None:
                continue
            r, _ = hist.call(ctx, e.call)
            inferable = inferable and e.kind in edits.PRESERVING and e.kind != 'skip'
            if e.kind == 'quant':
                inferable = False
        elif inferable:
            s.exec(op)
    if inferable:
        g.graph_reorder_nodes()
        g.shape_infer(s.inputs(plan['k']))
    kind = plan['kind']
    if kind == 'se_hand':
        se, base = hand_engine(plan['hand'])
        from onnx_tool import serialization
        wr = writers.Writer('se', lambda: serialization.serialize_shape_engine(se, 'o.se'), ['o.se'], lambda: writers.engine_state(se),
                            obj=se)
    else:
        if kind != 'cg' and not inferable:
            raise Discard('not inferable')
        wr = writers.make(ctx, s, {'w': kind, 'a': plan['a'], 'how': 'proto'}, plan['k'])
        base = list(s.b.vars)
    f = wr.targets[0]
    done = 0
    seen = []
    for i, st in enumerate(plan['steps']):
        seen.append(st['s'])
        if st['s'] != 'write':
            if wr.kind == 'se' and base:
                se = wr.obj
                if st['s'] == 'set':
                    se.update_variable(base[st['v'] % len(base)], st['x'])
                elif st['s'] == 'upd' and all(b in se.variables for b in base):
                    r, _ = hist.call(ctx, se.update_variables, st['at'], 'KeyboardInterrupt')
                elif st['s'] == 'query' and all(b in se.variables for b in base):
                    t = list(se.tensor_desc)[st['v'] % len(se.tensor_desc)]
                    se.get_tensorshape(t)
            if st['s'] == 'infer' and inferable and kind != 'se_hand':
                g.shape_infer(s.inputs(st['k']))
            continue
        undo = None
        if 'unenc' in st:
            undo = writers.spoil(wr, st['unenc'])
            if undo is None:
                continue
            ctx.fault('content_not_representable')
        before = wr.state()
        try:
            r, fired = hist.call(ctx, wr.fn, disk=st.get('disk'))
            if r[0] == 'ok':
                data = sb.disk.read_bytes(f)
                if undo is None:
                    {'cg': check_cg, 'cm': check_cm}.get(wr.kind, lambda c, o, d: check_se(c, o, d, base, plan['probe']))(
                        ctx, wr.obj, data)
                    done += 1
                    ctx.log(i, oracle.hashlib.sha256(data).hexdigest())
                else:
                    ctx.violate('unrepresentable_content_written', '%s %r' % (wr.kind, st), wr.kind)
            elif not undo and not fired:
                if 'can not be stored' in str(r[1]) or 'Unsupported d' in str(r[1]):
                    refused_rightly(ctx, wr, r[1])
                else:
                    ctx.violate('writer_fails_without_fault', '%s: %s' % (wr.kind, short(r[1])), wr.kind)
            ctx.check(wr.state() == before, 'write_changes_state', lambda: '%s: %r' % (wr.kind, oracle.diff(before, wr.state())[:3]), wr.kind)
        finally:
            if undo:
                undo()
        ctx.state(wr.kind, tuple(seen[-4:]), hist.exc_name(r), bool(fired))
        ctx.log(i, st, hist.exc_name(r), fired)
    ctx.nontrivial = done > 0


def refused_rightly(ctx, wr, e):
    """A refusal without injected content: the graph itself must hold something outside the format."""
    if wr.kind == 'cg':
        ok_dt = {'float32', 'float16', 'int32', 'int8', 'uint8', 'int64'}
        for t in wr.obj.initials:
            a = wr.obj.tensormap[t].numpy
            if a is None or np.asarray(a).dtype.name not in ok_dt:
                ctx.probe('refused_dtype')
                return
        for n in wr.obj.nodemap.values():
            for v in n.attr.values():
                vs = v if isinstance(v, (list, tuple)) else [v]
                if not all(isinstance(x, (int, float, str, bytes)) for x in vs) or len({type(x) for x in vs}) > 1 or len(vs) == 0:
                    ctx.probe('refused_attribute')
                    return
    ctx.violate('representable_content_refused', '%s: %s' % (wr.kind, short(e)), wr.kind)
