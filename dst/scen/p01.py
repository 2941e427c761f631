"""P01: a saved model reloads as the same model, whatever happened before the save."""
import numpy as np
import onnx

from .. import edits, hist, models, oracle
from ..core import isolated, short

RUNS = {'quick': 1500, 'thorough': 30000}
RULE = ('a seeded random model (custom-domain operators with every attribute kind, weights of all types, awkward, missing or '
        'repeated names), a seeded history of API calls and graph edits with interruptions and refused allocations, failing '
        'saves (open, partial write, full disk, close, frozen device), retries and save/reload cycles; every save that '
        'returns is compared with the in-memory model, the original model and its weightless variants, and executed by the '
        'reference evaluator; non-trivial: the history contains a fault, an edit or a reload')
STATES = '(last operation before the save, its outcome, save variant, device behaviour) tuples'
REAL = 'onnx_tool Model/Graph/Node/Tensor, onnx serialisation, io.BufferedWriter'
STUB = 'file device, clock, standard output; the reference evaluator is onnx.reference'
ASSUME = ['graph inputs no node uses, metadata and local functions are not kept by design']


def disk_spec(rng):
    r = rng.random()
    if r < .5:
        return [{'op': 'short', 'sizes': [rng.choice([1, 2, 7, 64, 511, 4096]) for _ in range(rng.randint(1, 3))]}]
    if r < .6:
        return [{'op': 'eintr', 'nth': rng.randint(0, 1)}]
    if r < .7:
        return [{'op': 'open', 'nth': 0, 'err': rng.choice(['EACCES', 'ENOSPC', 'EMFILE'])}]
    if r < .8:
        return [{'op': 'write', 'nth': 0, 'err': rng.choice(['EIO', 'ENOSPC']), 'part': rng.choice([0, 10, 300])}]
    if r < .87:
        return [{'op': 'quota', 'bytes': rng.choice([0, 50, 500])}]
    if r < .93:
        return [{'op': 'close', 'nth': 0, 'err': 'EIO'}]
    return [{'op': 'crash', 'nth': 0, 'part': rng.choice([0, 100])}]


def gen(rng, tier, idx):
    big = tier == 'thorough'
    value = rng.random() < .45
    rec = models.gen_recipe(rng, branchy=True, ctl=rng.choice([0, 0, 0, .3, .6]), need='SV' if value else 'S', nlayers=(1, 14 if big else 8), fixed=rng.random() < .3)
    if rng.random() < .3:
        rec['custom'] = [rng.randrange(1000) for _ in range(rng.randint(1, 3))]
    if rng.random() < .1:
        rec['names'] = 'odd'
    if rng.random() < .15:
        rec['shuffle'] = rng.randrange(1000)
    for _ in range(rng.randint(0, 2)):
        rec['layers'].insert(rng.randint(0, len(rec['layers'])), {
            'op': 'typedconst', 'in': [rng.randrange(4), 0, 0], 'p': rng.randrange(720), 'share': False})
    mcfg = {}
    if rng.random() < .15:
        mcfg['constant_folding'] = True
    if rng.random() < .08:
        mcfg['node_rename'] = True
    K = len(rec['sizes'])
    kinds = rng.choice([None, edits.PRESERVING, edits.KINDS])
    ops = []
    for _ in range(rng.randint(0, 12 if big else 7)):
        r = rng.random()
        if r < .2 and kinds:
            ops.append(edits.gen(rng, kinds))
        elif r < .35:
            ops.append({'op': 'cycle', 'how': rng.choice(['path', 'proto', 'Path']), 'disk': disk_spec(rng) if rng.random() < .4 else None})
        elif r < .5:
            ops.append({'op': 'save', 'f': rng.choice(['s.onnx', 'final.onnx']), 'so': rng.random() < .3, 'ns': rng.random() < .3,
                        'disk': disk_spec(rng)})
        elif r < .6:
            ops.append({'op': rng.choice(['reshapeinit', 'setw', 'setw', 'setattr']), 'n': rng.randrange(40)})
        else:
            ops += hist.gen_history(rng, 1, K, {'regress': .4})
    return {'rec': rec, 'mcfg': mcfg, 'ops': ops, 'value': value, 'k': rng.randrange(K), 'd': rng.randrange(50),
            'disk': [{'op': 'short', 'sizes': [rng.choice([1, 3, 100, 1000])]}] if rng.random() < .5 else
            ([{'op': 'eintr', 'nth': 0}] if rng.random() < .3 else None),
            'older': rng.choice([None, 0, 5, 200000])}


def parse(data):
    p = onnx.ModelProto()
    p.ParseFromString(data)
    return p


def mem_nodes(g):
    """What the graph's nodes are, seen through the attributes an API user sees."""
    out = []
    for n in g.nodemap.values():
        at = tuple(sorted((k, norm(v)) for k, v in n.attr.items() if v is not None))
        out.append((n.name, n.op_type, n.domain, tuple(n.input), tuple(n.output), at))
    return out


def norm(v):
    return oracle.norm_attr(v)


def saved_nodes(p):
    return oracle.proto_nodes(p)


def tail(nodes):
    return [n[1:] for n in nodes]


def mem_inits(g):
    used = {i for n in g.nodemap.values() for i in n.input}
    return {t: oracle.arr_sig(g.tensormap[t].numpy) for t in g.initials if t in used and g.tensormap[t].numpy is not None}


def elem(p):
    return {v.name: v.type.tensor_type.elem_type for v in list(p.graph.input) + list(p.graph.output)}


def twin_outputs(data, inputs):
    return oracle.ref_run(parse(data), inputs)


def check_save(ctx, s, m, orig, data, st, label, last):
    """data: bytes of a completed full save of model wrapper m."""
    g = m.graph
    ctx.check(data is not None, 'save_returned_without_file', lambda: label)
    try:
        p = parse(data)
    except Exception as e:
        ctx.violate('saved_file_unreadable', '%s: %s' % (label, short(e)))
    a, b = saved_nodes(p), mem_nodes(g)
    ctx.check(a == b, 'saved_nodes_differ', lambda: '%s: file vs memory %s' % (label, oracle.diff(a, b)), last)
    ia, ib = oracle.proto_inits(p), mem_inits(g)
    ctx.check(ia == ib, 'saved_weights_differ', lambda: '%s: file vs memory %s' % (label, oracle.diff(ia, ib)), last)
    ins = [v.name for v in p.graph.input]
    used = {i for n in g.nodemap.values() for i in n.input if i}
    extra = [t for t in g.initials if t in used and g.tensormap[t].numpy is None]
    ctx.check(ins == list(g.input) + extra, 'saved_inputs_differ', lambda: '%s: file %r memory %r' % (label, ins, g.input), last)
    outs = [v.name for v in p.graph.output]
    ctx.check(outs == list(g.output), 'saved_outputs_differ', lambda: '%s: file %r memory %r' % (label, outs, g.output), last)
    ctx.check([(o.domain, o.version) for o in p.opset_import] == [(o.domain, o.version) for o in orig.opset_import] and
              p.ir_version == orig.ir_version, 'saved_versions_differ', lambda: '%s: %r' % (label, list(p.opset_import)))
    for v in list(p.graph.value_info) + list(p.graph.input) + list(p.graph.output):
        t = g.tensormap.get(v.name)
        sig = oracle.vi_sig(v)
        mem = t and tuple(None if not isinstance(x, str) and x < 0 else x for x in oracle.shape_sig(t))
        ctx.check(t is not None and (sig[2] is None or sig[2] == mem), 'saved_shape_differs',
                  lambda: '%s: %r, memory %r' % (label, sig, mem), last)
    if st['structure']:
        o = [n for n in saved_nodes(orig)]
        if st['reordered']:
            x, y = sorted(map(repr, tail(a))), sorted(map(repr, tail(o)))
        else:
            x, y = tail(a), tail(o)
            if st['named']:
                x, y = a, o
        ctx.check(x == y, 'saved_nodes_not_original', lambda: '%s: file vs original %s' % (label, oracle.diff(x, y)), last)
        used = {i for n in orig.graph.node for i in n.input}
        oi = {k: v for k, v in oracle.proto_inits(orig).items() if k in used}
        ctx.check(ia == oi, 'saved_weights_not_original', lambda: '%s: file vs original %s' % (label, oracle.diff(ia, oi)), last)
        it = set(oi)
        oins = [v.name for v in orig.graph.input if v.name not in it]
        oins = [i for i in oins if i in used]
        ctx.check(ins == oins, 'saved_inputs_not_original', lambda: '%s: file %r original %r' % (label, ins, oins), last)
        ctx.check(outs == [v.name for v in orig.graph.output], 'saved_outputs_not_original', lambda: '%s: %r' % (label, outs), last)
        eo, en = elem(orig), elem(p)
        bad = {k: (en[k], eo.get(k)) for k in en if en[k] != eo.get(k)}
        ctx.check(not bad, 'saved_io_type_not_original', lambda: '%s: %r' % (label, bad), last)
    return p


def variants(ctx, s, m, data, full, label, disk):
    """The weightless and the shapeless saves differ from the full one only in what they leave out."""
    for so, ns in ((True, False), (False, True), (True, True)):
        (r, fired) = hist.call(ctx, lambda: m.save_model('v.onnx', shape_only=so, no_shape=ns), disk=disk)
        if r[0] == 'exc':
            ctx.violate('variant_not_saved', '%s %s' % (label, short(r[1])))
        v = parse(ctx.sb.disk.read_bytes('v.onnx'))
        w = 'shape_only=%s no_shape=%s %s' % (so, ns, label)
        ctx.check(saved_nodes(v) == saved_nodes(full), 'variant_nodes_differ',
                  lambda: '%s: %s' % (w, oracle.diff(saved_nodes(v), saved_nodes(full))))
        ctx.check([o.name for o in v.graph.output] == [o.name for o in full.graph.output], 'variant_outputs_differ', lambda: w)
        fi = [oracle.vi_sig(x) for x in full.graph.input]
        vi = [oracle.vi_sig(x) for x in v.graph.input]
        if so:
            ctx.check(len(v.graph.initializer) == 0, 'variant_has_weights', lambda: w)
            ctx.check(vi[:len(fi)] == fi, 'variant_inputs_differ', lambda: '%s: %r, full %r' % (w, vi, fi))
            ini = oracle.proto_inits(full)
            rest = {x[0]: x for x in vi[len(fi):]}
            ctx.check(set(ini) <= set(rest), 'variant_misses_weight', lambda: '%s: %r' % (w, sorted(set(ini) - set(rest))))
            for k, sig in ini.items():
                e = onnx.helper.tensor_dtype_to_np_dtype(rest[k][1])
                ctx.check((rest[k][2] or ()) == sig[1] and str(np.dtype(e)) == sig[0], 'variant_weight_shape_differs',
                          lambda: '%s: %r, weight %r' % (w, rest[k], sig))
        else:
            ctx.check(oracle.proto_inits(v) == oracle.proto_inits(full) and vi == fi, 'variant_weights_differ', lambda: w)
        fv = [oracle.vi_sig(x) for x in full.graph.value_info]
        vv = [oracle.vi_sig(x) for x in v.graph.value_info]
        if ns:
            ctx.check(vv == [], 'variant_has_shapes', lambda: w)
        else:
            ctx.check(vv[:len(fv)] == fv, 'variant_shapes_differ', lambda: '%s: %s' % (w, oracle.diff(vv, fv)))


def run(plan, ctx):
    rec = plan['rec']
    s = hist.Session(ctx, rec, plan.get('mcfg'))
    orig = parse(s.b.proto.SerializeToString(deterministic=True))
    sb = ctx.sb
    m = s.m
    folding = bool(s.mcfg.get('constant_folding'))
    st = {'structure': not folding, 'reordered': rec.get('shuffle') is not None,
          'named': not rec.get('noname') and not rec.get('ifs') and not s.mcfg.get('node_rename'), 'function': plan['value'] and not rec.get('custom')}
    busy = False
    last = 'load'
    x = models.data(s.b, plan['k'], plan['d'])
    want = None
    for i, op in enumerate(plan['ops']):
        kind = op['op']
        g = m.graph
        if not g.nodemap:
            break
        if kind == 'edit':
            pres = op['e'] in edits.PRESERVING
            e = edits.prepare(g, op, uid=i, preserving=st['function'])
            if e is None:
                continue
            r, fired = hist.call(ctx, e.call)
            ctx.log(i, e.kind, hist.exc_name(r))
            last = 'edit ' + e.kind
            if r[0] == 'ok' and e.kind != 'refused':
                busy = True
                if e.kind == 'reorder':
                    st['reordered'] = True
                elif e.kind != 'add_init':
                    st['structure'] = False
                    if not (pres and (e.kind != 'skip' or st['function'])):
                        st['function'] = False
                if e.kind == 'rm_node':
                    # consumers of the removed node are left without a producer
                    if oracle.integrity(g, check_links=False):
                        return
            continue
        if kind == 'reshapeinit':
            # a caller hands a weight to the graph that it got elsewhere: any memory layout
            c = [t for t in g.initials if g.tensormap[t].numpy is not None and g.tensormap[t].numpy.ndim == 2]
            if c:
                t = g.tensormap[c[op['n'] % len(c)]]
                a = t.numpy
                t.numpy = np.asfortranarray(a) if op['n'] % 2 else np.repeat(a, 2, 1)[:, ::2]
                ctx.probe('weight_in_other_memory_layout')
            continue
        if kind == 'setw':
            # a caller changes a weight of the loaded model
            c = [t for t in g.initials if g.tensormap[t].numpy is not None and g.tensormap[t].numpy.ndim >= 2
                 and g.tensormap[t].numpy.dtype.kind == 'f']
            if c:
                t = c[op['n'] % len(c)]
                a = g.tensormap[t].numpy
                a = (a * 2 + (1 + op['n'])).astype(a.dtype)
                how = op['n'] % 3
                if how == 0:
                    g.tensormap[t].update_tensor(a)
                elif how == 1:
                    g.update_input_by_map({t: a})
                else:
                    g.tensormap[t].update_proto(a)
                st['structure'] = st['function'] = False
                last = 'setw'
                ctx.probe('weight_changed')
            continue
        if kind == 'setattr':
            c = [(n, k) for n in g.nodemap.values() for k, v in sorted(n.attr.items())
                 if isinstance(v, float) and k in ('alpha', 'epsilon', 'beta', 'gamma')]
            if c:
                n, k = c[op['n'] % len(c)]
                n.set_attr(k, float(np.float32(n.attr[k] + .25)))
                st['structure'] = st['function'] = False
                last = 'setattr'
                ctx.probe('attribute_changed')
            continue
        if kind == 'cycle':
            busy = True
            (r, fired) = hist.call(ctx, lambda: m.save_model('cycle.onnx'), disk=op.get('disk'))
            ctx.log(i, 'cycle', hist.exc_name(r), fired)
            if sb.disk.frozen:
                raise RuntimeError('frozen')
            last = 'cycle'
            if r[0] == 'exc':
                ctx.check(fired, 'save_fails', lambda: 'step %d: %s' % (i, short(r[1])), type(r[1]).__name__)
                continue
            data = sb.disk.read_bytes('cycle.onnx')
            check_save(ctx, s, m, orig, data, st, 'step %d cycle' % i, last)
            import onnx_tool
            import pathlib
            src = {'path': 'cycle.onnx', 'Path': pathlib.Path('cycle.onnx'), 'proto': parse(data)}[op['how']]
            before = (mem_nodes(g), mem_inits(g), list(g.input), list(g.output))
            m2 = onnx_tool.Model(src, dict(s.mcfg)) if s.mcfg else onnx_tool.Model(src)
            g2 = m2.graph
            after = (mem_nodes(g2), mem_inits(g2), list(g2.input), list(g2.output))
            if not s.mcfg.get('node_rename') and not folding:
                b2 = ([nonull(n) for n in before[0]],) + before[1:]
                a2 = ([nonull(n) for n in after[0]],) + after[1:]
                if any(x_[5] != y_[5] for x_, y_ in zip(b2[0], a2[0])):
                    ctx.violate('reload_attributes_differ', 'step %d: %s' % (i, oracle.diff(b2[0], a2[0])))
                used = {t for n in before[0] for t in n[3]}
                b2 = b2[:2] + ([t for t in before[2] if t in used],) + b2[3:]
                ctx.check(b2 == a2, 'reload_differs', lambda: 'step %d: %s' % (i, oracle.diff(b2, a2)))
            s.m = m = m2
            continue
        r, fired = s.exec(op)
        busy = busy or bool(fired) or kind == 'si_bad'
        if kind == 'reorder':
            st['reordered'] = True
        ctx.log(i, kind, hist.exc_name(r), fired)
        last = kind + ' ' + hist.exc_name(r)
        if kind == 'save':
            ctx.state(last, op['so'], op['ns'], tuple(fired))
            if r[0] == 'exc':
                ctx.check(fired, 'save_fails', lambda: 'step %d %r: %s' % (i, op, short(r[1])), type(r[1]).__name__)
            elif not op['so'] and not op['ns']:
                check_save(ctx, s, m, orig, sb.disk.read_bytes(op['f']), st, 'step %d' % i, last)
    g = m.graph
    if not g.nodemap:
        return
    if plan['older'] is not None:
        sb.disk.write_bytes('final.onnx', b'z' * plan['older'])
    r, fired = hist.call(ctx, lambda: m.save_model('final.onnx'), disk=plan['disk'])
    if r[0] == 'exc':
        ctx.violate('save_fails', 'final: %s' % short(r[1]), type(r[1]).__name__)
    data = sb.disk.read_bytes('final.onnx')
    full = check_save(ctx, s, m, orig, data, st, 'final', last)
    ctx.state(last, 'final', tuple(fired), folding)
    variants(ctx, s, m, data, full, 'final', plan['disk'])
    m.save_model('again.onnx')
    ctx.check(sb.disk.read_bytes('again.onnx') == data, 'second_save_differs', lambda: 'saving twice gives different bytes')
    if st['function']:
        from ..core import isolated
        ins = {k: v for k, v in x.items()}
        want = oracle.ref_run(orig, ins)
        got = oracle.ref_run(full, ins, [o.name for o in orig.graph.output])
        for o in want:
            d = oracle.close(got[o], want[o])
            if d:
                # rounding that Floor, ArgMax... amplify is no difference: check every node on its own
                vals = oracle.ref_all(orig, ins)
                d = oracle.stepwise(full, ins, lambda nm: vals.get(nm))
                ctx.probe('rounding_amplified')
            ctx.check(not d, 'saved_model_computes_other_outputs', lambda: 'output %s: %s' % (o, d), last)
        ctx.probe('executed')
    ctx.log('final', saved_nodes(full), sorted(oracle.proto_inits(full).items()), [oracle.vi_sig(v) for v in full.graph.value_info])
    ctx.nontrivial = busy


def nonull(n):
    return n[:5] + (tuple(a for a in n[5] if a[1] is not None),)
