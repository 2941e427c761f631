"""P14: rewrites that are meant to preserve the computed function do preserve it."""
import numpy as np

from .. import edits, hist, models, oracle
from ..core import short
from ..simdisk import SimCrash

RUNS = {'quick': 1100, 'thorough': 25000}
RULE = ('a seeded random model (node list in order or shuffled) and a seeded sequence of 2-8 function-preserving rewrites '
        '(constant folding, node renaming, reordering, dangling-node removal, skipping identities, batch-normalisation folding, '
        'dump outputs, save and reload, the file-level folding and reordering calls) with inferences, failed saves and crashes '
        '(at any executed line or write; the process restarts from the last complete file) in between; after every rewrite the '
        'outputs are computed and compared with a reference execution of the original model; '
        'non-trivial: at least one rewrite changed the graph or a crash happened')
STATES = '(rewrite, outcome, rewrite before, whether the graph changed) tuples'
REAL = 'onnx_tool Model/Graph/Node/Tensor, fusion, serialisation through onnx'
STUB = 'clock, file device (in memory), standard output; reference outputs from onnx.reference'
ASSUME = ['outputs are compared up to float rounding (onnx.reference on the original model)',
          'operators outside the generated vocabulary are not exercised']

REWRITES = {'edit': 5, 'reload': 2, 'fold': 1, 'api_fold': .8, 'rename': .8, 'api_reorder': .8, 'crash': 1, 'hist': 2.5}


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, branchy=True, ctl=rng.choice([0, 0, 0, .3, .6]), need='SV', nlayers=(1, 12 if big else 8), fixed=rng.random() < .15)
    if rng.random() < .4:
        rec['shuffle'] = rng.randrange(1000)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        rec['layers'].insert(rng.randint(0, len(rec['layers'])), {
            'op': rng.choice(['convbn', 'convbn', 'convbnshare', 'convbnshare', 'dropout', 'dead', 'reshapeconst', 'unsqueeze', 'identity']), 'in': [
                rng.randrange(4), 0, 0], 'p': rng.randrange(720), 'share': rng.random() < .2})
    mcfg = {}
    if rng.random() < .2:
        mcfg['constant_folding'] = True
    if rng.random() < .1:
        mcfg['node_rename'] = True
    if rng.random() < .15:
        mcfg['remove_dangling'] = False
    K = len(rec['sizes'])
    ops = []
    for _ in range(rng.randint(2, 12 if big else 7)):
        k = rng.choices(list(REWRITES), list(REWRITES.values()))[0]
        if k == 'hist':
            ops += hist.gen_history(rng, 1, K, {'regress': 0, 'reorder': 0}, intr=.3, allocp=.1)
            continue
        if k == 'edit':
            ops.append(edits.gen(rng, edits.PRESERVING))
            continue
        o = {'op': k, 'slot': rng.randrange(2)}
        if k == 'reload':
            o['ns'] = rng.random() < .4
            if rng.random() < .4:
                o['disk'] = [{'op': rng.choice(['write', 'open', 'close']), 'nth': 0, 'err': rng.choice(['EIO', 'ENOSPC'])}]
            o['short'] = rng.random() < .3
        if k in ('api_fold', 'api_reorder'):
            o['path'] = rng.random() < .5
        if k == 'crash':
            o['what'] = rng.choice(['edit', 'save', 'fold'])
            o['ed'] = edits.gen(rng, edits.PRESERVING)
            o['at'] = hist.log_at(rng)
            o['w'] = rng.choice([0, 0, 1, 2])
        ops.append(o)
    return {'rec': rec, 'mcfg': mcfg, 'ops': ops, 'k': rng.randrange(K), 'd': rng.randrange(40), 'every': rng.random() < .8}


class Killed(BaseException):
    pass


def run(plan, ctx):
    s = hist.Session(ctx, plan['rec'], plan.get('mcfg'))
    disk = ctx.sb.disk
    st = {'m': s.m, 'cfg': s.mcfg}
    # what survives a crash: the original file and the last complete save
    disk.write_bytes('orig.onnx', s.bytes)
    durable = ['orig.onnx']
    k, d = plan['k'], plan['d']
    feeds = s.inputs(k, 'data', d)
    ref = oracle.ref_run(s.b.proto, feeds)
    outs = [o.name for o in s.b.proto.graph.output]
    prev = 'load'
    changed = 0
    ordered = s.rec.get('shuffle') is None

    def load(path, cfg=None):
        import onnx_tool
        st['m'] = onnx_tool.Model(path, dict(cfg or {}))

    def sound(i, what):
        """order of the nodes after a reordering"""
        g = st['m'].graph
        pos = {n: j for j, n in enumerate(g.nodemap)}
        for n, nd in g.nodemap.items():
            for t in nd.input:
                for p in g.producedby.get(t, []) if t else []:
                    ctx.check(pos[p] < pos[n], 'order', lambda: 'step %d %s: %r comes before %r, which produces its input %r' % (
                        i, what, n, p, t), what)

    def evaluate(i, what):
        g = st['m'].graph
        x = {n: a for n, a in feeds.items() if n in g.input}
        r, _ = hist.call(ctx, lambda: g.value_infer(x))
        if r[0] == 'exc':
            ctx.violate('rewritten_model_fails', 'step %d after %s: %s' % (i, what, short(r[1])), '%s:%s' % (what, type(
                r[1]).__name__))
        names = list(g.output)
        for o in outs:
            ctx.check(o in names, 'output_lost', lambda: 'step %d after %s: output %r is gone (outputs %r)' % (i, what, o, names),
                      what)
            a = r[1][names.index(o)]
            dd = oracle.close(a, ref[o])
            if dd and what == 'load':
                # already wrong before any rewrite: rounding, or the business of P12
                w = oracle.stepwise(s.b.proto, feeds, lambda n: g.tensormap[n].numpy if n in g.tensormap else None)
                if not w:
                    ctx.probe('ill_conditioned')
                    return False
            if dd and ill(i, what, o, a, g):
                return False
            ctx.check(not dd, 'function_changed', lambda: 'step %d after %s: output %r: %s' % (i, what, o, dd), what)
        ctx.log('values', i, [oracle.arr_sig(r[1][names.index(o)]) for o in outs])
        return True

    def ill(i, what, o, a, g):
        """The model amplifies rounding: reference runs with inputs (and weights) moved by one part in 10^6 differ as much,
        or differ wherever the rewritten model does."""
        want = ref[o]
        if a.shape != want.shape or a.dtype != want.dtype:
            return False
        bad = oracle.differing(a, want)
        moved = np.zeros(bad.shape, bool)
        for t in range(10):
            rs = np.random.RandomState(t)

            def shift(v):
                if v.dtype.kind != 'f':
                    return v
                if not t:
                    return v * np.asarray(1 + 2e-6, v.dtype)
                return (v + (np.abs(v) + .1) * (1e-6, 1e-5)[t % 2] * rs.choice([-1, 1], size=v.shape)).astype(v.dtype)
            m = s.b.proto
            if t > 4:
                m = oracle.with_weights(m, shift)
            other = oracle.ref_run(m, {n: shift(v) for n, v in feeds.items()})[o]
            if other.shape != want.shape:
                continue
            if not t and oracle.close(other, want):
                ctx.probe('ill_conditioned')
                return True
            moved |= oracle.differing(other, want)
            if (moved | ~bad).all():
                ctx.probe('ill_conditioned')
                return True
        return False

    if not ordered:
        st['m'].graph.graph_reorder_nodes()
        sound(-1, 'reorder')
    if not evaluate(-1, 'load'):
        return
    for i, op in enumerate(plan['ops']):
        g = st['m'].graph
        before = [(n, x.op_type, tuple(x.input), tuple(x.output)) for n, x in g.nodemap.items()]
        kind = op['op']
        label = kind
        r = ('ok', None)
        if kind == 'edit':
            e = edits.prepare(g, op, uid=i, preserving=True)
            if e is None:
                continue
            label = e.kind
            r, fired = hist.call(ctx, e.call)
            if r[0] == 'exc':
                ctx.violate('rewrite_fails', 'step %d %s %r: %s' % (i, e.kind, e.what, short(r[1])), e.kind)
            if e.kind == 'reorder':
                sound(i, 'reorder')
                o1 = list(g.nodemap)
                ctx.check(sorted(o1) == sorted(n[0] for n in before), 'reorder_nodes', lambda: '%r became %r' % (before, o1))
                g.graph_reorder_nodes()
                ctx.check(list(g.nodemap) == o1, 'reorder_unstable', lambda: 'reordered %r, again %r' % (o1, list(g.nodemap)))
            if e.kind == 'skip':
                ctx.check(e.what not in g.nodemap or e.what in [n[0] for n in before] and
                          (len(g.nodemap[e.what].output) > 1 or any(o in g.output for o in g.nodemap[e.what].output)), 'skip_effect', lambda: '%r kept' % e.what)
        elif kind == 'reload':
            f = 'slot%d.onnx' % op['slot']
            if op.get('disk'):
                r, fired = hist.call(ctx, lambda: st['m'].save_model(f, no_shape=op['ns']), disk=op['disk'])
                if r[0] == 'exc' and f in durable:
                    durable.remove(f)       # the file was in use as a target: it may be incomplete now
            r, fired = hist.call(ctx, lambda: st['m'].save_model(f, no_shape=op['ns']),
                                 disk=[{'op': 'short', 'sizes': [1, 7, 3, 40]}] if op.get('short') else None)
            if r[0] == 'exc':
                ctx.violate('save_fails', 'step %d: %s' % (i, short(r[1])), type(r[1]).__name__)
            r, fired = hist.call(ctx, lambda: load(f))
            if r[0] == 'exc':
                ctx.violate('reload_fails', 'step %d: %s' % (i, short(r[1])), type(r[1]).__name__)
            durable = [x for x in durable if x != f] + [f]
        elif kind in ('fold', 'rename'):
            f = 'slot%d.onnx' % op['slot']
            r, fired = hist.call(ctx, lambda: st['m'].save_model(f))
            if r[0] == 'ok':
                cfg = {'constant_folding': True} if kind == 'fold' else {'node_rename': True}
                r, fired = hist.call(ctx, lambda: load(f, cfg))
                durable = [x for x in durable if x != f] + [f]
            if r[0] == 'exc':
                ctx.violate('rewrite_fails', 'step %d %s: %s' % (i, kind, short(r[1])), kind)
            if kind == 'rename':
                ctx.check(len(st['m'].graph.nodemap) == len(before), 'rename_nodes', lambda: '%d nodes became %d' % (
                    len(before), len(st['m'].graph.nodemap)))
            else:
                left = [n for n, x in st['m'].graph.nodemap.items() if x.op_type == 'Constant' and not any(
                    o in st['m'].graph.output for o in x.output)]
                ctx.check(not left, 'fold_effect', lambda: 'constants left after folding: %r' % left)
        elif kind in ('api_fold', 'api_reorder'):
            import onnx
            import onnx_tool
            f, f2 = 'slot%d.onnx' % op['slot'], 'slot%d.onnx' % (1 - op['slot'])

            def api():
                st['m'].save_model(f)
                m = f
                if not op['path']:
                    m = onnx.ModelProto()
                    m.ParseFromString(disk.read_bytes(f))
                (onnx_tool.model_constant_folding if kind == 'api_fold' else onnx_tool.model_reorder_nodes)(m, f2)
                load(f2)
            r, fired = hist.call(ctx, api)
            durable = [x for x in durable if x not in (f, f2)] + [f, f2]
            if r[0] == 'exc':
                ctx.violate('rewrite_fails', 'step %d %s: %s' % (i, kind, short(r[1])), kind)
            sound(i, kind)
        elif kind == 'crash':
            f = 'slot%d.onnx' % op['slot']
            if op['what'] == 'edit':
                e = edits.prepare(g, op['ed'], uid=i, preserving=True)
                if e is None:
                    continue
                hist.call(ctx, e.call, op['at'], 'SystemExit')
            elif op['what'] == 'save':
                hist.call(ctx, lambda: st['m'].save_model(f), disk=[{'op': 'crash', 'nth': op['w']}])
                durable = [x for x in durable if x != f]
            else:
                src = durable[-1]
                hist.call(ctx, lambda: load(src, {'constant_folding': True}), op['at'], 'SystemExit')
            ctx.fault('restart')
            # only the files survive
            disk.disarm()
            r, fired = hist.call(ctx, lambda: load(durable[-1], s.mcfg))
            if r[0] == 'exc':
                ctx.violate('reload_fails', 'step %d after a crash: %s' % (i, short(r[1])), type(r[1]).__name__)
            if durable[-1] == 'orig.onnx' and not ordered:
                st['m'].graph.graph_reorder_nodes()
        else:
            s.m = st['m']
            r, fired = s.exec(op)
        g = st['m'].graph
        after = [(n, x.op_type, tuple(x.input), tuple(x.output)) for n, x in g.nodemap.items()]
        changed += after != before or kind == 'crash'
        ctx.log(i, label, hist.exc_name(r), len(after))
        ctx.state(label, hist.exc_name(r), prev, after != before)
        prev = label
        if kind not in hist.WEIGHTS and (plan.get('every') or i == len(plan['ops']) - 1):
            evaluate(i, label)
    evaluate(len(plan['ops']), prev)
    ctx.nontrivial = changed > 0
