"""P26: what the tool writes is valid ONNX whenever its source is."""
import os

import numpy as np
import onnx

from .. import edits, hist, models, oracle
from ..core import Discard, short

RUNS = {'quick': 1500, 'thorough': 40000}
RULE = ('a seeded random valid model and a seeded history of inferences (good, impossible, interrupted), profiles, plans, engines, '
        'function-preserving edits, weight changes, saves in every variant under storage faults, reloads, and file-level calls '
        '(folding, reordering, sizes, profile with saved model, splitting, picking nodes), each reading the original or a file an earlier step wrote; '
        'every file whose writing completed is put to the full ONNX checker with strict shape inference, and the types and sizes '
        'it states are compared with an execution by the reference evaluator; non-trivial: two files were written, or one after a fault')
STATES = '(call that wrote, variant, what came before, whether an inference was cut short) tuples'
REAL = 'onnx_tool Model/Graph/Node/Tensor, file-level functions, serialisation through onnx'
STUB = 'clock, file device, standard output; the judge is onnx.checker with onnx.shape_inference, and onnx.reference'
ASSUME = ['sizes asked for by the caller are possible ones for the model',
          'parts of a model are split off from sources that state the types of their tensors']

OPS = {'write': 4, 'cycle': 1.5, 'fold': 1.2, 'sort': 1, 'io': 1.5, 'profile': 1.2, 'split': 1, 'names': 1, 'edit': 3, 'hist': 8}
DISK = [{'op': 'open', 'nth': 0, 'err': 'EACCES'}, {'op': 'write', 'nth': 0, 'err': 'ENOSPC', 'part': 40}, {'op': 'close', 'nth': 0, 'err': 'EIO'},
        {'op': 'quota', 'bytes': 300}, {'op': 'short', 'sizes': [64, 3]}, {'op': 'eintr', 'nth': 0}, {'op': 'crash', 'nth': 0, 'part': 9}]


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, branchy=True, need='SV', ctl=rng.choice([0, 0, 0, .3, .6]), nlayers=(1, 12 if big else 8), fixed=rng.random() < .25)
    if rng.random() < .15:
        rec['custom'] = [rng.randrange(1000) for _ in range(rng.randint(1, 2))]
    if rng.random() < .2:
        rec['shuffle'] = rng.randrange(1000)
    for _ in range(rng.randint(0, 2)):
        rec['layers'].insert(rng.randint(0, len(rec['layers'])), {
            'op': rng.choice(['typedconst', 'dead', 'identity', 'reshapeconst', 'convbn']), 'in': [rng.randrange(4), 0, 0], 'p': rng.randrange(720), 'share': rng.random() < .2})
    mcfg = {}
    if rng.random() < .2:
        mcfg['constant_folding'] = True
    if rng.random() < .1:
        mcfg['node_rename'] = True
    if rng.random() < .1:
        mcfg['remove_dangling'] = False
    K = len(rec['sizes'])
    ops = []
    for _ in range(rng.randint(2, 12 if big else 8)):
        k = rng.choices(list(OPS), list(OPS.values()))[0]
        if k == 'hist':
            ops += hist.gen_history(rng, 1, K, {'regress': .5, 'save': 0})
            if ops[-1]['op'] in ('si', 'vi') and rng.random() < .25:
                ops[-1]['wide'] = True
            continue
        if k == 'edit':
            ops.append(edits.gen(rng, edits.PRESERVING))
            continue
        o = {'op': k, 'src': rng.choice([0, 0, 1, 2]), 'a': rng.randrange(5040), 'k': rng.randrange(K), 'so': rng.random() < .3,
             'ns': rng.random() < .3, 'proto': rng.random() < .3}
        r = rng.random()
        if r < .3:
            o['disk'] = [rng.choice(DISK)]
        elif r < .4:
            o['at'] = hist.log_at(rng, 4)
        elif r < .44:
            o['alloc'] = rng.randrange(12)
        ops.append(o)
    return {'rec': rec, 'mcfg': mcfg, 'ops': ops, 'd': rng.randrange(40)}


def parse(data):
    p = onnx.ModelProto()
    p.ParseFromString(data)
    return p


def fault(p):
    """What the checker says against the model, or None."""
    # ONNX's own inference leaves out that a window must not start in the padding (settled in operator set 22)
    ceil = any(a.name == 'ceil_mode' and a.i for n in p.graph.node for a in n.attribute)
    try:
        onnx.checker.check_model(p, full_check=not ceil)
    except Exception as e:
        return ' '.join(str(e).split())[:300]
    return None


class Wide(hist.Session):
    """Numbers may come in numpy's default type, as in numpy.zeros(shape)."""
    wide = False

    def inputs(self, k, style='zeros', d=0):
        x = super().inputs(k, style, d)
        return {n: a.astype(np.float64) if a.dtype.kind in 'fi' else a for n, a in x.items()} if self.wide else x


def declared(p):
    """Does the model state type and shape of everything it computes?"""
    known = {v.name for v in list(p.graph.value_info) + list(p.graph.output) if v.type.tensor_type.HasField('shape')}
    return all(t in known for n in p.graph.node for t in n.output if t)


def stated(p, feeds):
    """What the model states about its tensors and an execution with these inputs contradicts, or None."""
    names = [v.name for v in p.graph.input]
    feeds = {n: a for n, a in feeds.items() if n in names}
    sym = {}
    for v in p.graph.input:
        if v.name not in feeds:
            return None
        for d, x in zip(v.type.tensor_type.shape.dim, feeds[v.name].shape):
            if d.HasField('dim_value') and d.dim_value != x:
                return None     # made for other sizes
            if d.HasField('dim_param') and sym.setdefault(d.dim_param, x) != x:
                return None
    q = models.ordered(p)
    made = {t for n in q.graph.node for t in n.output}
    vis = [v for v in list(q.graph.value_info) + list(q.graph.output) if v.name in made]
    have = {o.name for o in q.graph.output}
    q.graph.output.extend(v for v in q.graph.value_info if v.name in made and v.name not in have)
    got = oracle.ref_run(q, feeds)
    for v in vis:
        a, tt = np.asarray(got[v.name]), v.type.tensor_type
        if a.dtype != onnx.helper.tensor_dtype_to_np_dtype(tt.elem_type):
            return '%r is stated to be %s and is %s' % (v.name, onnx.helper.tensor_dtype_to_np_dtype(tt.elem_type), a.dtype)
        if not tt.HasField('shape'):
            continue
        dims = [d.dim_value if d.HasField('dim_value') else sym.get(d.dim_param, d.dim_param) if d.HasField('dim_param') else None for d in tt.shape.dim]
        if len(dims) != a.ndim or any(isinstance(x, int) and x != y for x, y in zip(dims, a.shape)):
            return '%r is stated to be %r and is %r' % (v.name, dims, a.shape)
    return None


def run(plan, ctx):
    import onnx_tool
    s = Wide(ctx, plan['rec'], plan.get('mcfg'))
    disk = ctx.sb.disk
    base = parse(s.bytes)
    mixed = plan['rec'].get('shuffle') is not None and bool(fault(base))   # nodes in no particular order: only good for sorting
    base = models.ordered(base) if mixed else base
    bad = fault(base)
    if bad:
        raise Discard('source: ' + bad[:80])
    disk.write_bytes('m.onnx', s.bytes)
    # name, content, the assignment it was made for (None: any)
    files = [['m.onnx', s.bytes, None]]
    prev, cut, at = 'load', False, None
    valued = any(l['op'].startswith('ctl') for l in s.rec['layers'])     # sizes depend on values
    wrote = faults = 0

    def judge(label, f, data):
        try:
            p = parse(data)
        except Exception as e:
            ctx.violate('unreadable', '%s: %r: %s' % (label, f, short(e)))
        if cut and label.startswith('save'):
            # the sizes in memory are those of neither the old nor the new inputs: only the types count
            io = {v.name: v for v in list(base.graph.input) + list(base.graph.output)}
            for v in [v for v in p.graph.output if v.name not in io]:
                p.graph.output.remove(v)
            for v in list(p.graph.value_info) + list(p.graph.input) + list(p.graph.output):
                if v in p.graph.value_info:
                    v.type.tensor_type.ClearField('shape')
                elif v.name in io:
                    v.type.tensor_type.shape.CopyFrom(io[v.name].type.tensor_type.shape)
        # outputs the caller added, of which nobody stated anything
        own = {v.name for v in base.graph.output}
        for v in list(p.graph.output):
            if kind in ('write', 'cycle', 'fold', 'sort', 'io') and v.name not in own and not v.type.tensor_type.HasField('shape'):
                p.graph.output.remove(v)
        e = fault(p)
        ctx.check(not e, 'invalid_model', lambda: '%s: %r: %s' % (label, f, e), '%s' % label.split()[0])
        return p

    for i, o in enumerate(plan['ops']):
        kind = o['op']
        label = kind
        if kind == 'edit':
            e = edits.prepare(s.m.graph, o, uid=i, preserving=True)
            if e is None:
                continue
            r, fired = hist.call(ctx, e.call)
            if r[0] == 'exc':
                raise Discard('edit')
            prev = e.kind
            continue
        if kind in hist.WEIGHTS or kind == 'setw':
            s.wide = o.get('wide', False)
            r, fired = s.exec(o)
            faults += len(fired)
            if kind in ('si', 'si_none', 'vi', 'si_bad', 'regress'):
                # only new inputs that all go through make up for bad ones
                cut = r[0] == 'exc' or kind in ('si_bad', 'regress') or cut and kind not in ('si', 'vi')
                at = o['k'] if kind in ('si', 'vi') else None
            ctx.log(i, kind, hist.exc_name(r), fired)
            prev = kind
            continue
        spec = {q: o.get(q) for q in ('at', 'exc', 'alloc', 'disk')}
        before = disk.snapshot()
        src, data, made_for = files[-1 - o['src'] % len(files)]
        if kind in ('write', 'cycle'):
            dst = 's%d.onnx' % (i % 3)
            label = 'save%s%s after %s' % ('_weightless' if o['so'] and kind == 'write' else '', '_shapeless' if o['ns'] else '', prev)
            r, fired = hist.call(ctx, lambda: s.m.save_model(dst, shape_only=o['so'] and kind == 'write', no_shape=o['ns']), **spec)
            asked = [dst]
            made_for = at
        else:
            if mixed and src == 'm.onnx' and kind not in ('sort', 'profile'):
                continue
            p = parse(data)
            m = p if o['proto'] else src
            dst = 'f%d.onnx' % (i % 3)
            stem = '' if o['proto'] else src[:-5]
            asked = [dst]
            x = models.data(s.b, o['k'], plan['d'])
            if kind == 'fold':
                fn = lambda: onnx_tool.model_constant_folding(m, dst)
            elif kind == 'sort':
                fn = lambda: onnx_tool.model_reorder_nodes(m, dst)
            elif kind == 'io':
                if any(n.domain for n in p.graph.node):
                    continue
                args = {}
                res = oracle.ref_run(models.ordered(p), {v.name: x[v.name] for v in p.graph.input if v.name in x})
                for v in list(p.graph.input) + list(p.graph.output):
                    z = x.get(v.name, res.get(v.name))
                    if z is not None and z.ndim and v.type.tensor_type.HasField('shape'):
                        args[v.name] = 'x'.join(str(y) if o['a'] % 3 else ('d%d' if v.name in x else 'o%d') % y for y in z.shape)
                made_for = o['k']
                fn = lambda: onnx_tool.model_io_modify(m, dst, args)
            elif kind == 'profile':
                made_for = o['k']
                args = {v.name: x[v.name] for v in p.graph.input if v.name in x}
                fn = lambda: onnx_tool.model_profile(m, args, save_model=dst, no_shape=o['ns'], shape_only=o['so'])
            elif kind == 'names':
                ns = [n.name for n in p.graph.node]
                if not declared(p) or not ns or len(set(ns)) != len(ns) or '' in ns:
                    continue
                j = o['a'] % len(ns)
                args = ns[j:j + 1 + o['a'] // 7 % 3]
                fn = lambda: onnx_tool.model_subgraph(m, nodenames=args, save_folder='.')
                asked = ['%s_subgraph.onnx' % stem]
            else:
                c = [t for n in models.ordered(p).graph.node if n.op_type != 'Constant' for t in n.output if t]
                if len(c) < 3 or not declared(p):
                    continue
                j = o['a'] % (len(c) - 1)
                args = ([c[j]], [c[j + 1 + o['a'] // 7 % (len(c) - j - 1)]])
                fn = lambda: onnx_tool.model_subgraph(m, in_tensor_names=args[0], out_tensor_names=args[1], save_folder='.')
                asked = ['%s_level%d.onnx' % (stem, q) for q in range(3)]
            label = '%s of %s' % (kind, src)
            r, fired = hist.call(ctx, fn, **spec)
        faults += len(fired)
        after = disk.snapshot()
        ctx.log(i, label, hist.exc_name(r), fired, sorted((f, len(d)) for f, d in after.items()))
        ctx.state(kind, o['so'], o['ns'], prev, cut)
        new = [f for f in asked if f in after and after[f] != before.get(f)]
        if r[0] == 'exc':
            for f in asked:
                files = [z for z in files if z[0] != f]
            if new and 'm.onnx' in new:
                disk.write_bytes('m.onnx', s.bytes)
            continue
        for f in asked:
            if f not in after:
                continue
            wrote += 1
            q = judge(label, f, after[f])
            if kind not in ('split', 'names') and not (cut and kind in ('write', 'cycle')):
                for k in [] if any(n.domain for n in q.graph.node) else ([made_for] if made_for is not None else [] if valued else range(s.K)):
                    e = stated(q, models.data(s.b, k, plan['d']))
                    ctx.check(not e, 'false_statement', lambda: '%s: %r: %s' % (label, f, e), label.split()[0])
        files = [z for z in files if z[0] not in asked or z[0] in after and z[1] == after[z[0]]]
        if kind in ('split', 'names'):
            continue
        if dst in after and not (o['so'] and kind in ('write', 'profile')) and not (cut and kind in ('write', 'cycle')):
            files = [z for z in files if z[0] != dst] + [[dst, after[dst], made_for]]
        if kind == 'cycle' and dst in after:
            r, _ = hist.call(ctx, lambda: onnx_tool.Model(dst))
            if r[0] == 'exc':
                ctx.violate('reload', '%s: %s' % (label, short(r[1])))
            s.m = r[1]
        prev = kind
    ctx.nontrivial = wrote > 1 or wrote and faults
