"""P11: profiles are consistent and independent of history, clock and hash seed."""
import csv
import io
import re

import numpy as np

from .. import hist, models, oracle
from ..core import isolated, short

RUNS = {'quick': 700, 'thorough': 12000}
HASHSEEDS = ['0', '77']
RULE = ('a seeded random model (dense and sparse weights, shared weights, plain and awkward names), a seeded history of API '
        'calls with interruptions, failures, other exclusion lists and clock jumps, then 1-3 rounds of inference, profile and '
        'tables under clock jumps or stalls; every run is executed in two interpreters with different hash seeds; '
        'non-trivial: a fault fired or more than one profile was taken')
STATES = '(operation, outcome, injected fault, exclusion list) tuples'
REAL = 'onnx_tool Model/Graph/Node/Tensor, profile and table printing, model_profile'
STUB = 'clock, file device, standard output'
ASSUME = ['the per-operator cost formulas themselves are not judged (P30)']


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, branchy=True, ctl=rng.choice([0, 0, 0, .3, .6]), need='S', nlayers=(1, 14 if big else 8), fixed=rng.random() < .15)
    if rng.random() < .15:
        rec['names'] = 'odd'
    if rng.random() < .2:
        rec['layers'].insert(rng.choice([0, 0, 1]), {'op': 'bigfc', 'in': [0, 0, 0], 'p': rng.randrange(720), 'share': False})
    if rng.random() < .2:
        rec['shuffle'] = rng.randrange(1000)
    mcfg = {'constant_folding': True} if rng.random() < .15 else {}
    K = len(rec['sizes'])
    ops = hist.gen_history(rng, rng.randint(0, 8 if big else 5), K, {'prof': 5, 'table': 2, 'reorder': 0})
    for o in ops:
        if rng.random() < .2:
            o['clock'] = clock(rng)
    rounds = []
    for _ in range(rng.randint(1, 4 if big else 2)):
        rounds.append({'k': rng.randrange(K), 'ex': hist.gen_exclude(rng), 'ex2': hist.gen_exclude(rng),
                       'metric': rng.choice(['MACs', 'FLOPs']), 'clock': clock(rng) if rng.random() < .5 else None,
                       'excl': rng.choice(['set', 'list', 'tuple']),
                       'int': hist.log_at(rng) if rng.random() < .4 else None,
                       'api': rng.choice(['model', 'model', 'path', None, None])})
    return {'rec': rec, 'mcfg': mcfg, 'ops': ops, 'rounds': rounds}


def clock(rng):
    return {'jumps': [[rng.randint(1, 60), rng.choice([-1e9, -3600, 1e-9, 3600, 1e12, -1.0])]
                      for _ in range(rng.randint(1, 3))], 'stall': rng.random() < .3}


def profile_view(g, ex):
    rows = []
    for k, n in g.nodemap.items():
        if not ex or n.op_type not in ex:
            rows.append((k, n.op_type, repr(float(n.macs)), repr(n.memory), repr(n.params), tuple(n.inshape),
                         tuple(n.outshape), repr(n.sparsity)))
    return {'macs': repr(float(g.macs[0])), 'params': int(g.params), 'memory': int(g.memory),
            'dedup': int(g.dedup_params), 'rows': rows}


def ex_of(rd, key='ex'):
    ex = rd[key]
    if ex is None:
        return None
    return {'set': set, 'list': list, 'tuple': tuple}[rd['excl']](ex)


def tables(g, sb, metric, ex):
    sb.take_out()
    g.print_node_map(None, metric=metric, exclude_ops=ex)
    out = sb.take_out()
    g.print_node_map('t.txt', metric=metric, exclude_ops=ex)
    g.print_node_map('t.csv', metric=metric, exclude_ops=ex)
    return {'out': out, 'txt': sb.disk.read_bytes('t.txt'), 'csv': sb.disk.read_bytes('t.csv')}


def twin(data, mcfg, reorder, x, rd, sb):
    m = hist.fresh_model(data, mcfg, reorder)
    g = m.graph
    g.shape_infer(x)
    ex = ex_of(rd)
    g.profile(exclude_ops=ex)
    v = profile_view(g, ex)
    return v, tables(g, sb, rd['metric'], ex)


def own_sparsity(g, n):
    """What the table says of a node: the zeros of its own sparsest weight."""
    best = 0
    for t in n.input:
        a = g.tensormap[t].numpy if t in g.initials else None
        if a is None or a.ndim not in (2, 4) or a.size <= 4096 or a.dtype.kind not in 'fi':
            continue
        best = max(best, float((a == 0).mean()))
    return best


def num(s):
    return int(s.replace(',', ''))


def pct(a, b):
    return '{:.2%}'.format(a / (b + 1e-18))


def check_tables(ctx, g, rd, t, covered):
    f = 2 if rd['metric'] == 'FLOPs' else 1
    sparse = g.sparse_model
    rows = list(csv.reader(io.StringIO(t['csv'].decode('utf-8'), newline='')))
    head = ['Name', 'Type'] + (['Sparse Pattern', 'Sparse Block Ratio', 'Sparse Ratio'] if sparse else []) + [
        'Forward_' + rd['metric'], 'FPercent', 'Memory', 'MPercent', 'Params', 'PPercent', 'InShape', 'OutShape']
    ctx.check(rows[0] == head, 'table_header', lambda: '%r' % (rows[0],))
    body = rows[1:]
    ctx.check(all(len(r) == len(head) for r in body), 'table_row_broken',
              lambda: 'rows of the csv have other lengths than its header: %r' % [r for r in body if len(r) != len(head)][:2])
    names = [r[0] for r in body]
    last = names[len(covered):]
    ctx.check(names[:len(covered)] == covered and last in (['Total'], ['Total', 'Dedup_Params']), 'table_rows',
              lambda: 'rows %r, covered nodes %r' % (names, covered))
    ctx.check((last == ['Total', 'Dedup_Params']) == (g.dedup_params != g.params), 'table_dedup',
              lambda: 'dedup %r params %r' % (g.dedup_params, g.params))
    o = 3 if sparse else 0
    total = body[len(covered)]
    ctx.check((num(total[2 + o]), num(total[4 + o]), num(total[6 + o])) ==
              (int(int(round(g.macs[0])) * f), int(g.memory), int(g.params)), 'table_total',
              lambda: '%r, totals %r %r %r' % (total, g.macs, g.memory, g.params))
    sums = [0, 0, 0]
    for k, r in zip(covered, body):
        n = g.nodemap[k]
        want = [k, n.op_type]
        if sparse:
            z = own_sparsity(g, n)
            ctx.check(r[4] == '{:.2%}'.format(z) and (z > .4 or r[2] == '1x1'), 'sparsity_of_others', lambda: (
                'row %r: of its own weights at most %.2f%% are zero' % (r, 100 * z)))
            ctx.probe('sparse_row' if z > .4 else 'dense_row')
            want += ['x'.join(str(v) for v in n.sparsity['blocksize']), '{:.2%}'.format(n.sparsity['blockratio']),
                     '{:.2%}'.format(n.sparsity['ratio'])]
        want += [str(int(n.macs) * f), pct(n.macs, int(round(g.macs[0]))), str(int(n.memory)), pct(n.memory, g.memory),
                 str(int(n.params)), pct(n.params, g.params),
                 'x'.join(str(v) for v in n.inshape), 'x'.join(str(v) for v in n.outshape)]
        ctx.check(r == want, 'table_row_wrong', lambda: 'row %r, the node says %r' % (r, want))
        for i, c in enumerate((2, 4, 6)):
            sums[i] += num(r[c + o])
    ctx.check(abs(sums[0] - num(total[2 + o])) <= (len(covered) + 1) * f and sums[1] == num(total[4 + o]) and
              sums[2] == num(total[6 + o]), 'rows_do_not_sum', lambda: 'sums of rows %r, total row %r' % (sums, total))
    # text form: same cells; console form: the same text
    txt = t['txt'].decode('utf-8')
    ctx.check(t['out'].endswith(txt + '\n'), 'console_differs', lambda: 'console:\n%s\nfile:\n%s' % (t['out'][-600:], txt[-600:]))
    lines = txt.split('\n')
    ctx.check(len(lines) == 2 + len(body), 'text_rows', lambda: '%d lines for %d rows' % (len(lines), len(body)))
    for r, line in zip(body, lines[2:]):
        toks = [c.replace(',', '') for c in re.split(r'\s+', line.strip())]
        cells = [c for x in r for c in re.split(r'\s+', x.strip().replace(',', '')) if c]
        ctx.check([x for x in toks if x] == cells, 'text_row_wrong', lambda: '%r, csv row %r' % (line, r))


def run(plan, ctx):
    s = hist.Session(ctx, plan['rec'], plan.get('mcfg'))
    g = s.m.graph
    sb = ctx.sb
    reorder = s.rec.get('shuffle') is not None
    nf = 0
    for i, op in enumerate(plan['ops']):
        r, fired = s.exec(op)
        nf += len(fired)
        ctx.log('h', i, hist.exc_name(r), fired)
        ctx.state(op['op'], op.get('bad'), hist.exc_name(r), tuple(fired))
    for i, rd in enumerate(plan['rounds']):
        x = s.inputs(rd['k'])
        g.shape_infer(x)
        want, wtab = isolated(twin, s.bytes, s.mcfg, reorder, x, rd, sb)
        ex2 = ex_of(rd, 'ex2')
        if rd['int'] is not None:
            r, fired = hist.call(ctx, lambda: g.profile(exclude_ops=ex2), rd['int'], 'KeyboardInterrupt')
            nf += len(fired)
        else:
            g.profile(exclude_ops=ex2)
        ex = ex_of(rd)
        keep = repr(sorted(ex)) if ex else None

        def both():
            g.profile(exclude_ops=ex)
            v = profile_view(g, ex)
            return v, tables(g, sb, rd['metric'], ex)
        for again in range(2):
            r, fired = hist.call(ctx, both, clock=rd['clock'] if again == 0 else None)
            nf += len(fired)
            if r[0] == 'exc':
                ctx.violate('profile_fails', 'round %d %r: %s' % (i, rd, short(r[1])), type(r[1]).__name__)
            v, tab = r[1]
            covered = [k for k, n in g.nodemap.items() if not ex or n.op_type not in ex]
            ctx.check(v == want, 'profile_differs', lambda: 'round %d, fresh copy: %s' % (i, oracle.diff(v, want)))
            for kind in ('out', 'txt', 'csv'):
                ctx.check(tab[kind] == wtab[kind], 'table_differs', lambda: 'round %d %s:\n%s\nfresh copy:\n%s' % (
                    i, kind, tab[kind][-800:], wtab[kind][-800:]), kind)
        ctx.check(keep == (repr(sorted(ex)) if ex else None), 'exclusion_list_modified', lambda: '%r -> %r' % (keep, ex))
        tot = [sum(getattr(g.nodemap[k], a) for k in covered) for a in ('macs', 'memory', 'params')]
        ctx.check(abs(tot[0] - g.macs[0]) <= 1e-9 * max(1.0, abs(tot[0])) and tot[1] == g.memory and tot[2] == g.params,
                  'totals_not_sums', lambda: 'sums %r totals %r' % (tot, (g.macs, g.memory, g.params)))
        ded = sum(int(np.prod(g.tensormap[t].get_shape(), dtype=np.int64)) for t in g.initials
                  if len(g.tensormap[t].get_shape()) and any(t in n.input for n in g.nodemap.values()))
        ctx.check(ded == g.dedup_params, 'dedup_wrong', lambda: '%r, distinct weights %r' % (g.dedup_params, ded))
        check_tables(ctx, g, rd, tab, covered)
        ctx.state('round', rd['ex'], bool(rd['clock']), rd['api'])
        ctx.log('round', i, v['macs'], v['params'], v['memory'], tab['csv'], tab['out'])
        if rd['api']:
            api(plan, ctx, s, rd, x)
    ctx.nontrivial = nf > 0 or len(plan['rounds']) > 1


def api_call(data, x, rd, sb, path, cl, mcfg):
    import onnx
    import onnx_tool
    p = onnx.ModelProto()
    p.ParseFromString(data)
    if cl:
        sb.clock.arm(cl)
    sb.take_out()
    kw = {'mcfg': dict(mcfg)} if mcfg.get('if_fixed_branch') else {}
    if rd['ex'] is not None:
        kw['hidden_ops'] = ex_of(rd)
    if rd['ex2'] is not None:
        kw['exclude_ops'] = ex_of(rd, 'ex2')
    m = path or p
    onnx_tool.model_profile(m, x, **kw)
    out = sb.take_out()
    onnx_tool.model_profile(m, x, save_profile='a.csv', **kw)
    return out, sb.disk.read_bytes('a.csv')


def api(plan, ctx, s, rd, x):
    sb = ctx.sb
    path = None
    if rd['api'] == 'path':
        sb.disk.write_bytes('in.onnx', s.bytes)
        path = 'in.onnx'
    a = isolated(api_call, s.bytes, x, rd, sb, path, None, s.mcfg)
    b = api_call(s.bytes, x, rd, sb, path, rd['clock'], s.mcfg)
    ctx.check(a == b, 'api_profile_differs', lambda: 'model_profile after a history:\n%s\nfresh process:\n%s' % (b[0][-800:], a[0][-800:]))
    hidden = set(rd['ex']) if rd['ex'] is not None else {
        'Identity', 'Constant', 'Shape', 'Squeeze', 'Unsqueeze', 'Reshape', 'ConstantOfShape', 'Cast', 'Pad', 'Concat',
        'Slice', 'Gather'}
    hidden |= set(rd['ex2'] or [])
    types = [r[1] for r in csv.reader(io.StringIO(b[1].decode('utf-8')))][1:]
    ctx.check(not hidden & set(types), 'excluded_operator_listed', lambda: '%r' % sorted(hidden & set(types)))
    ctx.log('api', b)
