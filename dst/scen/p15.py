"""P15: extracting a compute graph or subgraph does not disturb the model it came from."""
import numpy as np
import onnx

from .. import edits, hist, models, oracle
from ..core import isolated, short
from .p13 import full

RUNS = {'quick': 1200, 'thorough': 20000}
RULE = ('a seeded random model and a seeded history of 2-8 calls: compute-graph extraction, splitting at tensors (in memory and '
        'to files), parts by node names (convex and arbitrary sets), edits of extracted graphs, inferences, profiles, saves; '
        'extractions interrupted at any executed line or by refused allocations, splits to a failing device; the parts are run '
        'one after the other and compared with a reference execution; the source and a fresh copy are compared at the end; '
        'non-trivial: an extraction completed and a fault fired, or an extracted graph was edited')
STATES = '(operation, outcome, fault, operation before) tuples'
REAL = 'onnx_tool Model/Graph, model_subgraph, serialisation through onnx'
STUB = 'clock, file device, standard output; reference outputs from onnx.reference'
ASSUME = ['cuts are arbitrary tensors that nodes produce; a level without nodes is skipped']


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, branchy=True, need='SV', nlayers=(2, 14 if big else 9), fixed=rng.random() < .1)
    if rec['opset'] >= 13 and rng.random() < .12:
        # branches of which only the size is used
        rec['layers'].insert(rng.randint(0, len(rec['layers'])), {'op': 'sideshape', 'in': [rng.randrange(9)] * 3, 'p': rng.randrange(720), 'share': False})
    mcfg = {'constant_folding': True} if rng.random() < .2 else {}
    K = len(rec['sizes'])
    ops = []
    for _ in range(rng.randint(2, 12 if big else 7)):
        r = rng.random()
        if r < .3:
            ops += hist.gen_history(rng, 1, K, {'regress': .3, 'cg': 0, 'reorder': .3, 'setw': 2}, intr=.3, allocp=.1)
            continue
        o = {'op': 'ex', 'kind': rng.choices(['cg', 'split', 'names', 'file', 'edit'], [3, 2, 2, 1.2, 2.5])[0],
             'n': rng.randrange(60), 'm': rng.randrange(60), 'c': rng.randint(0, 4), 'v': rng.randrange(24)}
        if rng.random() < .3:
            o['at'] = hist.log_at(rng)
            o['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'SystemExit'])
        elif rng.random() < .1:
            o['alloc'] = rng.randrange(8)
        if o['kind'] == 'file' and rng.random() < .4:
            o['disk'] = [{'op': rng.choice(['open', 'write', 'close']), 'nth': rng.randrange(3), 'err': rng.choice(['EIO', 'ENOSPC'])}]
        if o['kind'] == 'file' and rec.get('ifs'):
            o['kind'] = 'split'    # that function takes no model options
        if o['kind'] == 'edit':
            o['ed'] = edits.gen(rng)
        ops.append(o)
    if not any(o.get('kind') in ('cg', 'split', 'names') for o in ops):
        ops.append({'op': 'ex', 'kind': rng.choice(['cg', 'split', 'names']), 'n': rng.randrange(60), 'm': rng.randrange(60),
                    'c': 2, 'v': 0})
    return {'rec': rec, 'mcfg': mcfg, 'ops': ops, 'k': rng.randrange(K), 'd': rng.randrange(40)}


def src_state(g):
    d = full(g)
    d['t'] = oracle.graph_digest(g, shapes=True, values=True)['tensors']
    d['flags'] = (g.valid_shape, g.valid_profile)
    return d


def gsig(g, shapes):
    d = oracle.graph_digest(g, shapes=shapes)
    if not shapes:
        # types of tensors that only a particular inference marks do not belong to the graph itself
        d['tensors'] = {n: t for n, t in d['tensors'].items() if n in g.initials}
    return d


def twin_cg(data, mcfg, x):
    m = hist.fresh_model(data, mcfg)
    m.graph.shape_infer(x)
    return gsig(m.graph.get_compute_graph(), True)


def twin_end(data, mcfg, x, ops):
    """Everything a user can get from a model: inference, profile, saved bytes, extractions."""
    m = hist.fresh_model(data, mcfg)
    return usable(m, x, ops)


def usable(m, x, ops):
    g = m.graph
    out = {}
    g.shape_infer(x)
    out['shapes'] = oracle.infer_result(g)
    g.profile()
    out['profile'] = (list(g.macs), g.params, g.memory, [(n, repr(v.macs), v.params, v.memory) for n, v in g.nodemap.items()])
    out['cg'] = gsig(g.get_compute_graph(), True)
    for o in ops:
        c = cut(g, o)
        if c:
            out['split%d%d' % (o['n'], o['m'])] = [psig(p) for p in g.get_subgraph(*c)]
    return out


def psig(p):
    d = oracle.graph_digest(p, shapes=False)
    d['tensors'] = {n: t for n, t in d['tensors'].items() if n in p.initials}
    return d


def cut(g, o):
    c = [t for n in g.nodemap.values() for t in n.output if t in g.consumedby and not n.shape_calc]
    if len(c) < 2:
        return None
    many = [t for t in c if len(g.consumedby[t]) > 1] if o['v'] % 3 == 0 else []
    many = many or c
    ins = [many[(o['n'] + 5 * i) % len(many)] for i in range(1 + o['c'] // 3)]
    outs = [c[(o['m'] + 3 * i) % len(c)] for i in range(1 + o['c'] % 3 // 2)]
    return list(dict.fromkeys(ins)), list(dict.fromkeys(outs))


def run(plan, ctx):
    import onnx_tool
    s = hist.Session(ctx, plan['rec'], plan.get('mcfg'))
    g = s.m.graph
    k, d = plan['k'], plan['d']
    feeds = s.inputs(k, 'data', d)
    ref = oracle.ref_all(s.b.proto, feeds)
    cgs = []            # extracted graphs, to be edited later
    prev = ''
    done = faults = edited = 0

    def value_of(part, vals, i, what):
        """Run one part on the values known so far."""
        x = {}
        for t in part.input:
            ctx.check(t in vals, 'part_needs_unknown_tensor', lambda: 'step %d %s: part %r needs %r, which no earlier part '
                      'produces (known %r)' % (i, what, list(part.nodemap), t, sorted(vals)), what)
            x[t] = vals[t]
        r, _ = hist.call(ctx, lambda: part.value_infer(x))
        if r[0] == 'exc':
            ctx.violate('part_fails', 'step %d %s: %s' % (i, what, short(r[1])), '%s:%s' % (what, type(r[1]).__name__))
        for nm, a in zip(part.output, r[1]):
            if nm in ref:
                dd = oracle.close(a, ref[nm])
                if dd and ill(nm):
                    raise Ill()
                ctx.check(not dd, 'part_computes_wrong_value', lambda: 'step %d %s: part %r output %r: %s' % (
                    i, what, list(part.nodemap), nm, dd), what)
            vals[nm] = a
        return r[1]

    class Ill(Exception):
        pass

    def ill(nm):
        pert = {n: (v * np.asarray(1 + 2e-6, v.dtype) if v.dtype.kind == 'f' else v) for n, v in feeds.items()}
        if oracle.close(oracle.ref_all(s.b.proto, pert)[nm], ref[nm]):
            ctx.probe('ill_conditioned')
            return True
        return False

    def run_levels(levels, i, what):
        vals = dict(feeds)
        for p in levels:
            if p.nodemap:
                value_of(p, vals, i, what)
        for o in s.b.proto.graph.output:
            ctx.check(o.name in vals, 'output_of_no_part', lambda: 'step %d %s: no part has the output %r' % (i, what, o.name),
                      what)

    for i, op in enumerate(plan['ops']):
        if op['op'] != 'ex':
            r, fired = s.exec(op)
            if op['op'] == 'setw':
                ref = oracle.ref_all(s.b.proto, feeds)
                cgs.clear()     # what was extracted before keeps the earlier weights
            faults += len(fired)
            ctx.log(i, op['op'], hist.exc_name(r), fired)
            continue
        kind = op['kind']
        before = src_state(g)
        inj = dict(at=op.get('at'), exc=op.get('exc'), alloc=op.get('alloc'))
        r, fired = ('ok', None), []
        if kind == 'cg':
            r, fired = hist.call(ctx, g.get_compute_graph, **inj)
        elif kind in ('split', 'file'):
            c = cut(g, op)
            if c is None:
                continue
            keep = ([list(c[0]), list(c[1])])
            if kind == 'split':
                r, fired = hist.call(ctx, lambda: g.get_subgraph(*c), **inj)
            else:
                p = onnx.ModelProto()
                p.ParseFromString(s.bytes)
                fn = lambda: onnx_tool.model_subgraph(p, in_tensor_names=c[0], out_tensor_names=c[1], save_folder='./')
                for f in ['_level%d.onnx' % j for j in range(3)]:
                    ctx.sb.disk.remove(f)
                r, fired = hist.call(ctx, fn, disk=op.get('disk'), **inj)
                ctx.check(p.SerializeToString(deterministic=True) == s.bytes, 'source_model_changed',
                          lambda: 'step %d %s' % (i, kind), kind)
                if r[0] == 'exc' and fired:
                    r, f2 = hist.call(ctx, fn)        # the fault is gone: the split is repeated
            ctx.check([list(c[0]), list(c[1])] == keep, 'cut_list_changed', lambda: '%r became %r' % (keep, c), kind)
        elif kind == 'names':
            if op['c'] % 2:
                names = edits.grow(g, op['n'], op['c'])
            else:
                ks = list(g.nodemap)
                names = list(dict.fromkeys(ks[(op['n'] + (3 + op['m']) * j) % len(ks)] for j in range(op['c'] + 1)))
            if op['v'] % 3 == 0:
                names = names[::-1]
            keep = list(names)
            r, fired = hist.call(ctx, lambda: onnx_tool.Graph(g.get_onnxgraph_by_nodenames(names), s.m.cfg), **inj)
            ctx.check(names == keep, 'cut_list_changed', lambda: '%r became %r' % (keep, names), kind)
        elif kind == 'edit':
            if not cgs:
                continue
            what, cg = cgs[op['n'] % len(cgs)]
            e = edits.prepare(cg, op['ed'], uid=i)
            if e is None:
                continue
            r, fired = hist.call(ctx, e.call, **inj)
            ctx.log(i, 'edit of ' + what, e.kind, hist.exc_name(r), len(cg.nodemap))
            ctx.state('edit', e.kind, what, hist.exc_name(r), tuple(fired))
            after = src_state(g)
            ctx.check(after == before, 'edit_shows_in_source', lambda: 'step %d: %s %r on the extracted %s changed the source: %s' % (
                i, e.kind, e.what, what, oracle.diff(before, after)), '%s:%s' % (what, e.kind))
            edited += 1
            continue
        faults += len(fired)
        after = src_state(g)
        ctx.log(i, kind, hist.exc_name(r), fired)
        ctx.state(kind, hist.exc_name(r), tuple(fired), prev)
        prev = kind
        ctx.check(after == before, 'extraction_changes_source', lambda: 'step %d %s (%s): %s' % (
            i, kind, hist.exc_name(r), oracle.diff(before, after)), kind)
        if r[0] == 'exc':
            if not fired:
                ctx.violate('extraction_fails', 'step %d %s: %s' % (i, kind, short(r[1])), '%s:%s' % (kind, type(r[1]).__name__))
            continue
        done += 1
        try:
            if kind == 'cg':
                cg = r[1]
                bad = oracle.integrity(cg, check_links=False)
                # nodes that compute shapes are left out on purpose; what they fed is left open
                left = [t for n in g.nodemap.values() if n.shape_calc for t in n.output]
                bad = [b for b in bad if not any(repr(t) in b and 'nothing provides' in b for t in left)]
                ctx.check(not bad, 'extracted_not_intact', lambda: 'step %d: %s' % (i, '; '.join(bad[:4])), kind)
                src = {n[0]: n for n in before['nodes']}
                for n in oracle.graph_digest(cg)['nodes']:
                    ctx.check(n[0] in src and src[n[0]] == n, 'extracted_node_differs', lambda: '%r is %r in the source' % (
                        n, src.get(n[0])))
                gone = [n for n in g.nodemap if n not in cg.nodemap]
                for o in g.output:
                    ctx.check(o in cg.output, 'extracted_output_lost', lambda: 'step %d: output %r not in %r' % (i, o, cg.output))
                ctx.log('cg', len(cg.nodemap), gone)
                cgs.append(('compute graph', cg))
            elif kind == 'split':
                levels = r[1]
                got = sorted(n for p in levels for n in p.nodemap)
                want = sorted(g.nodemap)
                if not plan['mcfg'].get('constant_folding'):
                    ctx.check(got == want, 'split_nodes', lambda: 'step %d: levels hold %r of %r' % (i, got, want))
                run_levels(levels, i, kind)
                for p in levels:
                    if p.nodemap:
                        cgs.append(('level', p))
            elif kind == 'names':
                part = r[1]
                value_of(part, dict(ref, **feeds), i, kind)
                cgs.append(('part', part))
            elif kind == 'file':
                levels = []
                for j in range(3):
                    f = '_level%d.onnx' % j
                    if f in ctx.sb.disk.snapshot():
                        levels.append(onnx_tool.Model(f).graph)
                run_levels(levels, i, kind)
        except Ill:
            pass
        cgs = cgs[-4:]
    # the source is as usable as ever
    ops = [o for o in plan['ops'] if o.get('kind') == 'split'][:2]
    x = s.inputs(k)
    if not any(o['op'] == 'reorder' for o in plan['ops']):
        want = isolated(twin_end, s.bytes, s.mcfg, x, ops)
        r, _ = hist.call(ctx, lambda: usable(s.m, x, ops))
        if r[0] == 'exc':
            ctx.violate('source_unusable', short(r[1]), type(r[1]).__name__)
        ctx.check(r[1] == want, 'source_differs_from_fresh', lambda: '%s' % oracle.diff(r[1], want))
        ctx.log('end', len(want['shapes']))
    ctx.nontrivial = done > 0 and (faults > 0 or edited > 0)
