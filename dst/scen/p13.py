"""P13: graph edits keep the graph referentially intact; refused edits change nothing."""
import numpy as np

from .. import edits, hist, models, oracle
from ..core import short

RUNS = {'quick': 1200, 'thorough': 25000}
RULE = ('a seeded random model and a seeded sequence of 2-10 edits of 13 kinds with refused edits, inferences, profiles, plans '
        'and failed saves between them; all redundant views are recomputed after every edit; finally the graph is reordered, '
        'inferred where every operator allows it, profiled and saved; non-trivial: at least one edit took effect')
STATES = '(edit kind, outcome, kind of the edit before) triples'
REAL = 'onnx_tool Model/Graph/Node/Tensor, fusion, quantization'
STUB = 'clock, file device, standard output'
ASSUME = ['sets of nodes that are fused are convex: fusing others would make a cyclic graph whoever did it']


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, branchy=True, need='S', nlayers=(2, 14 if big else 9), fixed=rng.random() < .1)
    if rng.random() < .2:
        rec['shuffle'] = rng.randrange(1000)
    if rng.random() < .35:
        for _ in range(rng.randint(1, 2)):
            rec['layers'].insert(rng.randint(0, len(rec['layers'])), {
                'op': rng.choice(['convbn', 'dropout', 'dead', 'reshapeconst', 'unsqueeze', 'splitjoin', 'convbnshare']), 'in': [0, 0, 0],
                'p': rng.randrange(720), 'share': False})
    chain = rng.random() < .1
    if chain:
        # post-ops one after the other
        rec['layers'] += [{'op': rng.choice(['relu', 'leakyrelu', 'sigmoid', 'tanh', 'clip']), 'in': [0, 0, 0], 'p': rng.randrange(720),
                           'share': False} for _ in range(rng.randint(3, 5))]
    mcfg = {'constant_folding': True} if rng.random() < .15 else {}
    if rng.random() < .1:
        mcfg['remove_dangling'] = False
    K = len(rec['sizes'])
    ops = []
    for _ in range(rng.randint(2, 16 if big else 9)):
        if rng.random() < .25:
            ops += hist.gen_history(rng, 1, K, {'vi': .3, 'si_bad': .5, 'regress': 0, 'reorder': 0}, intr=0, allocp=0)
            if ops[-1]['op'] == 'save' and rng.random() < .5:
                ops[-1]['disk'] = [{'op': 'write', 'nth': 0, 'err': 'EIO'}]
        else:
            ops.append(edits.gen(rng))
        if chain and rng.random() < .5:
            ops.append({'op': 'edit', 'e': 'postop', 'n': rng.randrange(60), 'm': rng.choice([1, 1, 2]), 'v': rng.randrange(6) * 4 + 3})
    return {'rec': rec, 'mcfg': mcfg, 'ops': ops, 'k': rng.randrange(K)}


def full(g):
    d = oracle.graph_digest(g, shapes=True)
    d['dynamics'] = sorted(g.dynamics)
    d['links'] = {k: ([getattr(x, 'name', '?') for x in n.prevnodes], [getattr(x, 'name', '?') for x in n.nextnodes])
                  for k, n in g.nodemap.items()}
    return d


def run(plan, ctx):
    s = hist.Session(ctx, plan['rec'], plan.get('mcfg'))
    g = s.m.graph
    prev = 'load'
    bad = oracle.integrity(g, check_links=False)
    ctx.check(not bad, 'not_intact_after_load', lambda: '%r' % bad[:4])
    nodes0 = set(g.nodemap)
    effective = 0
    inferable = True
    quantised = False
    for i, op in enumerate(plan['ops']):
        if not g.nodemap:
            break
        if op['op'] != 'edit':
            if not inferable:
                g.graph_reorder_nodes()  # inference wants producers first; fused nodes are appended at the end
            r, fired = s.exec(op)
            ctx.log(i, op['op'], hist.exc_name(r), fired)
            continue
        outs0 = list(g.output)
        e = edits.prepare(g, op, uid=i)
        if e is None:
            ctx.log(i, op['e'], 'nothing to do')
            continue
        before = full(g)
        r, fired = hist.call(ctx, e.call)
        after = full(g)
        ctx.log(i, e.kind, e.what if isinstance(e.what, str) else repr(e.what)[:120], hist.exc_name(r), len(g.nodemap))
        ctx.state(e.kind, hist.exc_name(r), prev)
        prev = e.kind
        if r[0] == 'exc':
            ctx.fault('edit_refused')
            ctx.check(after == before, 'refused_edit_changes_graph', lambda: 'step %d %s %r raised %s: %s' % (
                i, e.kind, e.what, short(r[1]), oracle.diff(before, after)), e.kind)
            if e.kind == 'fuse_io' and 'There are no nodes' in str(r[1]):
                continue
            if e.kind != 'refused':
                # all the others are legitimate requests
                ctx.violate('edit_fails', 'step %d %s %r: %s' % (i, e.kind, e.what, short(r[1])), e.kind)
            continue
        ctx.check(not getattr(e, 'must_raise', False), 'impossible_edit_accepted', lambda: 'step %d %r returned normally' % (i, e.what))
        if getattr(e, 'no_effect', False):
            ctx.check(after == before, 'refused_edit_changes_graph', lambda: '%r %s' % (e.what, oracle.diff(before, after)))
        bad = oracle.integrity(g, check_links=False)
        removing = e.kind in ('rm_node', 'rm_subtree')
        if e.kind == 'rm_node':
            # removing a node from the middle leaves its consumers without a producer: that is what was asked for
            gone = set(before['producedby']) - set(after['producedby'])
            bad = [b for b in bad if not any(repr(t) in b and 'nothing provides' in b for t in gone)]
        ctx.check(not bad, 'not_intact', lambda: 'step %d %s %r: %s' % (i, e.kind, e.what, '; '.join(bad[:4])), e.kind)
        keep = [o for o in outs0 if any(o in n.output for n in g.nodemap.values())]
        if not removing:
            ctx.check([o for o in g.output if o in outs0] == outs0, 'graph_output_lost',
                      lambda: 'step %d %s %r: outputs %r became %r' % (i, e.kind, e.what, outs0, g.output), e.kind)
        else:
            ctx.check([o for o in g.output if o in keep] == keep, 'graph_output_lost',
                      lambda: 'step %d %s %r: outputs %r became %r' % (i, e.kind, e.what, outs0, g.output), e.kind)
        if after != before:
            effective += 1
        specific(ctx, i, e, before, after, g)
        if e.kind in ('fuse_names', 'fuse_io', 'chain', 'postop', 'shapeops', 'rm_node') or (
                e.kind == 'skip' and after != before) or e.kind == 'quant' and after != before:
            inferable = False
        quantised = quantised or e.kind == 'quant'
        if e.kind == 'rm_node':
            dang = [t for n in g.nodemap.values() for t in n.input if t and t not in g.producedby and t not in g.initials and
                    t not in g.input]
            if dang:
                break
    else:
        final(plan, ctx, s, g, inferable, quantised)
    ctx.nontrivial = effective > 0


def names_of(d):
    return {n[0] for n in d['nodes']}


def specific(ctx, i, e, before, after, g):
    """What each edit must have done."""
    b, a = names_of(before), names_of(after)
    if e.kind == 'rm_node' and not e.what[1]:
        ctx.check(b - a == {e.what[0]} and not a - b, 'edit_effect', lambda: 'removed %r, asked for %r' % (b - a, e.what))
    elif e.kind == 'rm_node':
        ctx.check(e.what[0] in b - a and not a - b, 'edit_effect', lambda: 'removed %r, asked for %r' % (b - a, e.what))
        # everything removed with it fed only it
        pr = {n[0]: n for n in before['nodes']}
        for x in b - a - {e.what[0]}:
            used = [o for o in pr[x][4] if any(o in m[3] for m in after['nodes']) or o in after['output']]
            ctx.check(not used, 'edit_effect', lambda: 'recursive removal of %r took %r although %r is used' % (e.what, x, used))
    elif e.kind == 'rm_subtree':
        pr = {n[0]: n for n in before['nodes']}
        want, todo = {e.what}, [e.what]
        while todo:
            for o in pr[todo.pop()][4]:
                for m in before['nodes']:
                    if o in m[3] and m[0] not in want:
                        want.add(m[0])
                        todo.append(m[0])
        ctx.check(b - a == want, 'edit_effect', lambda: 'subtree of %r is %r, removed %r' % (e.what, sorted(want), sorted(b - a)))
    elif e.kind == 'rm_dangling':
        used = {t for n in after['nodes'] for t in n[3]} | set(after['output'])
        left = [n[0] for n in after['nodes'] if n[4] and not any(o in used for o in n[4])]
        ctx.check(not left, 'edit_effect', lambda: 'dangling nodes left: %r' % left)
        live, todo = set(), [o for o in before['output']]
        prod = {o: n for n in before['nodes'] for o in n[4]}
        while todo:
            t = todo.pop()
            n = prod.get(t)
            if n is not None and n[0] not in live:
                live.add(n[0])
                todo += n[3]
        ctx.check(a == live, 'edit_effect', lambda: 'kept %r, needed %r' % (sorted(a - live), sorted(live - a)))
    elif e.kind == 'reorder':
        pos = {n[0]: k for k, n in enumerate(after['nodes'])}
        prod = {o: n[0] for n in after['nodes'] for o in n[4] if o}
        bad = [(n[0], t) for n in after['nodes'] for t in n[3] if t in prod and pos[prod[t]] >= pos[n[0]]]
        ctx.check(not bad, 'edit_effect', lambda: 'after reordering %r precedes the producer of %r' % bad[0])
        ctx.check(sorted(before['nodes']) == sorted(after['nodes']), 'edit_effect',
                  lambda: 'reordering changed the nodes: %s' % oracle.diff(sorted(before['nodes']), sorted(after['nodes'])))
    elif e.kind == 'add_init':
        ctx.check(e.what in g.initials and oracle.arr_sig(g.tensormap[e.what].numpy) == oracle.arr_sig(e.data), 'edit_effect',
                  lambda: 'added weight %r is not there' % e.what)
    elif e.kind == 'add_dump':
        ctx.check(set(after['output']) == set(before['output']) | set(e.what), 'edit_effect', lambda: '%r -> %r asked %r' % (
            before['output'], after['output'], e.what))
    elif e.kind == 'fuse_names':
        s, name = e.what
        ctx.check(a == (b - set(s)) | {name}, 'edit_effect', lambda: 'fused %r: removed %r added %r' % (s, b - a, a - b))
        n = g.nodemap[name]
        inner = {o for x in before['nodes'] if x[0] in s for o in x[4]}
        need_in = {t for x in before['nodes'] if x[0] in s for t in x[3] if t and t not in inner}
        need_out = {t for t in inner if t in before['output'] or any(t in x[3] for x in before['nodes'] if x[0] not in s)}
        ctx.check(set(n.input) == need_in and need_out <= set(n.output) <= inner, 'edit_effect',
                  lambda: 'fused node of %r has inputs %r (needs %r) outputs %r (needs %r)' % (s, n.input, need_in, n.output, need_out))
        if e.keep:
            # the attributes of all of them are kept
            had = sorted((n[2], k, x) for n in before['nodes'] if n[0] in s for k, x in n[5] if x is not None)
            got = {k: x for n in after['nodes'] if n[0] == name for k, x in n[5]}
            lost = [(o, k) for o, k, x in had if not any(q.startswith(o) and q.endswith('_' + k) and y == x for q, y in got.items())]
            ctx.check(not lost and len(got) == len(had), 'edit_effect', lambda: 'fused node of %r lost %r of %d attributes, has %d' % (
                s, lost, len(had), len(got)))
    elif e.kind == 'postop':
        ctx.check(a == b - set(e.what[1:]), 'edit_effect', lambda: 'post-op fusion of %r removed %r added %r' % (
            e.what, b - a, a - b))
        at = {n[0]: {k: x for k, x in n[5] if x is not None} for n in before['nodes']}
        op = {n[0]: n[2] for n in before['nodes']}
        want = dict(at[e.what[0]], **{k: oracle.norm_attr(x) for k, x in e.extra.items()})
        c = want.pop('postop_count', ('i', 0))[1]
        for x in e.what[1:] if e.keep else ():
            want['postop_%d' % c] = oracle.norm_attr(op[x])
            want.update({'postop_%d_%s' % (c, k): y for k, y in at[x].items()})
            c += 1
        want['postop_count'] = ('i', c)
        got = [dict(n[5]) for n in after['nodes'] if n[0] == e.what[0]][0]
        ctx.check({k: x for k, x in got.items() if x is not None} == want, 'edit_effect', lambda: 'post-op fusion of %r: attributes %s' % (
            e.what, oracle.diff(got, want)))
        if c > len(e.what) - 1 and e.keep:
            ctx.probe('further_postop')
    elif e.kind == 'skip':
        if before != after:
            ctx.check(b - a == {e.what} and not a - b, 'edit_effect', lambda: 'skipping %r removed %r' % (e.what, b - a))
    elif e.kind == 'quant' and before != after:
        t = e.tensor
        ctx.check(t not in g.initials and not any(t in n.input for n in g.nodemap.values()), 'edit_effect',
                  lambda: 'quantised weight %r still used' % t)


def final(plan, ctx, s, g, inferable, quantised):
    if not g.nodemap:
        return
    names = sorted(g.nodemap)
    g.graph_reorder_nodes()
    ctx.check(sorted(g.nodemap) == names, 'reorder_loses_nodes', lambda: '%r became %r' % (names, sorted(g.nodemap)))
    bad = oracle.integrity(g, check_links=False)
    ctx.check(not bad, 'not_intact', lambda: 'after final reorder: %r' % bad[:4], 'reorder')
    if inferable:
        x = s.inputs(plan['k'])
        x = {k: v for k, v in x.items()}
        try:
            g.shape_infer(x)
        except Exception as e:
            ctx.violate('edited_graph_not_inferable', short(e), type(e).__name__)
        g.profile()
        ctx.check(g.valid_profile, 'edited_graph_not_profiled', 'profile() after edits')
        ctx.probe('inferred')
    try:
        s.m.save_model('edited.onnx')
    except Exception as e:
        ctx.violate('edited_graph_not_saved', short(e), type(e).__name__)
    data = ctx.sb.disk.read_bytes('edited.onnx')
    import onnx
    p = onnx.ModelProto()
    p.ParseFromString(data)
    ctx.check([n.name for n in p.graph.node] == list(g.nodemap), 'saved_nodes', lambda: '%r' % [n.name for n in p.graph.node])
    models.ordered(p)
    ctx.log('saved', oracle.proto_nodes(p), sorted(oracle.proto_inits(p).items()))
