"""P27: a pattern search reports exactly the places that fit."""
import copy

from .. import edits, hist, models, oracle, patterns
from ..core import short

RUNS = {'quick': 4000, 'thorough': 90000}
RULE = ('a seeded random model (nodes in seeded order) and a seeded sequence of pattern searches (patterns taken from the graph and '
        'sometimes spoilt: chains, trees and diamonds, and the patterns that come with the package; ports or wildcards, operator sets, attribute conditions, in-place rule) with '
        'graph edits, inferences, interrupted searches and refused allocations between them, the pattern objects being used again; '
        'every answer is compared with a reference matcher; non-trivial: some search found a place and some edit, failure or second '
        'search came before another search')
STATES = '(pattern kind, nodes in the pattern, places found up to 3, in-place, object used before) tuples'
REAL = 'onnx_tool Model/Graph/Node and fusion (FusionPattern, createSerialPattern, create_descs_from_nodenames)'
STUB = 'clock, file device, standard output'
ASSUME = ['every link of a pattern is stated at both of its ends, as create_descs_from_nodenames does']


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, branchy=True, need='S', nlayers=(2, 16 if big else 10), fixed=rng.random() < .1)
    if rng.random() < .3:
        rec['shuffle'] = rng.randrange(1000)
    if rng.random() < .5:
        # repeated structure
        blk = [dict(L) for L in rec['layers'][:rng.randint(1, 4)]]
        for _ in range(rng.randint(1, 2)):
            rec['layers'] += [dict(L, p=L['p'] if rng.random() < .8 else rng.randrange(720)) for L in blk]
    if rng.random() < .3:
        for _ in range(rng.randint(1, 3)):
            rec['layers'].insert(rng.randint(0, len(rec['layers'])), {'op': rng.choice(sorted(patterns.LAYERS.values())), 'in': [0, 0, 0],
                                                                      'p': rng.randrange(720), 'share': False})
        if any(L['op'] == 'mhaq' for L in rec['layers']):
            rec['opset'] = 20
    K = len(rec['sizes'])
    ops = []
    for _ in range(rng.randint(2, 14 if big else 8)):
        r = rng.random()
        if r < .62:
            op = {'op': 'search', 's': rng.randrange(100000), 'inplace': rng.random() < .15, 'again': rng.random() < .35,
                  'n': rng.randrange(20)}
            if rng.random() < .25:
                op['at'] = hist.log_at(rng, 3)
                op['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'SystemExit'])
            ops.append(op)
        elif r < .85:
            ops.append(edits.gen(rng))
        else:
            ops += hist.gen_history(rng, 1, K, {'regress': 0}, intr=.2, allocp=.1)
    return {'rec': rec, 'ops': ops, 'cg': rng.random() < .25}


def run(plan, ctx):
    from onnx_tool import fusion
    s = hist.Session(ctx, plan['rec'])
    g = s.m.graph
    if plan['cg']:
        g.shape_infer(s.inputs(0))
        g = g.get_compute_graph()
    pats = []
    found_any = before = False
    for i, op in enumerate(plan['ops']):
        if not g.nodemap:
            break
        if op['op'] == 'edit':
            e = edits.prepare(g, op, uid=i)
            if e is not None:
                r, _ = hist.call(ctx, e.call)
                ctx.log(i, e.kind, hist.exc_name(r))
                before = True
            continue
        if op['op'] != 'search':
            if not plan['cg']:
                r, fired = s.exec(op)
                ctx.log(i, op['op'], hist.exc_name(r), fired)
                before = True
            continue
        P = patterns.plain(g)
        used = bool(op['again'] and pats)
        if used:
            kind, how, descs, pat, inplace, asked = pats[op['n'] % len(pats)]
        else:
            kind, how, descs, frm = patterns.draw(P, op['s'])
            inplace = op['inplace']
            state = oracle.full_state(g)
            if kind == 'serial':
                pat = fusion.createSerialPattern(list(how))
                inplace = False
            elif kind == 'shipped':
                pat = fusion.FusionPattern(getattr(fusion, how), inplace)
            else:
                if kind == 'names':
                    r, _ = hist.call(ctx, lambda: fusion.create_descs_from_nodenames(g, list(how)))
                    ctx.check(r[0] == 'ok', 'search_fails', lambda: 'step %d descriptions of %r: %s' % (i, how, short(r[1])), kind)
                    descs = copy.deepcopy(r[1])
                    w = patterns.valid(P, descs, list(how))
                    ctx.check(w is None, 'description_wrong', lambda: 'step %d: %r as described does not fit itself: %s' % (i, how, w), kind)
                    ctx.check(len(patterns.edges(descs)[0]) == links(P, how), 'description_wrong',
                              lambda: 'step %d: %r has %d links inside, described are %r' % (i, how, links(P, how), descs), kind)
                pat = fusion.FusionPattern(copy.deepcopy(descs), inplace)
            asked = copy.deepcopy(descs)
            pats.append((kind, how, descs, pat, inplace, asked))
        state = oracle.full_state(g)
        if op.get('at') is not None:
            r, fired = hist.call(ctx, lambda: pat.search_pattern(g), op['at'], op['exc'])
            ctx.log(i, 'interrupted search', fired, hist.exc_name(r))
            before = before or bool(fired)
        r, _ = hist.call(ctx, lambda: pat.search_pattern(g))
        what = lambda: 'step %d %s pattern %r%s' % (i, kind, how if kind == 'shipped' else asked, ' in place' if inplace else '')
        ctx.check(r[0] == 'ok', 'search_fails', lambda: '%s: %s' % (what(), short(r[1])), kind)
        found = [list(x) for x in r[1]]
        for x in found:
            w = patterns.valid(P, asked, x, inplace)
            ctx.check(w is None, 'reported_place_does_not_fit', lambda: '%s: %r reported, but %s' % (what(), x, w), kind)
        want = patterns.starts(P, asked, inplace)
        got = [x[0] for x in found]
        miss = [n for n in want if n not in got]
        ctx.check(not miss, 'place_not_found', lambda: '%s: a place that begins at %r fits, reported are %r' % (what(), miss, found), kind)
        ctx.check(len(set(map(tuple, found))) == len(found), 'place_reported_twice', lambda: '%s: %r' % (what(), found), kind)
        now = oracle.full_state(g)
        ctx.check(now == state, 'search_changes_graph', lambda: '%s: %s' % (what(), oracle.diff(state, now)), kind)
        ctx.log(i, 'search', kind, len(asked), found)
        ctx.state(kind, len(asked), min(len(found), 3), inplace, used)
        if found and before:
            found_any = True
        before = True
    ctx.nontrivial = found_any


def links(P, names):
    n = 0
    for a in names:
        for b in names:
            for t in set(P[a][2]):
                n += P[b][1].count(t) if t else 0
    return n
