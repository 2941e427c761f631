"""Reference matcher for fusion patterns, and patterns drawn from a graph by number."""
import operator
import random

def _d(name, op, ins, outs, attrs=()):
    return {'name': name, 'op': op, 'attrs': [list(a) for a in attrs], 'inport': [list(i) for i in ins], 'outport': [list(o) for o in outs]}


# what the patterns that come with the package stand for
SHIPPED = {
    'ConvBN': [_d('a', 'Conv', [], [(0, 'b', 0)], [['kernel_shape', '<=', 0, 7], ['kernel_shape', '>=', 0, 1], ['kernel_shape', '<=', 1, 7],
                                                   ['kernel_shape', '>=', 1, 1]]),
               _d('b', 'BatchNormalization', [(0, 'a', 0)], [])],
    'Fused_Element': [_d('a', 'Any', [], [(0, 'b', 0)]), _d('b', ['Relu', 'LeakyRelu', 'Add'], [(0, 'a', 0)], [])],
    'Conv_Res': [_d('a', 'Conv', [], [(0, 'b', 1)]), _d('b', 'Add', [(1, 'a', 0)], [(0, 'c', 0)]),
                 _d('c', ['Relu', 'LeakyRelu'], [(0, 'b', 0)], [])],
    'MHAint8_Pattern': [_d('a', 'QLinearMatMul', [], [(0, 'b', 0)]), _d('b', 'DequantizeLinear', [(0, 'a', 0)], [(0, 'c', 0)]),
                        _d('c', 'Div', [(0, 'b', 0)], [(0, 'd', 0)]), _d('d', 'Add', [(0, 'c', 0)], [(0, 'e', 0)]),
                        _d('e', 'Softmax', [(0, 'd', 0)], [(0, 'f', 0)]), _d('f', 'QuantizeLinear', [(0, 'e', 0)], [(0, 'g', 0)]),
                        _d('g', 'QLinearMatMul', [(0, 'f', 0)], [])],
    'layernorm_pattern': [_d('a', 'ReduceMean', [], [(0, 'b', 1)]), _d('b', 'Sub', [(1, 'a', 0)], [(0, 'c', 0), (0, 'g', 0)]),
                          _d('c', 'Pow', [(0, 'b', 0)], [(0, 'd', 0)]), _d('d', 'ReduceMean', [(0, 'c', 0)], [(0, 'e', 0)]),
                          _d('e', 'Add', [(0, 'd', 0)], [(0, 'f', 0)]), _d('f', 'Sqrt', [(0, 'e', 0)], [(0, 'g', 1)]),
                          _d('g', 'Div', [(0, 'b', 0), (1, 'f', 0)], [])],
}
LAYERS = {'ConvBN': 'convbn', 'Fused_Element': 'relu', 'Conv_Res': 'convres', 'MHAint8_Pattern': 'mhaq', 'layernorm_pattern': 'lnparts'}

SIMILAR = ['Relu', 'Add', 'Mul', 'Conv', 'MatMul', 'Max', 'Min', 'Sin', 'Cos', 'Tan', 'Log', 'Soft', 'Reduce', 'Resize', 'Pad', 'relu', 'Nothing']
OPS = {'<=': operator.le, '<': operator.lt, '>=': operator.ge, '>': operator.gt, '==': operator.eq}


def plain(g):
    """The graph as plain data."""
    return {n: (x.op_type, list(x.input), list(x.output), {k: v for k, v in vars(x).items() if v is not None}, list(x.attr))
            for n, x in g.nodemap.items()}


def edges(descs):
    """(producer, output or -1, consumer, input or -1), as both sides state them; and those the producer states."""
    e, down = [], []
    for d in descs:
        for oi, c, ii in d['outport']:
            e.append((d['name'], oi, c, ii))
            down.append((d['name'], oi, c, ii))
    for d in descs:
        for ii, p, oi in d['inport']:
            if (p, oi, d['name'], ii) not in e:
                e.append((p, oi, d['name'], ii))
    return e, down


def holds_attr(at, cond):
    name, ex = cond[0], cond[1]
    if name not in at:
        return False
    v = at[name]
    if len(cond) == 4:
        if cond[2] >= len(v):
            return False
        v = v[cond[2]]
    return bool(OPS[ex](v, cond[-1]))


def fits(node, d):
    if d['op'] != 'Any' and node[0] not in (d['op'] if isinstance(d['op'], list) else [d['op']]):
        return False
    return all(holds_attr(node[3], c) for c in d['attrs'])


def linked(P, a, oi, b, ii, single=None):
    """Is there a tensor from the port of a to the port of b?  single: number of readers of each tensor, when only one is allowed."""
    for o, t in enumerate(P[a][2]):
        if t and (oi in (-1, o)) and (single is None or single.get(t, 0) == 1):
            if any(t == u and ii in (-1, i) for i, u in enumerate(P[b][1])):
                return True
    return False


def readers(P):
    n = {}
    for x in P.values():
        for t in set(x[1]):
            n[t] = n.get(t, 0) + 1
    return n


def valid(P, descs, names, inplace=False):
    """Why a reported place does not fit, or None."""
    if len(names) != len(descs):
        return 'it has %d nodes, the pattern %d' % (len(names), len(descs))
    if len(set(names)) != len(names):
        return 'a node appears twice'
    f = dict(zip([d['name'] for d in descs], names))
    for d in descs:
        if f[d['name']] not in P:
            return 'no node %r' % (f[d['name']],)
        if not fits(P[f[d['name']]], d):
            return 'node %r is not %r %r' % (f[d['name']], d['op'], d['attrs'])
    e, down = edges(descs)
    one = readers(P) if inplace else None
    for a, oi, b, ii in e:
        if not linked(P, f[a], oi, f[b], ii):
            return 'no tensor from output %d of %r to input %d of %r' % (oi, f[a], ii, f[b])
        if inplace and (a, oi, b, ii) in down and not linked(P, f[a], oi, f[b], ii, one):
            return 'the output of %r has other readers' % f[a]
    return None


def starts(P, descs, inplace=False):
    """Nodes at which a place begins that fits the whole pattern."""
    e, down = edges(descs)
    one = readers(P) if inplace else None
    byname = {d['name']: d for d in descs}
    order, left = [descs[0]['name']], [d['name'] for d in descs[1:]]
    while left:
        n = next((x for x in left if any((a == x and b in order) or (b == x and a in order) for a, _, b, _ in e)), left[0])
        order.append(n)
        left.remove(n)

    def extend(f, i):
        if i == len(order):
            return True
        d = order[i]
        for n in P:
            if n in f.values() or not fits(P[n], byname[d]):
                continue
            f[d] = n
            if all(a not in f or b not in f or linked(P, f[a], oi, f[b], ii, one if (a, oi, b, ii) in down else None)
                   for a, oi, b, ii in e if d in (a, b)) and extend(f, i + 1):
                del f[d]
                return True
            del f[d]
        return False
    return [n for n in P if fits(P[n], byname[order[0]]) and extend({order[0]: n}, 1)]


def draw(P, seed, kinds=('chain', 'serial', 'names', 'tree', 'wild', 'attr', 'shipped')):
    """-> (kind, how, descriptions, node names it was taken from): a pattern taken from the graph, and sometimes spoilt."""
    r = random.Random(repr(seed))
    kind = r.choice(list(kinds))
    keys = list(P)
    prod = {t: n for n in keys for t in P[n][2] if t}
    succ = {n: [] for n in keys}
    pred = {n: [] for n in keys}
    for n in keys:
        for t in P[n][1]:
            p = prod.get(t)
            if p is not None and p != n:
                if n not in succ[p]:
                    succ[p].append(n)
                if p not in pred[n]:
                    pred[n].append(p)
    if kind == 'shipped':
        how = r.choice(sorted(SHIPPED))
        return kind, how, SHIPPED[how], []
    cur = [r.choice(keys)]
    size = r.choice([1, 2, 2, 2, 3, 3, 4, 5, 6])
    while len(cur) < size:
        if kind in ('chain', 'serial'):
            c = [x for x in succ[cur[-1]] if x not in cur]
        else:
            c = [x for n in cur for x in succ[n] + pred[n] if x not in cur]
        if not c:
            break
        cur.append(r.choice(c))
    if kind == 'serial':
        ops = [P[n][0] for n in cur]
        descs = [{'name': str(i), 'op': o, 'attrs': [], 'inport': [[-1, str(i - 1), -1]] if i else [],
                  'outport': [[-1, str(i + 1), -1]] if i + 1 < len(ops) else []} for i, o in enumerate(ops)]
        return kind, ops, descs, cur
    if kind == 'names':
        r.shuffle(cur)
        return kind, cur, None, cur
    if kind != 'chain':
        r.shuffle(cur)
    descs = [{'name': 'd%d' % i, 'op': P[n][0], 'attrs': [], 'inport': [], 'outport': []} for i, n in enumerate(cur)]
    links = []
    for i, a in enumerate(cur):
        for j, b in enumerate(cur):
            for o, t in enumerate(P[a][2]):
                for k, u in enumerate(P[b][1]):
                    if t and t == u and i != j:
                        links.append((i, o, j, k))
    # a spanning tree, or all of them
    if kind in ('chain', 'tree') or r.random() < .4:
        r.shuffle(links)
        have, tree = {0}, []
        while True:
            x = next((x for x in links if (x[0] in have) != (x[2] in have)), None)
            if x is None:
                break
            tree.append(x)
            have |= {x[0], x[2]}
        links = tree
    for i, o, j, k in links:
        w = r.random() if kind in ('wild', 'attr') else 1
        if w < .25:
            o = -1
        elif w < .5:
            k = -1
        elif w < .7:
            o = k = -1
        descs[i]['outport'].append([o, 'd%d' % j, k])
        descs[j]['inport'].append([k, 'd%d' % i, o])
    for i, n in enumerate(cur):
        w = r.random()
        if w < .15:
            descs[i]['op'] = 'Any'
        elif w < .35:
            descs[i]['op'] = [r.choice(SIMILAR)] + ([P[n][0]] if r.random() < .8 else [r.choice(SIMILAR)])
        if kind == 'attr' or r.random() < .15:
            at = [(k, v) for k, v in P[n][3].items() if k in P[n][4] + ['axis', 'group', 'alpha'] and (isinstance(v, (int, float)) and v == v or
                  isinstance(v, (list, tuple)) and v and all(isinstance(z, int) for z in v))]
            at.sort(key=lambda kv: not isinstance(kv[1], float) or r.random() < .5)
            for k, v in at[:r.randint(0, 2)] if r.random() < .5 else r.sample(at, min(len(at), r.randint(0, 2))):
                ex = r.choice(list(OPS))
                off = r.choice([0, 0, 0, 1, -1])
                if isinstance(v, (list, tuple)):
                    x = r.randrange(len(v) + r.choice([0, 0, 1]))
                    descs[i]['attrs'].append([k, ex, x, v[min(x, len(v) - 1)] + off])
                else:
                    descs[i]['attrs'].append([k, ex, v + (r.choice([off, .25, -.25, .75]) if isinstance(v, float) else off)])
            if r.random() < .05:
                descs[i]['attrs'].append(['no_such_attribute', '==', 0])
    if r.random() < .2 and links:
        # a near miss
        i, j = links[0][0], links[0][2]
        w = r.randrange(3)
        if w == 0:
            descs[r.choice([i, j])]['op'] = r.choice(SIMILAR)
        else:
            n = r.randrange(3)
            for x in descs[i]['outport']:
                if x[1] == 'd%d' % j:
                    x[2 * (w - 1)] = n
            for x in descs[j]['inport']:
                if x[1] == 'd%d' % i:
                    x[2 * (2 - w)] = n
    return kind, None, descs, cur
