"""Graph edits chosen by number, so that plans stay valid when they are minimised."""
import numpy as np

KINDS = {'rm_node': 1, 'rm_subtree': .7, 'rm_dangling': 1, 'skip': 2, 'fuse_names': 1.5, 'fuse_io': .7, 'postop': 1,
         'add_init': .7, 'add_dump': 1, 'reorder': 1, 'quant': .7, 'shapeops': .3, 'convbn': .6, 'refused': 1, 'chain': .4}
PRESERVING = {'rm_dangling': 1, 'skip': 2, 'add_dump': .7, 'reorder': 1.5, 'convbn': 1.5, 'add_init': .5}
IDENTITY = ('Identity', 'Dropout')
ELEM = ('Relu', 'LeakyRelu', 'Add', 'Mul', 'Sigmoid', 'Tanh', 'Clip', 'Neg', 'Abs', 'Elu', 'Sub', 'Exp', 'BatchNormalization',
        'Softplus', 'HardSwish', 'HardSigmoid')


def gen(rng, kinds=None):
    w = kinds or KINDS
    k = rng.choices(list(w), list(w.values()))[0]
    return {'op': 'edit', 'e': k, 'n': rng.randrange(60), 'm': rng.randint(1, 4), 'v': rng.randrange(24)}


def succ(g, name):
    out = []
    for t in g.nodemap[name].output:
        for c in g.nodemap:
            if t and t in g.nodemap[c].input and c not in out:
                out.append(c)
    return out


def pred(g, name):
    out = []
    ins = [i for i in g.nodemap[name].input if i]
    for c, n in g.nodemap.items():
        if any(o in ins for o in n.output) and c not in out:
            out.append(c)
    return out


def reach(g, starts, step):
    seen, todo = set(), list(starts)
    while todo:
        x = todo.pop()
        for y in step(g, x):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def convex(g, names):
    """No path leaves the set and comes back."""
    s = set(names)
    down = reach(g, s, succ) - s
    up = reach(g, s, pred) - s
    return not (down & up)


def grow(g, n, m):
    """A connected convex set of up to m+1 nodes around node n, in graph order."""
    keys = list(g.nodemap)
    cur = [keys[n % len(keys)]]
    for i in range(m):
        cand = [x for c in cur for x in succ(g, c) + pred(g, c) if x not in cur]
        cand = [x for x in cand if convex(g, cur + [x])]
        if not cand:
            break
        cur.append(cand[(n + i) % len(cand)])
    return [k for k in keys if k in cur]


def unique_consumer_chain(g, n, m):
    """node, then elementwise nodes each being the only consumer of the one before."""
    keys = list(g.nodemap)
    k0 = keys[n % len(keys)]
    chain = [k0]
    for _ in range(m):
        node = g.nodemap[chain[-1]]
        if len(node.output) != 1 or node.output[0] in g.output:
            break
        c = succ(g, chain[-1])
        if len(c) != 1 or g.nodemap[c[0]].op_type not in ELEM:
            break
        if not convex(g, chain + c):
            break
        chain.append(c[0])
    return chain


SKIPPABLE = ELEM + IDENTITY + ('Flatten', 'Reshape', 'Unsqueeze', 'Squeeze', 'Transpose', 'MaxPool', 'AveragePool', 'Pad',
                               'Slice', 'Softmax', 'Concat', 'Split', 'Conv', 'MatMul', 'Gemm', 'Expand', 'Resize')


class Edit:
    """A prepared edit: .call() performs it; .what says what it is; .kind; .preserving"""

    def __init__(self, kind, what, call, **kw):
        self.kind = kind
        self.what = what
        self.call = call
        self.__dict__.update(kw)


def prepare(g, e, uid=0, preserving=False):
    """-> Edit or None when the graph offers nothing for it."""
    kind, n, m, v = e['e'], e['n'], e['m'], e['v']
    keys = list(g.nodemap)
    if not keys:
        return None
    k = keys[n % len(keys)]
    if kind == 'rm_node':
        rec = bool(v % 2)
        if rec and m > 1:
            # a node that meets several outputs of one producer
            c = [x for x in keys if any(sum(t in g.nodemap[x].input for t in g.nodemap[y].output) > 1 for y in pred(g, x))]
            k = c[n % len(c)] if c else k
        return Edit(kind, (k, rec), lambda: g.remove_node(k, recursive=rec))
    if kind == 'rm_subtree':
        return Edit(kind, k, lambda: g.remove_subtree(k))
    if kind == 'rm_dangling':
        return Edit(kind, '', g.remove_dangling_nodes)
    if kind == 'reorder':
        return Edit(kind, '', g.graph_reorder_nodes)
    if kind == 'skip':
        if preserving:
            c = [x for x in keys if g.nodemap[x].op_type in IDENTITY]
            if not c:
                return None
        else:
            c = [x for x in keys if g.nodemap[x].op_type in SKIPPABLE]
            if not c:
                return None
        k = c[n % len(c)]
        return Edit(kind, k, lambda: g.skip_node(k))
    if kind == 'fuse_names':
        s = grow(g, n, m)
        if len(s) == len(keys) and len(s) < 2:
            return None
        name = s[0] if v % 3 == 0 else 'fused_%d' % uid
        return Edit(kind, (s, name), lambda: g.fuse_subgraph_node_names(s, 'Fused%d' % (v % 2), name, keep_attr=bool(v % 4)),
                    nodes=s, keep=bool(v % 4))
    if kind == 'fuse_io':
        s = grow(g, n, m)
        ins = [t for x in s for t in g.nodemap[x].input if t in g.dynamics and not any(t in g.nodemap[y].output for y in s)]
        outs = [t for x in s for t in g.nodemap[x].output if not all(c in s for c in g.consumedby.get(t, [])) or
                t not in g.consumedby]
        ins, outs = list(dict.fromkeys(ins)), list(dict.fromkeys(outs))
        if not ins or not outs:
            return None
        return Edit(kind, (ins, outs), lambda: g.fuse_subgraph_iotensors(ins, outs, 'Fused', 'fio_%d' % uid if v % 2 else None),
                    nodes=s)
    if kind == 'postop':
        s = unique_consumer_chain(g, n, m)
        if v % 4 == 3 or len(s) < 2:
            # a further post-op onto a node that has some
            c = [unique_consumer_chain(g, i, m) for i, x in enumerate(keys) if 'postop_count' in g.nodemap[x].attr]
            c = [x for x in c if len(x) > 1]
            s = c[n % len(c)] if c else s
        if len(s) < 2:
            return None
        extra = {'extra': v} if v % 3 else {}
        return Edit(kind, s, lambda: g.fuse_postop_node_names(s, bool(v % 2), **extra), nodes=s, extra=extra, keep=bool(v % 2))
    if kind == 'chain':
        import onnx_tool
        from onnx_tool import fusion
        ops = [g.nodemap[x].op_type for x in unique_consumer_chain(g, n, m)]
        if len(ops) < 2:
            return None

        def f():
            pat = fusion.createSerialPattern(ops)
            for i, names in enumerate(pat.search_pattern(g)):
                if all(x in g.nodemap for x in names) and convex(g, names):
                    g.fuse_subgraph_node_names(names, 'Chain', 'chain_%d_%d' % (uid, i))
        return Edit(kind, ops, f)
    if kind == 'add_init':
        name = 'added_w_%d' % uid
        a = np.arange(v + 1, dtype=(np.float32, np.int64, np.float16)[v % 3])
        if v % 4 == 0:
            a = a.reshape(1, -1)
        return Edit(kind, name, lambda: g.add_initial(name, a), data=a)
    if kind == 'add_dump':
        ts = [t for x in keys for t in g.nodemap[x].output if t]
        names = [ts[(n + 7 * i) % len(ts)] for i in range(m)]
        return Edit(kind, names, lambda: g.add_dump_tensors(names))
    if kind == 'quant':
        from onnx_tool import quantization
        c = [t for t in g.initials if t in g.consumedby and g.consumedby[t] and g.tensormap[t].numpy is not None and
             g.tensormap[t].numpy.ndim == 2 and g.tensormap[t].numpy.dtype.kind == 'f' and
             g.tensormap[t].numpy.size <= 600 and not t.endswith(('_ot_q', '_ot_s', '_ot_z'))]
        if not c:
            return None
        t = c[n % len(c)]
        bits, ty, blk = (8, 4)[v % 2], ('sym', 'asym')[v // 2 % 2], (-1, 0, 4)[v // 4 % 3]
        return Edit(kind, (t, blk, ty, bits), lambda: quantization.graph_quantize(g, t, block=blk, type=ty, bits=bits), tensor=t)
    if kind == 'shapeops':
        from onnx_tool import fusion
        return Edit(kind, '', lambda: fusion.removeShapeOps(g))
    if kind == 'convbn':
        from onnx_tool import fusion
        return Edit(kind, '', lambda: fusion.ConvBNFusion(g))
    if kind == 'refused':
        from onnx_tool import quantization
        w = v % 9
        if w == 0:
            s = grow(g, n, 1)
            other = [x for x in keys if x not in s]
            if not other:
                return None
            return Edit('refused', ('fuse', s, other[0]), lambda: g.fuse_subgraph_node_names(s, 'F', other[0]), must_raise=True)
        if w == 1:
            return Edit('refused', 'fuse unknown', lambda: g.fuse_subgraph_node_names([k, 'no such node'], 'F', 'f'),
                        must_raise=True)
        if w == 2:
            return Edit('refused', 'skip unknown', lambda: g.skip_node('no such node'), must_raise=True)
        if w == 3:
            return Edit('refused', 'add list', lambda: g.add_initial('lst', [1, 2]), must_raise=True)
        if w == 4:
            return Edit('refused', 'postop unknown', lambda: g.fuse_postop_node_names([k, 'no such node'], True), must_raise=True)
        if w == 5:
            c = [t for t in g.initials if t in g.consumedby and g.tensormap[t].numpy is not None and
                 g.tensormap[t].numpy.ndim == 2 and g.tensormap[t].numpy.dtype.kind == 'f' and
                 not t.endswith(('_ot_q', '_ot_s', '_ot_z'))]
            if not c:
                return None
            return Edit('refused', 'quantise type', lambda: quantization.graph_quantize(g, c[n % len(c)], type='bogus'),
                        must_raise=True)
        if w == 6:
            return Edit('refused', 'postop attr', lambda: g.fuse_postop_node_names([k], True, bad=object()), must_raise=True)
        if w == 8:
            nx = [(a, c) for a in keys for b_ in succ(g, a) for c in succ(g, b_)]
            nx = [p for p in nx if not convex(g, p)]
            if not nx:
                return None
            a, c = nx[n % len(nx)]
            return Edit('refused', ('cycle', a, c), (lambda: g.fuse_subgraph_node_names([a, c], 'F', 'f')) if v < 12 else
                        (lambda: g.fuse_postop_node_names([a, c], True)), must_raise=True)
        return Edit('refused', 'remove unknown', lambda: g.remove_node('no such node'), must_raise=False, no_effect=True)
    raise ValueError(kind)
