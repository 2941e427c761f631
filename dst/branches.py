"""Wraps stretches of a model into the branches of If nodes: with `if_fixed_branch` the wrapped model must behave as the flat one."""
import random

import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper


def gen(rng):
    """Plan of the wrapping, or None."""
    return {'branch': rng.choice(['then', 'else', 'else']), 'cond': [rng.randrange(4) for _ in range(3)], 'other': rng.random() < .5,
            'cuts': [[rng.randrange(1000), rng.randint(1, 5)] for _ in range(rng.randint(1, 3))], 'nest': rng.random() < .25,
            'same': rng.random() < .5, 'weights': rng.random() < .6, 'twice': rng.random() < .2}


def fix_topk(b, spec):
    """Give every TopK the weight the option `fixed_topk` puts there.  -> that number, 0 when it can not apply."""
    if spec.get('topk') is None:
        return 0
    vals = {t.name: numpy_helper.to_array(t) for t in b.inits}
    for n in b.nodes:
        if n.op_type == 'Constant' and n.attribute[0].name == 'value':
            vals[n.output[0]] = numpy_helper.to_array(n.attribute[0].t)
    tops = [n for n in b.nodes if n.op_type == 'TopK']
    ks = {int(np.ravel(vals[n.input[1]])[0]) if n.input[1] in vals else 0 for n in tops}
    if len(ks) != 1 or 0 in ks:
        return 0
    old = {n.input[1] for n in tops}
    for n in tops:
        n.input[1] = FIXED
    used = {i for n in b.nodes for i in n.input}
    b.nodes[:] = [n for n in b.nodes if not (n.op_type == 'Constant' and n.output[0] in old and n.output[0] not in used)]
    b.inits.append(numpy_helper.from_array(np.array([ks.copy().pop()], np.int64), FIXED))
    return ks.pop()


def vary_topk(nodes, inits, gins, spec):
    """The same TopK nodes with other numbers from other sources."""
    inits = [t for t in inits if t.name != FIXED]
    out = []
    tops = [n for n in nodes if n.op_type == 'TopK']
    for j, n in enumerate(nodes):
        c = onnx.NodeProto()
        c.CopyFrom(n)
        if n.op_type == 'TopK':
            kind = (spec['topk'] + tops.index(n) * (spec['topk'] // 4)) % 4
            k = 'kk_%d' % (j if spec['topk'] % 2 else 0)
            if k not in {t.name for t in inits} | {o for m in out for o in m.output}:
                if kind == 0:
                    inits.append(numpy_helper.from_array(np.array([1], np.int64), k))
                elif kind == 1:
                    out.append(helper.make_node('Constant', [], [k], value=numpy_helper.from_array(np.array([1], np.int64))))
                else:
                    out.append(helper.make_node('Shape', [n.input[0] if kind == 2 else sorted(gins)[0]], [k + '_s']))
                    inits.append(numpy_helper.from_array(np.array([0], np.int64), k + '_i'))
                    out.append(helper.make_node('Gather', [k + '_s', k + '_i'], [k + '_d']))
                    inits.append(numpy_helper.from_array(np.array([1], np.int64), k + '_m'))
                    out.append(helper.make_node('Min', [k + '_d', k + '_m'], [k]))
            c.input[1] = k
        out.append(c)
    return out, inits


FIXED = 'constant_fixed_topk_k'


def names_in(g):
    """Every tensor name that is used inside a graph."""
    out = {o.name for o in g.output}
    for n in g.node:
        out |= used_by(n)
    return out


def used_by(n):
    out = set(n.input)
    for a in n.attribute:
        if a.type == onnx.AttributeProto.GRAPH:
            out |= names_in(a.g)
    return out


def rename_uses(n, table):
    for k, i in enumerate(n.input):
        n.input[k] = table.get(i, i)
    for a in n.attribute:
        if a.type == onnx.AttributeProto.GRAPH:
            for m in a.g.node:
                rename_uses(m, table)
            for o in a.g.output:
                o.name = table.get(o.name, o.name)


def wrap(nodes, inits, gouts, gins, spec):
    """-> (nodes, initializers) of the same model with stretches of it inside If branches."""
    nodes = [n for n in nodes]
    inits = list(inits)
    if any(n.op_type == 'TopK' and FIXED in n.input for n in nodes):
        nodes, inits = vary_topk(nodes, inits, gins, spec)
    pinned = {i for i in gins}
    for j, (at, ln) in enumerate(spec['cuts']):
        a = at % len(nodes)
        seg = nodes[a:a + ln]
        rest = nodes[:a] + nodes[a + ln:]
        prod = [o for n in seg for o in n.output if o]
        need = set(gouts)
        for n in rest:
            need |= used_by(n)
        outs = [o for o in prod if o in need]
        if not outs or (not spec['nest'] and any(n.op_type == 'If' for n in seg)) or len(seg) == 0:
            continue
        if any(n.domain or any(o.startswith(('cond_', 'kk_')) for o in n.output) for n in seg):
            continue
        tag = '' if spec['same'] else '_%d' % j
        table = {o: 'branch_out%s_%d' % (tag, k) for k, o in enumerate(outs)}
        if any(v in names_in_nodes(seg) for v in table.values()):
            table = {o: 'branch_out_n%d_%d' % (j, k) for k, o in enumerate(outs)}
        copies = []
        for n in seg:
            c = onnx.NodeProto()
            c.CopyFrom(n)
            rename_uses(c, table)
            for k, o in enumerate(c.output):
                c.output[k] = table.get(o, o)
            copies.append(c)
        moved = []
        if spec['weights']:
            elsewhere = set(gouts) | pinned
            for n in rest:
                elsewhere |= used_by(n)
            seguse = set()
            for n in copies:
                seguse |= used_by(n)
            moved = [t for t in inits if t.name in seguse and t.name not in elsewhere]
            ids = {t.name for t in moved}
            inits = [t for t in inits if t.name not in ids]
        binfo = [helper.make_tensor_value_info(table[o], TensorProto.FLOAT, None) for o in outs]
        chosen = helper.make_graph(copies, 'chosen', [], binfo, initializer=moved)
        if spec['other']:
            onodes = [helper.make_node('Constant', [], [table[o]], value=numpy_helper.from_array(np.float32(7)))
                      for o in outs]
            other = helper.make_graph(onodes, 'other', [], binfo)
        else:
            onames = ['other_%d_%d' % (j, k) for k in range(len(outs))]
            other = helper.make_graph(
                [helper.make_node('Constant', [], [o], value=numpy_helper.from_array(np.float32(7))) for o in onames], 'other',
                [], [helper.make_tensor_value_info(o, TensorProto.FLOAT, None) for o in onames])
        pre = []
        cond = 'cond_%d' % j
        kind = spec['cond'][j % len(spec['cond'])]
        read = set(gouts)
        for n in nodes:
            read |= used_by(n)
        before = [o for n in nodes[:a] for o in n.output if o in read]
        if kind == 0:
            inits.append(numpy_helper.from_array(np.array(spec['branch'] == 'then'), cond))
        elif kind == 1:
            pre.append(helper.make_node('Constant', [], [cond], value=numpy_helper.from_array(np.array(spec['branch'] == 'then'))))
        else:
            # computed from an earlier tensor, if possible one that otherwise only the branch reads
            src = before[-1] if before and kind == 3 else sorted(gins)[0] if gins else None
            inner = [i for n in copies for i in used_by(n) if i in before]
            if kind == 3 and inner:
                src = sorted(inner)[at % len(inner)]
            if src is None:
                continue
            inits.append(numpy_helper.from_array(np.array(-1, np.int64), cond + '_c'))
            pre.append(helper.make_node('Shape', [src], [cond + '_s']))
            pre.append(helper.make_node('ReduceSum', [cond + '_s'], [cond + '_d'], keepdims=1))
            pre.append(helper.make_node('Greater' if spec['branch'] == 'then' else 'Less', [cond + '_d', cond + '_c'], [cond]))
        th, el = (chosen, other) if spec['branch'] == 'then' else (other, chosen)
        nd = helper.make_node('If', [cond], outs, name='' if at % 3 == 0 else 'if_%d' % j, then_branch=th, else_branch=el)
        nodes = nodes[:a] + pre + [nd] + nodes[a + ln:]
    return nodes, inits


def names_in_nodes(ns):
    out = set()
    for n in ns:
        out |= used_by(n) | set(n.output)
        for at in n.attribute:
            if at.type == onnx.AttributeProto.GRAPH:
                for m in at.g.node:
                    out |= set(m.output)
    return out
