"""P24: chains of file-level tools give exactly the composed change."""
import os
import shutil

import numpy as np
import onnx

from .. import hist, models, oracle
from ..core import Discard, isolated, short
from ..simdisk import SimCrash

RUNS = {'quick': 800, 'thorough': 20000}
RULE = ('a seeded random model file and a seeded chain of 2-7 file-level calls (constant folding, reordering, input and output '
        'sizes, profile with saved model, fusing, splitting), each reading a file an earlier one wrote (a third of them '
        'overwriting it), given as path or as model object, attempted under seeded storage faults, crashes, interruptions and '
        'refused allocations and then repeated; every completed call is compared with the same call in a fresh process, with '
        'what it was asked to change, and with a reference execution of the original; '
        'non-trivial: two calls completed or a fault fired')
STATES = '(call, form of the source, in place, fault, outcome, call before) tuples'
REAL = 'onnx_tool file-level functions, Model/Graph, serialisation through onnx'
STUB = 'clock, file device, standard output; reference outputs from onnx.reference'
ASSUME = ['unused graph inputs are dropped on save (as documented for P01)',
          'a source that is overwritten in place by a call that fails is restored by the user before the call is repeated',
          'folding a model in which a fused node of an unknown operator has only constant operands may be refused',
          'sizes are requested for tensors of rank 1 and more (the string form has no empty shape)']

OPS = {'fold': 2, 'reorder': 2, 'io': 3.5, 'profile': 1.5, 'fuse': 1, 'split': 1.2, 'names': .8, 'fuseio': 1.6}
DIMN = ['N', 'batch', 'h', 'w2', 'seq_len', 'unk__12', 'Höhe', '?', 'dim 0', '-1', '1.5']


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, need='SV', ctl=rng.choice([0, 0, 0, .3]), nlayers=(1, 10 if big else 7), fixed=rng.random() < .2)
    if rng.random() < .25:
        rec['shuffle'] = rng.randrange(1000)
    for _ in range(rng.choice([0, 0, 1, 2])):
        rec['layers'].insert(rng.randint(0, len(rec['layers'])), {'op': rng.choice(['dead', 'reshapeconst', 'identity', 'unsqueeze', 'splitskip', 'splitskip'] if rec['opset'] >= 13 else ['dead', 'identity']), 'in': [
            rng.randrange(4), 0, 0], 'p': rng.randrange(720), 'share': rng.random() < .2})
    K = len(rec['sizes'])
    st = []
    for _ in range(rng.randint(2, 9 if big else 6)):
        o = {'op': rng.choices(list(OPS), list(OPS.values()))[0], 'src': rng.choice([0, 0, 1, 2]), 'new': rng.random() < .65,
             'a': rng.randrange(5040), 'proto': rng.random() < .3, 'k': rng.randrange(K)}
        if o['op'] == 'io':
            o['io'] = [[rng.randrange(8), [[rng.choice(['keep', 'num', 'sym', 'sym', 'num']), rng.randrange(720)] for _ in range(6)]]
                       for _ in range(rng.choice([1, 1, 2, 3]))]
            o['none'] = rng.random() < .05
            if rng.random() < .12:
                o['bad'] = rng.choice(['more', 'less', 'other'])
        r = rng.random()
        if r < .4:
            o['disk'] = [rng.choice([
                {'op': 'open', 'nth': rng.randrange(3), 'err': rng.choice(['EACCES', 'ENOSPC', 'EIO'])},
                {'op': 'write', 'nth': rng.randrange(3), 'err': rng.choice(['EIO', 'ENOSPC']), 'part': rng.choice([0, 1, 50])},
                {'op': 'close', 'nth': rng.randrange(3), 'err': 'EIO'},
                {'op': 'openr', 'nth': 0, 'err': rng.choice(['EACCES', 'EIO'])},
                {'op': 'read', 'nth': rng.randrange(2), 'err': 'EIO'},
                {'op': 'quota', 'bytes': int(10 ** rng.uniform(0, 3.5))},
                {'op': 'short', 'sizes': [rng.choice([1, 7, 64]), 3]},
                {'op': 'shortread', 'sizes': [rng.choice([1, 7, 64]), 3]},
                {'op': 'eintr', 'nth': rng.randrange(3)},
                {'op': 'crash', 'nth': rng.randrange(2), 'part': rng.choice([0, 9])}])]
        elif r < .6:
            o['at'] = hist.log_at(rng, 4)
            o['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
        elif r < .65:
            o['alloc'] = rng.randrange(12)
        st.append(o)
    return {'rec': rec, 'st': st, 'k': rng.randrange(K), 'd': rng.randrange(40)}


def io_dict(p, o):
    """The sizes this call asks for, as the caller writes them."""
    vis = list(p.graph.input) + list(p.graph.output)
    cand = [v for v in vis if v.type.tensor_type.HasField('shape') and len(v.type.tensor_type.shape.dim)]
    out = {}
    for n, dims in o['io']:
        if not cand:
            break
        v = cand[n % len(cand)]
        parts = []
        for j, d in enumerate(v.type.tensor_type.shape.dim):
            how, x = dims[j % len(dims)]
            cur = d.dim_param if d.HasField('dim_param') else str(d.dim_value) if d.HasField('dim_value') else 'u%d' % j
            if how == 'keep' and cur and 'x' not in cur:
                parts.append(cur)
            elif how == 'num':
                parts.append(str(x % 9 + 1 if x % 5 else 0 if x % 15 else 4096))
            else:
                parts.append(DIMN[x % len(DIMN)])
        if o.get('bad') == 'more':
            parts.append('3')
        elif o.get('bad') == 'less':
            parts = parts[:-1] if len(parts) > 1 else parts + ['2']
        out[v.name] = 'x'.join(parts)
    if o.get('bad') == 'other':
        out['no such tensor'] = '1x2'
    return out


def fn(o, raw, src, dst, b, args):
    """The call itself: -> a function of nothing"""
    import onnx_tool
    if o['proto']:
        m = onnx.ModelProto()
        m.ParseFromString(raw)
    else:
        m = src
    k = o['op']
    f = {
        'fold': lambda: onnx_tool.model_constant_folding(m, dst),
        'reorder': lambda: onnx_tool.model_reorder_nodes(m, dst),
        'io': lambda: onnx_tool.model_io_modify(m, dst, args),
        'profile': lambda: onnx_tool.model_profile(m, args, save_profile='t.txt' if o['a'] % 2 else None, save_model=dst,
                                                   no_shape=o['a'] % 3 == 0),
        'fuse': lambda: onnx_tool.model_opfusion(m, 'Fused', 'fused_%d' % o['a'], dst, nodenames=list(args), keep_attr=bool(o['a'] % 2)),
        'fuseio': lambda: onnx_tool.model_opfusion(m, 'Fused', 'fused_%d' % o['a'], dst, list(args[0]), list(args[1]), keep_attr=bool(o['a'] % 2)),
        'split': lambda: onnx_tool.model_subgraph(m, in_tensor_names=list(args[0]), out_tensor_names=list(args[1]), save_folder='.'),
        'names': lambda: onnx_tool.model_subgraph(m, nodenames=list(args), save_folder='.'),
    }[k]
    return m, f


def read_all(root):
    out = {}
    for f in sorted(os.listdir(root)):
        p = os.path.join(root, f)
        if os.path.isfile(p):
            fd = os.open(p, os.O_RDONLY)
            out[f] = os.read(fd, 1 << 26)
            os.close(fd)
    return out


def alone(root, o, raw, src, dst, b, args):
    """The call on healthy storage in a process that did nothing before."""
    iso = os.path.join(root, 'iso')
    shutil.rmtree(iso, ignore_errors=True)
    os.makedirs(iso)
    os.chdir(iso)
    try:
        with open(src, 'wb') as f:
            f.write(raw)
        m, call = fn(o, raw, src, dst, b, args)
        try:
            call()
        except BaseException as e:
            return 'exc', type(e).__name__
        out = read_all('.')
        if src != dst and out.get(src) == raw:
            del out[src]
        return 'ok', out
    finally:
        os.chdir(root)
        shutil.rmtree(iso, ignore_errors=True)


def parse(data):
    p = onnx.ModelProto()
    p.ParseFromString(data)
    return p


def dims(v):
    """The tool does not distinguish rank 0 from an unknown rank."""
    return [d.dim_value if d.HasField('dim_value') else d.dim_param if d.HasField('dim_param') else None for d in v.type.tensor_type.shape.dim]


def nodes_of(p):
    return [(n.op_type, n.name, tuple(n.input), tuple(n.output)) for n in p.graph.node]


def run(plan, ctx):
    sb, disk = ctx.sb, ctx.sb.disk
    b = models.build(plan['rec'])
    raw = b.proto.SerializeToString(deterministic=True)
    feeds = models.data(b, plan['k'], plan['d'])
    try:
        ref = oracle.ref_run(b.proto, feeds)
    except Exception as e:
        raise Discard('reference: ' + short(e))
    outs = [o.name for o in b.proto.graph.output]
    disk.write_bytes('m.onnx', raw)
    disk.write_bytes('bystander.onnx', b'not to be touched')
    # files: name -> (bytes, computes the original function); the list is in order of writing
    files = [['m.onnx', raw, True]]
    prev = 'start'
    done = faults = 0
    for i, o in enumerate(plan['st']):
        kind = o['op']
        src, data, whole = files[-1 - o['src'] % len(files)]
        dst = src if not o['new'] and not o['proto'] else 'f%d.onnx' % (i % 4)
        p = parse(data)
        b_ = p.graph.node
        args = None
        if kind == 'io':
            args = None if o['none'] else io_dict(p, o)
        elif kind == 'profile':
            if not whole:
                continue
            x = models.data(b, o['k'], plan['d'])
            args = {v.name: x[v.name] for v in p.graph.input if v.name in x}
        elif kind in ('fuse', 'names'):
            ns = [n.name for n in b_]
            if len(set(ns)) != len(ns) or '' in ns:
                continue
            j = o['a'] % len(ns)
            args = ns[j:j + 1 + o['a'] // 7 % 3]
        elif kind in ('split', 'fuseio'):
            if not whole:
                continue
            c = [t for n in models.ordered(p).graph.node if n.op_type != 'Constant' for t in n.output if t]
            if len(c) < 3:
                continue
            j = o['a'] % (len(c) - 1)
            args = ([c[j]], [c[j + 1 + o['a'] // 7 % (len(c) - j - 1)]])
            if kind == 'fuseio' and o['a'] % 3 == 0:
                # everything in front of a tensor
                init = {t.name for t in p.graph.initializer}
                multi = {t for n in p.graph.node if len(n.output) > 1 for t in n.input}
                d = [t for t in c if t in multi] if o['a'] % 2 else []
                args = ([v.name for v in p.graph.input if v.name not in init], [d[j % len(d)] if d else c[1 + j]])
        want = isolated(alone, disk.root, o, data, src, dst, b, args)
        tag = '%s%s' % (kind, ' in place' if src == dst else '')
        made = None
        for attempt in range(3):
            before = disk.snapshot()
            m, call = fn(o, data, src, dst, b, args)
            keep = m.SerializeToString(deterministic=True) if o['proto'] else None
            akeep = repr(args)
            spec = {q: o.get(q) for q in ('at', 'exc', 'alloc', 'disk')} if attempt == 0 else {}
            r, fired = hist.call(ctx, call, **spec)
            after = disk.snapshot()
            faults += len(fired)
            ctx.log(i, attempt, tag, hist.exc_name(r), fired, sorted((f, len(d)) for f, d in after.items()))
            ctx.state(kind, o['proto'], src == dst, tuple(fired), hist.exc_name(r), prev)
            asked = {'split': ['%s_level%d.onnx' % (('' if o['proto'] else src[:-5]), j) for j in range(3)],
                     'names': ['%s_subgraph.onnx' % ('' if o['proto'] else src[:-5])],
                     'profile': [dst, 't.txt']}.get(kind, [dst])
            other = [f for f in set(before) | set(after) if before.get(f) != after.get(f) and f not in asked]
            ctx.check(not other, 'file_touched', lambda: 'step %d %s %s: %r' % (i, tag, fired, other), kind)
            ctx.check(keep is None or m.SerializeToString(deterministic=True) == keep, 'source_object_changed', lambda: 'step %d %s' % (i, tag), kind)
            ctx.check(repr(args) == akeep, 'argument_changed', lambda: 'step %d %s: %s -> %r' % (i, tag, akeep, args), kind)
            if r[0] == 'ok':
                ctx.check(want[0] == 'ok', 'accepted', lambda: 'step %d %s %r: a fresh process raises %s' % (i, tag, args, want[1]), kind)
                for f, d in want[1].items():
                    ctx.check(after.get(f) == d, 'differs_from_fresh', lambda: 'step %d %s %s: %r has %r bytes, in a fresh process %d: %s' % (
                        i, tag, fired, f, f in after and len(after[f]), len(d), f.endswith('.onnx') and f in after and oracle.diff(
                            nodes_of(parse(d)), nodes_of(parse(after[f])))), kind)
                made = want[1]
                break
            real = [f for f in fired if not f.startswith(('short', 'eintr'))]
            if not real and want[0] == 'ok':
                ctx.violate('tool_fails', 'step %d %s %r: %s (%s)' % (i, tag, args, short(r[1]), fired), kind)
            # what may have been damaged is put back
            for f in asked:
                if before.get(f) != after.get(f):
                    if f == src or f not in before:
                        if f in before:
                            disk.write_bytes(f, before[f])
                        else:
                            disk.remove(f)
                    files = [x for x in files if x[0] != f or f == src]
            if want[0] == 'exc' and not real:
                break
        prev = kind
        for f, d in (made or {}).items():
            if not f.endswith('.onnx') or f not in asked:
                continue
            q = parse(d)
            v = [(x.ir_version, {(z.domain, z.version) for z in x.opset_import if z.domain in ('', 'ai.onnx')}) for x in (p, q)]
            ctx.check(v[0] == v[1], 'version_changed', lambda: 'step %d %s: %r: ir version and operator set %r became %r' % (i, tag, f, v[0], v[1]), kind)
            if kind == 'names':
                old, new = {n.name: n for n in p.graph.node}, [n.name for n in q.graph.node]
                # constants may become weights
                ns = [n for n in args if old[n].op_type != 'Constant']
                ctx.check(set(ns) <= set(new) <= set(args) and len(set(new)) == len(new), 'other_nodes', lambda: 'step %d: asked for %r, %r has %r' % (i, args, f, new))
                # what it reads and does not make or hold is an input, what others read is an output
                made_ = {t for n in q.graph.node for t in n.output}
                init = {t.name for t in q.graph.initializer}
                need = {t for n in q.graph.node for t in n.input if t} - made_ - init
                ctx.check({v.name for v in q.graph.input} == need, 'part_inputs', lambda: 'step %d: %r needs %r, declares %r' % (
                    i, args, sorted(need), [v.name for v in q.graph.input]))
                outer = {t for n in p.graph.node if n.name not in args for t in n.input} | {v.name for v in p.graph.output}
                o1, o2 = {v.name for v in q.graph.output}, made_ & outer
                ctx.check(o2 <= o1 <= made_, 'part_outputs', lambda: 'step %d: %r gives %r, declares %r' % (i, args, sorted(o2), sorted(o1)))
        if made is None:
            if kind == 'io' and not o.get('bad') or kind in ('reorder', 'profile') or kind == 'fold' and whole:
                ctx.violate('tool_fails', 'step %d %s %r: %s' % (i, tag, args, want[1]), kind)
            continue
        ctx.check(not (kind == 'io' and args and o.get('bad') in ('more', 'less')), 'wrong_rank_accepted', lambda: 'step %d %r' % (i, args))
        done += 1
        if kind in ('split', 'names'):
            if kind == 'split':
                parts(ctx, i, args, [made.get(f) for f in asked], feeds, ref, outs)
            continue
        if dst not in made:
            ctx.check(not len(b_), 'nothing_written', lambda: 'step %d %s' % (i, tag), kind)
            continue
        q = parse(made[dst])
        effect(ctx, i, o, args, p, q, b, kind)
        whole2 = whole and kind not in ('fuse', 'fuseio')
        if whole2:
            try:
                got = oracle.ref_run(models.ordered(q), {n: a for n, a in feeds.items() if n in [v.name for v in q.graph.input]})
            except Exception as e:
                ctx.violate('result_does_not_run', 'step %d %s: %s' % (i, tag, short(e)), kind)
            for n in outs:
                ctx.check(n in got, 'output_lost', lambda: 'step %d %s: %r' % (i, tag, n), kind)
                dd = oracle.close(got[n], ref[n])
                ctx.check(not dd, 'function_changed', lambda: 'step %d %s: output %r: %s' % (i, tag, n, dd), kind)
        files = [x for x in files if x[0] != dst] + [[dst, made[dst], whole2]]
    ctx.nontrivial = done > 1 or faults > 0


def effect(ctx, i, o, args, p, q, b, kind):
    used = {t for n in p.graph.node for t in n.input} | {v.name for v in p.graph.output}
    init = {t.name for t in p.graph.initializer}
    pin = [v for v in p.graph.input if v.name in used and v.name not in init]
    qin = {v.name: v for v in q.graph.input}
    for a, c, what in ((p.graph.output, q.graph.output, 'outputs'),):
        ctx.check([v.name for v in a] == [v.name for v in c], 'io_changed', lambda: 'step %d %s: %s %r became %r' % (
            i, kind, what, [v.name for v in a], [v.name for v in c]), kind)
    if kind != 'fold':
        ctx.check([v.name for v in pin] == [n for n in (v.name for v in q.graph.input) if n in {v.name for v in pin}], 'io_changed', lambda: (
            'step %d %s: inputs %r became %r' % (i, kind, [v.name for v in pin], list(qin))), kind)
    asked = {}
    if kind == 'io' and args:
        asked = {n: [int(x) if x.isnumeric() else x for x in s.split('x')] for n, s in args.items()}
    x = args if kind == 'profile' else {}
    for a, c in list(zip(p.graph.output, q.graph.output)) + [(v, qin[v.name]) for v in pin if v.name in qin]:
        ctx.check(a.type.tensor_type.elem_type == c.type.tensor_type.elem_type, 'type_changed', lambda: 'step %d %s: %r' % (i, kind, a.name), kind)
        if a.name in asked:
            ctx.check(dims(c) == asked[a.name], 'size_not_set', lambda: 'step %d: %r should be %r and is %r' % (i, a.name, asked[a.name], dims(c)))
        elif a.name in x:
            ctx.check(dims(c) == list(x[a.name].shape), 'size_not_set', lambda: 'step %d: %r was given as %r and is %r' % (
                i, a.name, x[a.name].shape, dims(c)))
        elif kind in ('io', 'reorder', 'fold'):
            ctx.check(dims(c) == dims(a), 'other_size_changed', lambda: 'step %d %s: %r was %r and is %r' % (i, kind, a.name, dims(a), dims(c)), kind)
    pn, qn = nodes_of(p), nodes_of(q)
    if kind == 'io' or kind == 'profile':
        ctx.check(len(pn) == len(qn) or p.graph.node and len(qn) < len(pn), 'nodes_changed', lambda: 'step %d %s: %d nodes became %d' % (
            i, kind, len(pn), len(qn)), kind)
    if kind == 'reorder':
        seen = set()
        outs = {t for n in q.graph.node for t in n.output}
        for n in q.graph.node:
            for t in n.input:
                ctx.check(not t or t not in outs or t in seen, 'order', lambda: 'step %d: %r reads %r before it is made' % (i, n.name, t))
            seen.update(n.output)
    if kind == 'fold':
        left = [n.name for n in q.graph.node if n.op_type == 'Constant' and not any(t in [v.name for v in q.graph.output] for t in n.output)]
        ctx.check(not left, 'fold_effect', lambda: 'step %d: constants left: %r' % (i, left))
    if kind in ('fuse', 'fuseio'):
        name = 'fused_%d' % o['a']
        fu = [n for n in q.graph.node if n.op_type == 'Fused' and (n.name == name if kind == 'fuse' else n.name.startswith(name + '_'))]
        left = {n.name for n in q.graph.node if n not in fu}
        if kind == 'fuse':
            ctx.check(len(fu) == 1, 'not_fused', lambda: 'step %d: %r' % (i, args))
            ctx.check(not left & set(args), 'not_fused', lambda: 'step %d: %r still there' % (i, left & set(args)))
        else:
            ctx.check([n.name for n in sorted(fu, key=lambda n: int(n.name.rsplit('_', 1)[1]))] == ['%s_%d' % (name, k) for k in range(len(fu))] and fu,
                      'not_fused', lambda: 'step %d: %r gives %r' % (i, args, [n.name for n in fu]))
            down = set(args[0])
            for n in models.ordered(p).graph.node:
                if down & set(n.input):
                    down |= set(n.output)
            ctx.check(all(t not in down - set(args[0]) or any(t in n.output for n in fu) for t in args[1]), 'not_fused', lambda: 'step %d: %r: fused nodes make %r' % (
                i, args, [list(n.output) for n in fu]))
        old = {n.name: n for n in p.graph.node}
        if len(old) == len(p.graph.node) and '' not in old:
            ctx.check(left <= set(old), 'nodes_changed', lambda: 'step %d %s: new nodes %r' % (i, kind, left - set(old)), kind)
            for n in q.graph.node:
                if n.name in left and (list(n.input), list(n.output), n.op_type) != (list(old[n.name].input), list(old[n.name].output), old[n.name].op_type):
                    ctx.violate('nodes_changed', 'step %d %s: %r' % (i, kind, n.name), kind)
            gone = [n for n in p.graph.node if n.name not in left]
            const = {t for n in p.graph.node if n.op_type == 'Constant' for t in n.output}
            if kind == 'fuseio' and len(fu) == 1:
                past = set(args[1])
                for n in models.ordered(p).graph.node:
                    if past & set(n.input):
                        past |= set(n.output)
                behind = {n.name for n in p.graph.node if past & set(n.input)}
                between = {n.name for n in p.graph.node if (down | set(args[0])) & set(n.input)} - behind
                gone_ = {n.name for n in gone if n.op_type != 'Constant'}
                ctx.check(gone_ == between, 'not_between', lambda: 'step %d: %r: fused %r, between them are %r' % (i, args, sorted(gone_), sorted(between)))
            made = {t for n in gone for t in n.output if t}
            need = {t for n in gone for t in n.input if t} - made - const
            outer = {t for n in q.graph.node if n.name in left for t in n.input} | {v.name for v in q.graph.output}
            fi, fo = {t for n in fu for t in n.input}, {t for n in fu for t in n.output}
            ctx.check(need <= fi and fi <= need | made | const, 'fused_inputs', lambda: 'step %d %s %r: needs %r, takes %r' % (i, kind, args, sorted(need), sorted(fi)), kind)
            ctx.check(made & outer <= fo <= made, 'fused_outputs', lambda: 'step %d %s %r: others read %r, it gives %r' % (
                i, kind, args, sorted(made & outer), sorted(fo)), kind)


def parts(ctx, i, args, datas, feeds, ref, outs):
    """The files run one after the other."""
    have = dict(feeds)
    for d in datas:
        if d is None:
            continue
        q = models.ordered(parse(d))
        need = [v.name for v in q.graph.input if v.name not in {t.name for t in q.graph.initializer}]
        miss = [n for n in need if n not in have]
        if miss:
            ctx.violate('part_lacks_input', 'step %d split at %r: %r' % (i, args, miss))
        try:
            got = oracle.ref_run(q, {n: have[n] for n in need})
        except Exception as e:
            ctx.violate('result_does_not_run', 'step %d part of a split at %r: %s' % (i, args, short(e)), 'split')
        have.update(got)
    for n in outs:
        ctx.check(n in have, 'output_lost', lambda: 'step %d split at %r: %r' % (i, args, n), 'split')
        dd = oracle.close(have[n], ref[n])
        ctx.check(not dd, 'function_changed', lambda: 'step %d split at %r: output %r: %s' % (i, args, n, dd), 'split')
