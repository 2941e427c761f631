"""P05: tensor export writes every requested weight once and never overwrites another."""
import io
import os

import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper

from .. import hist, models, oracle
from ..core import short

RUNS = {'quick': 1500, 'thorough': 30000}
RULE = ('a seeded random model with extra weights of random types, shapes and awkward names (path separators, names that collide after '
        'replacing them, dots, blanks, non-ASCII); 1-5 exports (all or selected weights, half precision or not, several folders) under '
        'storage faults, interruptions, allocation failures and crashes, over leftovers of earlier exports; then a clean one; '
        'non-trivial: at least one fault fired and at least two weights were requested')
STATES = '(selection kind, folder kind, fp16, name style, outcome, faults) tuples'
REAL = 'model_export_tensors_numpy, Model/Graph loading, numpy.save, io.BufferedWriter'
STUB = 'file device under the io buffers, clock, standard output'
ASSUME = ['element types numpy itself knows (a bfloat16 array cannot be told apart in the npy format)', 'a case-sensitive file system']

STEMS = ['w', 'a/b', 'a_b', 'a\\b', 'a_b_', 'a__b', '/a/b', '_a_b', 'a/b_', '.', '..', '../a', '.._a', 'a b', 'x.npy', 'x', 'é/ü', 'é_ü',
         'A/B', 'a//b', 'a/_b', 'w:0', 'w_0', 'con', 'a"b', '-w', '~', '*', 'a,b', '0', '/', '_', '//', '__', '\\', 'a\nb']
DTS = ['f32', 'f32', 'f32', 'f64', 'f16', 'i64', 'i32', 'i8', 'u8', 'bool', 'i16', 'u16', 'u32', 'u64']
SHAPES = [(3,), (2, 3), (), (1,), (0,), (2, 0, 3), (1, 2, 3, 4), (700,), (40, 50), (8192,)]


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, need='S', nlayers=(0, 3), fixed=True) if rng.random() < .4 else None
    nw = rng.randint(1, 14 if big else 9)
    base = rng.sample(STEMS, min(len(STEMS), nw))
    if rng.random() < .6:
        # names that meet after the path separators are replaced
        grp = rng.choice([['a/b', 'a_b', 'a\\b', 'a_b_', 'a__b', 'a/b_', 'a_b__'], ['/', '_', '//', '__', '\\', '___', '/_/'],
                          ['é/ü', 'é_ü', 'é\\ü', 'é_ü_']])
        base = rng.sample(grp, min(len(grp), rng.randint(2, 6))) + base[:3]
    names = list(dict.fromkeys(base))
    rng.shuffle(names)
    ws = [{'n': n, 'dt': rng.choice(DTS), 's': rng.randrange(len(SHAPES)), 'raw': rng.random() < .5, 'seed': rng.randrange(1000)}
          for n in names]
    calls = []
    for _ in range(rng.randint(1, 7 if big else 4)):
        c = {'sel': rng.choice(['all', 'all', 'some', 'dup', 'unknown', 'none']), 'x': rng.randrange(1 << 16),
             'folder': rng.choice([None, 'out', 'deep/er', 'out/']), 'fp16': rng.random() < .4, 'how': rng.choice(['proto', 'path', 'bytes'])}
        r = rng.random()
        if r < .45:
            op = rng.choice(['open', 'write', 'write', 'close', 'quota', 'mkdir', 'crash', 'short', 'openr', 'read'])
            if op == 'quota':
                sp = {'op': op, 'bytes': rng.choice([0, 100, 300, 2000])}
            elif op == 'crash':
                sp = {'op': op, 'nth': rng.randrange(nw), 'part': rng.choice([0, 1, 100])}
            elif op == 'short':
                sp = {'op': op, 'sizes': [rng.choice([1, 50])]}
            else:
                sp = {'op': op, 'nth': rng.randrange(nw), 'err': rng.choice(['EIO', 'ENOSPC', 'EACCES']), 'part': rng.choice([0, 1, 60])}
            c['disk'] = [sp]
        elif r < .65:
            c['at'] = hist.log_at(rng, 3.3)
            c['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
        elif r < .75:
            c['alloc'] = rng.randrange(12)
        calls.append(c)
    return {'rec': rec, 'ws': ws, 'calls': calls, 'used': rng.random() < .7}


def make(plan):
    """Model with the given weights."""
    if plan['rec']:
        p = onnx.ModelProto()
        p.CopyFrom(models.build(plan['rec']).proto)
    else:
        p = helper.make_model(helper.make_graph([helper.make_node('Relu', ['x'], ['y'], name='r')], 'g',
                                                [helper.make_tensor_value_info('x', TensorProto.FLOAT, [2])],
                                                [helper.make_tensor_value_info('y', TensorProto.FLOAT, [2])]),
                              opset_imports=[helper.make_opsetid('', 15)])
    have = {t.name for t in p.graph.initializer} | {o for n in p.graph.node for o in n.output} | {i.name for i in p.graph.input}
    for i, w in enumerate(plan['ws']):
        if w['n'] in have:
            continue
        r = np.random.RandomState(w['seed'])
        dt = models.DT[w['dt']]
        shape = SHAPES[w['s']]
        a = r.randint(0, 2, shape) if w['dt'] == 'bool' else r.randint(0, 200, shape) if w['dt'][0] == 'u' else \
            r.randint(-100, 100, shape) / 8 * (1000 if w['seed'] % 7 == 0 else 1) if w['dt'][0] == 'f' else r.randint(-100, 100, shape)
        a = np.asarray(a).astype(dt)
        if w['raw']:
            t = numpy_helper.from_array(a, w['n'])
        else:
            v = a.flatten()
            t = helper.make_tensor(w['n'], helper.np_dtype_to_tensor_dtype(a.dtype), list(a.shape), v if w['dt'] == 'f16' else v.tolist())
        p.graph.initializer.append(t)
        if plan['used']:
            p.graph.node.append(helper.make_node('Identity', [w['n']], ['out of %d' % i], name='id%d' % i))
            p.graph.output.append(helper.make_tensor_value_info('out of %d' % i, t.data_type, list(a.shape)))
    return p


def expected(arr, fp16):
    if fp16 and arr.dtype in (np.float32, np.float64):
        with np.errstate(all='ignore'):
            arr = arr.astype(np.float16)
    return arr


def run(plan, ctx):
    import onnx_tool
    sb = ctx.sb
    p = make(plan)
    raw = p.SerializeToString(deterministic=True)
    weights = {t.name: numpy_helper.to_array(t) for t in p.graph.initializer}
    weights = {k: a for k, a in weights.items() if a.dtype.kind != 'V' and a.dtype.name != 'bfloat16'}
    every = [t.name for t in p.graph.initializer]
    sb.disk.write_bytes('src.onnx', raw)
    sb.disk.write_bytes('keep.npy', b'not a weight')
    naming = {}       # (folder-independent) weight -> file name, as first observed
    anyfault = False
    state = {}        # what the files hold now according to the calls that completed: file -> weight signature
    calls = list(plan['calls']) + [{'sel': 'all', 'folder': f, 'fp16': False, 'x': 0, 'how': 'proto'} for f in (None, 'out')]
    for i, c in enumerate(calls):
        req = {'all': None, 'none': [], 'some': [n for j, n in enumerate(every) if c['x'] >> (j % 16) & 1],
               'dup': [n for j, n in enumerate(every) if c['x'] >> (j % 16) & 1] * 2,
               'unknown': ['no/such'] + [n for j, n in enumerate(every) if not c['x'] >> (j % 16) & 1] + ['nor_this', 'x']}[c['sel']]
        want = every if req is None else [n for n in dict.fromkeys(req) if n in every]
        src = 'src.onnx' if c['how'] == 'path' else p
        before = sb.disk.snapshot()
        had_folder = os.path.isdir(os.path.join(sb.disk.root, (c['folder'] or '').strip('/')))
        del sb.disk.events[:]
        sb.take_warnings()
        r, fired = hist.call(ctx, lambda: onnx_tool.model_export_tensors_numpy(src, tensornames=req, savefolder=c['folder'], fp16=c['fp16']),
                             c.get('at'), c.get('exc'), c.get('alloc'), c.get('disk'))
        opened = {ev[1] for ev in sb.disk.events if ev[0] in ('opened', 'replaced')}
        hard = [f for f in fired if f not in ('short_write', 'short_read', 'eintr')]
        if had_folder:  # an existing folder need not be created
            hard = [f for f in hard if not f.startswith('mkdir')]
        anyfault = anyfault or bool(fired)
        what = 'call %d %r on weights %r' % (i, {k: v for k, v in c.items() if k != 'x'}, want[:8])
        after = sb.disk.snapshot()
        ctx.log(i, hist.exc_name(r), fired, sorted((f, oracle.hashlib.sha256(d).hexdigest()[:12]) for f, d in after.items()))
        ctx.state(c['sel'], c['folder'], c['fp16'], hist.exc_name(r), tuple(fired), len(want))
        ctx.check(p.SerializeToString(deterministic=True) == raw and after.get('src.onnx') == raw and
                  after.get('keep.npy') == b'not a weight', 'source_changed', what)
        folder = (c['folder'] or '').strip('/')
        inside = {f: d for f, d in after.items() if f not in ('src.onnx', 'keep.npy') and
                  (f.rsplit('/', 1)[0] if '/' in f else '') == folder}
        outside = {f: d for f, d in after.items() if f not in inside}
        ctx.check({f: d for f, d in before.items() if f in outside} == outside, 'file_outside_folder_touched',
                  lambda: '%s: %r' % (what, sorted(f for f in outside if outside[f] != before.get(f))))
        touched = {f: inside[f] for f in inside if f in opened}
        for f in inside:
            if f not in opened:
                ctx.check(before.get(f) == inside[f], 'unrequested_file_touched', lambda: '%s: %s' % (what, f))
        if r[0] == 'exc':
            if not fired:
                ctx.violate('export_fails_without_fault', '%s: %s' % (what, short(r[1])), type(r[1]).__name__)
            good, bad = 0, []
            left = list(want)
            for f, d in sorted(touched.items()):
                m = match(d, [w for w in left if w in weights], weights, c['fp16'], naming, f)
                if m is None:
                    bad.append(f)
                else:
                    good += 1
            unk = len([w for w in want if w not in weights])
            ctx.check(len(bad) <= 1 + unk, 'incomplete_files', lambda: '%s failed (%s) and left %r incomplete or wrong' % (
                what, short(r[1], 80), bad))
            continue
        # returned normally
        ctx.check(not hard, 'storage_error_swallowed', lambda: '%s: %r struck, the call returned' % (what, hard))
        ctx.check(len(touched) == len(want), 'file_count', lambda: '%s: %d weights requested, files %r' % (
            what, len(want), sorted(touched)))
        for w in want:
            plainfile = w.replace('/', '_').replace('\\', '_')
            if w in weights:
                cand = [f for f, d in sorted(touched.items()) if match(d, [w], weights, c['fp16'], {}, f)]
                ctx.check(cand, 'weight_not_written', lambda: '%s: no file holds weight %r (%s %s)' % (
                    what, w, weights[w].dtype, weights[w].shape))
                if sum(x.replace('/', '_').replace('\\', '_').rstrip('_') == plainfile.rstrip('_') for x in every) == 1:
                    f = (folder + '/' if folder else '') + plainfile + '.npy'
                    ctx.check(f in cand, 'weight_in_wrong_file', lambda: '%s: weight %r is not in %r but in %r' % (what, w, f, cand))
        # one file each: a perfect matching between weights and files
        known = [w for w in want if w in weights]
        edges = {w: [f for f, d in touched.items() if match(d, [w], weights, c['fp16'], {}, f)] for w in known}
        ctx.check(matching(edges) == len(known), 'weights_share_a_file', lambda: '%s: %r' % (what, edges))
        for w in known:
            names = {f[len(folder):].lstrip('/') for f in edges[w]}
            naming[w] = naming.get(w, names) & names
            ctx.check(naming[w], 'file_name_depends_on_history', lambda: '%s: weight %r was in another file before' % (what, w))
        if c['sel'] == 'unknown':
            ws = [str(x) for x in sb.take_warnings()]
            for n in ('no/such', 'nor_this'):
                ctx.check(any(n in x for x in ws), 'unknown_name_not_reported', lambda: '%s: warnings %r' % (what, ws[:4]))
    ctx.nontrivial = anyfault and len(every) > 1


def match(data, cands, weights, fp16, naming, f):
    try:
        fobj = io.BytesIO(data)
        a = np.load(fobj)
        if fobj.read(1):
            return None
    except Exception:
        return None
    for w in cands:
        e = expected(weights[w], fp16)
        if a.dtype == e.dtype and a.shape == e.shape and a.tobytes() == e.tobytes():
            return w
    return None


def matching(edges):
    pair = {}

    def aug(w, seen):
        for f in edges[w]:
            if f in seen:
                continue
            seen.add(f)
            if f not in pair or aug(pair[f], seen):
                pair[f] = w
                return True
        return False
    return sum(aug(w, set()) for w in edges)
