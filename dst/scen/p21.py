"""P21: the command line never reports success for work it did not complete."""
import os
import runpy
import sys

import numpy as np
import onnx

from .. import hist, models
from ..core import REPO, isolated, short
from ..simdisk import SimCrash

RUNS = {'quick': 1200, 'thorough': 20000}
RULE = ('a seeded random model file, intact or damaged (missing, a directory, truncated at a seeded byte, garbage), and a seeded '
        'sequence of 1-4 command lines of all four modes with all options, each under seeded storage faults (open, write, close, '
        'read, directory creation, full disk, short and interrupted writes, crash), interruptions at any executed line and '
        'refused allocations; every run with exit status zero is compared with the library call on fault-free storage; '
        'non-trivial: a fault fired, the model was damaged, or two commands completed')
STATES = '(mode, options, damage, fault, exit status) tuples'
REAL = 'onnx_tool.__main__ executed by runpy in this process, the library behind it'
STUB = 'clock, file device (in memory), standard output, argv'
ASSUME = ['damage that leaves a parsable model file is only required to give what the library gives for that file',
          'a graph without nodes is not written (the tool warns)']


def gen(rng, tier, idx):
    big = tier == 'thorough'
    rec = models.gen_recipe(rng, need='SV', ctl=rng.choice([0, 0, .5]), nlayers=(1, 9 if big else 5), fixed=rng.random() < .15,
                            family=rng.choice(['img', 'seq', 'mat', 'img2', 'ids']))
    K = len(rec['sizes'])
    dam = rng.choice(['none'] * 7 + ['missing', 'dir', 'trunc', 'trunc', 'garbage', 'empty'])
    cmds = []
    for _ in range(rng.randint(1, 5 if big else 4)):
        c = {'mode': rng.choice(['profile', 'profile', 'profile', 'default', 'export_tensors', 'export_tensors', 'constant_folding',
                                 'io_modify']), 'k': rng.randrange(K), 'o': rng.random() < .8, 'f': rng.choice([None, 't.txt', 't.csv', 't.txt', 't.csv']),
             'e': rng.choice([None, None, 'Relu', 'Conv,Add', 'NoSuchOp']), 'd': rng.random() < .85, 'val': rng.random() < .2,
             'names': rng.choice([None, None, [0], [0, 1, 3], [2, 'no such'], ['no such']]), 'fp16': rng.random() < .3,
             'short_opts': rng.random() < .5, 'old': rng.random() < .4, 'bad_d': rng.random() < .06,
             'i32': rng.random() < .25}
        r = rng.random()
        if r < .4:
            spec = [rng.choice([
                {'op': 'open', 'nth': rng.randrange(3), 'err': rng.choice(['EACCES', 'ENOSPC', 'EIO'])},
                {'op': 'open', 'nth': rng.randrange(2), 'err': rng.choice(['EACCES', 'EACCES', 'EROFS', 'ENOSPC', 'ENOENT', 'EISDIR'])},
                {'op': 'open', 'nth': 0, 'err': 'EACCES'},
                {'op': 'write', 'nth': rng.randrange(4), 'err': rng.choice(['EIO', 'ENOSPC']), 'part': rng.choice([0, 1, 50]),
                 'sticky': rng.random() < .3},
                {'op': 'close', 'nth': rng.randrange(3), 'err': 'EIO'},
                {'op': 'openr', 'nth': 0, 'err': rng.choice(['EACCES', 'EIO'])},
                {'op': 'read', 'nth': rng.randrange(2), 'err': 'EIO'},
                {'op': 'mkdir', 'nth': 0, 'err': 'EACCES'},
                {'op': 'quota', 'bytes': int(10 ** rng.uniform(0, 4))},
                {'op': 'short', 'sizes': [rng.choice([1, 7, 64]), 3]},
                {'op': 'shortread', 'sizes': [rng.choice([1, 7, 64]), 3]},
                {'op': 'eintr', 'nth': rng.randrange(3)},
                {'op': 'crash', 'nth': rng.randrange(3), 'part': rng.choice([0, 9])}])]
            c['disk'] = spec
        elif r < .6:
            c['at'] = hist.log_at(rng, 4.2)
            c['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'KeyboardInterrupt'])
        elif r < .65:
            c['alloc'] = rng.randrange(12)
        cmds.append(c)
    plan = {'rec': rec, 'dam': dam, 'cut': rng.random(), 'cmds': cmds}
    if rng.random() < .35:
        plan['names'] = rng.choice([':0', ':0', ':1', 'f32:0', ':f32', ':int32:0', '.x.1', '/in x', ':2x3'])
    return plan


def rename(b, suffix):
    """Inputs named the way converters from other frameworks name them."""
    m = {v[0]: v[0] + suffix for v in b.inputs}

    def walk(g):
        for n in g.node:
            for i, v in enumerate(n.input):
                n.input[i] = m.get(v, v)
            for i, v in enumerate(n.output):
                n.output[i] = m.get(v, v)
            for a in n.attribute:
                if a.HasField('g'):
                    walk(a.g)
                for h in a.graphs:
                    walk(h)
        for l in (g.input, g.output, g.value_info):
            for v in l:
                v.name = m.get(v.name, v.name)
    walk(b.proto.graph)
    b.inputs = [(m[v[0]],) + tuple(v[1:]) for v in b.inputs]
    b.ctl = {m.get(k, k): v for k, v in b.ctl.items()}


def shape_arg(b, c):
    """--dynamic_shapes for profiling"""
    out = []
    for name, t, arr, val in given(b, c):
        a = '%s:%s:%s' % (name, t, 'x'.join(str(v) for v in arr.shape))
        if val:
            a += ':' + 'x'.join(repr(v) for v in arr.ravel().tolist())
        out.append(a)
    return out


def given(b, c):
    """What the command line can say about the inputs: [(name, type, array, whether values are stated)]."""
    out = []
    x = models.data(b, c['k'], 3)
    for i, (n, dt, dims, shapes) in enumerate(b.inputs):
        ctl = n in b.ctl
        if ctl:
            t = 'int32' if x[n].dtype.kind == 'i' else 'f32'
        else:
            t = 'int32' if dt == 'i64' or c.get('i32') and (i + c['k']) % 2 == 0 else 'f32'
        val = (c['val'] or ctl) and x[n].size > 0
        arr = (x[n] if ctl else np.abs(x[n])).astype(np.int32 if t == 'int32' else np.float32)
        if not val:
            arr = np.zeros_like(arr)
        if c['bad_d'] and i == 0:
            arr = arr[None]
        out.append((n, t, arr, val))
    return out


def io_arg(b, c):
    out = []
    for i, (n, dt, dims, shapes) in enumerate(b.inputs):
        out.append('%s:%s' % (n, 'x'.join(str(d) if (c['k'] + i + j) % 3 else ('dim%d', 'N%d', 'Height%d')[c['k'] % 3] % j for j, d in enumerate(shapes[c['k']]))))
    if c['bad_d']:
        out[0] += 'x9'
    return out


def argv(b, c, names, folder):
    """-> (arguments, library call, files asked for or None for 'those in a folder')"""
    mode = 'profile' if c['mode'] == 'default' else c['mode']
    s = c['short_opts']
    a = [] if c['mode'] == 'default' else ['-m' if s else '--mode', mode]
    a += ['-i' if s else '--in', 'src.onnx']
    out = None
    files = []
    if mode == 'profile':
        kw = {'save_profile': None, 'save_model': None, 'exclude_ops': None}
        dyn = None
        if c['d']:
            sa = shape_arg(b, c)
            a += ['-d' if s else '--dynamic_shapes'] + sa
            dyn = {n: arr for n, t, arr, val in given(b, c)}
        if c['e']:
            a += ['-e' if s else '--exclude-ops', c['e']]
            kw['exclude_ops'] = set(c['e'].split(','))
        if c['f']:
            a += ['-f' if s else '--file', folder + c['f']]
            kw['save_profile'] = 'lib/' + c['f']
            files.append(c['f'])
        if c['o']:
            a += ['-o' if s else '--out', folder + 'o.onnx']
            kw['save_model'] = 'lib/o.onnx'
            files.append('o.onnx')
        return a, ('profile', dyn, kw), files
    if mode == 'export_tensors':
        nm = None
        if c['names']:
            nm = [names[v % len(names)] if isinstance(v, int) else v for v in c['names']] if names else ['no such']
            a += ['--names'] + nm
        if c['fp16']:
            a += ['--fp16']
        if c['o']:
            a += ['-o' if s else '--out', folder + 'exp']
        return a, ('export', nm, c['fp16'], c['o']), None
    if c['o']:
        a += ['-o' if s else '--out', folder + 'o.onnx']
        files.append('o.onnx')
    lib = 'lib/o.onnx' if c['o'] else None
    if mode == 'constant_folding':
        return a, ('fold', lib), files
    ia = None
    if c['d']:
        ia = io_arg(b, c)
        a += ['-d' if s else '--dynamic_shapes'] + ia
        ia = dict(v.rsplit(':', 1) for v in ia)
    return a, ('io', lib, ia), files


def library(call, root):
    """The library call on healthy storage, in a process of its own: {'file': bytes} and what it printed."""
    import onnx_tool
    os.makedirs('lib', exist_ok=True)
    os.makedirs('lib/cwd', exist_ok=True)
    sys.stdout.take()
    k = call[0]
    if k == 'profile':
        onnx_tool.model_profile('src.onnx', call[1], **call[2])
    elif k == 'export':
        if call[3]:
            onnx_tool.model_export_tensors_numpy('src.onnx', tensornames=call[1], savefolder='lib/exp', fp16=call[2])
        else:
            onnx_tool.model_export_tensors_numpy('src.onnx', tensornames=call[1], savefolder='lib', fp16=call[2])
    elif k == 'fold':
        onnx_tool.model_constant_folding('src.onnx', call[1])
    else:
        onnx_tool.model_io_modify('src.onnx', call[1], call[2])
    out = {}
    for d, _, fs in os.walk('lib'):
        for f in fs:
            p = os.path.join(d, f)
            fd = os.open(p, os.O_RDONLY)
            out[os.path.relpath(p, 'lib')] = os.read(fd, 1 << 26)
            os.close(fd)
    return out, sys.stdout.take()


def lib_safe(call, root):
    try:
        r = ('ok', library(call, root))
    except BaseException as e:
        r = ('exc', short(e))
    import shutil
    shutil.rmtree(os.path.join(root, 'lib'), ignore_errors=True)
    return r


def cli(args):
    old = sys.argv
    sys.argv = ['onnx_tool'] + args
    try:
        runpy.run_path(os.path.join(REPO, 'onnx_tool', '__main__.py'), run_name='__main__')
    finally:
        sys.argv = old


def status(r):
    """Exit status of the process."""
    if r[0] == 'ok':
        return 0
    e = r[1]
    if isinstance(e, SystemExit):
        if e.code is None:
            return 0
        if isinstance(e.code, int):
            return e.code & 255
    return 1


def run(plan, ctx):
    sb = ctx.sb
    disk = sb.disk
    b = models.build(plan['rec'])
    if plan.get('names'):
        rename(b, plan['names'])
    raw = b.proto.SerializeToString(deterministic=True)
    names = [t.name for t in b.proto.graph.initializer if not t.name.startswith('-')]
    dam = plan['dam']
    if dam == 'trunc':
        raw = raw[:int(plan['cut'] * len(raw))]
    elif dam == 'garbage':
        n = int(plan['cut'] * len(raw))
        raw = raw[:n] + bytes((i * 37 + 11) % 256 for i in range(16)) + raw[n + 16:]
    elif dam == 'empty':
        raw = b''
    if dam == 'dir':
        os.mkdir(os.path.join(disk.root, 'src.onnx'))
    elif dam != 'missing':
        disk.write_bytes('src.onnx', raw)
    readable = dam not in ('missing', 'dir')
    hasgraph = False
    if readable:
        try:
            p = onnx.ModelProto()
            p.ParseFromString(raw)
            hasgraph = p.HasField('graph')
        except Exception:
            pass
    disk.write_bytes('bystander.onnx', b'not to be touched')
    faults = done = 0
    for i, c in enumerate(plan['cmds']):
        folder = ''
        a, call, files = argv(b, c, names, folder)
        want = isolated(lib_safe, call, disk.root)
        if c['old']:
            for f in files or []:
                disk.write_bytes(f, b'older content ' * 3000)
        elif files:
            for f in files:
                disk.remove(f)
        if files is None:
            for f in [f for f in disk.snapshot() if f.endswith('.npy')]:
                disk.remove(f)
        before = disk.snapshot()
        sb.take_out()
        cannot = call[0] == 'profile' and call[1] is not None and any(v.ndim == 0 for v in call[1].values())  # no way to write it
        for attempt in range(2):
            spec = dict(at=c.get('at'), exc=c.get('exc'), alloc=c.get('alloc'), disk=c.get('disk')) if attempt == 0 else {}
            r, fired = hist.call(ctx, lambda: cli(a), **spec)
            rc = status(r)
            out = sb.take_out()
            after = disk.snapshot()
            real = [f for f in fired if not f.startswith(('short', 'eintr'))]
            faults += len(fired)
            done += rc == 0
            tag = '%s%s' % (c['mode'], '' if not fired else ' under ' + ','.join(fired))
            ctx.log(i, attempt, a, rc, type(r[1]).__name__ if r[0] == 'exc' else '', fired)
            ctx.state(c['mode'], c['o'], c['f'], dam, tuple(fired), rc)
            asked = set(files) if files is not None else {f for f in (want[1][0] if want[0] == 'ok' else {})}
            if files is None:
                asked = asked | {f for f in after if f.endswith('.npy') and f not in before and f.startswith('exp/' if c['o'] else '')
                                 and '/' not in f.replace('exp/', '' if c['o'] else 'exp/')}
            other = [f for f in set(before) | set(after) if before.get(f) != after.get(f) and f not in asked]
            ctx.check(not other, 'file_touched', lambda: 'command %d %r touched %r' % (i, a, other), c['mode'])
            if rc == 0:
                ctx.check(readable and hasgraph, 'success_on_damaged_model', lambda: 'command %d %r: exit status 0 for a model '
                          'file that is %s' % (i, a, dam), c['mode'])
                ctx.check(want[0] == 'ok', 'success_where_library_fails', lambda: 'command %d %r: library: %s' % (i, a, want[1]),
                          c['mode'])
                wf, wout = want[1]
                for f, data in wf.items():
                    ctx.check(f in after, 'output_missing', lambda: 'command %d %r: exit status 0, %r was not written (%s)' % (
                        i, a, f, fired), c['mode'])
                    ctx.check(after[f] == data, 'output_incomplete', lambda: 'command %d %r: exit status 0, %r has %d bytes, library '
                              'call gives %d (%s)' % (i, a, f, len(after[f]), len(data), fired), c['mode'])
                if c['mode'] in ('profile', 'default') and not c['f']:
                    ctx.check(out == wout, 'console_table_differs', lambda: '%r vs %r' % (out[:200], wout[:200]))
                break
            if not real and not cannot and 'short_read' not in fired and want[0] == 'ok' and not any(f.startswith('eintr') for f in fired):
                ctx.violate('cli_fails', 'command %d %r: %s' % (i, a, short(r[1])), c['mode'])
            if attempt == 0 and not fired:
                break
            disk.disarm()
    ctx.nontrivial = faults > 0 or done > 1 or dam != 'none'
