"""P23: the super-resolution window shows, saves and batches the right pictures whatever runs at the same time."""
import gc
import os
import re
import sys

import numpy as np
import onnx
import onnx.reference
from onnx import TensorProto, helper, numpy_helper

from .. import core, env, guistub, simdisk, simthreads, torchshim
from ..core import REPO, isolated, short

simthreads.install()
torchshim.install()
guistub.install()
if os.path.join(REPO, 'inference') not in sys.path:
    sys.path.insert(1, os.path.join(REPO, 'inference'))
env.preload()
import infer  # noqa
import kernels  # noqa
import memory_pool  # noqa
import inference.infer  # noqa
import sr_gui  # noqa

RUNS = {'quick': 400, 'thorough': 20000}
RULE = ('a super-resolution model of random structure, scale and element type, 2-5 pictures of varied size, mode and condition, 0-2 folders; the '
        'program is started with its command line and a seeded user presses 2-9 buttons (open, batch, save, comparison, profile, window resized), some '
        'while earlier work still runs, dialogs stay open for a while; every thread the program starts runs under the scheduler, which switches at '
        'executed lines and simulated system calls; disk errors, short reads and writes, full disk, refused allocations, kernels that die half-way, '
        'failing lines of the runtime and clock jumps strike anywhere; what is visible is checked after every step of the event loop, files and '
        'reports when claimed and at the end; non-trivial: two background tasks or a task and a user action overlapped, or a fault fired')
STATES = '(action, background tasks alive when it started, outcome, picture and result shown before) tuples and lines at which control moved'
REAL = ('inference/sr_gui.py (command line, window, handlers, background tasks), inference/infer.py, kernels.py, memory_pool.py, '
        'onnx_tool model, shape engine and planner')
STUB = ('tkinter (widgets, event queue, dialogs; calls from other threads are carried out by the event loop), PIL (trivial file format, fixed '
        'resampling, labels are not painted), torch (over numpy), threading and queue primitives (cooperative), file device, clock, output')
ASSUME = ['tkinter, Pillow and torch are not installed here: substitutes implement what the program calls by their documentation',
          'the right result for a picture is what the program saves for it when nothing else happens, which in turn must agree with the reference '
          'evaluation of the model on the padded picture within one grey level (three at half precision)',
          'a background task that calls a widget waits until the event loop carries the call out, as in Tkinter with threads',
          'two batches over one folder at the same time: files are judged when both have ended without failure']
LEVEL_NOTE = 'sampled schedules; control moves at lines of repository code and system calls, not between byte codes of one line'
SHRINK_SKIP = ('size', 'model')

ERR = re.compile(r'error|fail|cannot|unable|exception|错误|失败', re.I)


excuse = torchshim.excuse


def gen_img(rng, mh, mw):
    r = rng.random()
    h = rng.randint(1, mh) if r < .8 else rng.choice([1, 2, 3, mh])
    w = rng.randint(1, min(mw, 24)) if r < .9 else mw
    im = {'h': h, 'w': w, 'seed': rng.randrange(10 ** 6), 'mode': rng.choice(['RGB', 'RGB', 'RGB', 'RGBA', 'L'])}
    r = rng.random()
    if r < .08:
        im['bad'] = rng.choice(['cut', 'magic', 'empty', 'gone'])
    elif r < .11:
        im['h'] = mh + rng.randint(5, 12)
    return im


def gen(rng, tier, idx):
    big = tier == 'thorough'
    mh = rng.choice([9, 12, 16, 18, 24])
    mw = int(mh * 16 / 9)
    model = {'scale': rng.choice([2, 2, 3, 4]), 'ch': rng.choice([2, 4, 5]), 'seed': rng.randrange(10 ** 6), 'body': rng.choice(['plain', 'plain', 'res', 'deep']),
             'act': rng.choice(['Relu', 'LeakyRelu', 'Sigmoid']), 'tail': rng.choice([0, 0, 1]), 'in': rng.choice(['input', 'x']),
             'name': rng.choice(['m_x%d.onnx', 'net-%dx.onnx', 'esr/X%d_model.onnx'])}
    if model['scale'] == 4 and rng.random() < .4:
        model['name'] = 'net.onnx'
    n = rng.randint(2, 5)
    imgs = []
    names = []
    for i in range(n):
        im = gen_img(rng, mh, mw)
        stem = rng.choice(['a', 'b', 'photo', 'im 1', 'x.y', 'c', 'd', 'e'])
        if rng.random() < .15 and names:
            stem = os.path.splitext(rng.choice(names))[0]
        nm = stem + rng.choice(['.png', '.png', '.jpg', '.jpeg', '.bmp', '.webp', '.PNG', '.JPG'])
        im['dir'] = rng.choice(['', '', 'pics', 'in[1]'])
        if imgs and rng.random() < .2:
            nm = rng.choice(names)
        while any((im['dir'], nm) == (x['dir'], x['name']) for x in imgs):
            nm = rng.choice('pqrstuvw') + nm
        names.append(nm)
        im['name'] = nm
        if imgs and rng.random() < .25:
            o = rng.choice(imgs)
            im['h'], im['w'] = o['h'], o['w']
        imgs.append(im)
    folders = []
    for j in range(rng.choice([0, 1, 1, 2])):
        k = rng.randint(0 if rng.random() < .1 else 1, 3)
        folders.append({'dir': rng.choice(['set', 'batch 1', 'set[0]', 'in.d']) + ('' if j == 0 else '2'), 'imgs': sorted({imgs[i]['name']: i for i in rng.sample(range(n), min(n, k))}.values())})
    ev = []
    m = rng.randint(2, 9 if big else 7)
    busy = 10 ** rng.uniform(1, 3.2)
    for i in range(m):
        r = rng.random()
        e = {}
        if i == 0 or r < .35:
            e = {'do': 'open', 'img': rng.randrange(n)}
        elif r < .5:
            e = {'do': 'save', 'path': rng.choice(['out.png', 'out%d.png' % i, 'o/p%d.jpg' % i, 'out%d' % i, 'bad%d.xyz' % i if rng.random() < .2 else 'r%d.png' % i])}
        elif r < .6:
            e = {'do': 'compare'}
        elif r < .72:
            e = {'do': 'profile'}
        elif r < .84 and folders:
            e = {'do': 'batch', 'folder': rng.randrange(len(folders))}
        elif r < .9:
            e = {'do': 'edit', 'img': rng.randrange(n), 'to': rng.randrange(n)}
        else:
            e = {'do': 'resize', 'size': rng.choice([[400, 300], [90, 70], [40, 500], [8, 8], [13, 11]]), 'which': rng.choice([None, 'orig', 'sr'])}
        if e['do'] in ('open', 'save', 'batch') and rng.random() < .06:
            e['cancel'] = 1
        if rng.random() < .45:
            e['wait'] = 'idle'
        else:
            e['gap'] = int(rng.expovariate(1 / busy))
        ev.append(e)
    if len(folders) == 2 and rng.random() < .4:
        # a second batch soon after the first
        j = rng.randrange(2)
        at = rng.randint(1, len(ev))
        ev[at:at] = [{'do': 'batch', 'folder': j, 'gap': int(rng.expovariate(1 / 30))}, {'do': 'batch', 'folder': 1 - j, 'wait': 'idle'}]
    # switches
    mean = 10 ** rng.uniform(.3, 3)
    sw = [[1 + int(rng.expovariate(1 / mean)), rng.randrange(12)] for _ in range(rng.randint(5, 120))]
    plan = {'model': model, 'max': mh, 'dtype': rng.choice(['float32', 'float32', 'float16']), 'warm': int(rng.random() < .3), 'imgs': imgs, 'folders': folders,
            'events': ev, 'switches': sw, 'tail': int(10 ** rng.uniform(1, 3.3)), 'order': [rng.randrange(6) for _ in range(rng.randint(1, 8))],
            'dwell': [int(rng.expovariate(1 / busy)) if rng.random() < .7 else 0 for _ in range(4)], 'disk': [], 'faults': []}
    r = rng.random()
    if r < .5:
        for _ in range(rng.choice([1, 1, 2])):
            q = rng.random()
            if q < .35:
                plan['disk'].append(rng.choice([
                    {'op': 'open', 'nth': rng.randrange(6), 'err': rng.choice(['EACCES', 'ENOSPC', 'EROFS'])},
                    {'op': 'openr', 'nth': rng.randrange(5), 'err': rng.choice(['EACCES', 'EIO'])},
                    {'op': 'write', 'nth': rng.randrange(8), 'err': 'EIO', 'part': rng.choice([0, 10, 500])},
                    {'op': 'close', 'nth': rng.randrange(6), 'err': 'EIO'},
                    {'op': 'read', 'nth': rng.randrange(8), 'err': 'EIO'},
                    {'op': 'mkdir', 'nth': 0, 'err': 'EACCES'},
                    {'op': 'quota', 'bytes': int(10 ** rng.uniform(2, 5))},
                    {'op': 'short', 'sizes': [1000, 77]},
                    {'op': 'shortread', 'sizes': [rng.choice([64, 500]), 20]}]))
            elif q < .65:
                plan['faults'].append([rng.choice(['alloc', 'torn', 'torn']), int(10 ** rng.uniform(0, 2.2))])
            elif q < .9:
                plan['faults'].append(['line', int(10 ** rng.uniform(0, 3.6))])
            else:
                plan['clock'] = {'jumps': [[rng.randint(1, 40), rng.choice([-1e6, -3.5, 1e6])]]}
    return plan


# ------------------------------------------------------------------------------------------------ world

def pixels(im):
    rs = np.random.RandomState(im['seed'] % 2 ** 31)
    h, w = im['h'], im['w']
    a = rs.randint(0, 256, size=(h, w) + {'L': (), 'RGB': (3,), 'RGBA': (4,)}[im['mode']]).astype(np.uint8)
    return a


def rgb(im):
    a = pixels(im)
    return np.stack([a] * 3, -1) if im['mode'] == 'L' else np.ascontiguousarray(a[..., :3])


def model_proto(m):
    rs = np.random.RandomState(m['seed'] % 2 ** 31)
    nodes, inits = [], []
    k = [0]

    def init(shape, s):
        k[0] += 1
        n = 'w%d' % k[0]
        inits.append(numpy_helper.from_array((rs.standard_normal(shape) * s).astype(np.float32), n))
        return n

    def conv(x, ci, co, y, ks=3):
        w = init((co, ci, ks, ks), .6 / np.sqrt(ci * ks * ks))
        b = init((co,), .1)
        nodes.append(helper.make_node('Conv', [x, w, b], [y], kernel_shape=[ks, ks], pads=[ks // 2] * 4))

    def act(x, y):
        kw = {'alpha': .1} if m['act'] == 'LeakyRelu' else {}
        nodes.append(helper.make_node(m['act'], [x], [y], **kw))
    i = m['in']
    c, s = int(m['ch']), int(m['scale'])
    conv(i, 3, c, 't1')
    act('t1', 't2')
    cur = 't2'
    if m['body'] in ('res', 'deep'):
        conv('t2', c, c, 't3')
        act('t3', 't4')
        nodes.append(helper.make_node('Add', ['t4', 't2'], ['t5']))
        cur = 't5'
    if m['body'] == 'deep':
        conv(cur, c, c, 't6', 1)
        act('t6', 't7')
        nodes.append(helper.make_node('Add', ['t7', cur], ['t8']))
        cur = 't8'
    conv(cur, c, 3, 't9')
    nodes.append(helper.make_node('Add', ['t9', i], ['t10']))
    inits.append(numpy_helper.from_array(np.array([1, 1, s, s], np.float32), 'scales'))
    inits.append(numpy_helper.from_array(np.array([], np.float32), 'roi'))
    up = 'up' if m['tail'] else 'output'
    nodes.append(helper.make_node('Resize', ['t10', 'roi', 'scales'], [up], mode='nearest', coordinate_transformation_mode='asymmetric', nearest_mode='floor'))
    if m['tail']:
        conv(up, 3, 3, 'output')
    g = helper.make_graph(nodes, 'sr', [helper.make_tensor_value_info(i, TensorProto.FLOAT, [1, 3, 'h', 'w'])],
                          [helper.make_tensor_value_info('output', TensorProto.FLOAT, [1, 3, 'oh', 'ow'])], inits)
    return helper.make_model(g, opset_imports=[helper.make_opsetid('', 13)], ir_version=8)


def reference(proto, m, a):
    h, w = a.shape[:2]
    p = np.pad(a, ((0, -h % 4), (0, -w % 4), (0, 0)), mode='reflect')
    x = (p.astype(np.float32) / 255).transpose(2, 0, 1)[None]
    y = onnx.reference.ReferenceEvaluator(proto).run(None, {m['in']: x})[0][0].transpose(1, 2, 0)
    s = int(m['scale'])
    return (np.clip(y, 0, 1) * 255.0)[:h * s, :w * s]


class Monitor:
    """What a run of the program shows and does, checked against what is known about the pictures."""

    def __init__(self, plan, ctx, root):
        self.plan, self.ctx = plan, ctx
        self.root = root
        self.fired = []
        self.want = {}          # picture -> content of its result
        self.orig = {}          # picture -> content
        self.grid = {}
        self.checking = False
        self.current = None     # picture opened last
        self.holds = list(range(len(plan['imgs'])))     # file -> picture in it
        self.badfile = [im.get('bad') for im in plan['imgs']]
        self.dims = {(im['name'], im['w'], im['h']) for im in plan['imgs'] if im.get('bad') in (None, 'gone')}
        self.names = {i: {im['name']} for i, im in enumerate(plan['imgs'])}     # picture -> names of the files it was in
        self.current_event = None
        self.reports = []
        self.claims = {}
        self.done_events = []
        self.texts_at = 0
        self.profiles = 0
        self.batches = []
        self.overlap = 0

    # -- faults
    def fire(self, kind):
        disk = self.ctx.sb.disk
        disk.fired.append(kind)
        self.ctx.fault(kind)
        if kind not in ('short_write', 'short_read', 'eintr'):
            self.fired.append(kind)
            guistub.UI.failed('disk')

    def engine_fire(self, kind):
        self.fired.append(kind)
        self.ctx.fault('kernel_' + kind)
        guistub.UI.failed('torch')

    # -- run
    def go(self, events, faults=True):
        plan, ctx = self.plan, self.ctx
        sb = ctx.sb
        clock = sb.clock
        w = simthreads.World(clock, plan['switches'], plan['tail'])
        ui = guistub.Gui(w, events, plan['order'], plan['dwell'])
        guistub.UI = ui
        self.ui, self.w = ui, w
        ui.asking = self.ask
        ui.on_frame = self.frame
        ui.on_event = self.event
        ui.on_text = self.text
        loop = ui.mainloop
        lines = [f[1] for f in plan['faults'] if f[0] == 'line'] if faults else []
        n = [0]
        runtime = {os.path.join(REPO, 'inference', f) for f in ('infer.py', 'kernels.py', 'memory_pool.py')}
        real = {}

        def hook(frame):
            fn = frame.f_code.co_filename
            r = real.get(fn)
            if r is None:
                r = real[fn] = os.path.realpath(fn) in runtime
            if r and w.me() is not w.main:
                n[0] += 1
                if n[0] in lines:
                    self.fired.append('line')
                    ctx.fault('runtime_line_raises')
                    raise MemoryError('simulated')

        def mainloop():
            # the window is up: canvases get their size
            for c in ui.widgets:
                if isinstance(c, guistub.Canvas):
                    c.size = (120, 90)
                    fn = c.binds.get('<Configure>')
                    if fn is not None:
                        ui.safe(fn, (guistub.Event(c, 120, 90),))
            if faults:
                sb.disk.arm(plan['disk'])
                sb.disk._fire = self.fire
                F = torchshim.FAULTS
                F.clear()
                for f in plan['faults']:
                    if f[0] != 'line':
                        F.arm(f[0], int(f[1]))
                F.fired = Watch(self.engine_fire)
                if plan.get('clock'):
                    clock.arm(plan['clock'])
                w.line_hook = hook
            self.checking = faults
            self.stdout = sys.stdout
            try:
                loop()
            finally:
                w.line_hook = None
                torchshim.FAULTS.clear()
                torchshim.FAULTS.fired = []
                if faults:
                    sb.disk.disarm()
                    for f in clock.fired:
                        ctx.fault(f)
                    clock.arm(None)
        ui.mainloop = mainloop
        argv = sys.argv
        sys.argv = ['sr_gui.py', '--onnx-path', mname(plan['model']), '--device', 'cpu', '--dtype', plan['dtype'], '--max-size', str(plan['max'])] + \
            ([] if plan['warm'] else ['--no-warmup'])
        err = None
        gc.disable()
        try:
            with w:
                sr_gui.main()
        except (core.Violation, core.Discard, core.Hang):
            raise
        except simthreads.Deadlock as e:
            raise core.Violation('freeze', 'the window is frozen: %s' % e, 'freeze')
        except simthreads.NoProgress as e:
            raise core.Violation('no_progress', str(e), 'no_progress')
        except (SystemExit, Exception) as e:
            if torchshim.GAPS:
                raise
            raise core.Violation('main_failed', 'the program ended with %s\n%s' % (short(e), sb.err._buf().getvalue()[-500:]), core.exc_key(e))
        finally:
            sys.argv = argv
            gc.enable()
        ctx.step(w.count)

    # -- user
    def ask(self, kind, kw):
        e = self.now
        if e.get('cancel'):
            return ''
        if kind == 'askopenfilename':
            return os.path.join(self.root, ipath(self.plan['imgs'][e['img']]))
        if kind == 'askdirectory':
            return os.path.join(self.root, self.plan['folders'][e['folder']]['dir'])
        p = os.path.join(self.root, e['path'])
        if not os.path.splitext(p)[1]:
            p += kw.get('defaultextension') or ''
        self.save_path = p
        return p

    def seen(self, side):
        """(visible?, root contents of the pictures there)"""
        c = self.ui.canvas(side)
        if min(c.size) <= 10:
            return False, []
        return True, c.shown()

    def shown(self, side):
        v, r = self.seen(side)
        return r[-1][0] if v and r else None

    def text(self, t):
        if ERR.search(t):
            self.reports.append(t)
        if re.search(r'batch.*(done|complete)', t, re.I):
            for j, f in enumerate(self.plan['folders']):
                out = os.path.join(self.root, f['dir'], '')
                if out in t:
                    self.claim(j, t)

    def claim(self, j, t):
        if not self.checking:
            return
        self.claims.setdefault(j, []).append(t)
        f = self.plan['folders'][j]
        out = os.path.join(self.root, f['dir'], '')
        have = [c for p, c, k in self.ui.files if p.startswith(out)]
        for i in f['imgs']:
            if self.bad(i) not in (None, 'gone'):
                self.viol('batch_claims_bad', 'the batch over %r is reported as done, but %r cannot be read: %s' % (f['dir'], self.name(i), t))
            for what, d in (('result', self.want), ('comparison', self.grid)):
                if i in d and d[i] not in have:
                    self.viol('batch_incomplete', 'the batch over %r is reported as done (%s), but the %s of %r was not written' % (f['dir'], t, what, self.name(i)), what)

    def viol(self, cls, msg, key=''):
        raise core.Violation(cls, msg, key)

    def name(self, i):
        return self.plan['imgs'][i]['name']

    def bad(self, i):
        return self.plan['imgs'][i].get('bad')

    def who(self, c):
        for d, what in ((self.orig, 'picture'), (self.want, 'result'), (self.grid, 'comparison')):
            for i, v in d.items():
                if v == c:
                    return '%s of %r' % (what, self.name(i)) if what != 'picture' else 'picture %r' % self.name(i)
        return 'unknown picture ' + str(c)

    def frame(self):
        """After every step of the event loop."""
        if not self.checking:
            return
        ov, o = self.seen('orig')
        sv, s = self.seen('sr')
        for side, vis, lst in (('orig', ov, o), ('sr', sv, s)):
            c = self.ui.canvas(side)
            for root, size, _ in lst:
                if size[0] > c.size[0] or size[1] > c.size[1]:
                    if c.size != getattr(c, 'old', c.size):
                        continue
        if sv and s:
            r = s[-1][0]
            whose = [i for i, v in self.want.items() if v == r]
            if not whose:
                self.viol('wrong_result_shown', 'the result side shows %s' % self.who(r), 'unknown')
            if ov:
                if not o:
                    self.viol('result_without_picture', 'a result is shown (%s) but no picture' % self.who(r))
                if not any(self.orig[i] == o[-1][0] for i in whose):
                    self.viol('mismatched_pair', 'shown side by side: %s and %s' % (self.who(o[-1][0]), self.who(r)))
        if ov and o and not any(v == o[-1][0] for v in self.orig.values()):
            self.viol('wrong_picture_shown', 'the original side shows %s' % self.who(o[-1][0]))
        for v in self.ui.vars:
            t = str(v._v)
            m = re.search(r'Input: (\d+)x(\d+)', t)
            if m:
                w, h = int(m.group(1)), int(m.group(2))
                m2 = re.search(r'Output: (\d+)x(\d+)', t)
                s_ = int(self.plan['model']['scale'])
                if m2 and (int(m2.group(1)), int(m2.group(2))) != (w * s_, h * s_):
                    self.viol('mismatched_info', 'the information line reads %r' % t)
                m3 = re.search(r'File: (.*)$', t)
                if m3 and (m3.group(1), w, h) not in self.dims:
                    self.viol('mismatched_info', 'the information line reads %r' % t)

    def failed_in(self, event):
        """Did anything fail in what this action started?  None when that cannot be told."""
        ids = {t.id for t in self.w.tasks[1:] if t.event == event}
        keys = {k for k, kind in self.ui.failures}
        if self.w.pooled:
            return bool(keys)
        if any(k == ('gui', event) for k in keys) or any(k[0] == 'task' and k[1] in ids for k in keys):
            return True
        return False if ids else bool(keys)

    def quiet(self, when):
        """All background work has ended."""
        i = self.current
        if i is None:
            return
        ov, o = self.seen('orig')
        sv, s = self.seen('sr')
        if ov and (not o or o[-1][0] != self.orig[i]):
            self.viol('last_picture_not_shown', '%s: the picture opened last is %r, shown is %s' % (when, self.name(i), self.who(o[-1][0]) if o else 'nothing'))
        if i not in self.want:
            return
        if sv and not s and not self.failed_in(self.current_event):
            self.viol('result_missing', '%s: no result is shown for %r although nothing failed' % (when, self.name(i)))
        if sv and s and s[-1][0] != self.want[i]:
            self.viol('stale_result', '%s: the picture opened last is %r, the result shown is %s' % (when, self.name(i), self.who(s[-1][0])))

    def event(self, e, phase):
        if not self.checking:
            if phase == 'start':
                self.now = e
            return
        ui = self.ui
        if e['do'] == 'edit':
            if phase == 'start':
                self.edit(e['img'], e['to'])
            return
        if phase == 'start':
            self.now = e
            live = len(self.w.others_live())
            self.live_at = live
            if live:
                self.overlap += 1
            if live == 0 and not ui.reqs and ui.no_afters():
                self.quiet('before action %d' % e['n'])
            self.before = (self.shown('orig'), self.shown('sr'))
            self.mark = (len(ui.texts), len(ui.boxes), len(ui.dialogs), len(ui.files), len(ui.failures))
            self.save_path = None
            return
        a, b, c, d, f = self.mark
        texts, boxes, dialogs, files = ui.texts[a:], ui.boxes[b:], ui.dialogs[c:], ui.files[d:]
        gui_key = ('gui', e['n'])
        failed = any(k == gui_key for k, kind in ui.failures)
        mine = [x for x in files if x[2] == gui_key]
        do = e['do']
        if do == 'open' and not e.get('cancel') and not failed and not self.badfile[e['img']]:
            self.current, self.current_event = self.holds[e['img']], e['n']
        elif do == 'save':
            asked = any(k[0] == 'asksaveasfilename' and k[2] == e['n'] for k in dialogs)
            if not asked and self.before[1] is not None and not failed:
                self.viol('save_refused', 'a result is shown, but saving it was refused: %s' % (boxes or texts))
            if asked and not e.get('cancel') and not failed:
                self.check_saved(mine, [k for k in dialogs if k[0] == 'asksaveasfilename'][-1][1])
        elif do == 'compare':
            if self.before[1] is not None and not failed and not mine:
                self.viol('compare_refused', 'a result is shown, but no comparison was made: %s' % (boxes or texts))
            for p, con, k in mine:
                ok = {self.grid.get(i) for i, v in self.want.items() if v == self.before[1]} if self.before[1] is not None else set(self.grid.values())
                if con not in ok:
                    self.viol('wrong_comparison', 'the comparison holds %s while the window shows %s' % (self.who(con), self.who(self.before[1])))
        elif do == 'profile' and not boxes and not failed:
            self.profiles += 1
        elif do == 'batch' and not e.get('cancel') and not boxes and not failed:
            self.batches.append(e['folder'])
        out = 'failed' if failed else 'box' if boxes else 'ok'
        self.ctx.state(do, min(self.live_at, 3), out, self.before[0] is not None, self.before[1] is not None, e.get('wait') == 'idle')
        self.ctx.log('event', e['n'], do, out, self.live_at, self.w.count, self.w.handovers)

    def edit(self, i, j):
        """Someone puts another picture into the file."""
        im, to = self.plan['imgs'][i], self.plan['imgs'][j]
        with simdisk._real_open(os.path.join(self.root, ipath(im)), 'wb') as f:
            f.write(image_bytes(to))
        self.holds[i] = j
        self.badfile[i] = to.get('bad') if to.get('bad') != 'gone' else None
        if not self.badfile[i]:
            self.dims.add((im['name'], to['w'], to['h']))
        self.names[j].add(im['name'])

    def check_saved(self, mine, kw):
        p = os.path.abspath(self.save_path)
        data = [c for q, c, k in mine if q == p]
        if not data:
            self.viol('save_lost', 'saving to %r left no file and no report; files: %r' % (os.path.basename(p), [x[0] for x in mine]))
        whose = [i for i, v in self.want.items() if v == data[-1]]
        if not whose:
            self.viol('wrong_result_saved', 'the file saved as the result holds %s' % self.who(data[-1]))
        off = str(kw.get('initialfile') or '')
        if off and not any(off.startswith(os.path.splitext(n)[0]) for i in whose for n in self.names[i]):
            self.viol('saved_under_other_name', 'offered to save %r, saved %s' % (off, self.who(data[-1])))
        for q, c, k in mine:
            if q != p and c not in {self.grid.get(i) for i in whose}:
                self.viol('wrong_comparison', 'saved next to %s: %s' % (self.who(data[-1]), self.who(c)))

    def end(self):
        ui, w, plan, ctx = self.ui, self.w, self.plan, self.ctx
        for e, x in ui.callback_errors:
            ctx.log('callback', e, type(x).__name__)
        self.quiet('at the end')
        if sys.stdout is not self.stdout:
            self.viol('output_lost', 'after all work ended sys.stdout is %r' % (type(sys.stdout).__name__,))
        known = set(self.want.values()) | set(self.grid.values())
        oversize = any(im['h'] > plan['max'] or im['w'] > int(plan['max'] * 16 / 9) for im in plan['imgs'])
        for p, c, k in ui.files:
            if c not in known and not oversize:
                self.viol('wrong_file', '%s holds %s' % (os.path.relpath(p, self.root), self.who(c)))
        keys = {k for k, kind in ui.failures} | {('task', t.id) for t, e in w.uncaught}
        if len(self.reports) < len(keys):
            last = ['%s: %s' % (e, short(x)) for e, x in ui.callback_errors] + ['%s: %s' % (t.name, short(e)) for t, e in w.uncaught]
            self.viol('not_reported', '%d actions failed (%s), reported: %r; %s' % (len(keys), sorted({k for _, k in ui.failures}), self.reports, last),
                      '+'.join(sorted({k for _, k in ui.failures})))
        engine = sum(kind == 'engine' for k, kind in ui.failures)
        hits = sum(f in ('alloc', 'torn', 'line') for f in self.fired)
        if not oversize:
            if engine > hits:
                self.viol('spurious_failure', '%d inferences failed, %d faults were injected there: %r' % (engine, hits, self.reports[:3]))
            if not self.fired and not any(self.bad(i) for i in range(len(plan['imgs']))) and not any(k == 'extension' for _, k in ui.failures):
                if self.reports or ui.failures or w.uncaught:
                    self.viol('spurious_failure', 'nothing was made to fail, but: %r %r %r' % (self.reports, ui.failures, [short(e) for t, e in w.uncaught]))
        nb = sum(max(1, len(plan['folders'][j]['imgs']) > 0) for j in self.batches)
        done = sum(max(1, len(v) // 2) for v in self.claims.values())
        lost = len(ui.failures) if w.pooled else len(keys)
        if nb > done + lost:
            self.viol('batch_unfinished', '%d batches were started, %d reported as done, %d actions failed' % (nb, done, len(keys)))
        wins = [x for x in ui.widgets if isinstance(x, guistub.Text)]
        ops = {n.op_type for n in self.proto.graph.node}
        for x in wins:
            miss = [o for o in sorted(ops) if not re.search(r'\b%s\b' % o, x.content)]
            if miss:
                self.viol('empty_profile', 'a profile window lacks %s: %r' % (miss, x.content[:200]))
        if self.profiles > len(wins) + lost:
            self.viol('profile_unfinished', '%d profiles were started, %d shown, %d actions failed' % (self.profiles, len(wins), len(keys)))
        taskfail = {k[1] for k in keys if k[0] == 'task'}
        for j, ts in self.claims.items():
            if any(t.id in taskfail for t in w.tasks):
                continue
            out = os.path.join(self.root, plan['folders'][j]['dir'])
            have = {}
            for r, ds, fs in os.walk(out):
                for fn in fs:
                    if r == out:
                        continue
                    d = guistub.decode(open(os.path.join(r, fn), 'rb').read())
                    have[fn] = guistub.content(d[1]) if d else None
            for i in plan['folders'][j]['imgs']:
                stem = os.path.splitext(self.name(i))[0]
                for what, d in (('result', self.want), ('comparison', self.grid)):
                    if i in d and not any(c == d[i] and fn.startswith(stem) for fn, c in have.items()):
                        self.viol('batch_file_lost', 'after the batch over %r no file named after %r holds its %s; files: %s' %
                                  (plan['folders'][j]['dir'], self.name(i), what, {k: self.who(v) for k, v in have.items()}), what)


class Watch(list):
    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def append(self, x):
        super().append(x)
        self.fn(x)


def guard(name):
    f = getattr(inference.infer.GraphInfer, name)

    def g(self, *a, **k):
        try:
            return f(self, *a, **k)
        except Exception:
            if guistub.UI is not None:
                guistub.UI.failed('engine')
            raise
    setattr(inference.infer.GraphInfer, name, g)


guard('forward')
guard('print_profile')


def mname(m):
    return m['name'] % int(m['scale']) if '%d' in m['name'] else m['name']


def ipath(im):
    return os.path.join(im['dir'], im['name'])


def image_bytes(im):
    data = guistub.encode(im['mode'], pixels(im))
    bad = im.get('bad')
    if bad == 'cut':
        data = data[:16 + max(0, (len(data) - 16) // 2)]
    elif bad == 'magic':
        data = b'text' + data[4:]
    elif bad == 'empty':
        data = b''
    return data


def put(path, im):
    if im.get('bad') == 'gone':
        return
    data = image_bytes(im)
    d = os.path.dirname(path)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)


def lone(plan, ctx, i):
    """What the program saves for one picture when nothing else happens."""
    p = dict(plan, switches=[], tail=10 ** 9, order=[0], dwell=[0], disk=[], faults=[])
    p.pop('clock', None)
    mon = Monitor(p, ctx, os.getcwd())
    if os.path.exists('lone.png'):
        os.remove('lone.png')
    mon.go([{'n': 0, 'do': 'open', 'img': i, 'wait': 'idle'}, {'n': 1, 'do': 'save', 'path': 'lone.png', 'wait': 'idle'}], False)
    try:
        d = guistub.decode(open('lone.png', 'rb').read())
    except OSError:
        return None, mon.ui.texts[-3:]
    return (d[1] if d else None), mon.ui.texts[-3:]


def lones(plan, ctx, todo):
    return {i: lone(plan, ctx, i) for i in todo}


def run(plan, ctx):
    m = plan['model']
    if m['name'] == 'net.onnx' and m['scale'] != 4:
        raise core.Discard('scale')
    for e in plan['events']:
        if e['do'] in ('open', 'edit') and max(e['img'], e.get('to', 0)) >= len(plan['imgs']) or e['do'] == 'batch' and e['folder'] >= len(plan['folders']):
            raise core.Discard('event')
    if any(i >= len(plan['imgs']) for f in plan['folders'] for i in f['imgs']):
        raise core.Discard('folder')
    if any(len({plan['imgs'][i]['name'] for i in f['imgs']}) < len(f['imgs']) for f in plan['folders']):
        raise core.Discard('folder')
    root = os.getcwd()
    proto = model_proto(m)
    mp = mname(m)
    if os.path.dirname(mp):
        os.makedirs(os.path.dirname(mp), exist_ok=True)
    with open(mp, 'wb') as f:
        f.write(proto.SerializeToString())
    os.makedirs('o', exist_ok=True)
    used = {e[k] for e in plan['events'] for k in ('img', 'to') if k in e} | {i for e in plan['events'] if e['do'] == 'batch' for i in plan['folders'][e['folder']]['imgs']}
    taken = set()
    for i, im in enumerate(plan['imgs']):
        if ipath(im) in taken:
            raise core.Discard('names')
        taken.add(ipath(im))
        put(ipath(im), im)
    for f in plan['folders']:
        os.makedirs(f['dir'], exist_ok=True)
        for i in f['imgs']:
            put(os.path.join(f['dir'], plan['imgs'][i]['name']), dict(plan['imgs'][i], bad=None if plan['imgs'][i].get('bad') == 'gone' else plan['imgs'][i].get('bad')))
    mon = Monitor(plan, ctx, root)
    mon.proto = proto
    s = int(m['scale'])
    tol = 1 if plan['dtype'] == 'float32' else 3
    gone = [im for im in plan['imgs'] if im.get('bad') == 'gone']
    for im in gone:
        put(ipath(im), dict(im, bad=None))
    good = [i for i, im in enumerate(plan['imgs']) if im.get('bad') in (None, 'gone')]
    alone = isolated(lones, plan, ctx, [i for i in good if i in used])
    for im in gone:
        os.remove(ipath(im))
    for i in good:
        im = plan['imgs'][i]
        a = rgb(im)
        mon.orig[i] = guistub.content(a)
        if i not in used:
            continue
        got, said = alone[i]
        big = im['h'] > plan['max'] or im['w'] > int(plan['max'] * 16 / 9)
        if got is None:
            if big:
                continue
            raise core.Violation('no_result', 'no result for a lone picture of %dx%d: %r' % (im['w'], im['h'], said), 'lone')
        ref = reference(proto, m, a)
        if got.shape != (im['h'] * s, im['w'] * s, 3):
            raise core.Violation('wrong_size', 'the result of a %dx%d picture is %s' % (im['w'], im['h'], got.shape), 'lone')
        diff = np.abs(got.astype(float) + .5 - ref - .0)
        if (diff > tol + .5).any():
            raise core.Violation('wrong_lone_result', 'the result of %r differs from the reference by up to %.1f grey levels' % (im['name'], diff.max() - .5), 'lone')
        mon.want[i] = guistub.content(got)
        left = guistub.scale_to(a, im['w'] * s, im['h'] * s, 3)
        mon.grid[i] = guistub.content(np.concatenate([left, got, left], axis=1))
    for n, e in enumerate(plan['events']):
        e = dict(e, n=n)
        plan['events'][n] = e
    mon.go(plan['events'])
    mon.end()
    w = mon.w
    for k, v in sorted(w.where.items())[:40]:
        ctx.state('handover', k[0], k[1])
    ctx.probe('background_tasks', w.started)
    ctx.probe('handovers', w.handovers)
    ctx.probe('actions_while_busy', mon.overlap)
    ctx.probe('pictures_saved', len(mon.ui.files))
    ctx.nontrivial = bool(mon.overlap or mon.fired or len(w.where))
    ctx.simtime += ctx.sb.clock.elapsed
    ctx.log('end', w.count, w.handovers, w.started, len(mon.ui.texts), [t.replace(root, '') for t in mon.ui.texts[-1:] + mon.reports], [(os.path.relpath(p, root), c) for p, c, k in mon.ui.files])
