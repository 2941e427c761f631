"""P25: a detection evaluation counts every picture once and depends on nothing else."""
import json
import os
import sys

import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper

from .. import simthreads
simthreads.install()
from .. import core, cv2stub, env, guistub, hist, torchshim  # noqa
from ..core import REPO, isolated, short  # noqa
from ..simdisk import SimCrash  # noqa

torchshim.install()
cv2stub.install()
guistub.install()
if os.path.join(REPO, 'inference') not in sys.path:
    sys.path.insert(1, os.path.join(REPO, 'inference'))
env.preload()
import infer  # noqa
import kernels  # noqa
import memory_pool  # noqa
import yolo_eval  # noqa

RUNS = {'quick': 450, 'thorough': 15000}
RULE = ('a seeded detection model, data set (pictures of varied sizes, missing and unreadable ones, annotations with contiguous or sparse category '
        'numbers, several folder layouts) and history of 2-7 evaluations, folder evaluations, curve exports, single inferences and command lines, by '
        'one or two evaluators, with pictures replaced, removed and added between them, under storage faults, short reads and writes, crashes, '
        'interruptions, dying kernels, refused allocations and clock jumps; what a completed call returns and writes is compared with an independent '
        'evaluation of the pictures that are there and with the same call in a fresh process; non-trivial: a fault fired or two calls completed')
STATES = '(call, options, outcome, faults, call before) tuples'
REAL = 'inference/yolo_eval.py (evaluator, post-processing, metrics, command line), inference/infer.py, kernels.py, memory_pool.py, onnx_tool underneath'
STUB = 'OpenCV (trivial picture format, fixed resampling, painted boxes), torch (over numpy), file device, clock, output'
ASSUME = ['OpenCV and torch are not installed here: substitutes implement what the program calls by their documentation',
          'class i of a model is the category with the i-th smallest number, as in COCO; crowd annotations are not generated',
          'precision is interpolated at 101 recall points as in the COCO evaluation (the point itself included)',
          'a picture the annotation file does not list takes no part in the metrics']
SHRINK_SKIP = ('size', 'ids', 'cls')

excuse = torchshim.excuse


def gen(rng, tier, idx):
    big = tier == 'thorough'
    H, W = rng.choice([(16, 16), (24, 24), (16, 24), (32, 16), (20, 28)])
    many = rng.random() < .06
    if many:
        H, W = rng.choice([(80, 72), (72, 80)])
    nocv2 = rng.random() < .12
    nc = rng.randint(1, 4)
    cats = {'zero': list(range(nc)), 'one': list(range(1, nc + 1)), 'sparse': sorted(rng.sample(range(1, 91), nc))}[rng.choice(['zero', 'one', 'sparse', 'sparse'])]
    rng.shuffle(cats)
    n = rng.randint(1, 3 if many else 6 if big else 5)
    pics = []
    for i in range(n):
        r = rng.random()
        h, w = (rng.randint(2, 40), rng.randint(2, 40)) if r < .75 else (H, W) if r < .9 else (rng.choice([1, 90]), rng.choice([1, 90]))
        p = {'name': rng.choice(['a', 'b', 'pic', 'im 1', 'x.y', 'n']) + '%d' % i + rng.choice(['.png', '.jpg', '.JPG', '.bmp', '.jpeg']), 'h': h, 'w': w,
             'seed': rng.randrange(10 ** 6), 'mode': rng.choice(['RGB', 'RGB', 'L', 'RGBA'])}
        if rng.random() < .1:
            p['name'] = 'sub/' + p['name']
        if rng.random() < .12:
            p['state'] = rng.choice(['gone', 'gone', 'cut', 'empty'])
        if rng.random() < .12:
            p['unlisted'] = 1
        p['anns'] = [[rng.choice(['det', 'det', 'det', 'rand']), rng.randrange(40), rng.choice([0, 0, .03, .1, .25, .5]), rng.randrange(1000)]
                     for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        pics.append(p)
    ids = rng.sample(range(0, 3 * n + 3), n) if rng.random() < .7 else list(range(n))
    order = list(range(n))
    rng.shuffle(order)
    st = []
    for i in range(rng.randint(2, 9 if big else 6)):
        r = rng.random()
        if r < .25 and i:
            st.append(change(rng, n))
            continue
        o = {'do': rng.choice(['coco', 'coco', 'coco', 'dir', 'dir', 'pr', 'single', 'cli']), 'ev': rng.choice([0, 0, 0, 1]),
             'max': rng.choice([-1, -1, -1, 0, 1, 2, 3]), 'save': None if nocv2 else rng.choice([None, None, 'out', 'out/deep', 'out2']), 'gt': rng.random() < .5,
             'a': rng.randrange(5040), 'p': rng.randrange(n)}
        r = rng.random()
        if r < .25:
            o['disk'] = [rng.choice([
                {'op': 'openr', 'nth': rng.randrange(6), 'err': rng.choice(['EACCES', 'EIO'])},
                {'op': 'read', 'nth': rng.randrange(8), 'err': 'EIO'},
                {'op': 'open', 'nth': rng.randrange(4), 'err': rng.choice(['EACCES', 'ENOSPC', 'EROFS'])},
                {'op': 'write', 'nth': rng.randrange(5), 'err': rng.choice(['EIO', 'ENOSPC']), 'part': rng.choice([0, 10, 300])},
                {'op': 'close', 'nth': rng.randrange(4), 'err': 'EIO'},
                {'op': 'mkdir', 'nth': 0, 'err': 'EACCES'},
                {'op': 'quota', 'bytes': int(10 ** rng.uniform(1, 4.5))},
                {'op': 'short', 'sizes': [rng.choice([7, 64, 900]), 77]},
                {'op': 'shortread', 'sizes': [rng.choice([16, 64, 500]), 20]},
                {'op': 'crash', 'nth': rng.randrange(3), 'part': rng.choice([0, 9, 200])}])]
        elif r < .45:
            o['at'] = int(10 ** rng.uniform(1, 4.2))
            o['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'KeyboardInterrupt'])
        elif r < .6:
            o['fault'] = [rng.choice(['alloc', 'torn', 'torn']), rng.random()]
        elif r < .65:
            o['clock'] = {'jumps': [[rng.randint(1, 20), rng.choice([-1e6, -3.5, 1e6])]], 'stall': rng.random() < .5}
        if rng.random() < .4:
            o['between'] = change(rng, n)
        st.append(o)
    return {'size': [H, W], 'nocv2': nocv2, 'cell': 4 if many else rng.choice([4, 4, 8]), 'nc': nc, 'seed': rng.randrange(10 ** 6), 'cats': cats, 'ids': ids, 'order': order, 'pics': pics,
            'layout': rng.randrange(3), 'nocats': rng.random() < .05, 'conf': .1 if many else rng.choice([.25, .25, .1, .5]),
            'iou': rng.choice([.45, .8, .95] if many else [.45, .45, .2, .7]), 'steps': st}


def change(rng, n):
    return {'do': 'change', 'p': rng.randrange(n), 'to': rng.choice(['new', 'new', 'gone', 'cut', 'back', 'swap', 'anno', 'turn']), 'q': rng.randrange(n), 's': rng.randrange(1000)}


# ------------------------------------------------------------------------------------------------ world

def proto(plan):
    """Boxes from picture content: one per cell, its class a constant of the cell."""
    H, W = plan['size']
    s = plan['cell']
    rs = np.random.RandomState(plan['seed'])
    h, w = H // s, W // s
    n = h * w
    k = np.empty((5, 3, s, s))
    k[...] = rs.standard_normal(k.shape) * .35
    m = np.zeros((5, 5))
    # centre, extent, confidence
    m[0] = [.5 * W, 0, .5 * W, 0, 0]
    m[1] = [0, .5 * H, 0, .5 * H, 0]
    m[2] = [-.3 * W, 0, .3 * W, 0, 0]
    m[3] = [0, -.3 * H, 0, .3 * H, 0]
    m[4] = [0, 0, 0, 0, .9]
    off = np.zeros((1, n, 5))
    cy, cx = np.divmod(np.arange(n), w)
    off[0, :, 0] = off[0, :, 2] = cx * s * .6
    off[0, :, 1] = off[0, :, 3] = cy * s * .6
    off[0, :, 4] = np.linspace(.003, .06, n)
    # two pictures in three share their boxes between neighbours, so that some are suppressed
    off[0, :, :4] = off[0, (np.arange(n) // 2) * 2, :4]
    cls = rs.randint(0, plan['nc'], n).astype(float)
    cls[n // 2:] = cls[:n - n // 2]
    T = lambda a, name, t=np.float32: numpy_helper.from_array(np.asarray(a, t), name)
    nodes = [helper.make_node('Conv', ['images', 'k', 'b'], ['c'], kernel_shape=[s, s], strides=[s, s]),
             helper.make_node('Reshape', ['c', 'shape'], ['r']),
             helper.make_node('Transpose', ['r'], ['t'], perm=[0, 2, 1]),
             helper.make_node('Sigmoid', ['t'], ['s']),
             helper.make_node('MatMul', ['s', 'm'], ['d']),
             helper.make_node('Add', ['d', 'off'], ['e']),
             helper.make_node('Concat', ['e', 'cls'], ['output0'], axis=2)]
    inits = [T(k, 'k'), T(rs.standard_normal(5) * .5, 'b'), T([1, 5, n], 'shape', np.int64), T(m, 'm'), T(off, 'off'), T(cls.reshape(1, n, 1), 'cls')]
    g = helper.make_graph(nodes, 'det', [helper.make_tensor_value_info('images', TensorProto.FLOAT, ['b', 3, 'h', 'w'])],
                          [helper.make_tensor_value_info('output0', TensorProto.FLOAT, [1, n, 6])], inits)
    return helper.make_model(g, opset_imports=[helper.make_opsetid('', 13)], ir_version=8)


def pixels(p):
    rs = np.random.RandomState(p['seed'])
    a = rs.randint(0, 256, (p['h'], p['w']) + {'L': (), 'RGB': (3,), 'RGBA': (4,)}[p['mode']]).astype(np.uint8)
    return a


def letterbox(a, size, how=2):
    """-> (what the model gets, left, top, scale)"""
    b = (np.stack([a] * 3, -1) if a.ndim == 2 else a[..., :3])[..., ::-1]
    H, W = size
    s = min(H / b.shape[0], W / b.shape[1])
    h, w = max(1, int(b.shape[0] * s)), max(1, int(b.shape[1] * s))
    b = guistub.scale_to(np.ascontiguousarray(b), w, h, how)
    out = np.full((H, W, 3), 114, np.uint8)
    top, left = (H - h) // 2, (W - w) // 2
    out[top:top + h, left:left + w] = b
    return (out.astype(np.float32) / 255.0).transpose(2, 0, 1)[None], left, top, s


def iou(a, b):
    w = min(a[2], b[2]) - max(a[0], b[0])
    h = min(a[3], b[3]) - max(a[1], b[1])
    i = max(0, w) * max(0, h)
    return i / max((a[2] - a[0]) * (a[3] - a[1]) + (b[2] - b[0]) * (b[3] - b[1]) - i, 1e-7)


def boxes(raw, plan):
    """What the model found, in its own coordinates: [x1, y1, x2, y2, confidence, class], in the order of its rows."""
    H, W = plan['size']
    d = []
    for r in raw:
        if not r[4] > plan['conf']:
            continue
        b = [min(max(float(r[0]), 0), W), min(max(float(r[1]), 0), H), min(max(float(r[2]), 0), W), min(max(float(r[3]), 0), H)]
        if b[2] > b[0] and b[3] > b[1]:
            d.append(b + [float(r[4]), int(r[5])])
    keep = []
    for c in {x[5] for x in d}:
        left = sorted((i for i in range(len(d)) if d[i][5] == c), key=lambda i: -d[i][4])
        while left:
            keep.append(left[0])
            left = [i for i in left[1:] if iou(d[left[0]], d[i]) <= plan['iou']]
    keep = sorted(keep)
    if len(keep) > 300:
        keep = sorted(keep, key=lambda i: -d[i][4])[:300]
    return [d[i] for i in keep]


def back(b, lb):
    left, top, s = lb
    return [(b[0] - left) / s, (b[1] - top) / s, (b[2] - left) / s, (b[3] - top) / s]


def average_precision(found, truth, thr):
    """found: [(picture, score, box)], best first; truth: {picture: [box]}"""
    used, hits = set(), []
    total = sum(len(v) for v in truth.values())
    for p, _, b in found:
        best, arg = -1, None
        for j, t in enumerate(truth.get(p, ())):
            if (p, j) not in used:
                v = iou(b, t)
                if v > best:
                    best, arg = v, j
        hits.append(arg is not None and best >= thr)
        if hits[-1]:
            used.add((p, arg))
    rec, prec, tp = [], [], 0
    for i, x in enumerate(hits):
        tp += x
        rec.append(tp / total)
        prec.append(tp / (i + 1))
    s = 0
    for t in np.linspace(0, 1, 101):
        s += max([q for r, q in zip(rec, prec) if r >= t] or [0])
    return s / 101


def metric(per, truth, classes, thrs):
    """per: [(picture, [boxes with score and class])] -> {threshold: mean over the classes that occur}"""
    out = {}
    found = {c: sorted(((p, b[4], b[:4]) for p, bs in per for b in bs if b[5] == c), key=lambda x: -x[1]) for c in classes}
    for thr in thrs:
        a = []
        for c in classes:
            t = {}
            for p, _ in per:
                t[p] = [x[0] for x in truth.get(p, ()) if x[1] == c]
            if any(t.values()):
                a.append(average_precision(found[c], t, thr))
        out[thr] = float(np.mean(a)) if a else 0.0
    return out


def contents(model, plan, arrays):
    """Raw outputs for pictures by an evaluator that did nothing before."""
    ev = make(plan)
    return [np.array(ev.infer_single(x), copy=True) for x in arrays]


def make(plan):
    return yolo_eval.YOLOEvaluator('det.onnx', tuple(plan['size']), plan['conf'], plan['iou'])


class Set:
    """The data set on disk and what is known of it."""

    def __init__(self, ctx, plan):
        self.ctx, self.plan, self.disk = ctx, plan, ctx.sb.disk
        self.pics = [dict(p) for p in plan['pics']]
        self.raw, self.seen, self.turn = {}, {}, 0
        self.proto = proto(plan)
        self.disk.write_bytes('det.onnx', self.proto.SerializeToString())
        self.json = ('ds/inst.json', 'ds/annotations/inst.json', 'ds/inst.json')[plan['layout']]
        self.folder = ('ds/val2017', 'ds/val2017', 'ds/images/val2017')[plan['layout']]
        os.makedirs(self.folder)
        for i in range(len(self.pics)):
            self.put(i)
        self.know()
        self.annotate()

    def key(self, p):
        return p['h'], p['w'], p['seed'], p['mode']

    def put(self, i):
        p = self.pics[i]
        f = self.folder + '/' + p['name']
        os.makedirs(os.path.dirname(f), exist_ok=True)
        data = guistub.encode(p['mode'], pixels(p))
        st = p.get('state')
        if st == 'gone':
            if os.path.exists(f):
                os.remove(f)
            return
        self.disk.write_bytes(f, data[:len(data) - 1] if st == 'cut' else b'' if st == 'empty' else data)

    def know(self):
        new = [p for p in self.pics if self.key(p) not in self.raw]
        if not new:
            return
        lb = [letterbox(pixels(p), self.plan['size'], 3 if self.plan.get('nocv2') else 2) for p in new]
        got = isolated(contents, None, self.plan, [x[0] for x in lb])
        for p, x, r in zip(new, lb, got):
            want = onnx.reference.ReferenceEvaluator(self.proto).run(None, {'images': x[0]})[0]
            self.ctx.check(r.shape == want.shape and np.allclose(r, want, 1e-4, 1e-3), 'wrong_output', lambda: 'picture %r: outputs differ from the reference by up to %s' % (
                p['name'], np.abs(r - want).max() if r.shape == want.shape else (r.shape, want.shape)))
            self.raw[self.key(p)] = (r[0], x[1:], x[0])

    def annotate(self):
        plan = self.plan
        anns, at, cl = [], [], []
        self.truth = {}
        cls = sorted(plan['cats'])
        for i, p in enumerate(self.pics):
            self.truth[i] = []
            if p.get('unlisted'):
                continue
            raw, lb, _ = self.raw[self.key(p)]
            found = self.boxes(i)
            for how, n, jit, s in p['anns']:
                rs = np.random.RandomState(s)
                if how == 'det' and found:
                    d = found[n % len(found)]
                    b, c = back(d, lb), d[5]
                    w, h = b[2] - b[0], b[3] - b[1]
                    u = rs.uniform(-1, 1, 4) * jit
                    b = [b[0] + u[0] * w, b[1] + u[1] * h, b[2] + u[2] * w, b[3] + u[3] * h]
                    if n % 9 == 0:
                        c = s % plan['nc']
                else:
                    u = rs.uniform(0, 1, 4)
                    b = [u[0] * p['w'] * .7, u[1] * p['h'] * .7]
                    b += [b[0] + .1 + u[2] * p['w'] * .4, b[1] + .1 + u[3] * p['h'] * .4]
                    c = s % plan['nc']
                box = [b[0], b[1], max(b[2] - b[0], .01), max(b[3] - b[1], .01)]
                anns.append({'id': len(anns) + 1, 'image_id': plan['ids'][i], 'category_id': cls[c] if not plan['nocats'] else c, 'bbox': box, 'iscrowd': 0, 'area': box[2] * box[3]})
                cl.append(c)
                at.append(i)
        # the places of all annotations move on
        if anns:
            t = self.turn % len(anns)
            for a, b in zip(anns, [a['bbox'] for a in anns[t:] + anns[:t]]):
                a['bbox'] = b
        for i, c, a in zip(at, cl, anns):
            b = a['bbox']
            self.truth[i].append(([b[0], b[1], b[0] + b[2], b[1] + b[3]], c))
        doc = {'images': [{'id': plan['ids'][i], 'file_name': self.pics[i]['name'], 'height': self.pics[i]['h'], 'width': self.pics[i]['w']}
                          for i in plan['order'] if not self.pics[i].get('unlisted')], 'annotations': anns}
        if not plan['nocats']:
            doc['categories'] = [{'id': c, 'name': 'kind %d' % c} for c in plan['cats']]
        self.doc = doc
        self.disk.write_bytes(self.json, json.dumps(doc).encode())

    def listed(self, most):
        r = [i for i in self.plan['order'] if not self.pics[i].get('unlisted')]
        return r[:most] if most > 0 else r

    def inside(self, most):
        """Pictures of the folder itself, by name."""
        r = sorted((i for i, p in enumerate(self.pics) if p.get('state') != 'gone' and '/' not in p['name']), key=lambda i: self.pics[i]['name'])
        return r[:most] if most > 0 else r

    def boxes(self, i):
        k = self.key(self.pics[i])
        if k not in self.seen:
            self.seen[k] = boxes(self.raw[k][0], self.plan)
        return self.seen[k]

    def found(self, i):
        lb = self.raw[self.key(self.pics[i])][1]
        return [back(b, lb) + b[4:] for b in self.boxes(i)]

    def change(self, o):
        p = self.pics[o['p']]
        if o['to'] in ('anno', 'turn'):
            rs = np.random.RandomState(o['s'])
            if o['to'] == 'turn':
                self.turn += 1 + o['q']
            else:
                p['anns'] = [['det' if rs.rand() < .7 else 'rand', int(rs.randint(40)), float(rs.choice([0, .03, .1, .25])), int(rs.randint(1000))] for _ in range(rs.randint(4))]
                if o['q'] == 0 and o['s'] % 3 == 0:
                    p['unlisted'] = not p.get('unlisted')
            self.annotate()
            return
        if o['to'] == 'new':
            p['seed'] = o['s']
        elif o['to'] == 'swap':
            q = self.pics[o['q']]
            for k in ('h', 'w', 'seed', 'mode'):
                p[k], q[k] = q[k], p[k]
            self.put(o['q'])
        elif o['to'] == 'back':
            p.pop('state', None)
        else:
            p['state'] = o['to']
        self.put(o['p'])
        self.know()


THRS = [.5 + .05 * i for i in range(10)]


def request(ds, o, ev):
    """-> (function, files it was asked to write or folder, pictures in order)"""
    plan = ds.plan
    k = o['do']
    if k == 'coco':
        return lambda: ev.evaluate_coco(ds.json, max_images=o['max'], profile=bool(o['a'] % 2), save_dir=o['save'], draw_gt=o['gt'])
    if k == 'dir':
        return lambda: ev.evaluate_image_dir(ds.folder, anno_file=ds.json if o['a'] % 3 else None, max_images=o['max'], save_dir=o['save'], draw_gt=o['gt'])
    if k == 'pr':
        return lambda: yolo_eval.export_pr_curve(ev, ds.json, 'pr.json', max_images=o['max'] if o['max'] > 0 else 500, num_thresholds=2 + o['a'] % 7)
    if k == 'single':
        x = ds.raw[ds.key(ds.pics[o['p']])][2]
        return lambda: ev.infer_single(x.copy())
    argv = ['yolo_eval.py', '--onnx', 'det.onnx', '--input-size', str(plan['size'][0]), str(plan['size'][1]), '--conf-thres', str(plan['conf']),
            '--iou-thres', str(plan['iou']), '--max-images', str(o['max']), '--output', 'res.json', '--device', 'cpu']
    argv += ['--image-dir', ds.folder] + (['--anno-file', ds.json] if o['a'] % 3 else []) if o['a'] % 2 else ['--coco-path', ds.json]
    if o['save']:
        argv += ['--save-dir', o['save']]
    if o['gt']:
        argv += ['--draw-gt']
    if o['a'] % 5 == 0:
        argv += ['--export-pr', 'pr.json']

    def main():
        old = sys.argv
        sys.argv = argv
        try:
            return yolo_eval.main()
        finally:
            sys.argv = old
    return main


def norm(v):
    """The part of a result that does not measure time."""
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items() if k not in ('total_time', 'avg_time_ms', 'fps')}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, np.ndarray):
        return (str(v.dtype), v.tolist())
    return repr(float(v)) if isinstance(v, (float, np.floating)) else v


def run(plan, ctx):
    sb, disk = ctx.sb, ctx.sb.disk
    ds = Set(ctx, plan)
    F = torchshim.FAULTS
    F.clear()
    evs = {}
    done = faults = 0
    prev = 'start'
    held = []
    points = {}
    for i, o in enumerate(plan['steps']):
        k = o['do']
        if k == 'change':
            ds.change(o)
            ctx.log(i, 'change', o['p'], o['to'])
            continue
        if o['ev'] not in evs and k != 'cli':
            evs[o['ev']] = make(plan)
        ev = evs.get(o['ev'])
        for attempt in range(2):
            if attempt and o.get('between'):
                ds.change(o['between'])
                ctx.log(i, 'between', o['between']['p'], o['between']['to'])
            spec = {q: o.get(q) for q in ('at', 'exc', 'disk', 'clock')} if attempt == 0 else {}
            fn = request(ds, o, ev)
            before = disk.snapshot()
            sb.take_out()
            del cv2stub.DRAWN[:]
            n0, p0 = len(F.fired), F.count
            if attempt == 0 and o.get('fault'):
                F.arm(o['fault'][0], int(o['fault'][1] * points.get(k, 60)))
            drawn = {}
            write = cv2stub.imwrite
            cv2 = sys.modules['cv2']

            def imwrite(path, img, params=None):
                drawn.setdefault(os.path.normpath(path), []).extend(cv2stub.DRAWN)
                del cv2stub.DRAWN[:]
                return write(path, img, params)
            cv2.imwrite = imwrite
            if plan.get('nocv2'):
                sys.modules['cv2'] = None
            try:
                r, fired = hist.call(ctx, fn, **spec)
            finally:
                sys.modules['cv2'] = cv2
                cv2.imwrite = write
                F.clear()
            for x in F.fired[n0:]:
                ctx.fault('torch_' + x)
                fired.append('torch_' + x)
            faults += len(fired)
            out = sb.take_out()
            after = disk.snapshot()
            if r[0] == 'ok' and not fired:
                points[k] = max(1, F.count - p0)
            ctx.log(i, attempt, k, hist.exc_name(r), fired, sorted((f, len(d)) for f, d in after.items()))
            ctx.state(k, o['max'], bool(o['save']), r[0], tuple(fired), prev)
            what = 'step %d %s%s' % (i, k, ' %s' % fired if fired else '')
            foreign = [f for f in set(before) | set(after) if before.get(f) != after.get(f) and f not in ('pr.json', 'res.json') and not (
                o['save'] and f.startswith(o['save'] + '/'))]
            ctx.check(not foreign, 'file_touched', lambda: '%s: %r' % (what, foreign), k)
            for n, (a, b, who) in enumerate(held):
                ctx.check(np.array_equal(a, b), 'result_overwritten', lambda: '%s: the output returned by %s has changed' % (what, who))
            if r[0] == 'ok':
                ctx.check(not refused(o), 'incomplete_work_accepted', lambda: '%s: no curve can be exported for a folder' % what, k)
                if k == 'single':
                    want = ds.raw[ds.key(ds.pics[o['p']])][0]
                    ctx.check(isinstance(r[1], np.ndarray) and r[1].shape == (1,) + want.shape and np.array_equal(r[1][0], want), 'wrong_output', lambda: '%s: %s' % (
                        what, np.abs(r[1][0] - want).max() if r[1].shape[1:] == want.shape else r[1].shape))
                    held.append((r[1], np.array(r[1], copy=True), 'step %d' % i))
                else:
                    verify(ctx, ds, o, what, r[1], out, after, drawn)
                done += 1
                break
            # it failed
            if isinstance(r[1], SimCrash):
                # a new process
                evs.clear()
                held.clear()
                ev = None
                if k != 'cli':
                    ev = evs[o['ev']] = make(plan)
            real = [f for f in fired if not f.startswith(('short', 'eintr', 'clock'))]
            bad = [p['name'] for p in (ds.pics[j] for j in todo(ds, o)) if p.get('state') in ('cut', 'empty')] if k != 'single' else []
            if refused(o):
                ctx.check(isinstance(r[1], SystemExit) and r[1].code not in (0, None) or real, 'wrong_refusal', lambda: '%s: %s' % (what, short(r[1])), k)
                break
            if not real and not bad:
                ctx.violate('evaluation_fails', '%s: %s' % (what, short(r[1])), k)
            if bad and not real:
                ctx.probe('unreadable_reported')
                break
        prev = k
    ctx.nontrivial = done > 1 or faults > 0


def refused(o):
    """A curve was asked for and there is nothing to make it from."""
    return o['do'] == 'cli' and o['a'] % 2 and o['a'] % 5 == 0


def todo(ds, o):
    """Pictures the call has to look at."""
    if o['do'] == 'dir' or o['do'] == 'cli' and o['a'] % 2:
        return ds.inside(o['max'])
    return ds.listed(o['max'])


def close(a, b):
    return abs(float(a) - b) <= 1e-9


def verify(ctx, ds, o, what, res, out, after, drawn):
    plan, k = ds.plan, o['do']
    folder = k == 'dir' or k == 'cli' and o['a'] % 2
    pics = todo(ds, o)
    lost = [i for i in pics if ds.pics[i].get('state') in ('cut', 'empty')]
    ctx.check(not lost, 'unreadable_picture_ignored', lambda: '%s completed although %r cannot be read' % (what, [ds.pics[i]['name'] for i in lost]), k)
    gone = [i for i in pics if ds.pics[i].get('state') == 'gone']
    there = [i for i in pics if i not in gone]
    if k != 'pr':
        said = [x for x in out.split('\n') if 'SKIP' in x]
        ctx.check(len(said) == len(gone) and all(any(ds.pics[i]['name'] in x for x in said) for i in gone), 'missing_picture_not_named', lambda: '%s: missing %r, said %r' % (
            what, [ds.pics[i]['name'] for i in gone], said), k)
    classes = list(range(plan['nc']))
    annotated = not folder or bool(o['a'] % 3)
    # figures
    if k == 'cli':
        ctx.check('res.json' in after, 'no_result', lambda: what, k)
        try:
            res = json.loads(after['res.json'].decode())
        except ValueError:
            ctx.violate('result_broken', '%s: %r' % (what, after['res.json'][-80:]), k)
        shown = [x for x in out.split('\n') if x.startswith('Images: ')]
        ctx.check(shown == ['Images: %d' % len(there)], 'picture_count', lambda: '%s: %r, evaluated %d' % (what, shown, len(there)), k)
    if k != 'pr':
        ctx.check(res['num_images'] == len(there), 'picture_count', lambda: '%s: %r pictures reported, %d are there' % (what, res['num_images'], len(there)), k)
        per = [(i, ds.found(i)) for i in there if not ds.pics[i].get('unlisted')]
        if annotated:
            want = metric(per, ds.truth, classes, THRS)
            got = {t: res['ap_per_iou'].get('mAP@%.2f' % t) for t in THRS}
            bad = [(t, got[t], want[t]) for t in THRS if got[t] is None or not close(got[t], want[t])]
            ctx.check(not bad and len(res['ap_per_iou']) == len(THRS), 'wrong_metric', lambda: '%s: at overlap %.2f %s, the pictures give %s' % ((what,) + bad[0]), k)
            ctx.check(close(res['mAP@0.5'], want[.5]) and close(res['mAP@0.5:0.95'], np.mean(list(want.values()))), 'wrong_metric', lambda: '%s: %r' % (what, norm(res)), k)
            ctx.probe('metric_positive' if want[.5] > 0 else 'metric_zero')
        else:
            ctx.check('mAP@0.5' not in res, 'metric_without_truth', lambda: what, k)
    if k == 'dir':
        ctx.check([d['file_name'] for d in res['detections']] == [ds.pics[i]['name'] for i in there], 'picture_count', lambda: '%s: %r' % (
            what, [d['file_name'] for d in res['detections']]), k)
        for i, d in zip(there, res['detections']):
            f = ds.found(i)
            g = [list(b) + [float(s), int(c)] for b, s, c in zip(np.asarray(d['boxes']).tolist(), d['scores'], d['labels'])]
            ctx.check(len(f) == len(g) and all(np.allclose(a, b, 0, 1e-4) for a, b in zip(sorted(f), sorted(g))), 'wrong_detections', lambda: '%s: picture %r: %r, it has %r' % (
                what, ds.pics[i]['name'], g[:3], f[:3]), k)
    if o['save'] and k != 'pr':
        pictures(ctx, ds, o, what, there, after, drawn, annotated, folder)
    if k == 'pr' or k == 'cli' and o['a'] % 5 == 0 and not folder:
        curve(ctx, ds, o, what, after)


def pictures(ctx, ds, o, what, there, after, drawn, annotated, folder):
    plan = ds.plan
    for i in there:
        p = ds.pics[i]
        f = o['save'] + '/' + p['name']
        data = after.get(f)
        ctx.check(data is not None, 'annotated_picture_missing', lambda: '%s: %r was not written' % (what, f))
        r = guistub.decode(data)
        ctx.check(r is not None and r[1].shape == (p['h'], p['w'], 3), 'annotated_picture_broken', lambda: '%s: %r has %d bytes' % (what, f, len(data)))
        # boxes painted: those of this picture
        rects = [x[1] for x in drawn.get(f, ()) if x[0] == 'box']
        want, edge = [], False
        W, H = p['w'], p['h']
        for b in ds.found(i):
            # a coordinate that is a whole number may be cut off to the one below
            alt = [[max(0, min(int(v + d), m - 1)) for v, m in zip(b[:4], (W, H, W, H))] for d in (0, -1e-4, 1e-4)]
            if len({tuple(a) for a in alt}) > 1:
                edge = True
            c = alt[0]
            if c[2] > c[0] and c[3] > c[1]:
                want.append((tuple(c), b[5], b[4]))
        ctx.check(edge or sorted(rects) == sorted(w[0] for w in want), 'wrong_boxes_painted', lambda: '%s: %r shows %r, the picture has %r' % (
            what, f, sorted(rects)[:3], sorted(w[0] for w in want)[:3]))
        gt = o['gt'] and annotated and not p.get('unlisted')
        texts = sorted(x[1] for x in drawn.get(f, ()) if x[0] == 'text')
        cls = sorted(plan['cats'])
        named = o['gt'] and annotated and not plan['nocats']
        name = lambda c: 'kind %d' % cls[c] if named else yolo_eval.COCO_CLASSES[c]
        exp = sorted(['%s %.2f' % (name(c), s) for _, c, s in want] + (['GT: ' + name(c) for _, c in ds.truth[i]] if gt else []))
        ctx.check(edge or texts == exp, 'wrong_labels_painted', lambda: '%s: %r shows %r, expected %r' % (what, f, texts, exp))
        if not want and not gt:
            a = pixels(p)
            a = np.stack([a] * 3, -1) if a.ndim == 2 else a[..., :3]
            ctx.check(np.array_equal(r[1], a), 'picture_changed', lambda: '%s: %r' % (what, f))


def curve(ctx, ds, o, what, after):
    plan = ds.plan
    try:
        doc = json.loads(after['pr.json'].decode())
    except (KeyError, ValueError):
        ctx.violate('curve_missing', '%s: %r' % (what, 'pr.json' in after and after['pr.json'][-80:]), 'pr')
    most = o['max'] if o['max'] > 0 else 500
    there = [i for i in ds.listed(most) if ds.pics[i].get('state') != 'gone']
    rows = {i: [back(r[:4].tolist(), ds.raw[ds.key(ds.pics[i])][1]) + [float(r[4]), int(r[5])] for r in ds.raw[ds.key(ds.pics[i])][0]] for i in there}
    n = 2 + o['a'] % 7 if o['do'] == 'pr' else 100
    thr = np.linspace(.01, .99, n)
    pts = doc['pr_points']
    ctx.check(len(pts) == n and all(close(a['threshold'], b) for a, b in zip(pts, thr)), 'curve_points', lambda: '%s: %d points' % (what, len(pts)))
    pick = range(n) if n < 10 else range(o['a'] % 9, n, 9)
    for j in pick:
        per = [(i, [b for b in rows[i] if b[4] >= thr[j]]) for i in there]
        ctx.check(pts[j]['num_detections'] == sum(len(b) for _, b in per), 'curve_wrong', lambda: '%s: %d detections above %.3f, the pictures have %d' % (
            what, pts[j]['num_detections'], thr[j], sum(len(b) for _, b in per)))
        want = metric(per, ds.truth, list(range(plan['nc'])), [.5])[.5]
        ctx.check(close(pts[j]['mAP@0.5'], want), 'curve_wrong', lambda: '%s: %s at %.3f, the pictures give %s' % (what, pts[j]['mAP@0.5'], thr[j], want))
    ctx.probe('curve')
