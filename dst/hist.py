"""Histories: sequences of public API calls on one model, with interruptions and injected failures."""
import os

import numpy as np
import onnx

from . import env, models, oracle
from .core import Discard, Hang
from .simdisk import SimCrash


def log_at(rng, hi=3.6):
    return int(10 ** rng.uniform(0, hi))


# kinds of history operations and how often they are drawn
WEIGHTS = {'si': 5, 'si_none': 1, 'si_bad': 2, 'vi': 2, 'prof': 2, 'table': 1, 'save': 1, 'reorder': .7, 'regress': .7,
           'cg': .5, 'plan': .5, 'read': .5}


def gen_op(rng, kind, K, intr=0.25, allocp=0.1, k=None):
    op = {'op': kind}
    if kind in ('si', 'vi', 'si_bad'):
        op['k'] = rng.randrange(K) if k is None else k
    if kind == 'vi':
        op['d'] = rng.randrange(50)
    if kind == 'si':
        op['st'] = rng.choice(['zeros', 'zeros', 'data', 'list' if False else 'data'])
    if kind == 'si_bad':
        op['bad'] = rng.choice(['neg', 'missing', 'rank', 'incompat', 'str', 'zero_rank', 'boom', 'none'])
        op['n'] = rng.randrange(40)
    if kind == 'setw':
        return dict(op, n=rng.randrange(60))
    if kind == 'prof':
        op['ex'] = gen_exclude(rng)
    if kind == 'table':
        op['f'] = rng.choice([None, 't.txt', 't.csv'])
        op['ex'] = gen_exclude(rng)
        op['metric'] = rng.choice(['MACs', 'FLOPs'])
    if kind == 'save':
        op['f'] = rng.choice(['s.onnx', 's2.onnx'])
        op['so'] = rng.random() < .3
        op['ns'] = rng.random() < .3
    r = rng.random()
    if r < intr:
        op['at'] = log_at(rng)
        op['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError', 'KeyboardInterrupt', 'SystemExit'])
    elif r < intr + allocp:
        op['alloc'] = rng.randrange(0, 12)
    return op


def gen_exclude(rng):
    r = rng.random()
    if r < .4:
        return None
    return sorted(rng.sample(['Relu', 'Conv', 'Add', 'Identity', 'Constant', 'Reshape', 'MatMul', 'Mul', 'Shape',
                              'Gather', 'Transpose', 'Softmax'], rng.randint(1, 4)))


def gen_history(rng, n, K, weights=None, intr=0.25, allocp=0.1):
    w = dict(WEIGHTS)
    if weights:
        w.update(weights)
    w = {k: v for k, v in w.items() if v > 0}
    ks = list(w)
    return [gen_op(rng, rng.choices(ks, [w[k] for k in ks])[0], K, intr, allocp) for _ in range(n)]


def mk_exc(name):
    return {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'SystemExit': SystemExit,
            'RuntimeError': RuntimeError, 'OSError': OSError}[name]('simulated')


def call(ctx, fn, at=None, exc=None, alloc=None, disk=None, clock=None, kind=''):
    """Run one API call under injected failures.  Returns ('ok', value) or ('exc', exception); what fired is counted."""
    sb = ctx.sb
    ctx.step()
    fired = []
    af = None
    if disk:
        sb.disk.arm(disk)
    if clock:
        sb.clock.arm(clock)
    if alloc is not None:
        af = env.AllocFault()
        af.install(alloc)
    try:
        if at is not None:
            inj = env.Injector()
            r = inj.run(fn, at, mk_exc(exc or 'KeyboardInterrupt'))
            if inj.fired:
                fired.append('interrupt_%s' % (exc or 'KeyboardInterrupt'))
        else:
            try:
                r = ('ok', fn())
            except Hang:
                raise
            except BaseException as e:  # noqa
                r = ('exc', e)
    finally:
        if af:
            af.uninstall()
            if af.fired:
                fired.append('alloc_fail')
        if disk:
            fired += sb.disk.disarm()
        if clock:
            fired += sb.clock.fired
            sb.clock.arm(None)
    for f in fired:
        ctx.fault(f)
    return r, fired


class Boom(Exception):
    pass


class Session:
    """One model wrapper and the calls made on it."""

    def __init__(self, ctx, rec, mcfg=None, proto=None):
        import onnx_tool
        self.ot = onnx_tool
        self.ctx = ctx
        self.rec = rec
        self.b = models.build(rec)
        self.K = len(rec['sizes'])
        self.bytes = (self.b.branchy or self.b.proto).SerializeToString(deterministic=True)
        self.mcfg = mcfg or {}
        if self.b.branchy is not None:
            self.mcfg = dict(self.mcfg, if_fixed_branch=rec['ifs']['branch'])
            if self.b.fixed_topk:
                self.mcfg['fixed_topk'] = self.b.fixed_topk
        self.m = self.fresh_model()
        self.last = None      # (k, style) of the inputs last set by a clean call; None when unknown

    def fresh_model(self):
        return fresh_model(self.bytes, self.mcfg, self.rec.get('shuffle') is not None)

    def inputs(self, k, style='zeros', d=0):
        return models.zeros(self.b, k) if style == 'zeros' else models.data(self.b, k, d)

    def bad_inputs(self, op):
        k = op.get('k', 0)
        x = models.zeros(self.b, k)
        names = [n for n, _, _, _ in self.b.inputs]
        nm = names[op.get('n', 0) % len(names)]
        bad = op['bad']
        if bad == 'missing':
            x = {}
        elif bad == 'rank':
            x[nm] = np.zeros((2,), x[nm].dtype)
        elif bad == 'zero_rank':
            x[nm] = np.zeros((), x[nm].dtype)
        elif bad == 'incompat':
            s = list(x[nm].shape) or [0]
            s[-1] = s[-1] + 5
            s[0] += 3
            x[nm] = np.zeros(s, x[nm].dtype)
        return nm, x

    def exec(self, op):
        """Execute one history op, under its own injected failure.  -> (result, fired)"""
        g = self.m.graph
        kind = op['op']
        restore = None
        if kind == 'setw':
            self.set_weight(op['n'])
            return ('ok', None), []
        if kind == 'si':
            x = self.inputs(op['k'], op.get('st', 'zeros'))
            fn = lambda: g.shape_infer(x)
        elif kind == 'si_none':
            fn = lambda: g.shape_infer(None)
        elif kind == 'si_bad':
            bad = op['bad']
            if bad in ('neg', 'str', 'none'):
                nm = self.b.inputs[op.get('n', 0) % len(self.b.inputs)][0]
                t = g.tensormap.get(nm)
                if t is None:
                    return ('ok', None), []
                sh = list(t.shape)
                if not sh:
                    return ('ok', 'noop'), []
                if sh:
                    if bad == 'none':
                        pass
                    else:
                        sh[op.get('n', 0) % len(sh)] = -1 if bad == 'neg' else 'dim?'
                        t.update_shape(sh)
                fn = lambda: g.shape_infer(None)
            elif bad == 'boom' and not g.nodemap:
                return ('ok', 'noop'), []
            elif bad == 'boom':
                x = self.inputs(op['k'])
                keys = list(g.nodemap)
                node = g.nodemap[keys[op.get('n', 0) % len(keys)]]

                def boom(i, o):
                    raise Boom('operator failed')
                node.shape_infer = boom
                node.value_infer = boom
                restore = node
                fn = lambda: g.shape_infer(x)
            else:
                nm, x = self.bad_inputs(op)
                fn = lambda: g.shape_infer(x)
        elif kind == 'vi':
            x = self.inputs(op['k'], 'data', op.get('d', 0))
            fn = lambda: g.value_infer(x)
        elif kind == 'prof':
            ex = set(op['ex']) if op.get('ex') else None
            fn = lambda: g.profile(exclude_ops=ex)
        elif kind == 'table':
            ex = set(op['ex']) if op.get('ex') else None
            fn = lambda: g.print_node_map(op.get('f'), metric=op.get('metric', 'MACs'), exclude_ops=ex)
        elif kind == 'save':
            fn = lambda: self.m.save_model(op['f'], shape_only=op.get('so', False), no_shape=op.get('ns', False))
        elif kind == 'reorder':
            fn = g.graph_reorder_nodes
        elif kind == 'regress':
            desc, rng_ = self.regress_args()
            fn = lambda: g.shape_regress(desc, rng_)
        elif kind == 'cg':
            fn = g.get_compute_graph
        elif kind == 'plan':
            fn = g.compress_memory
        elif kind == 'read':
            fn = lambda: [g.get_dynamic_tensors(), g.get_initials_from_nodenames(list(g.nodemap)),
                          g.get_iotensors(list(g.nodemap)[:2]), g.topsort_nodes(list(g.nodemap), g.input)]
        else:
            raise Discard('op %r' % kind)
        try:
            return call(self.ctx, fn, op.get('at'), op.get('exc'), op.get('alloc'), op.get('disk'), op.get('clock'))
        finally:
            if restore is not None:
                del restore.shape_infer
                del restore.value_infer
                self.ctx.fault('operator_raises')

    def set_weight(self, n):
        """The caller changes a weight of the loaded model; the reference model changes with it."""
        if self.mcfg.get('constant_folding'):
            return          # what was computed from the weight is computed already
        g = self.m.graph
        protos = [self.b.proto] + ([self.b.branchy] if self.b.branchy is not None else [])
        inits = [{t.name: t for t in p.graph.initializer} for p in protos]
        c = [t for t in g.initials if all(t in i for i in inits) and g.tensormap[t].numpy is not None and g.tensormap[t].numpy.ndim >= 2
             and g.tensormap[t].numpy.dtype == np.float32]
        if not c:
            return
        t = c[n % len(c)]
        a = np.ascontiguousarray(np.clip(-g.tensormap[t].numpy[::-1] + np.float32((n % 5) / 4), -4, 4))
        how = n // 5 % 3
        if how == 0:
            g.add_initial(t, a.copy())
        elif how == 1:
            g.tensormap[t].update_tensor(a.copy())
        else:
            g.update_input_by_map({t: a.copy()})
        for i in inits:
            i[t].CopyFrom(onnx.numpy_helper.from_array(a, t))
        self.bytes = (self.b.branchy or self.b.proto).SerializeToString(deterministic=True)
        self.ctx.probe('weight_changed')

    def regress_args(self):
        desc = {n: [d for d in dims] for n, dt, dims, _ in self.b.inputs}
        r = {}
        for v in self.b.vars:
            vals = sorted(a[v] for a in self.b.assigns)
            r[v] = (vals[0], vals[-1] if vals[-1] > vals[0] else vals[0] * 2)
        return desc, r


def fresh_model(data, mcfg=None, reorder=False):
    import onnx_tool
    p = onnx.ModelProto()
    p.ParseFromString(data)
    m = onnx_tool.Model(p, dict(mcfg)) if mcfg else onnx_tool.Model(p)
    if reorder:
        m.graph.graph_reorder_nodes()
    return m


def exc_name(r):
    return 'ok' if r[0] == 'ok' else type(r[1]).__name__
