"""Model recipes: small JSON descriptions from which real ONNX models are built.

A recipe stays buildable when layers are removed (a layer that finds no suitable operand is skipped), so
recipes can be minimised by deleting layers.  Shapes are tracked for several size assignments at once with
shape rules written independently of the code under test.
"""
import math
import random

import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper

from . import branches

DT = {'f32': np.float32, 'f64': np.float64, 'f16': np.float16, 'i64': np.int64, 'i32': np.int32, 'i8': np.int8,
      'u8': np.uint8, 'bool': np.bool_, 'i16': np.int16, 'u16': np.uint16, 'u32': np.uint32, 'u64': np.uint64,
      'bf16': helper.tensor_dtype_to_np_dtype(TensorProto.BFLOAT16).type}
TP = {'f32': TensorProto.FLOAT, 'f64': TensorProto.DOUBLE, 'f16': TensorProto.FLOAT16, 'i64': TensorProto.INT64,
      'i32': TensorProto.INT32, 'i8': TensorProto.INT8, 'u8': TensorProto.UINT8, 'bool': TensorProto.BOOL,
      'i16': TensorProto.INT16, 'u16': TensorProto.UINT16, 'u32': TensorProto.UINT32, 'u64': TensorProto.UINT64,
      'bf16': TensorProto.BFLOAT16}


class Skip(Exception):
    pass


class Val:
    __slots__ = ('name', 'dt', 'shapes', 'static', 'shared')

    def __init__(self, name, dt, shapes, static=False):
        self.name = name
        self.dt = dt
        self.shapes = [tuple(int(d) for d in s) for s in shapes]
        self.static = static

    @property
    def rank(self):
        return len(self.shapes[0])


# the last two forms are those of names the tool makes itself
MIX = ['%s_%d', '../%s\\%d', '%s \u00e9\u4e2d%d', ' %s{%d}%%s ', 'w.%s_ot_q.%d', '%s_%d_ot_scale', '%s:%d', 'enc/' * 70 + '%s%d',
       'Fused%s_bias_%d', '%s_%d_weight_']


class B:
    """Model under construction."""

    def __init__(self, rec):
        self.rec = rec
        self.K = len(rec['sizes'])
        self.vals = []
        self.nodes = []
        self.inits = []
        self.init_vals = []
        self.inputs = []
        self.ctlvals = {}
        self.consts = {}
        self.n = 0
        self.style = rec.get('names', 'plain')
        self.layer = 0
        self.used = []
        self.opset = rec.get('opset', 13)
        self.custom = {}
        self.consts = {}
        self.keep = []      # outputs in any case

    def nm(self, kind, weight=False):
        n = self._nm(kind)
        return n[-200:] if weight or kind in ('const', 'cos') else n  # it also names a file

    def _nm(self, kind):
        self.n += 1
        s = self.style
        if s == 'slash':
            return '/blk.%d/%s_output_%d' % (self.layer, kind, self.n)
        if s == 'num':
            return str(100 + self.n)
        if s == 'dotted':
            return 'm.%d.%s.%d' % (self.layer, kind, self.n)
        if s == 'odd':
            return 'b%d,%s "%d" \u00e9' % (self.layer, kind, self.n)
        if s == 'long':
            return 'model/' + 'encoder.layer/' * 21 + '%s_%d' % (kind, self.n)
        if s == 'mix':
            return MIX[self.n % len(MIX)] % (kind, self.n)
        return '%s_%d' % (kind, self.n)

    def rs(self):
        self.n += 1
        return np.random.RandomState((self.rec.get('wseed', 0) * 7919 + self.layer * 131 + self.n) % (2 ** 31))

    def weight(self, shape, dt='f32', lo=-8, hi=9, scale=8.0, pos=False):
        r = self.rs().randint(1 if pos else lo, hi, size=shape)
        a = r / scale if dt in ('f32', 'f64', 'f16') else r
        return np.asarray(a).astype(DT[dt])

    def init(self, arr, kind='w', raw=None, name=None):
        """Initializer; stored raw or in the typed field, by recipe."""
        arr = np.asarray(arr)
        name = name or self.nm(kind, True)
        if raw is None:
            raw = (self.rec.get('raw', 1) or (len(self.inits) % 2 == 0)) and self.rec.get('raw', 1) != 0
        if raw:
            t = numpy_helper.from_array(np.ascontiguousarray(arr).reshape(arr.shape), name)
        else:
            tp = helper.np_dtype_to_tensor_dtype(arr.dtype)
            vals = arr.flatten()
            t = helper.make_tensor(name, tp, list(arr.shape), vals.tolist() if arr.dtype != np.float16 else vals)
        self.inits.append(t)
        inv = {v: k for k, v in DT.items()}
        dt = inv[arr.dtype.type]
        v = Val(name, dt, [arr.shape] * self.K, static=True)
        self.init_vals.append((v, arr))
        return v

    def shared(self, shape, dt, mk, share):
        """Reuse an earlier float weight of the same shape when the layer asks for sharing."""
        if share:
            for v, a in self.init_vals:
                if v.dt == dt and tuple(a.shape) == tuple(shape) and a.dtype == DT[dt] and a.ndim >= 2:
                    return v
        return self.init(mk())

    def const(self, arr, as_node=False):
        v = self._const(arr, as_node)
        self.consts[v.name] = np.asarray(arr)
        return v

    def _take(self, v):
        """The value of a constant operand that becomes an attribute."""
        if v.name not in self.consts:
            raise Skip('computed operand')
        if self.inits and self.inits[-1].name == v.name:
            self.inits.pop()
            self.init_vals.pop()
        elif self.nodes and v.name in self.nodes[-1].output:
            self.nodes.pop()
        return self.consts[v.name]

    def downgrade(self, op, ins, n, attrs):
        """The node as the operator sets before 13 spell it."""
        ins = list(ins)
        o = self.opset
        if op in ('Unsqueeze', 'Squeeze', 'ReduceSum') and len(ins) == 2:
            attrs = dict(attrs, axes=self._take(ins.pop()).tolist())
        elif op == 'Split' and len(ins) == 2:
            attrs = dict(attrs, split=self._take(ins.pop()).tolist())
        elif op in ('Softmax', 'LogSoftmax', 'Hardmax'):
            if attrs.get('axis', 1) % ins[0].rank != ins[0].rank - 1:
                raise Skip('flattening')
        elif op == 'Resize' and o >= 11 and ins[1] is None:
            ins[1] = self.init(np.zeros(0, np.float32), 'roi')
            if len(ins) == 4 and ins[2] is None:
                ins[2] = self.init(np.zeros(0, np.float32), 'noscale')
        if o < 11 and op == 'Pad':
            at = dict(attrs)
            if len(ins) == 3:
                c = ins.pop()
                at['value'] = float(self._take(c)) if c is not None else 0.
            at['pads'] = self._take(ins.pop()).tolist()
            attrs = at
        elif o < 11 and op == 'Clip':
            at = dict(attrs)
            if len(ins) == 3:
                c = ins.pop()
                if c is not None:
                    at['max'] = float(self._take(c))
            if len(ins) == 2:
                c = ins.pop()
                if c is not None:
                    at['min'] = float(self._take(c))
            attrs = at
        elif o < 10 and op == 'Slice':
            at = dict(attrs)
            for k, name in reversed(list(enumerate(('', 'starts', 'ends', 'axes', 'steps')))):
                if 0 < k < len(ins):
                    c = ins.pop()
                    if c is not None:
                        at[name] = self._take(c).tolist()
            if any(x != 1 for x in at.pop('steps', [])):
                raise Skip('steps')
            attrs = at
        elif o < 10 and op == 'TopK':
            attrs = dict(attrs, k=int(self._take(ins.pop()).ravel()[0]))
        if o < 11 and isinstance(attrs.get('axes'), list):
            r = ins[0].rank + (len(attrs['axes']) if op == 'Unsqueeze' else 0)
            attrs = dict(attrs, axes=sorted(a % r for a in attrs['axes']))
        if o < 11 and attrs.get('axis', 0) < 0:
            attrs = dict(attrs, axis=attrs['axis'] % ins[0].rank)
        try:
            sc = onnx.defs.get_schema(op, o)
        except Exception:
            raise Skip('operator')
        if sc.deprecated or not sc.min_input <= len(ins) <= sc.max_input or n > sc.max_output or any(a not in sc.attributes for a in attrs):
            raise Skip('form')
        tp = {'f32': 'tensor(float)', 'f64': 'tensor(double)', 'f16': 'tensor(float16)', 'i64': 'tensor(int64)', 'i32': 'tensor(int32)',
              'bool': 'tensor(bool)', 'i8': 'tensor(int8)', 'u8': 'tensor(uint8)'}
        for k, i in enumerate(ins):
            f = sc.inputs[min(k, len(sc.inputs) - 1)]
            if i is not None and tp.get(i.dt) not in f.types or i is None and f.option != onnx.defs.OpSchema.FormalParameterOption.Optional:
                raise Skip('type')
        return ins, attrs

    def _const(self, arr, as_node=False):
        if as_node:
            arr = np.asarray(arr)
            name = self.nm('const')
            t = numpy_helper.from_array(arr, name + '_v')
            self.nodes.append(self.mk('Constant', [], [name], value=t))
            inv = {v: k for k, v in DT.items()}
            return Val(name, inv[arr.dtype.type], [arr.shape] * self.K, static=True)
        return self.init(arr, 'c')

    def mk(self, op, ins, outs, domain=None, **attrs):
        i = len(self.nodes)
        nn = self.rec.get('noname')
        if nn == 'dup':
            nname = op
        elif nn == 'clash':
            nname = '' if i % 2 else '%s_%d' % (op, i + 1)
        elif nn:
            nname = ''
        elif self.style == 'slash':
            nname = '/blk.%d/%s_%d' % (self.layer, op, i)
        elif self.style == 'odd':
            nname = 'b%d, %s "%d" \u00fc' % (self.layer, op, i)
        elif self.style == 'long':
            nname = 'model/' + 'encoder.layer/' * 21 + '%s_%d' % (op, i)
        elif self.style == 'mix':
            nname = MIX[(i + self.layer) % len(MIX)] % (op, i)
        else:
            nname = '%s_%d' % (op, i)
        nd = helper.make_node(op, ins, outs, name=nname, **attrs)
        if domain:
            nd.domain = domain
        return nd

    def node(self, op, ins, dt, shapes, n=1, emit=True, **attrs):
        """One node; shapes: list per output of list per assignment (or single list when n == 1)."""
        if self.opset < 13 and 'domain' not in attrs:
            ins, attrs = self.downgrade(op, ins, n, attrs)
        if n == 1:
            shapes = [shapes]
            dt = [dt]
        names = [self.nm(op.lower()) for _ in range(n)]
        self.nodes.append(self.mk(op, [i.name if i is not None else '' for i in ins], names, **attrs))
        for i in ins:
            if i is not None:
                self.used.append(i.name)
        vs = [Val(names[k], dt[k], shapes[k], static=False) for k in range(n)]
        for v in vs:
            for s in v.shapes:
                if any(d < 1 for d in s) or int(np.prod(s)) > self.rec.get('maxvol', 60000):
                    raise Skip('size')
        if emit:
            self.vals.extend(vs)
        return vs[0] if n == 1 else vs

    def pick(self, L, k=0, pred=lambda v: True):
        c = [v for v in self.vals if pred(v)]
        if not c:
            raise Skip('no operand')
        # favour recent values, so that graphs get deep, but reach back as the recipe says
        return c[-1 - (L['in'][k % len(L['in'])] % len(c))]


def F(v):
    return v.dt == 'f32'


def same(v):
    return [tuple(s) for s in v.shapes]


def bshape(*shapes):
    return tuple(np.broadcast_shapes(*shapes))


def axes_in(b, L, opn, x, ax, dt, sh, attr_until, n=1, emit=True, **at):
    """A node whose axes are an attribute in old operator sets and an operand in new ones."""
    if b.opset < attr_until:
        return b.node(opn, [x], dt, sh, emit=emit, axes=list(ax), **at)
    return b.node(opn, [x, b.const(np.asarray(list(ax), np.int64), L['p'] % 2 == 0)], dt, sh, emit=emit, **at)


OPS = {}


def op(name, tags=(), w=1.0, minopset=1):
    def deco(f):
        OPS[name] = dict(f=f, tags=set(tags), w=w, minopset=minopset)
        return f
    return deco


def unary(opname, tags, w=1.0, **attrs):
    @op(opname.lower(), tags, w)
    def f(b, L):
        x = b.pick(L, 0, F)
        return b.node(opname, [x], 'f32', same(x), **attrs)
    return f


# tags: S shape inference;  V value inference;  A affine in sizes;  R runtime kernel exists in the simulator
unary('Relu', 'SVAR', 1.5)
unary('Sigmoid', 'SVAR')
unary('Tanh', 'SVAR')
unary('Abs', 'SVAR')
unary('Neg', 'SVAR')
unary('Exp', 'SA', 0.4)
unary('Softplus', 'SA', 0.3)
unary('Ceil', 'SVA', 0.4)
unary('Floor', 'SVA', 0.4)
unary('Erf', 'SVA', 0.4)
unary('Sin', 'SVA', 0.3)
unary('Cos', 'SVA', 0.3)
unary('Identity', 'SVAR', 0.8)
unary('Elu', 'SVA', 0.4)


@op('sqrt', 'SVAR', 0.5)
def _sqrt(b, L):
    x = b.pick(L, 0, F)
    a = b.node('Abs', [x], 'f32', same(x))
    return b.node('Sqrt', [a], 'f32', same(x))


@op('leakyrelu', 'SVAR', 0.7)
def _leaky(b, L):
    x = b.pick(L, 0, F)
    return b.node('LeakyRelu', [x], 'f32', same(x), alpha=0.125)


@op('hardsigmoid', 'SVAR', 0.4)
def _hsig(b, L):
    x = b.pick(L, 0, F)
    return b.node('HardSigmoid', [x], 'f32', same(x), alpha=0.25, beta=0.5)


@op('clip', 'SVAR', 0.7)
def _clip(b, L):
    x = b.pick(L, 0, F)
    lo = b.const(np.float32(-0.5), L['p'] % 2 == 0)
    hi = b.const(np.float32(0.75), L['p'] % 2 == 0)
    return b.node('Clip', [x, lo, hi], 'f32', same(x))


@op('softmax', 'SVAR', 0.8)
def _softmax(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 1)
    return b.node('Softmax', [x], 'f32', same(x), axis=-1 if L['p'] % 2 else x.rank - 1)


def binary(opname, tags, w=1.0):
    @op(opname.lower(), tags, w)
    def f(b, L):
        x = b.pick(L, 0, F)

        def ok(v):
            if not F(v) or v is x and L['p'] % 3:
                return False
            try:
                for s, t in zip(x.shapes, v.shapes):
                    bshape(s, t)
                return True
            except ValueError:
                return False
        y = b.pick(L, 1, ok)
        a, c = (x, y) if L['p'] % 2 == 0 else (y, x)
        return b.node(opname, [a, c], 'f32', [bshape(s, t) for s, t in zip(x.shapes, y.shapes)])
    return f


binary('Add', 'SVAR', 2.0)
binary('Mul', 'SVAR', 1.2)
binary('Sub', 'SVAR', 1.0)
binary('Max', 'SVAR', 0.5)
binary('Min', 'SVAR', 0.5)


@op('addconst', 'SVAR', 1.2)
def _addc(b, L):
    x = b.pick(L, 0, F)
    last = {s[-1] for s in x.shapes} if x.rank else {1}
    kind = L['p'] % 4
    if kind == 0 or x.rank == 0 or len(last) != 1:
        c = b.const(np.float32(0.25 * (L['p'] % 5)), L['p'] % 3 == 0)
    elif kind == 1:
        c = b.const(b.weight((last.pop(),)), L['p'] % 3 == 0)
    elif kind == 2 and x.rank >= 2:
        c = b.const(b.weight((1, last.pop())), False)
    else:
        c = b.const(b.weight((1,)), L['p'] % 3 == 0)
    opn = ('Add', 'Mul', 'Sub')[L['p'] // 4 % 3]
    return b.node(opn, [x, c], 'f32', [bshape(s, t) for s, t in zip(x.shapes, c.shapes)])


@op('divconst', 'SVAR', 0.5)
def _divc(b, L):
    x = b.pick(L, 0, F)
    c = b.const(np.float32(2.0), L['p'] % 2 == 0)
    return b.node('Div', [x, c], 'f32', same(x))


@op('pow', 'SVAR', 0.5)
def _pow(b, L):
    x = b.pick(L, 0, F)
    c = b.const(np.float32(2.0), L['p'] % 2 == 0)
    return b.node('Pow', [x, c], 'f32', same(x))


@op('where', 'SVA', 0.5)
def _where(b, L):
    x = b.pick(L, 0, F)
    z = b.const(np.float32(0.125))
    opn = ('Greater', 'Less')[L['p'] % 2]
    c = b.node(opn, [x, z], 'bool', same(x), emit=False)
    if L['p'] % 5 == 0:
        c = b.node('Not', [c], 'bool', same(x), emit=False)
    y = b.const(np.float32(0.5))
    return b.node('Where', [c, x, y] if L['p'] % 4 < 2 else [c, y, x], 'f32', same(x))


@op('sum', 'SVA', 0.4)
def _sum(b, L):
    x = b.pick(L, 0, F)
    ys = [b.pick(L, 1, lambda v: F(v) and v.shapes == x.shapes), b.pick(L, 2, lambda v: F(v) and v.shapes == x.shapes)]
    return b.node('Sum', [x] + ys, 'f32', same(x))


# -- images --------------------------------------------------------------------------------------
def is4(v):
    return F(v) and v.rank == 4


def convdim(x, pad, k, s, d):
    return (x + pad - d * (k - 1) - 1) // s + 1


@op('conv', 'SVAR', 2.5)
def _conv(b, L):
    p = L['p']
    cs = lambda v: is4(v) and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] <= 8
    x = b.pick(L, 0, cs)
    c = x.shapes[0][1]
    k = (1, 3, 3, 2)[p % 4]
    s = (1, 1, 2)[p // 4 % 3]
    d = 2 if (k == 3 and p // 12 % 5 == 0) else 1
    pad = (k - 1) * d // 2 if p // 7 % 4 else 0
    if k == 2:
        pads = [0, 0, pad, pad + (p % 3 == 0)]
    else:
        pads = [pad] * 4
    oc = (2, 3, 4)[p // 3 % 3]
    w = b.shared((oc, c, k, k), 'f32', lambda: b.weight((oc, c, k, k)), L.get('share'))
    ins = [x, w]
    if p // 5 % 2:
        ins.append(b.init(b.weight((oc,))))
    sh = [(q[0], oc, convdim(q[2], pads[0] + pads[2], k, s, d), convdim(q[3], pads[1] + pads[3], k, s, d)) for q in x.shapes]
    return b.node('Conv', ins, 'f32', sh, kernel_shape=[k, k], strides=[s, s], pads=pads, dilations=[d, d], group=1)


@op('dwconv', 'SAR', 0.7)
def _dwconv(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] <= 8)
    c = x.shapes[0][1]
    w = b.init(b.weight((c, 1, 3, 3)))
    return b.node('Conv', [x, w], 'f32', same(x), kernel_shape=[3, 3], strides=[1, 1], pads=[1, 1, 1, 1],
                  dilations=[1, 1], group=c)


@op('convauto', 'SAR', 0.3)
def _convauto(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] <= 8)
    c = x.shapes[0][1]
    s = 1 + L['p'] % (3 if b.rec.get('odd') else 2)
    w = b.init(b.weight((2, c, 3, 3)))
    sh = [(q[0], 2, -(-q[2] // s), -(-q[3] // s)) for q in x.shapes]
    return b.node('Conv', [x, w], 'f32', sh, kernel_shape=[3, 3], strides=[s, s], auto_pad='SAME_UPPER')


@op('conv1d', 'SA', 0.4)
def _conv1d(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank == 3 and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] <= 16)
    c = x.shapes[0][1]
    w = b.init(b.weight((3, c, 3)))
    sh = [(q[0], 3, convdim(q[2], 2, 3, 1, 1)) for q in x.shapes]
    return b.node('Conv', [x, w], 'f32', sh, kernel_shape=[3], strides=[1], pads=[1, 1], dilations=[1], group=1)


@op('convtranspose', 'SA', 0.4)
def _convt(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] <= 8)
    c = x.shapes[0][1]
    w = b.init(b.weight((c, 2, 2, 2)))
    sh = [(q[0], 2, q[2] * 2, q[3] * 2) for q in x.shapes]
    return b.node('ConvTranspose', [x, w], 'f32', sh, kernel_shape=[2, 2], strides=[2, 2])


def bnparams(b, c):
    return [b.init(b.weight((c,), pos=True)), b.init(b.weight((c,))), b.init(b.weight((c,))),
            b.init(b.weight((c,), pos=True))]


@op('bn', 'SVAR', 1.0, minopset=14)  # below 14 the reference evaluator runs in training mode
def _bn(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and len({s[1] for s in v.shapes}) == 1)
    c = x.shapes[0][1]
    return b.node('BatchNormalization', [x] + bnparams(b, c), 'f32', same(x), epsilon=0.0625)


@op('convbn', 'SVAR', 1.2, minopset=14)
def _convbn(b, L):
    p = L['p']
    x = b.pick(L, 0, lambda v: is4(v) and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] <= 8)
    c = x.shapes[0][1]
    k = (1, 3)[p % 2]
    oc = (2, 3)[p // 2 % 2]
    w = b.shared((oc, c, k, k), 'f32', lambda: b.weight((oc, c, k, k)), L.get('share'))
    ins = [x, w]
    if p // 4 % 2:
        ins.append(b.init(b.weight((oc,))))
    sh = [(q[0], oc, q[2], q[3]) for q in x.shapes]
    y = b.node('Conv', ins, 'f32', sh, emit=(p // 8 % 3 == 0), kernel_shape=[k, k], strides=[1, 1],
               pads=[k // 2] * 4, dilations=[1, 1], group=1)
    return b.node('BatchNormalization', [y] + bnparams(b, oc), 'f32', sh, epsilon=0.0625)


@op('convbnshare', 'SVAI', 0.4, minopset=14)
def _convbnshare(b, L):
    """Several convolutions, each before its normalisation, some of which share a weight."""
    p = L['p']
    x = b.pick(L, 0, lambda v: is4(v) and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] <= 8)
    c = x.shapes[0][1]
    w = b.init(b.weight((c, c, 1, 1)))
    u = b.init(b.weight((c, c, 1, 1)))
    bias = b.init(b.weight((c,)))
    ys = []
    for wt, norm in (((u, 1), (w, 1), (w, 1)), ((w, 1), (w, 0), (u, 1)), ((w, 1), (u, 1), (w, 1)), ((u, 1), (u, 1), (u, 1)))[p % 4]:
        y = b.node('Conv', [x, wt] + ([bias] if p // 4 % 3 == 0 else []), 'f32', same(x), emit=False, kernel_shape=[1, 1], strides=[1, 1],
                   pads=[0] * 4, dilations=[1, 1], group=1)
        if norm:
            y = b.node('BatchNormalization', [y] + bnparams(b, c), 'f32', same(x), emit=False, epsilon=0.0625)
        ys.append(y)
        if p // 12 % 2:
            x = y
    z = b.node('Add', ys[:2], 'f32', same(x), emit=False)
    return b.node('Sub', [z, ys[2]], 'f32', same(x))


@op('maxpool', 'SVAR', 0.8)
def _maxpool(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and all(s[2] >= 4 and s[3] >= 4 for s in v.shapes))
    sh = [(s[0], s[1], s[2] // 2, s[3] // 2) for s in x.shapes]
    return b.node('MaxPool', [x], 'f32', sh, kernel_shape=[2, 2], strides=[2, 2])


@op('maxpool3', 'SA', 0.4)
def _maxpool3(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and all(s[2] >= 4 and s[3] >= 4 for s in v.shapes))
    ceil = L['p'] % 2
    f = math.ceil if ceil else math.floor
    sh = [(s[0], s[1], f((s[2] + 2 - 3) / 2) + 1, f((s[3] + 2 - 3) / 2) + 1) for s in x.shapes]
    return b.node('MaxPool', [x], 'f32', sh, kernel_shape=[3, 3], strides=[2, 2], pads=[1, 1, 1, 1], ceil_mode=ceil)


@op('avgpool', 'SAR', 0.5)
def _avgpool(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and all(s[2] >= 4 and s[3] >= 4 for s in v.shapes))
    sh = [(s[0], s[1], s[2] // 2, s[3] // 2) for s in x.shapes]
    return b.node('AveragePool', [x], 'f32', sh, kernel_shape=[2, 2], strides=[2, 2])


@op('gap', 'SVAR', 0.6)
def _gap(b, L):
    x = b.pick(L, 0, is4)
    return b.node('GlobalAveragePool', [x], 'f32', [(s[0], s[1], 1, 1) for s in x.shapes])


@op('resize', 'SA', 0.6)
def _resize(b, L):
    x = b.pick(L, 0, is4)
    sc = b.const(np.array([1, 1, 2, 2], np.float32), L['p'] % 2 == 0)
    sh = [(s[0], s[1], s[2] * 2, s[3] * 2) for s in x.shapes]
    return b.node('Resize', [x, None, sc], 'f32', sh, mode='nearest', coordinate_transformation_mode='asymmetric',
                  nearest_mode='floor')


@op('resizesize', 'S', 0.4)
def _resizes(b, L):
    """Resize whose target size is computed from another value's shape."""
    x = b.pick(L, 0, lambda v: is4(v))
    y = b.pick(L, 1, lambda v: is4(v))
    sx = b.node('Shape', [x], 'i64', [(4,)] * b.K, emit=False)
    sy = b.node('Shape', [y], 'i64', [(4,)] * b.K, emit=False)
    one = lambda a: b.const(np.array(a, np.int64), L['p'] % 2 == 0)
    nc = b.node('Slice', [sx, one([0]), one([2]), one([0])], 'i64', [(2,)] * b.K, emit=False)
    hw = b.node('Slice', [sy, one([2]), one([4]), one([0])], 'i64', [(2,)] * b.K, emit=False)
    sz = b.node('Concat', [nc, hw], 'i64', [(4,)] * b.K, emit=False, axis=0)
    sh = [(s[0], s[1], t[2], t[3]) for s, t in zip(x.shapes, y.shapes)]
    return b.node('Resize', [x, None, None, sz], 'f32', sh, mode='nearest',
                  coordinate_transformation_mode='asymmetric', nearest_mode='floor')


@op('pad', 'SVA', 0.4)
def _pad(b, L):
    x = b.pick(L, 0, is4)
    pads = b.const(np.array([0, 0, 1, 0, 0, 0, 1, 2], np.int64), L['p'] % 2 == 0)
    v = b.const(np.float32(0.5))
    sh = [(s[0], s[1], s[2] + 2, s[3] + 2) for s in x.shapes]
    return b.node('Pad', [x, pads, v], 'f32', sh, mode='constant')


@op('d2s', 'SA', 0.3)
def _d2s(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and all(s[1] % 4 == 0 for s in v.shapes))
    return b.node('DepthToSpace', [x], 'f32', [(s[0], s[1] // 4, s[2] * 2, s[3] * 2) for s in x.shapes], blocksize=2)


@op('instnorm', 'SA', 0.4)
def _instnorm(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and len({s[1] for s in v.shapes}) == 1)
    c = x.shapes[0][1]
    return b.node('InstanceNormalization', [x, b.init(b.weight((c,), pos=True)), b.init(b.weight((c,)))], 'f32', same(x))


@op('prelu', 'SA', 0.4)
def _prelu(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and len({s[1] for s in v.shapes}) == 1)
    return b.node('PRelu', [x, b.init(b.weight((x.shapes[0][1], 1, 1)))], 'f32', same(x))


@op('lrn', 'SA', 0.2)
def _lrn(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and all(s[1] >= 3 for s in v.shapes))
    return b.node('LRN', [x], 'f32', same(x), size=3, alpha=0.125, beta=0.75, bias=1.0)


@op('flatten', 'SVAR', 0.6)
def _flatten(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2 and all(s[0] * int(np.prod(s[1:])) < 4096 for s in v.shapes))
    sh = [(s[0], int(np.prod(s[1:]))) for s in x.shapes]
    return b.node('Flatten', [x], 'f32', sh, axis=1)


@op('convasym', 'SAI', 0.4)
def _convasym(b, L):
    """Different padding on each side, a kernel that is not square, explicit VALID or SAME_LOWER padding."""
    p = L['p']
    x = b.pick(L, 0, lambda v: is4(v) and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] <= 8 and all(min(s[2:]) >= 4 for s in v.shapes))
    c = x.shapes[0][1]
    kh, kw = ((3, 3), (3, 1), (1, 3), (2, 3))[p % 4]
    sh_, sw = ((1, 1), (2, 1), (2, 2))[p // 4 % 3]
    w = b.init(b.weight((2, c, kh, kw)))
    at = dict(kernel_shape=[kh, kw], strides=[sh_, sw])
    how = p // 12 % 4
    if how == 2:
        at['auto_pad'] = 'VALID'
        pads = [0] * 4
    elif how == 3:
        at['auto_pad'] = 'SAME_LOWER'
    else:
        pads = [0, 1, 2, 1] if how else [1, 0, 1, 2]
        at['pads'] = pads
    if how == 3:
        sh = [(q[0], 2, -(-q[2] // sh_), -(-q[3] // sw)) for q in x.shapes]
    else:
        sh = [(q[0], 2, convdim(q[2], pads[0] + pads[2], kh, sh_, 1), convdim(q[3], pads[1] + pads[3], kw, sw, 1)) for q in x.shapes]
    return b.node('Conv', [x, w], 'f32', sh, **at)


@op('avgpool3', 'SAI', 0.3)
def _avgpool3(b, L):
    p = L['p']
    x = b.pick(L, 0, lambda v: is4(v) and all(s[2] >= 4 and s[3] >= 4 for s in v.shapes))
    pads = ([1, 1, 1, 1], [1, 0, 1, 0], [0, 1, 1, 1], [0, 0, 0, 0])[p % 4]
    s = 1 + p // 4 % 2
    sh = [(q[0], q[1], convdim(q[2], pads[0] + pads[2], 3, s, 1), convdim(q[3], pads[1] + pads[3], 3, s, 1)) for q in x.shapes]
    return b.node('AveragePool', [x], 'f32', sh, kernel_shape=[3, 3], strides=[s, s], pads=pads, count_include_pad=p // 8 % 2)


@op('maxpoolpad', 'SAI', 0.3)
def _maxpoolpad(b, L):
    p = L['p']
    x = b.pick(L, 0, lambda v: is4(v) and all(s[2] >= 4 and s[3] >= 4 for s in v.shapes))
    pads = ([1, 0, 1, 0], [0, 1, 1, 1], [0, 0, 1, 1])[p % 3]
    s = 1 + p // 3 % 2
    sh = [(q[0], q[1], convdim(q[2], pads[0] + pads[2], 3, s, 1), convdim(q[3], pads[1] + pads[3], 3, s, 1)) for q in x.shapes]
    return b.node('MaxPool', [x], 'f32', sh, kernel_shape=[3, 3], strides=[s, s], pads=pads)


# -- general layout ------------------------------------------------------------------------------
@op('transpose', 'SVAR', 0.9)
def _transpose(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2)
    r = x.rank
    perm = list(range(r))
    k = L['p']
    if k % 3 == 0:
        perm[-1], perm[-2] = perm[-2], perm[-1]
    elif k % 3 == 1:
        perm = perm[1:] + perm[:1]
    else:
        perm = perm[:1] + perm[2:] + perm[1:2]
    return b.node('Transpose', [x], 'f32', [tuple(s[i] for i in perm) for s in x.shapes], perm=perm)


@op('concat', 'SVAR', 1.2)
def _concat(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 1)
    ax = L['p'] % x.rank

    def ok(v):
        return F(v) and v.rank == x.rank and all(
            s[:ax] + s[ax + 1:] == t[:ax] + t[ax + 1:] for s, t in zip(x.shapes, v.shapes))
    y = b.pick(L, 1, ok)
    sh = [s[:ax] + (s[ax] + t[ax],) + s[ax + 1:] for s, t in zip(x.shapes, y.shapes)]
    return b.node('Concat', [x, y], 'f32', sh, axis=ax if L['p'] % 2 else ax - x.rank)


@op('split', 'SA', 0.5)
def _split(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2 and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] >= 3)
    c = x.shapes[0][1]
    a = 1 + L['p'] % (c - 1)
    sp = b.const(np.array([a, c - a], np.int64), L['p'] % 2 == 0)
    sh = [[s[:1] + (k,) + s[2:] for s in x.shapes] for k in (a, c - a)]
    return b.node('Split', [x, sp], ['f32', 'f32'], sh, n=2, axis=1)


@op('splitjoin', 'SVAI', 0.4)
def _splitjoin(b, L):
    """Parts of one tensor that meet again, while one of them has a further consumer."""
    p = L['p']
    n = 2 + p % 2
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2 and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] % n == 0)
    c = x.shapes[0][1] // n
    sh = [s[:1] + (c,) + s[2:] for s in x.shapes]
    sp = b.const(np.array([c] * n, np.int64), p // 2 % 2 == 0)
    ys = b.node('Split', [x, sp], ['f32'] * n, [sh] * n, n=n, emit=p // 4 % 4 == 0, axis=1)
    if p // 16 % 3:
        b.node('Neg', [ys[p // 16 % n]], 'f32', sh)
    if p // 48 % 2:
        return b.node('Concat', ys[::-1], 'f32', same(x), axis=1)
    return b.node('Mul', [ys[0], ys[1]], 'f32', sh)


@op('slice', 'SVA', 0.8)
def _slice(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2 and all(min(s[1:]) >= 1 and s[-1] >= 3 for s in v.shapes))
    p = L['p']
    ax = x.rank - 1 if p % 2 == 0 else 1
    if any(s[ax] < 3 for s in x.shapes):
        raise Skip('small')
    st, en = ((0, -1), (1, 3), (1, 2 ** 31 - 1))[p // 2 % 3]
    sh = []
    for s in x.shapes:
        n = len(range(*slice(st, en).indices(s[ax])))
        sh.append(s[:ax] + (n,) + s[ax + 1:])
    mk = lambda a: b.const(np.array([a], np.int64), p % 3 == 0)
    ins = [x, mk(st), mk(en), mk(ax)]
    if p // 6 % 2:
        ins.append(mk(1))
    return b.node('Slice', ins, 'f32', sh)


@op('gather', 'SVA', 0.5)
def _gather(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2)
    ax = L['p'] % x.rank
    m = min(s[ax] for s in x.shapes)
    idx = np.array([0, m - 1, m // 2], np.int64)
    if L['p'] % 4 == 0:
        idx = np.array(m - 1, np.int64)
    i = b.const(idx, L['p'] % 2 == 0)
    sh = [s[:ax] + tuple(idx.shape) + s[ax + 1:] for s in x.shapes]
    return b.node('Gather', [x, i], 'f32', sh, axis=ax)


@op('unsqueeze', 'SVA', 0.4)
def _unsq(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank <= 3)
    ax = L['p'] % (x.rank + 1)
    a = b.const(np.array([ax], np.int64), L['p'] % 2 == 0)
    return b.node('Unsqueeze', [x, a], 'f32', [s[:ax] + (1,) + s[ax:] for s in x.shapes])


@op('squeeze', 'SVA', 0.5)
def _sq(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2 and any(all(s[i] == 1 for s in v.shapes) for i in range(v.rank)))
    ax = [i for i in range(x.rank) if all(s[i] == 1 for s in x.shapes)]
    ax = ax[L['p'] % len(ax)]
    a = b.const(np.array([ax], np.int64), L['p'] % 2 == 0)
    return b.node('Squeeze', [x, a], 'f32', [s[:ax] + s[ax + 1:] for s in x.shapes])


@op('reduce', 'SVAR', 0.8)
def _reduce(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2)
    p = L['p']
    ax = p % x.rank
    kd = p // 4 % 2
    opn = ('ReduceMean', 'ReduceMax', 'ReduceMin', 'ReduceSum')[p // 8 % 4]
    sh = [s[:ax] + ((1,) if kd else ()) + s[ax + 1:] for s in x.shapes]
    if opn == 'ReduceSum':
        return b.node(opn, [x, b.const(np.array([ax], np.int64), p % 2 == 0)], 'f32', sh, keepdims=kd)
    return axes_in(b, L, opn, x, [ax if p % 3 else ax - x.rank], 'f32', sh, 18, keepdims=kd)


@op('argmax', 'SA', 0.3)
def _argmax(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2)
    ax = L['p'] % x.rank
    sh = [s[:ax] + (1,) + s[ax + 1:] for s in x.shapes]
    a = b.node('ArgMax', [x], 'i64', sh, emit=False, axis=ax, keepdims=1)
    return b.node('Cast', [a], 'f32', sh, to=TensorProto.FLOAT)


@op('topk', 'SA', 0.3)
def _topk(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2 and all(s[-1] >= 2 for s in v.shapes))
    k = b.const(np.array([2], np.int64), L['p'] % 2 == 0)
    sh = [s[:-1] + (2,) for s in x.shapes]
    vs = b.node('TopK', [x, k], ['f32', 'i64'], [sh, sh], n=2, axis=-1)
    return vs[0]


@op('cast', 'SVA', 0.5)
def _cast(b, L):
    x = b.pick(L, 0, F)
    t = ('f64', 'f16', 'i32', 'i64')[L['p'] % 4]
    y = b.node('Cast', [x], t, same(x), emit=False, to=TP[t])
    return b.node('Cast', [y], 'f32', same(x), to=TP['f32'])


@op('dropout', 'SA', 0.3)
def _dropout(b, L):
    x = b.pick(L, 0, F)
    return b.node('Dropout', [x], 'f32', same(x))


@op('tile', 'SVA', 0.3)
def _tile(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2)
    r = [1] * x.rank
    r[L['p'] % x.rank] = 2
    return b.node('Tile', [x, b.const(np.array(r, np.int64), L['p'] % 2 == 0)], 'f32',
                  [tuple(d * q for d, q in zip(s, r)) for s in x.shapes])


@op('cumsum', 'SVA', 0.2)
def _cumsum(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2)
    return b.node('CumSum', [x, b.const(np.array(L['p'] % x.rank, np.int64))], 'f32', same(x))


@op('trilu', 'SA', 0.2, minopset=14)
def _trilu(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2)
    return b.node('Trilu', [x], 'f32', same(x), upper=L['p'] % 2)


# -- matrices / sequences ------------------------------------------------------------------------
def lastfix(v, lim=64):
    return F(v) and v.rank >= 2 and len({s[-1] for s in v.shapes}) == 1 and v.shapes[0][-1] <= lim


@op('matmul', 'SVAR', 2.0)
def _matmul(b, L):
    x = b.pick(L, 0, lambda v: lastfix(v) and v.rank >= 2)
    k = x.shapes[0][-1]
    n = (4, 6, 8, k)[L['p'] % 4]
    w = b.shared((k, n), 'f32', lambda: b.weight((k, n)), L.get('share'))
    return b.node('MatMul', [x, w], 'f32', [s[:-1] + (n,) for s in x.shapes])


@op('bigfc', 'SVAR', 0.15)
def _bigfc(b, L):
    """A weight large enough for the sparsity search, mostly zero or dense."""
    x = b.pick(L, 0, lambda v: lastfix(v) and v.rank in (2, 3))
    k = x.shapes[0][-1]
    n = 4160 // k
    w = b.weight((k, n))
    z = L['p'] % 4
    if z == 1:
        w[:, ::2] = 0
    elif z == 2:
        w[np.arange(k) % 4 != 0] = 0
    elif z == 3:
        w.ravel()[np.arange(w.size) % 7 < 4] = 0
    y = b.node('MatMul', [x, b.init(w)], 'f32', [s[:-1] + (n,) for s in x.shapes], emit=False)
    return b.node('MatMul', [y, b.init(b.weight((n, 4)))], 'f32', [s[:-1] + (4,) for s in x.shapes])


@op('gemm', 'SVAR', 1.5)
def _gemm(b, L):
    x = b.pick(L, 0, lambda v: lastfix(v, 256) and v.rank == 2)
    k = x.shapes[0][-1]
    p = L['p']
    n = (4, 6, 8)[p % 3]
    tb = p // 3 % 2
    shp = (n, k) if tb else (k, n)
    w = b.shared(shp, 'f32', lambda: b.weight(shp), L.get('share'))
    ins = [x, w]
    if p // 6 % 2:
        ins.append(b.init(b.weight((n,))))
    return b.node('Gemm', ins, 'f32', [(s[0], n) for s in x.shapes], transB=tb)


@op('matmul2', 'SVAR', 0.7)
def _matmul2(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank in (2, 3))
    perm = list(range(x.rank))
    perm[-1], perm[-2] = perm[-2], perm[-1]
    t = b.node('Transpose', [x], 'f32', [tuple(s[i] for i in perm) for s in x.shapes], emit=False, perm=perm)
    return b.node('MatMul', [x, t], 'f32', [s[:-1] + (s[-2],) for s in x.shapes])


@op('layernorm', 'SAR', 0.6, minopset=17)
def _ln(b, L):
    x = b.pick(L, 0, lastfix)
    k = x.shapes[0][-1]
    return b.node('LayerNormalization', [x, b.init(b.weight((k,), pos=True)), b.init(b.weight((k,)))], 'f32', same(x),
                  axis=-1, epsilon=0.0625)


@op('heads', 'SVA', 0.5)
def _heads(b, L):
    """[B,S,D] -> reshape to heads with a constant 0/-1 target, transpose back."""
    x = b.pick(L, 0, lambda v: F(v) and v.rank == 3 and lastfix(v) and v.shapes[0][-1] % 2 == 0)
    d = x.shapes[0][-1]
    tgt = b.const(np.array([0, 0, 2, d // 2] if L['p'] % 2 else [0, -1, 2, d // 2], np.int64), L['p'] % 4 < 2)
    sh = [(s[0], s[1], 2, d // 2) for s in x.shapes]
    y = b.node('Reshape', [x, tgt], 'f32', sh, emit=False)
    return b.node('Transpose', [y], 'f32', [(s[0], s[2], s[1], s[3]) for s in sh], perm=[0, 2, 1, 3])


@op('reshapeconst', 'SVAR', 0.6)
def _reshc(b, L):
    """Merge or split the trailing dimensions with a constant target."""
    x = b.pick(L, 0, lambda v: F(v) and v.rank in (2, 3, 4))
    n0 = {s[0] for s in x.shapes}
    t = np.array([0, -1], np.int64)
    c = b.const(t, L['p'] % 2 == 0)
    if all(int(np.prod(s[1:])) <= 4096 for s in x.shapes):
        return b.node('Reshape', [x, c], 'f32', [(s[0], int(np.prod(s[1:]))) for s in x.shapes])
    raise Skip('size')


@op('shapereshape', 'SR', 1.0)
def _shr(b, L):
    """Exporter-style dynamic reshape: Shape -> Gather -> Unsqueeze -> Concat -> Reshape."""
    x = b.pick(L, 0, lambda v: F(v) and v.rank in (3, 4) and len({s[1] for s in v.shapes}) >= 1)
    nd = L['p'] % 2 == 0
    shp = b.node('Shape', [x], 'i64', [(x.rank,)] * b.K, emit=False)
    g0 = b.node('Gather', [shp, b.const(np.array(0, np.int64), nd)], 'i64', [()] * b.K, emit=False, axis=0)
    g1 = b.node('Gather', [shp, b.const(np.array(1, np.int64), nd)], 'i64', [()] * b.K, emit=False, axis=0)
    ax = b.const(np.array([0], np.int64), nd)
    u0 = b.node('Unsqueeze', [g0, ax], 'i64', [(1,)] * b.K, emit=False)
    u1 = b.node('Unsqueeze', [g1, ax], 'i64', [(1,)] * b.K, emit=False)
    m1 = b.const(np.array([-1], np.int64), nd)
    c = b.node('Concat', [u0, u1, m1] if L['p'] % 3 else [u0, m1, u1], 'i64', [(3,)] * b.K, emit=False, axis=0)
    if L['p'] % 3:
        sh = [(s[0], s[1], int(np.prod(s[2:]))) for s in x.shapes]
    else:
        sh = [(s[0], int(np.prod(s[2:])), s[1]) for s in x.shapes]
    return b.node('Reshape', [x, c], 'f32', sh)


@op('shapeexpand', 'SA', 0.5)
def _she(b, L):
    """Expand a constant to the shape of a value."""
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 1)
    shp = b.node('Shape', [x], 'i64', [(x.rank,)] * b.K, emit=False)
    c = b.const(np.array([0.5], np.float32), L['p'] % 2 == 0)
    e = b.node('Expand', [c, shp], 'f32', same(x), emit=False)
    return b.node('Add', [x, e], 'f32', same(x))


@op('shapecos', 'SA', 0.5)
def _shcos(b, L):
    """ConstantOfShape(Shape(x)) added to x."""
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 1)
    shp = b.node('Shape', [x], 'i64', [(x.rank,)] * b.K, emit=False)
    nm = b.nm('cos')
    v = numpy_helper.from_array(np.array([0.25], np.float32), nm)
    e = b.node('ConstantOfShape', [shp], 'f32', same(x), emit=False, value=v)
    return b.node('Add', [x, e], 'f32', same(x))


@op('shapemath', 'S', 0.5)
def _shm(b, L):
    """Slice to half of a dynamic dimension: the bound is computed by integer arithmetic on Shape."""
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2 and all(s[-1] >= 4 for s in v.shapes))
    nd = L['p'] % 2 == 0
    shp = b.node('Shape', [x], 'i64', [(x.rank,)] * b.K, emit=False)
    g = b.node('Gather', [shp, b.const(np.array([x.rank - 1], np.int64), nd)], 'i64', [(1,)] * b.K, emit=False, axis=0)
    h = b.node('Div', [g, b.const(np.array([2], np.int64), nd)], 'i64', [(1,)] * b.K, emit=False)
    z = b.const(np.array([0], np.int64), nd)
    ax = b.const(np.array([x.rank - 1], np.int64), nd)
    return b.node('Slice', [x, z, h, ax], 'f32', [s[:-1] + (s[-1] // 2,) for s in x.shapes])


@op('shaperange', 'S', 0.3)
def _shrange(b, L):
    """Positions 0..S-1 from Shape through Range, cast and added."""
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2)
    nd = L['p'] % 2 == 0
    shp = b.node('Shape', [x], 'i64', [(x.rank,)] * b.K, emit=False)
    g = b.node('Gather', [shp, b.const(np.array(x.rank - 1, np.int64), nd)], 'i64', [()] * b.K, emit=False, axis=0)
    r = b.node('Range', [b.const(np.array(0, np.int64), nd), g, b.const(np.array(1, np.int64), nd)], 'i64',
               [(s[-1],) for s in x.shapes], emit=False)
    f = b.node('Cast', [r], 'f32', [(s[-1],) for s in x.shapes], emit=False, to=TensorProto.FLOAT)
    return b.node('Add', [x, f], 'f32', same(x))


@op('constsub', 'SVAR', 1.0)
def _constsub(b, L):
    """A constant subgraph (folded by constant_folding) feeding a dynamic node."""
    x = b.pick(L, 0, F)
    a = b.const(b.weight((1,)), True)
    c = b.init(b.weight((1,)))
    m = b.node('Mul', [a, c], 'f32', [(1,)] * b.K, emit=False)
    if L['p'] % 2:
        m = b.node('Neg', [m], 'f32', [(1,)] * b.K, emit=False)
    if L['p'] % 3 == 0:
        m = b.node('Add', [m, a], 'f32', [(1,)] * b.K, emit=False)
    return b.node('Add', [x, m], 'f32', [bshape(s, (1,)) for s in x.shapes])


@op('constwt', 'SVAR', 0.6)
def _constwt(b, L):
    """MatMul whose weight is the transpose of an initializer (a constant subgraph producing a weight)."""
    x = b.pick(L, 0, lambda v: lastfix(v))
    k = x.shapes[0][-1]
    w = b.init(b.weight((6, k)))
    t = b.node('Transpose', [w], 'f32', [(k, 6)] * b.K, emit=False, perm=[1, 0])
    return b.node('MatMul', [x, t], 'f32', [s[:-1] + (6,) for s in x.shapes])


@op('typedconst', 'SVA', 0.8)
def _typed(b, L):
    """An initializer of an unusual element type, cast and added."""
    x = b.pick(L, 0, F)
    dt = ('f16', 'f64', 'i8', 'u8', 'bool', 'i32', 'i64', 'i16', 'u16', 'u32', 'u64', 'bf16')[L['p'] % 12]
    if dt == 'bool':
        arr = np.array([bool(L['p'] // 9 % 2), True][:1])
    elif dt in ('u8', 'u16', 'u32', 'u64'):
        arr = np.array([3 + L['p'] // 9 % 4]).astype(DT[dt])
    elif dt in ('f16', 'f64', 'bf16'):
        arr = np.array([0.25 * (1 + L['p'] // 9 % 4)]).astype(DT[dt])
    else:
        arr = np.array([-2 + L['p'] // 9 % 5]).astype(DT[dt])
    c = b.init(arr, 't', raw=(L['p'] // 2 % 2 == 0))
    f = b.node('Cast', [c], 'f32', [(1,)] * b.K, emit=False, to=TensorProto.FLOAT)
    return b.node('Add', [x, f], 'f32', [bshape(s, (1,)) for s in x.shapes])


@op('embed', 'SVA', 0.0)
def _embed(b, L):
    ids = b.pick(L, 0, lambda v: v.dt == 'i64' and v.rank == 2)
    w = b.init(b.weight((16, 8)))
    return b.node('Gather', [w, ids], 'f32', [s + (8,) for s in ids.shapes])


@op('lstm', 'S', 0.2)
def _lstm(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank == 3 and lastfix(v, 16))
    k = x.shapes[0][-1]
    h = 3
    w = b.init(b.weight((1, 4 * h, k)))
    r = b.init(b.weight((1, 4 * h, h)))
    bi = b.init(b.weight((1, 8 * h)))
    sh = [[(s[0], 1, s[1], h) for s in x.shapes], [(1, s[1], h) for s in x.shapes]]
    vs = b.node('LSTM', [x, w, r, bi], ['f32', 'f32'], sh, n=2, hidden_size=h)
    return vs[0]


@op('qdq', 'SA', 0.3, minopset=19)
def _qdq(b, L):
    x = b.pick(L, 0, F)
    sc = b.init(np.float32(0.0625), 's')
    z = b.init(np.int8(1), 'z')
    q = b.node('QuantizeLinear', [x, sc, z], 'i8', same(x), emit=False)
    return b.node('DequantizeLinear', [q, sc, z], 'f32', same(x))


@op('einsum', 'SA', 0.3)
def _einsum(b, L):
    x = b.pick(L, 0, lambda v: v.rank == 3 and lastfix(v))
    k = x.shapes[0][-1]
    w = b.init(b.weight((k, 5)))
    return b.node('Einsum', [x, w], 'f32', [(s[0], s[1], 5) for s in x.shapes], equation='bsk,kn->bsn')


@op('maskmul', 'SV', 0.4)
def _mask(b, L):
    """Equal / cast / multiply: boolean tensors on the way."""
    x = b.pick(L, 0, F)
    a = b.node('Abs', [x], 'f32', same(x), emit=False)
    e = b.node('Equal', [a, x], 'bool', same(x), emit=False)
    c = b.node('Cast', [e], 'f32', same(x), emit=False, to=TensorProto.FLOAT)
    return b.node('Mul', [x, c], 'f32', same(x))


@op('dead', 'SVAR', 0.6)
def _dead(b, L):
    """A branch nothing consumes (dangling unless it becomes an output)."""
    p = L['p']
    cut = lambda v: F(v) and v.rank >= 2 and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] >= 2
    if p % 3 == 1 and any(map(cut, b.vals)):
        # behind one part of a tensor, the other part is an output
        x = b.pick(L, 0, cut)
        c = x.shapes[0][1]
        sp = b.const(np.array([1, c - 1], np.int64), True)
        ys = b.node('Split', [x, sp], ['f32', 'f32'], [[s[:1] + (k,) + s[2:] for s in x.shapes] for k in (1, c - 1)], n=2, emit=False, axis=1)
        ys = ys if p // 3 % 2 else ys[::-1]
        b.node('Relu', [ys[0]], 'f32', ys[0].shapes, emit=False)
        b.keep.append(ys[1])
        return
    x = b.pick(L, 0, F)
    y = b.node('Relu', [x], 'f32', same(x), emit=False)
    b.node('Abs', [y], 'f32', same(x), emit=False)


@op('gather2d', 'SVAI', 0.4)
def _gather2d(b, L):
    """Gather with a matrix of indices, some of them counted from the end."""
    x = b.pick(L, 0, lambda v: F(v) and v.rank in (2, 3))
    ax = L['p'] % x.rank
    m = min(s[ax] for s in x.shapes)
    neg = -1 if L['p'] // 4 % 2 else 0
    idx = np.array([[0, m - 1], [m // 2, neg]], np.int64)
    i = b.const(idx, L['p'] % 2 == 0)
    return b.node('Gather', [x, i], 'f32', [s[:ax] + (2, 2) + s[ax + 1:] for s in x.shapes], axis=ax if L['p'] // 8 % 2 else ax - x.rank)


@op('gemmx', 'SAI', 0.5)
def _gemmx(b, L):
    """Gemm of two computed matrices, transposed and scaled."""
    p = L['p']
    x = b.pick(L, 0, lambda v: lastfix(v, 256) and v.rank == 2)
    y = b.pick(L, 1, lambda v: lastfix(v, 256) and v.rank == 2 and v.shapes[0][-1] == x.shapes[0][-1])
    at = dict(alpha=0.5, beta=2.0) if p // 2 % 2 else {}
    if p % 2:
        # the common size is the last one
        ins, sh = [x, y], [(s[0], t[0]) for s, t in zip(x.shapes, y.shapes)]
        if p // 4 % 2:
            ins.append(b.init(b.weight((1,))))
        return b.node('Gemm', ins, 'f32', sh, transB=1, **at)
    if x.shapes != y.shapes:
        raise Skip('rows')
    ins, sh = [x, y], [(s[1], t[1]) for s, t in zip(x.shapes, y.shapes)]
    if p // 4 % 2:
        ins.append(b.init(b.weight((x.shapes[0][1],))))
    return b.node('Gemm', ins, 'f32', sh, transA=1, **at)


@op('reduceall', 'SVAI', 0.3)
def _reduceall(b, L):
    """A reduction over every axis, or over two."""
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2)
    p = L['p']
    opn = ('ReduceMean', 'ReduceMax', 'ReduceMean')[p % 3]
    if p // 3 % 2:
        return axes_in(b, L, opn, x, [-1, -2], 'f32', [s[:-2] + (1, 1) for s in x.shapes], 18, keepdims=1)
    return b.node(opn, [x], 'f32', [(1,) * x.rank] * b.K, keepdims=1)


@op('gatherel', 'SAI', 0.3)
def _gatherel(b, L):
    """One element of every row, chosen by an index that has the shape of the operand on the other axis."""
    x = b.pick(L, 0, lambda v: F(v) and v.rank == 2 and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] <= 256)
    m = min(s[0] for s in x.shapes)
    c = x.shapes[0][1]
    i = b.const(np.array([[(q * 7 + L['p']) % m for q in range(c)], [m - 1] * c], np.int64))
    return b.node('GatherElements', [x, i], 'f32', [(2, c)] * b.K, axis=0)


@op('mod', 'SVAI', 0.3)
def _mod(b, L):
    x = b.pick(L, 0, F)
    return b.node('Mod', [x, b.const(np.float32(0.75))], 'f32', same(x), fmod=1)


@op('masked', 'SAI', 0.5)
def _masked(b, L):
    """Comparison against another value, cast and used as a factor: boolean tensors with a life of their own."""
    x = b.pick(L, 0, F)
    y = b.pick(L, 1, lambda v: F(v) and v.shapes == x.shapes)
    e = b.node(('Greater', 'Less', 'Equal')[L['p'] % 3], [x, y], 'bool', same(x), emit=False)
    if L['p'] // 3 % 2:
        return b.node('Where', [e, x, y], 'f32', same(x))
    c = b.node('Cast', [e], 'f32', same(x), emit=False, to=TensorProto.FLOAT)
    return b.node('Mul', [y, c], 'f32', same(x))


# ------------------------------------------------------------------------------------------------
# -- control operands: shapes, counts and indices that arrive as graph inputs ---------------------
def ctl(b, mk, kind, dt='i64'):
    """A graph input holding a control value that differs between the size assignments."""
    arrs = [np.asarray(mk(k), DT[dt]) for k in range(b.K)]
    name = b.nm(kind)
    dims = [d if len({a.shape[i] for a in arrs}) == 1 else '%s_n' % name.strip('/').replace('/', '_') for i, d in enumerate(arrs[0].shape)]
    v = Val(name, dt, [a.shape for a in arrs])
    b.ctlvals[name] = arrs
    b.inputs.append((v, dims))
    b.used.append(name)
    return v


def anyF(v):
    return F(v) and v.rank >= 1


@op('ctl_reshape', 'SVC', 1)
def _ctl_reshape(b, L):
    x = b.pick(L, 0, anyF)
    p = L['p']

    def tgt(k):
        n = int(np.prod(x.shapes[k]))
        q = p // 2 + (k if p % 2 else 0)
        d = [i for i in (1, 2, 3, 4, 6, 8) if n % i == 0]
        f = d[q % len(d)]
        if p // 12 % 3 == 0:
            return [f, -1]
        if p // 12 % 3 == 1:
            return [-1, f]
        return [f, n // f]
    sh = []
    for k, s in enumerate(x.shapes):
        t = tgt(k)
        n = int(np.prod(s))
        t = [n // int(np.prod([d for d in t if d > 0])) if d < 0 else d for d in t]
        sh.append(tuple(t))
    return b.node('Reshape', [x, ctl(b, tgt, 'ctlshape')], 'f32', sh)


@op('ctl_tile', 'SVC', 1)
def _ctl_tile(b, L):
    x = b.pick(L, 0, anyF)
    rep = lambda k: [1 + (L['p'] + k * (1 + i)) % 2 for i in range(x.rank)]
    return b.node('Tile', [x, ctl(b, rep, 'ctlrep')], 'f32', [tuple(d * r for d, r in zip(s, rep(k))) for k, s in enumerate(x.shapes)])


@op('ctl_expand', 'SVC', 1)
def _ctl_expand(b, L):
    x = b.pick(L, 0, lambda v: anyF(v) and v.rank <= 3)
    sh = [(1 + (L['p'] + k) % 3,) + s for k, s in enumerate(x.shapes)]
    t = (lambda k: sh[k]) if L['p'] % 2 else (lambda k: (sh[k][0],) + (1,) * x.rank)
    return b.node('Expand', [x, ctl(b, t, 'ctlexp')], 'f32', sh)


@op('ctl_slice', 'SVC', 1)
def _ctl_slice(b, L):
    p = L['p']
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2 and all(s[0 if p % 2 else -1] >= 3 for s in v.shapes))
    ax = 0 if p % 2 else x.rank - 1
    st = lambda k: [(p // 2 + k) % 2]
    en = lambda k: [x.shapes[k][ax] - (p // 4 + k) % 2]
    which = p // 8 % 3
    cs = lambda f, nm: ctl(b, f, nm)
    if which == 1:
        st = lambda k: [1]
    if which == 2:
        en = lambda k: [2 ** 31 - 1]
    ins = [x, b.const(np.array([1], np.int64)) if which == 1 else cs(st, 'ctlst'),
           b.const(np.array([2 ** 31 - 1], np.int64)) if which == 2 else cs(en, 'ctlen'), b.const(np.array([ax], np.int64))]
    sh = []
    for k, s in enumerate(x.shapes):
        n = len(range(*slice(st(k)[0], en(k)[0]).indices(s[ax])))
        sh.append(s[:ax] + (n,) + s[ax + 1:])
    return b.node('Slice', ins, 'f32', sh)


@op('ctl_pad', 'SVC', 1)
def _ctl_pad(b, L):
    x = b.pick(L, 0, anyF)
    pads = lambda k: [(L['p'] + k * (i + 1)) % 3 for i in range(2 * x.rank)]
    sh = [tuple(d + pads(k)[i] + pads(k)[i + x.rank] for i, d in enumerate(s)) for k, s in enumerate(x.shapes)]
    return b.node('Pad', [x, ctl(b, pads, 'ctlpad')], 'f32', sh, mode='constant')


@op('ctl_gather', 'SVC', 1)
def _ctl_gather(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2)
    ax = L['p'] % x.rank
    idx = lambda k: [(L['p'] + i) % x.shapes[k][ax] for i in range(1 + L['p'] // 4 % 4)]
    return b.node('Gather', [x, ctl(b, idx, 'ctlidx')], 'f32', [s[:ax] + (len(idx(k)),) + s[ax + 1:] for k, s in enumerate(x.shapes)],
                  axis=ax)


@op('ctl_topk', 'SC', 1)
def _ctl_topk(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2 and all(s[-1] >= 3 for s in v.shapes))
    kk = lambda k: [1 + (L['p'] + k) % 3]
    sh = [s[:-1] + (kk(k)[0],) for k, s in enumerate(x.shapes)]
    return b.node('TopK', [x, ctl(b, kk, 'ctlk')], ['f32', 'i64'], [sh, sh], n=2, axis=-1)[0]


@op('ctl_range', 'SVC', 1)
def _ctl_range(b, L):
    lim = lambda k: 2 + (L['p'] + 3 * k) % 7
    z, o = b.const(np.array(0, np.int64)), b.const(np.array(1, np.int64))
    sh = [(lim(k),) for k in range(b.K)]
    r = b.node('Range', [z, ctl(b, lim, 'ctllim'), o], 'i64', sh, emit=False)
    return b.node('Cast', [r], 'f32', sh, to=TP['f32'])


@op('ctl_cos', 'SVC', 1)
def _ctl_cos(b, L):
    sh = [(1 + (L['p'] + k) % 3, 2 + (L['p'] // 3 + k) % 3) for k in range(b.K)]
    return b.node('ConstantOfShape', [ctl(b, lambda k: sh[k], 'ctlsh')], 'f32', sh,
                  value=numpy_helper.from_array(np.array([.5], np.float32), 'v'))


@op('ctl_reduce', 'SVC', 1)
def _ctl_reduce(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2)
    ax = lambda k: [(L['p'] + k) % x.rank]
    sh = [s[:ax(k)[0]] + (1,) + s[ax(k)[0] + 1:] for k, s in enumerate(x.shapes)]
    return b.node('ReduceSum', [x, ctl(b, ax, 'ctlax')], 'f32', sh, keepdims=1)


@op('ctl_unsqueeze', 'SVC', 1)
def _ctl_unsq(b, L):
    x = b.pick(L, 0, lambda v: anyF(v) and v.rank <= 3)
    ax = lambda k: [(L['p'] + k) % (x.rank + 1)]
    return b.node('Unsqueeze', [x, ctl(b, ax, 'ctlax')], 'f32', [s[:ax(k)[0]] + (1,) + s[ax(k)[0]:] for k, s in enumerate(x.shapes)])


@op('ctl_resize', 'SC', 1)
def _ctl_resize(b, L):
    x = b.pick(L, 0, is4)
    p = L['p']
    sh = [s[:2] + (s[2] * (1 + (p + k) % 2), s[3] * (1 + (p // 2 + k) % 2)) for k, s in enumerate(x.shapes)]
    if p % 3 == 0:
        sc = ctl(b, lambda k: [o / i for o, i in zip(sh[k], x.shapes[k])], 'ctlscale', 'f32')
        return b.node('Resize', [x, None, sc], 'f32', sh, mode='nearest')
    sz = ctl(b, lambda k: sh[k], 'ctlsize')
    return b.node('Resize', [x, None, None, sz], 'f32', sh, mode='nearest')


@op('ctl_split', 'SC', 1)
def _ctl_split(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank >= 2 and all(s[1] >= 3 for s in v.shapes))
    a = lambda k: 1 + (L['p'] + k) % (x.shapes[k][1] - 1)
    sp = ctl(b, lambda k: [a(k), x.shapes[k][1] - a(k)], 'ctlsplit')
    sh = [[s[:1] + (a(k),) + s[2:] for k, s in enumerate(x.shapes)],
          [s[:1] + (s[1] - a(k),) + s[2:] for k, s in enumerate(x.shapes)]]
    return b.node('Split', [x, sp], ['f32', 'f32'], sh, n=2, axis=1)


@op('ctl_clip', 'SVC', 1)
def _ctl_clip(b, L):
    x = b.pick(L, 0, F)
    lo = ctl(b, lambda k: -.25 * (1 + (L['p'] + k) % 4), 'ctllo', 'f32')
    return b.node('Clip', [x, lo], 'f32', same(x))


@op('ctl_concat', 'SVC', 1)
def _ctl_concat(b, L):
    """A shape built from a run-time count: Concat(count, Shape tail) -> ConstantOfShape/Expand."""
    x = b.pick(L, 0, lambda v: anyF(v) and v.rank <= 3)
    n = lambda k: [1 + (L['p'] + k) % 3]
    s = b.node('Shape', [x], 'i64', [(x.rank,)] * b.K, emit=False)
    c = b.node('Concat', [ctl(b, n, 'ctln'), s], 'i64', [(x.rank + 1,)] * b.K, emit=False, axis=0)
    return b.node('Expand', [x, c], 'f32', [tuple(n(k)) + t for k, t in enumerate(x.shapes)])


for _n in ('relu sigmoid tanh neg erf identity leakyrelu clip softmax add mul sub addconst divconst pow where conv dwconv convauto bn convbn maxpool '
           'maxpool3 avgpool gap resize pad flatten transpose concat split slice gather unsqueeze squeeze reduce topk cast tile matmul bigfc gemm '
           'matmul2 layernorm heads reshapeconst shapeexpand constsub constwt typedconst shapereshape resizesize').split():
    OPS[_n]['tags'].add('I')    # the inference runtime has kernels for it

from . import models2  # noqa: E402  (adds its layers to OPS)

FAMILIES = {
    'img': dict(inputs=[('x', 'f32', ('N', 3, 'H', 'W'))], sizes=[(1, 8, 8), (2, 16, 8), (1, 8, 16), (3, 16, 24)]),
    'img2': dict(inputs=[('x', 'f32', ('N', 3, 'H', 'W')), ('y', 'f32', ('N', 2, 'H', 'W'))],
                 sizes=[(1, 8, 8), (2, 16, 8), (1, 8, 16), (3, 16, 24)]),
    'seq': dict(inputs=[('x', 'f32', ('B', 'S', 8))], sizes=[(1, 4), (2, 8), (1, 16), (3, 4)]),
    'ids': dict(inputs=[('ids', 'i64', ('B', 'S'))], sizes=[(1, 4), (2, 8), (1, 16), (3, 4)]),
    'mat': dict(inputs=[('a', 'f32', ('M', 6)), ('b', 'f32', ('M', 6))], sizes=[(4,), (8,), (2,), (16,)]),
}
VARS = {'img': ('N', 'H', 'W'), 'img2': ('N', 'H', 'W'), 'seq': ('B', 'S'), 'ids': ('B', 'S'), 'mat': ('M',)}


def gen_recipe(rng, need='S', nlayers=(2, 9), family=None, only=None, avoid=(), fixed=None, opset=None, ctl=0, branchy=False, **kw):
    fam = family or rng.choice(['img', 'img', 'seq', 'mat', 'img2', 'ids'])
    given = opset
    opset = opset or rng.choice([13, 13, 15, 17, 17, 18, 20])
    names = [n for n, d in OPS.items() if all(t in d['tags'] for t in need) and d['w'] > 0 and n not in avoid and 'C' not in d['tags']
             and (only is None or n in only) and d['minopset'] <= opset]
    ws = [OPS[n]['w'] for n in names]
    k = rng.randint(*nlayers)
    layers = []
    for _ in range(k):
        o = rng.choices(names, ws)[0]
        if ctl and rng.random() < ctl:
            o = rng.choice([n for n, d in OPS.items() if 'C' in d['tags'] and all(t in d['tags'] for t in need)])
        d = [min(int(rng.expovariate(0.8)), 9) for _ in range(3)]
        layers.append({'op': o, 'in': d, 'p': rng.randrange(0, 720), 'share': rng.random() < 0.3})
    rec = {'family': fam, 'opset': opset, 'layers': layers, 'sizes': [list(s) for s in FAMILIES[fam]['sizes']],
           'wseed': rng.randrange(1000), 'names': rng.choice(['plain', 'plain', 'slash', 'num', 'dotted']),
           'noname': rng.choice([False] * 16 + [True, True, 'dup', 'clash']), 'raw': rng.choice([1, 1, 0, 2]),
           'dyn': True if fixed is None else (not fixed),
           'shuffle': None, 'extra': [], 'vinfo': rng.random() < 0.2, 'initin': rng.random() < 0.15,
           'outdims': rng.random() < 0.5}
    if rng.random() < 0.35:
        rec['extra'] = [rng.randrange(0, 40) for _ in range(rng.randint(1, 2))]
    r3 = random.Random(repr((layers, rec['wseed'])))
    if r3.random() < .1:
        rec['names'] = r3.choice(['long', 'mix', 'mix'])
    if r3.random() < .35:
        # sizes with all kinds of remainders
        lo, hi = {'img': (5, 20), 'img2': (5, 20)}.get(fam, (2, 17))
        if 'A' not in need and 'I' not in need:
            rec['odd'] = True
            rec['sizes'] = [[r3.randint(1, 3) if i == 0 and len(z) > 1 else r3.randint(lo, hi) for i in range(len(z))] for z in rec['sizes']]
    if r3.random() < .12:
        rec['anon'] = r3.randrange(1, 64)
    if rec['vinfo'] and r3.random() < .4:
        rec['vinfo'] = 'all'  # exporters list the outputs there, too
    r2 = random.Random(repr((rec['wseed'], layers)))
    if branchy and r2.random() < .09:
        rec['ifs'] = branches.gen(r2)
        if 'topk' in names and r2.random() < .3:
            rec['ifs']['topk'] = r2.randrange(8)
            if not any('topk' in L['op'] for L in layers):
                layers.insert(r2.randrange(len(layers) + 1), {'op': 'topk', 'in': [0, 1, 0], 'p': r2.randrange(720), 'share': False})
    r4 = random.Random(repr((layers, rec['wseed'], 'old')))
    if not given and not ctl and 'ifs' not in rec and 'R' not in need and r4.random() < .12:
        rec['opset'] = r4.choice([9, 10, 11, 11, 12, 12])
    rec.update(kw)
    return rec


class Built:
    pass


def build(rec):
    b = B(rec)
    fam = FAMILIES[rec['family']]
    vars_ = VARS[rec['family']]
    sizes = rec['sizes']
    assigns = [dict(zip(vars_, s)) for s in sizes]
    for name, dt, dims in fam['inputs']:
        v = Val(name, dt, [tuple(a[d] if isinstance(d, str) else d for d in dims) for a in assigns])
        b.vals.append(v)
        b.inputs.append((v, dims))
    if rec['family'] == 'ids':
        _embed(b, {'in': [0], 'p': 0})
    built_layers = []
    for i, L in enumerate(rec['layers']):
        b.layer = i
        save = (len(b.nodes), len(b.vals), len(b.inits), len(b.init_vals), len(b.used), len(b.inputs))
        try:
            if OPS[L['op']]['minopset'] > b.opset:
                raise Skip('opset')
            OPS[L['op']]['f'](b, L)
            built_layers.append(L['op'])
        except Skip:
            del b.nodes[save[0]:]
            del b.vals[save[1]:]
            del b.inits[save[2]:]
            del b.init_vals[save[3]:]
            del b.used[save[4]:]
            del b.inputs[save[5]:]
    # every input must be used, and something must be computed
    inputs_names = [v.name for v, _ in b.inputs]
    if not any(v.name not in inputs_names for v in b.vals):
        b.node('Relu', [next(v for v in b.vals if F(v))], 'f32', same(next(v for v in b.vals if F(v))))
    for v, dims in b.inputs:
        if v.name not in b.used:
            b.layer += 1
            if v.dt == 'i64':
                _embed(b, {'in': [0], 'p': 0})
            else:
                b.node('Tanh', [v], 'f32', same(v))
    for j, c in enumerate(rec.get('custom') or []):
        b.layer = 50 + j
        cand = [v for v in b.vals if F(v)]
        x = cand[c % len(cand)]
        at = dict(alpha=[0.5, -3.25, 1e-30][c % 3], k=[-(2 ** 40), 0, 7][c % 3], mode=['nearest', 'x y', '\u00e9'][c % 3],
                  ints=[1, -2, 2 ** 33], floats=[0.1, -2.5], strs=['a', 'b c'],
                  t=numpy_helper.from_array(np.arange(c % 5 + 1, dtype=np.float32), 'tv'))
        keys = sorted(at)
        at = {k: at[k] for i, k in enumerate(keys) if (c >> (i % 5)) & 1 or c % 7 == i}
        b.node('AcmeOp%d' % (c % 2), [x], 'f32', same(x), domain=['com.acme', 'com.acme', 'org.zeta'][c // 2 % 3], **at)
    # outputs: the emitted values nothing consumes, plus extra intermediate ones
    used = set()
    for n in b.nodes:
        used.update(n.input)
    outs = [v for v in b.vals if v.name not in used and v.name not in inputs_names]
    if not outs:
        outs = [b.vals[-1]]
    outs = outs[-4:] if rec.get('maxouts', 4) == 4 else outs[-rec['maxouts']:]
    outs += [v for v in b.keep if v not in outs]
    cand = [v for v in b.vals if v.name not in inputs_names and v not in outs]
    for e in rec.get('extra', []):
        if cand:
            c = cand[e % len(cand)]
            if c not in outs:
                outs.append(c)
    names = list(vars_)
    gin = []
    anon = rec.get('anon', 0)  # sizes that are declared by neither value nor name
    for v, dims in b.inputs:
        dd = [(None if anon >> (k + len(gin)) % 6 & 1 else d) if rec['dyn'] and isinstance(d, str) else
              (assigns[0][d] if isinstance(d, str) else d) for k, d in enumerate(dims)]
        gin.append(helper.make_tensor_value_info(v.name, TP[v.dt], dd))
    if rec.get('initin'):
        for t in b.inits[:2]:
            gin.append(helper.make_tensor_value_info(t.name, t.data_type, list(t.dims)))
    gout = []
    for v in outs:
        if rec.get('outdims') and not rec['dyn']:
            gout.append(helper.make_tensor_value_info(v.name, TP[v.dt], list(v.shapes[0])))
        else:
            gout.append(helper.make_tensor_value_info(v.name, TP[v.dt], [
                None if anon >> (k + len(gout)) % 6 & 1 else 'd%d_%d' % (len(gout), k) for k in range(v.rank)]))
    vinfo = []
    if rec.get('vinfo') and not rec['dyn']:
        on = {v.name for v in outs}
        for v in b.vals:
            if (v.name not in on or rec['vinfo'] == 'all') and v.name not in inputs_names:
                vinfo.append(helper.make_tensor_value_info(v.name, TP[v.dt], list(v.shapes[0])))
    fixed_topk = branches.fix_topk(b, rec['ifs']) if rec.get('ifs') else 0
    nodes = list(b.nodes)
    if rec.get('shuffle') is not None:
        random.Random(rec['shuffle']).shuffle(nodes)
    g = helper.make_graph(nodes, rec.get('gname', 'g'), gin, gout, initializer=b.inits, value_info=vinfo)
    ops = [helper.make_opsetid('', b.opset)]
    if rec.get('customdom') or rec.get('custom'):
        ops.append(helper.make_opsetid('com.acme', 1))
        if any(n.domain == 'org.zeta' for n in b.nodes):
            ops.append(helper.make_opsetid('org.zeta', 1))
    m = helper.make_model(g, opset_imports=ops, producer_name='dst')
    m.ir_version = 8 if b.opset <= 17 else 9
    B_ = Built()
    B_.proto = m
    B_.branchy = None
    B_.fixed_topk = fixed_topk
    if rec.get('ifs'):
        # the same model with stretches of it in branches; `proto` stays the flat one, for the reference
        bn, bi = branches.wrap(list(b.nodes), b.inits, [v.name for v in outs], [i.name for i in gin], rec['ifs'])
        if rec.get('shuffle') is not None:
            random.Random(rec['shuffle']).shuffle(bn)
        bg = helper.make_graph(bn, rec.get('gname', 'g'), gin, gout, initializer=bi)
        B_.branchy = helper.make_model(bg, opset_imports=ops, producer_name='dst')
        B_.branchy.ir_version = m.ir_version
    B_.inputs = [(v.name, v.dt, dims, v.shapes) for v, dims in b.inputs]
    B_.outputs = [v.name for v in outs]
    B_.outvals = outs
    B_.vals = b.vals
    B_.assigns = assigns
    B_.ctl = b.ctlvals
    B_.vars = vars_
    B_.layers = built_layers
    B_.inits = {t.name: a for (v, a), t in zip(b.init_vals, b.inits)}
    return B_


def ordered(model):
    """A copy of the model with its nodes in a valid order (for the reference evaluator)."""
    m = onnx.ModelProto()
    m.CopyFrom(model)
    have = {t.name for t in m.graph.initializer} | {i.name for i in m.graph.input} | {''}
    todo = list(m.graph.node)
    res = []
    while todo:
        rest = []
        for n in todo:
            if all(i in have for i in n.input):
                res.append(n)
                have.update(n.output)
            else:
                rest.append(n)
        if len(rest) == len(todo):
            raise ValueError('not a runnable graph: missing %r' % [
                [i for i in n.input if i not in have] for n in rest[:3]])
        todo = rest
    copies = []
    for n in res:
        c = onnx.NodeProto()
        c.CopyFrom(n)
        copies.append(c)
    del m.graph.node[:]
    m.graph.node.extend(copies)
    return m


def data(built, k, dseed=0):
    """Input arrays for size assignment k."""
    out = {}
    for i, (name, dt, dims, shapes) in enumerate(built.inputs):
        r = np.random.RandomState((dseed * 31 + i * 7 + k) % (2 ** 31))
        if name in built.ctl:
            out[name] = built.ctl[name][k].copy()
        elif dt == 'i64':
            out[name] = r.randint(0, 16, size=shapes[k]).astype(np.int64)
        else:
            out[name] = (r.randint(-16, 17, size=shapes[k]) / 8.0).astype(DT[dt])
    return out


def zeros(built, k):
    return {name: built.ctl[name][k].copy() if name in built.ctl else np.zeros(shapes[k], DT[dt])
            for name, dt, dims, shapes in built.inputs}
