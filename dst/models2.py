"""More layers for the model recipes of models.py: operators and attribute combinations used less often."""
import math

import numpy as np
from onnx import TensorProto, helper

from .models import OPS, F, Skip, TP, axes_in, binary, bshape, convdim, is4, lastfix, op, same, unary

unary('Atan', 'SVA', 0.2)
unary('Sign', 'SVA', 0.2)
unary('Round', 'SVA', 0.2)


def rel(v, lo=1):
    return F(v) and v.rank >= lo


def fixaxes(v):
    """axes whose size is the same in every assignment"""
    return [i for i in range(v.rank) if len({s[i] for s in v.shapes}) == 1]


def i64(b, a, node=False):
    return b.const(np.asarray(a, np.int64), node)


@op('hardswish', 'SVA', 0.2, minopset=14)
def _hardswish(b, L):
    x = b.pick(L, 0, F)
    return b.node('HardSwish', [x], 'f32', same(x))


@op('gelu', 'SAI', 0.15, minopset=20)
def _gelu(b, L):
    x = b.pick(L, 0, F)
    return b.node('Gelu', [x], 'f32', same(x), approximate=('none', 'tanh')[L['p'] % 2])


@op('log', 'SVA', 0.2)
def _log(b, L):
    x = b.pick(L, 0, F)
    a = b.node('Abs', [x], 'f32', same(x), emit=False)
    a = b.node('Add', [a, b.const(np.float32(0.5))], 'f32', same(x), emit=False)
    return b.node('Log', [a], 'f32', same(x))


@op('reciprocal', 'SVA', 0.2)
def _recip(b, L):
    x = b.pick(L, 0, F)
    a = b.node('Abs', [x], 'f32', same(x), emit=False)
    a = b.node('Add', [a, b.const(np.float32(0.5))], 'f32', same(x), emit=False)
    return b.node('Reciprocal', [a], 'f32', same(x))


@op('softmaxax', 'SVAI', 0.3)
def _softmaxax(b, L):
    x = b.pick(L, 0, lambda v: rel(v, 2))
    ax = L['p'] % x.rank
    return b.node('Softmax', [x], 'f32', same(x), axis=ax if L['p'] // 4 % 2 else ax - x.rank)


@op('normax', 'SA', 0.25)
def _normax(b, L):
    x = b.pick(L, 0, lambda v: rel(v, 2))
    p = L['p']
    ax = p % x.rank - (x.rank if p // 4 % 2 else 0)
    opn = ('LogSoftmax', 'LpNormalization', 'Hardmax')[p // 8 % 3]
    return b.node(opn, [x], 'f32', same(x), axis=ax)


@op('boolalg', 'SVA', 0.5)
def _boolalg(b, L):
    """Comparisons combined by logic, used as a mask."""
    x = b.pick(L, 0, F)
    p = L['p']
    z = b.const(np.float32((-0.25, 0.0, 0.5)[p % 3]))
    y = b.pick(L, 1, lambda v: F(v) and v.shapes == x.shapes)
    names = ['Greater', 'Less', 'Equal'] + (['LessOrEqual', 'GreaterOrEqual'] if b.opset >= 12 else [])
    e = b.node(names[p % len(names)], [x, z], 'bool', same(x), emit=False)
    f = b.node(names[p // 5 % len(names)], [y, x], 'bool', same(x), emit=False)
    g = b.node(('And', 'Or', 'Xor')[p // 25 % 3], [e, f], 'bool', same(x), emit=False)
    if p // 75 % 2:
        return b.node('Where', [g, x, z], 'f32', same(x))
    return b.node('Cast', [g], 'f32', same(x), to=TensorProto.FLOAT)


@op('intmath', 'SVA', 0.4)
def _intmath(b, L):
    """Integer arithmetic on computed values: division and remainder of negative numbers too."""
    x = b.pick(L, 0, F)
    p = L['p']
    dt = ('i64', 'i32')[p % 2]
    s = b.node('Mul', [x, b.const(np.float32(4.0))], 'f32', same(x), emit=False)
    s = b.node('Clip', [s, b.const(np.float32(-1000)), b.const(np.float32(1000))], 'f32', same(x), emit=False)
    i = b.node('Cast', [s], dt, same(x), emit=False, to=TP[dt])
    c = b.const(np.array((3, -2, 5)[p // 2 % 3], np.int64 if dt == 'i64' else np.int32))
    opn = ('Div', 'Mod', 'Mod', 'Sub', 'Mul', 'Max')[p // 6 % 6]
    at = dict(fmod=1) if opn == 'Mod' and p // 36 % 2 else {}
    y = b.node(opn, [i, c], dt, same(x), emit=False, **at)
    return b.node('Cast', [y], 'f32', same(x), to=TensorProto.FLOAT)


@op('powmix', 'SVA', 0.2)
def _powmix(b, L):
    x = b.pick(L, 0, F)
    a = b.node('Abs', [x], 'f32', same(x), emit=False)
    a = b.node('Add', [a, b.const(np.float32(0.25))], 'f32', same(x), emit=False)
    e = b.const((np.int64(2), np.float32(0.5), np.int32(3), np.float32(-1.0))[L['p'] % 4] if L['p'] % 2 else np.float32(0.5))
    return b.node('Pow', [a, e], 'f32', same(x))


@op('cliphalf', 'SVAI', 0.3)
def _cliphalf(b, L):
    x = b.pick(L, 0, F)
    c = b.const(np.float32(0.25), L['p'] // 2 % 2 == 0)
    return b.node('Clip', [x, None, c] if L['p'] % 2 else [x, c], 'f32', same(x))


@op('minmax3', 'SVA', 0.3)
def _minmax3(b, L):
    """Variadic operators with broadcasting operands."""
    x = b.pick(L, 0, rel)
    fa = fixaxes(x)
    row = tuple(x.shapes[0][i] if i in fa and i == x.rank - 1 else 1 for i in range(x.rank))
    c = b.const(b.weight(row))
    y = b.pick(L, 1, lambda v: F(v) and v.shapes == x.shapes)
    opn = ('Sum', 'Max', 'Min', 'Sum')[L['p'] % 4]
    ins = [[c, x, y], [x, c, y], [x, y, c]][L['p'] // 4 % 3]
    return b.node(opn, ins, 'f32', same(x))


@op('outersum', 'SVA', 0.25)
def _outer(b, L):
    """Broadcasting on both sides."""
    x = b.pick(L, 0, lambda v: F(v) and v.rank == 2 and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] <= 16)
    ax = [1] if L['p'] % 2 else [2]
    sh = [(s[0], 1, s[1]) if ax == [1] else (s[0], s[1], 1) for s in x.shapes]
    u = axes_in(b, L, 'Unsqueeze', x, ax, 'f32', sh, 13, emit=False)
    c = b.const(b.weight((3, 1) if ax == [1] else (1, 3)))
    return b.node(('Sum', 'Add', 'Max', 'Mul')[L['p'] // 2 % 4], [u, c] if L['p'] // 8 % 2 else [c, u], 'f32',
                  [bshape(s, c.shapes[0]) for s in sh])


# -- reductions ----------------------------------------------------------------------------------
@op('reducex', 'SVA', 0.6)
def _reducex(b, L):
    x = b.pick(L, 0, lambda v: rel(v, 2))
    p = L['p']
    opn = ('ReduceProd', 'ReduceL2', 'ReduceMean', 'ReduceMax', 'ReduceMin', 'ReduceSum')[p % 6]
    kd = p // 6 % 2
    ax = [p // 12 % x.rank]
    if p // 48 % 3 == 0 and x.rank > 2:
        ax = sorted({ax[0], (ax[0] + 1) % x.rank})
    if opn == 'ReduceProd' and any(int(np.prod([s[i] for i in ax])) > 16 for s in x.shapes):
        opn = 'ReduceL2'
    if p // 144 % 3 == 1:
        ax = [a - x.rank for a in ax]
    neg = [a % x.rank for a in ax]
    sh = [tuple(1 if i in neg else d for i, d in enumerate(s) if kd or i not in neg) for s in x.shapes]
    return axes_in(b, L, opn, x, ax, 'f32', sh, 13 if opn == 'ReduceSum' else 18, keepdims=kd)


@op('reducenone', 'SVA', 0.2, minopset=18)
def _reducenone(b, L):
    """Empty axes: a reduction over nothing, or over everything."""
    x = b.pick(L, 0, lambda v: rel(v, 2))
    opn = ('ReduceMean', 'ReduceMax', 'ReduceSum')[L['p'] % 3]
    if L['p'] // 3 % 2:
        return b.node(opn, [x], 'f32', same(x), noop_with_empty_axes=1)
    return b.node(opn, [x], 'f32', [(1,) * x.rank] * b.K, keepdims=1)


@op('argmaxx', 'SVA', 0.3)
def _argmaxx(b, L):
    x = b.pick(L, 0, lambda v: rel(v, 2))
    p = L['p']
    ax = p % x.rank
    kd = p // 4 % 2
    sh = [s[:ax] + ((1,) if kd else ()) + s[ax + 1:] for s in x.shapes]
    a = b.node('ArgMax', [x], 'i64', sh, emit=False, axis=ax if p // 8 % 2 else ax - x.rank, keepdims=kd,
               select_last_index=p // 16 % 2)
    return b.node('Cast', [a], 'f32', sh, to=TensorProto.FLOAT)


@op('topkx', 'SA', 0.2)
def _topkx(b, L):
    p = L['p']
    x = b.pick(L, 0, lambda v: rel(v, 2) and all(s[p % v.rank] >= 2 for s in v.shapes))
    ax = p % x.rank
    k = i64(b, [1 + p // 4 % 2])
    sh = [s[:ax] + (1 + p // 4 % 2,) + s[ax + 1:] for s in x.shapes]
    vs = b.node('TopK', [x, k], ['f32', 'i64'], [sh, sh], n=2, axis=ax, largest=p // 8 % 2, emit=False)
    b.vals.append(vs[0])
    return b.node('Cast', [vs[1]], 'f32', sh, to=TensorProto.FLOAT)


@op('cumsumx', 'SVA', 0.2)
def _cumsumx(b, L):
    x = b.pick(L, 0, lambda v: rel(v, 2))
    ax = L['p'] % x.rank
    return b.node('CumSum', [x, b.const(np.array(ax - (x.rank if L['p'] // 16 % 2 else 0), np.int64))], 'f32', same(x),
                  exclusive=L['p'] // 4 % 2, reverse=L['p'] // 8 % 2)


@op('triluk', 'SVA', 0.25, minopset=14)
def _triluk(b, L):
    x = b.pick(L, 0, lambda v: rel(v, 2))
    return b.node('Trilu', [x, b.const(np.array(L['p'] // 2 % 5 - 2, np.int64))], 'f32', same(x), upper=L['p'] % 2)


# -- selection -----------------------------------------------------------------------------------
@op('onehot', 'SVA', 0.25)
def _onehot(b, L):
    x = b.pick(L, 0, lambda v: rel(v, 2) and v.rank <= 3)
    p = L['p']
    sh = [s[:-1] for s in x.shapes]
    a = b.node('ArgMax', [x], 'i64', sh, emit=False, axis=-1, keepdims=0)
    if p % 3 == 0:
        a = b.node('Sub', [a, b.const(np.int64(2))], 'i64', sh, emit=False)
    ax = (-1, 0, 1)[p // 3 % 3]
    q = ax if ax >= 0 else x.rank - 1
    d = i64(b, 5)
    return b.node('OneHot', [a, d, b.const(np.array([-0.5, 0.75], np.float32))], 'f32',
                  [s[:q] + (5,) + s[q:] for s in sh], axis=ax)


@op('compress', 'SVA', 0.2)
def _compress(b, L):
    p = L['p']
    x = b.pick(L, 0, lambda v: rel(v, 2) and any(s >= 2 for s in [min(t[i] for t in v.shapes) for i in range(v.rank)]))
    cand = [i for i in range(x.rank) if min(t[i] for t in x.shapes) >= 2]
    ax = cand[p % len(cand)]
    m = min(min(t[ax] for t in x.shapes), 6)
    cond = np.array([(p // 4 >> (i % 5)) & 1 for i in range(m)], np.bool_)
    cond[p % m] = True
    k = int(cond.sum())
    return b.node('Compress', [x, b.const(cond)], 'f32', [s[:ax] + (k,) + s[ax + 1:] for s in x.shapes], axis=ax)


@op('gather0', 'SVAI', 0.3)
def _gather0(b, L):
    """One index: the axis disappears."""
    x = b.pick(L, 0, lambda v: rel(v, 2))
    ax = L['p'] % x.rank
    i = b.const(np.array((0, -1)[L['p'] // 4 % 2], np.int64), L['p'] // 8 % 2 == 0)
    return b.node('Gather', [x, i], 'f32', [s[:ax] + s[ax + 1:] for s in x.shapes], axis=ax)


@op('gathernd', 'SVA', 0.25)
def _gathernd(b, L):
    x = b.pick(L, 0, lambda v: rel(v, 2) and v.rank <= 4)
    p = L['p']
    m = [min(s[i] for s in x.shapes) for i in range(x.rank)]
    k = 1 + p % x.rank
    idx = np.array([[(p // 3 + 5 * r + c) % m[c] for c in range(k)] for r in range(3)], np.int64)
    if p // 7 % 2:
        idx[0] -= np.array(m[:k], np.int64) if all(len({s[i] for s in x.shapes}) == 1 for i in range(k)) else 0
    return b.node('GatherND', [x, i64(b, idx)], 'f32', [(3,) + s[k:] for s in x.shapes])


@op('scatternd', 'SVA', 0.25)
def _scatternd(b, L):
    x = b.pick(L, 0, lambda v: rel(v, 1) and len(fixaxes(v)) >= v.rank - 1 and 0 not in fixaxes(v) and v.rank <= 4 or rel(v, 1) and len(fixaxes(v)) == v.rank)
    p = L['p']
    m = min(s[0] for s in x.shapes)
    if m < 2:
        raise Skip('size')
    idx = np.array([[p % m], [(p + 1) % m]], np.int64)
    at = dict(reduction=('none', 'add', 'mul')[p // 5 % 3]) if b.opset >= 16 else {}
    up = b.const(b.weight((2,) + x.shapes[0][1:]))
    return b.node('ScatterND', [x, i64(b, idx), up], 'f32', same(x), **at)


@op('scatterel', 'SA', 0.2)
def _scatterel(b, L):
    x = b.pick(L, 0, lambda v: rel(v, 2))
    p = L['p']
    ax = p % x.rank
    shp = tuple(1 if i != ax else min(2, min(s[i] for s in x.shapes)) for i in range(x.rank))
    idx = np.arange(shp[ax]).reshape([-1 if i == ax else 1 for i in range(x.rank)])
    at = dict(reduction=('none', 'add')[p // 5 % 2]) if b.opset >= 16 else {}
    return b.node('ScatterElements', [x, i64(b, idx), b.const(b.weight(shp))], 'f32', same(x), axis=ax, **at)


@op('slicex', 'SVA', 0.5)
def _slicex(b, L):
    """Slices with steps, from the end, backwards, along two axes."""
    p = L['p']
    x = b.pick(L, 0, lambda v: rel(v, 2) and any(min(s[i] for s in v.shapes) >= 4 for i in range(v.rank)))
    cand = [i for i in range(x.rank) if min(s[i] for s in x.shapes) >= 4]
    ax = cand[p % len(cand)]
    st, en, step = [(0, 2 ** 31 - 1, 2), (-3, -1, 1), (-1, -2 ** 31, -1), (1, -1, 1), (-2, 0, -1), (0, 4, 3), (-1, -5, -2), (-100, 2, 1)][p // 4 % 8]
    n = lambda d: len(range(*slice(st, en if en > -2 ** 31 else None, step).indices(d)))
    sh = [s[:ax] + (n(s[ax]),) + s[ax + 1:] for s in x.shapes]
    a = ax - x.rank if p // 32 % 2 else ax
    ins = [x, i64(b, [st], p // 64 % 2), i64(b, [en], p // 64 % 2), i64(b, [a], p // 64 % 2)]
    if step != 1 or p // 128 % 2:
        ins.append(i64(b, [step]))
    return b.node('Slice', ins, 'f32', sh)


@op('slice2', 'SVAI', 0.3)
def _slice2(b, L):
    x = b.pick(L, 0, lambda v: rel(v, 2) and all(min(s[i] for s in v.shapes) >= 2 for i in (v.rank - 1, v.rank - 2)))
    r = x.rank
    sh = [s[:-2] + (s[-2] - 1, s[-1] - 1) for s in x.shapes]
    if L['p'] % 2:
        ax, st, en = [r - 1, r - 2], [1, 0], [2 ** 40, -1]
    else:
        ax, st, en = [-2, -1], [1, 0], [2 ** 31 - 1, -1]
    return b.node('Slice', [x, i64(b, st), i64(b, en), i64(b, ax)], 'f32', sh)


@op('splitx', 'SVA', 0.4)
def _splitx(b, L):
    """Equal parts without stating sizes, or unequal ones; only some parts used."""
    p = L['p']
    x = b.pick(L, 0, lambda v: rel(v, 2) and any(v.shapes[0][i] >= 2 for i in fixaxes(v)))
    cand = [i for i in fixaxes(x) if x.shapes[0][i] >= 2]
    ax = cand[p % len(cand)]
    d = x.shapes[0][ax]
    n = 2 if d % 2 == 0 or d < 3 else 3
    if d % n:
        parts = [1, d - 1]
    elif p // 4 % 2:
        parts = [d // n] * n
    else:
        parts = [1, d - 1]
    n = len(parts)
    shs = [[s[:ax] + (q,) + s[ax + 1:] for s in x.shapes] for q in parts]
    at = dict(axis=ax if p // 8 % 2 else ax - x.rank)
    ins = [x]
    if len(set(parts)) == 1 and p // 16 % 2:
        if b.opset >= 18:
            at['num_outputs'] = n
    elif b.opset < 13:
        at['split'] = parts
    else:
        ins.append(i64(b, parts))
    vs = b.node('Split', ins, ['f32'] * n, shs, n=n, emit=False, **at)
    b.vals.append(vs[p % n])
    return vs[p % n]


@op('flattenx', 'SVA', 0.3)
def _flattenx(b, L):
    p = L['p']
    x = b.pick(L, 0, lambda v: rel(v, 2) and v.rank <= 4)
    fa = fixaxes(x)
    cand = [a for a in range(0, x.rank + 1) if sum(i not in fa for i in range(a)) <= 1 and sum(i not in fa for i in range(a, x.rank)) <= 1]
    if not cand:
        raise Skip('two variables')
    ax = cand[p % len(cand)]
    sh = [(int(np.prod(s[:ax])), int(np.prod(s[ax:]))) for s in x.shapes]
    return b.node('Flatten', [x], 'f32', sh, axis=ax if p // 5 % 2 or ax == x.rank else ax - x.rank)


@op('transposedef', 'SVAI', 0.3)
def _transdef(b, L):
    x = b.pick(L, 0, lambda v: rel(v, 2))
    return b.node('Transpose', [x], 'f32', [s[::-1] for s in x.shapes])


@op('concatx', 'SVAI', 0.3)
def _concatx(b, L):
    """Three operands, one of them twice or constant, along an axis counted from the end."""
    p = L['p']
    x = b.pick(L, 0, lambda v: rel(v, 2))
    ax = p % x.rank
    ins = [x, x]
    sh = [s[:ax] + (2 * s[ax],) + s[ax + 1:] for s in x.shapes]
    fa = fixaxes(x)
    if p // 4 % 2 and all(i in fa for i in range(x.rank) if i != ax):
        c = b.const(b.weight(tuple(2 if i == ax else x.shapes[0][i] for i in range(x.rank))), p // 8 % 2 == 0)
        ins.insert(p // 16 % 3, c)
        sh = [s[:ax] + (2 * s[ax] + 2,) + s[ax + 1:] for s in x.shapes]
    return b.node('Concat', ins, 'f32', sh, axis=ax - x.rank if p // 64 % 2 else ax)


@op('unsq2', 'SVAI', 0.3)
def _unsq2(b, L):
    x = b.pick(L, 0, lambda v: rel(v, 1) and v.rank <= 2)
    p = L['p']
    ax = [0, x.rank + 1] if p % 2 else [-1, 0]
    sh = [(1,) + s + (1,) for s in x.shapes]
    u = axes_in(b, L, 'Unsqueeze', x, ax, 'f32', sh, 13, emit=p // 2 % 2 == 0)
    sq = [0] if p // 4 % 2 else [-1]
    return axes_in(b, L, 'Squeeze', u, sq, 'f32', [s[1:] if sq == [0] else s[:-1] for s in sh], 13)


@op('padx', 'SVA', 0.4)
def _padx(b, L):
    """Padding by reflection, by the edge, with a stated value, or along stated axes."""
    p = L['p']
    x = b.pick(L, 0, lambda v: rel(v, 2) and all(min(s[i] for s in v.shapes) >= 3 for i in (v.rank - 1,)))
    r = x.rank
    mode = ('constant', 'reflect', 'edge', 'constant')[p % 4]
    beg, end = [(1, 2), (0, 1), (2, 0)][p // 4 % 3]
    sh = [s[:-1] + (s[-1] + beg + end,) for s in x.shapes]
    at = {} if mode == 'constant' and p // 36 % 2 else dict(mode=mode)
    val = b.const(np.float32(0.5)) if mode == 'constant' and p // 72 % 2 else None
    if b.opset >= 18 and p // 144 % 2:
        ins = [x, i64(b, [beg, end]), val, i64(b, [-1] if p // 288 % 2 else [r - 1])]
    else:
        ins = [x, i64(b, [0] * (r - 1) + [beg] + [0] * (r - 1) + [end])] + ([val] if val is not None else [])
    return b.node('Pad', ins, 'f32', sh, **at)


@op('expandx', 'SVA', 0.3)
def _expandx(b, L):
    x = b.pick(L, 0, lambda v: rel(v, 1) and v.rank <= 3)
    if L['p'] % 2:
        return b.node('Expand', [x, i64(b, [2] + [1] * x.rank, L['p'] // 2 % 2)], 'f32', [(2,) + s for s in x.shapes])
    return b.node('Expand', [x, i64(b, [1])], 'f32', same(x))


# -- shapes as values ----------------------------------------------------------------------------
@op('shapepart', 'SV', 0.4, minopset=15)
def _shapepart(b, L):
    """Part of a shape gives a new shape."""
    p = L['p']
    x = b.pick(L, 0, lambda v: rel(v, 2))
    r = x.rank
    at = [dict(start=1), dict(end=-1), dict(start=-1), dict(start=0, end=1)][p % 4]
    cut = [slice(1, None), slice(None, -1), slice(-1, None), slice(0, 1)][p % 4]
    n = len(x.shapes[0][cut])
    s = b.node('Shape', [x], 'i64', [(n,)] * b.K, emit=False, **at)
    t = b.node('ConstantOfShape', [s], 'f32', [q[cut] for q in x.shapes],
               **({} if p // 4 % 3 == 0 else dict(value=_tv(0.5))))
    return t


def _tv(v):
    from onnx import numpy_helper
    return numpy_helper.from_array(np.array([v], np.float32), 'v')


@op('nonzeroc', 'SV', 0.15)
def _nonzeroc(b, L):
    """Indices of the set elements of a constant mask, used to pick elements."""
    x = b.pick(L, 0, lambda v: rel(v, 2))
    m = min(s[0] for s in x.shapes)
    mask = np.array([(L['p'] >> i) & 1 for i in range(m)], np.bool_)
    mask[L['p'] % m] = True
    k = int(mask.sum())
    nz = b.node('NonZero', [b.const(mask)], 'i64', [(1, k)] * b.K, emit=False)
    t = b.node('Transpose', [nz], 'i64', [(k, 1)] * b.K, emit=False, perm=[1, 0])
    return b.node('GatherND', [x, t], 'f32', [(k,) + s[1:] for s in x.shapes])


@op('constforms', 'SVA', 0.3, minopset=12)
def _constforms(b, L):
    """Constants given as plain attributes."""
    x = b.pick(L, 0, F)
    p = L['p']
    name = b.nm('const')
    at = [dict(value_float=0.5), dict(value_floats=[0.25]), dict(value_int=2), dict(value_ints=[3])][p % 4]
    b.nodes.append(b.mk('Constant', [], [name], **at))
    from .models import Val
    c = Val(name, 'f32' if p % 4 < 2 else 'i64', [() if p % 2 == 0 else (1,)] * b.K, static=True)
    if p % 4 >= 2:
        c = b.node('Cast', [c], 'f32', c.shapes, emit=False, to=TensorProto.FLOAT)
    return b.node('Mul', [x, c], 'f32', [bshape(s, c.shapes[0]) for s in x.shapes])


# -- matrices ------------------------------------------------------------------------------------
@op('bmm', 'SVAI', 0.4)
def _bmm(b, L):
    """Batched products of a value with itself transposed or with a batch of weights."""
    p = L['p']
    x = b.pick(L, 0, lambda v: lastfix(v, 32) and v.rank in (3, 4))
    k = x.shapes[0][-1]
    if p % 2:
        fa = fixaxes(x)
        w = b.init(b.weight((1,) * (x.rank - 3) + ((x.shapes[0][x.rank - 3] if x.rank - 3 in fa else 1), k, 4)))
        return b.node('MatMul', [x, w], 'f32', [s[:-1] + (4,) for s in x.shapes])
    if x.rank == 4:
        raise Skip('volume')
    w = b.init(b.weight((2, 1, k, 3)))
    return b.node('MatMul', [x, w], 'f32', [(2,) + s[:-1] + (3,) for s in x.shapes])


@op('matvec', 'SVA', 0.3)
def _matvec(b, L):
    x = b.pick(L, 0, lambda v: lastfix(v, 64))
    k = x.shapes[0][-1]
    if L['p'] % 2:
        return b.node('MatMul', [x, b.init(b.weight((k,)))], 'f32', [s[:-1] for s in x.shapes])
    if x.rank != 2 or len({s[0] for s in x.shapes}) != 1:
        t = b.node('Transpose', [x], 'f32', [s[:-2] + (s[-1], s[-2]) for s in x.shapes], emit=False,
                   perm=list(range(x.rank - 2)) + [x.rank - 1, x.rank - 2])
        return b.node('MatMul', [b.init(b.weight((k,))), t], 'f32', [s[:-2] + (s[-2],) for s in x.shapes])
    return b.node('MatMul', [b.init(b.weight((x.shapes[0][0],))), x], 'f32', [(s[-1],) for s in x.shapes])


EINSUM = [('bij,bkj->bik', 3, lambda s: (s[0], s[1], s[1]), 1), ('ij->ji', 2, lambda s: s[::-1], 0),
          ('ij,ij->i', 2, lambda s: s[:1], 1), ('...d,de->...e', None, lambda s: s[:-1] + (3,), 2),
          ('ij,kj->ik', 2, lambda s: (s[0], 3), 3), ('bij->bj', 3, lambda s: (s[0], s[2]), 0),
          ('bij->b', 3, lambda s: s[:1], 0), ('bhij,bhkj->bhik', 4, lambda s: s[:3] + (s[2],), 1)]


@op('einsumx', 'SA', 0.35)
def _einsumx(b, L):
    eq, rank, f, kind = EINSUM[L['p'] % len(EINSUM)]
    x = b.pick(L, 0, lambda v: lastfix(v) and (rank is None or v.rank == rank))
    k = x.shapes[0][-1]
    ins = [x]
    if kind == 1:
        ins.append(b.pick(L, 1, lambda v: F(v) and v.shapes == x.shapes))
    elif kind == 2:
        ins.append(b.init(b.weight((k, 3))))
    elif kind == 3:
        ins.append(b.init(b.weight((3, k))))
    return b.node('Einsum', ins, 'f32', [f(s) for s in x.shapes], equation=eq if L['p'] // 8 % 2 else eq.replace(',', ', '))


@op('matmulint', 'SVA', 0.3)
def _matmulint(b, L):
    """Integer product of clipped values."""
    x = b.pick(L, 0, lambda v: lastfix(v, 64))
    p = L['p']
    k = x.shapes[0][-1]
    s = b.node('Mul', [x, b.const(np.float32(8))], 'f32', same(x), emit=False)
    s = b.node('Clip', [s, b.const(np.float32(0)), b.const(np.float32(200))], 'f32', same(x), emit=False)
    q = b.node('Cast', [s], 'u8', same(x), emit=False, to=TensorProto.UINT8)
    w = b.init(b.weight((k, 4), 'i8' if p % 2 else 'u8', lo=-8 if p % 2 else 1))
    ins = [q, w]
    if p // 2 % 3:
        ins.append(b.init(np.uint8(3), 'z'))
        if p // 2 % 3 == 2:
            ins.append(b.init(np.array(2, w_dt(p)), 'z') if p // 6 % 2 else b.init(np.arange(4).astype(w_dt(p)), 'z'))
    sh = [t[:-1] + (4,) for t in x.shapes]
    m = b.node('MatMulInteger', ins, 'i32', sh, emit=False)
    f = b.node('Cast', [m], 'f32', sh, emit=False, to=TensorProto.FLOAT)
    return b.node('Mul', [f, b.const(np.float32(0.03125))], 'f32', sh)


def w_dt(p):
    return np.int8 if p % 2 else np.uint8


@op('qlinear', 'SA', 0.25, minopset=19)
def _qlinear(b, L):
    """Quantised product or convolution between quantising and dequantising."""
    p = L['p']
    sc, z = b.init(np.float32(0.125), 's'), b.init(np.uint8(128), 'z')
    ws, wz = b.init(np.float32(0.25), 's'), b.init(np.int8(1), 'z')
    ys, yz = b.init(np.float32(0.5), 's'), b.init(np.uint8(100), 'z')
    if p % 2:
        x = b.pick(L, 0, lambda v: lastfix(v, 64))
        q = b.node('QuantizeLinear', [x, sc, z], 'u8', same(x), emit=False)
        w = b.init(b.weight((x.shapes[0][-1], 3), 'i8'))
        sh = [s[:-1] + (3,) for s in x.shapes]
        y = b.node('QLinearMatMul', [q, sc, z, w, ws, wz, ys, yz], 'u8', sh, emit=False)
    else:
        x = b.pick(L, 0, lambda v: is4(v) and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] <= 8)
        q = b.node('QuantizeLinear', [x, sc, z], 'u8', same(x), emit=False)
        w = b.init(b.weight((2, x.shapes[0][1], 3, 3), 'i8'))
        if p // 2 % 3 == 0:
            sh = [(s[0], 2, s[2], s[3]) for s in x.shapes]
            y = b.node('ConvInteger', [q, w, z, wz], 'i32', sh, emit=False, kernel_shape=[3, 3], pads=[1, 1, 1, 1])
            return b.node('Cast', [y], 'f32', sh, to=TensorProto.FLOAT)
        ins = [q, sc, z, w, ws, wz, ys, yz]
        if p // 6 % 2:
            ins.append(b.init(b.weight((2,), 'i32')))
        st = 1 + p // 12 % 2
        sh = [(s[0], 2, (s[2] - 1) // st + 1, (s[3] - 1) // st + 1) for s in x.shapes]
        y = b.node('QLinearConv', ins, 'u8', sh, emit=False, kernel_shape=[3, 3], pads=[1, 1, 1, 1], strides=[st, st])
    return b.node('DequantizeLinear', [y, ys, yz], 'f32', sh)


@op('quantdef', 'SA', 0.15, minopset=19)
def _quantdef(b, L):
    """Quantising without a zero point."""
    x = b.pick(L, 0, F)
    sc = b.init(np.float32(0.0625), 's')
    q = b.node('QuantizeLinear', [x, sc], 'u8', same(x), emit=False)
    return b.node('DequantizeLinear', [q, sc], 'f32', same(x))


@op('gru', 'S', 0.2)
def _gru(b, L):
    p = L['p']
    x = b.pick(L, 0, lambda v: F(v) and v.rank == 3 and lastfix(v, 16))
    k = x.shapes[0][-1]
    h, nd = 3, 1 + p % 2
    g = 3 if p // 2 % 2 else 4
    at = dict(hidden_size=h)
    if nd == 2:
        at['direction'] = 'bidirectional'
    ins = [x, b.init(b.weight((nd, g * h, k))), b.init(b.weight((nd, g * h, h)))]
    if p // 4 % 3:
        ins.append(b.init(b.weight((nd, 2 * g * h))))
    sh = [[(s[0], nd, s[1], h) for s in x.shapes]] + [[(nd, s[1], h) for s in x.shapes]] * (1 if g == 3 else 2)
    n = len(sh) if p // 12 % 2 else 2
    vs = b.node('GRU' if g == 3 else 'LSTM', ins, ['f32'] * n, sh[:n], n=n, **at)
    return vs[0]


# -- images --------------------------------------------------------------------------------------
def pooldim(x, pb, pe, k, s, d, ceil):
    r = x + pb + pe - ((k - 1) * d + 1)
    o = (-(-r // s) if ceil else r // s) + 1
    if ceil and (o - 1) * s >= x + pb:
        o -= 1
    return o


def fixchan(v, lim=8):
    return len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] <= lim


def anypool(b, x, p, opn, nd, n=1, **at):
    k = [(2, 3, 2)[(p + i) % 3] for i in range(nd)]
    kind = p // 3 % 5
    at['kernel_shape'] = k
    st = [1 + (p // 15 + i) % 2 for i in range(nd)]
    if kind:
        at['strides'] = st
    else:
        st = [1] * nd
    if kind == 1:
        at['auto_pad'] = ('SAME_UPPER', 'SAME_LOWER', 'VALID')[p // 30 % 3]
        if p // 30 % 3 < 2:
            f = lambda d, i: -(-d // st[i])
        else:
            f = lambda d, i: -(-(d - k[i] + 1) // st[i])
    else:
        di = [1] * nd
        pads = [0] * (2 * nd)
        ceil = 0
        if kind == 2:
            at['dilations'] = di = [1 + (p // 30 + i) % 2 for i in range(nd)]
        if kind >= 3:
            pads = [(p // 30 + i) % 2 for i in range(2 * nd)]
            at['pads'] = pads
        if kind == 4:
            at['ceil_mode'] = ceil = 1
        f = lambda d, i: pooldim(d, pads[i], pads[i + nd], k[i], st[i], di[i], ceil)
    if any(min(s[2 + i] for s in x.shapes) < 5 for i in range(nd)):
        raise Skip('small')
    sh = [s[:2] + tuple(f(d, i) for i, d in enumerate(s[2:])) for s in x.shapes]
    return sh, at


@op('poolx', 'SV', 0.6)
def _poolx(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and v.shapes[0][1] <= 8)
    sh, at = anypool(b, x, L['p'], 'MaxPool', 2)
    return b.node('MaxPool', [x], 'f32', sh, **at)


@op('avgpoolx', 'S', 0.4)
def _avgpoolx(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and v.shapes[0][1] <= 8)
    sh, at = anypool(b, x, L['p'], 'AveragePool', 2)
    if 'dilations' in at and b.opset < 19:
        raise Skip('opset')
    if L['p'] % 2:
        at['count_include_pad'] = 1
    return b.node('AveragePool', [x], 'f32', sh, **at)


@op('pool1d', 'SV', 0.3)
def _pool1d(b, L):
    x = b.pick(L, 0, lambda v: F(v) and v.rank == 3)
    sh, at = anypool(b, x, L['p'], 'MaxPool', 1)
    return b.node('MaxPool', [x], 'f32', sh, **at)


@op('pool3d', 'SV', 0.2)
def _pool3d(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and max(s[1] * s[2] * s[3] for s in v.shapes) <= 1024)
    u = axes_in(b, L, 'Unsqueeze', x, [1], 'f32', [(s[0], 1) + s[1:] for s in x.shapes], 13, emit=False)
    p = L['p']
    k = [1 + p % 2, 2, 3]
    st = [1, 2, 1 + p // 2 % 2]
    pads = [p // 4 % 2 and k[0] - 1, 0, 1, 0, 1, 1] if p // 8 % 2 else [0] * 6
    if min(min(s[2:]) for s in x.shapes) < 4 or min(s[1] for s in x.shapes) < 2:
        raise Skip('small')
    sh = [(s[0], 1) + tuple(pooldim(d, pads[i], pads[i + 3], k[i], st[i], 1, 0) for i, d in enumerate(s[1:])) for s in x.shapes]
    at = dict(kernel_shape=k, strides=st)
    if any(pads):
        at['pads'] = pads
    y = b.node('MaxPool', [u], 'f32', sh, emit=False, **at)
    return axes_in(b, L, 'Squeeze', y, [1], 'f32', [s[:1] + s[2:] for s in sh], 13)


@op('argpool', 'SV', 0.2)
def _argpool(b, L):
    """MaxPool with its second output."""
    x = b.pick(L, 0, lambda v: is4(v) and v.shapes[0][1] <= 8 and all(s[2] >= 4 and s[3] >= 4 for s in v.shapes))
    sh = [(s[0], s[1], (s[2] - 1) // 2 + 1, (s[3] - 1) // 2 + 1) for s in x.shapes]
    vs = b.node('MaxPool', [x], ['f32', 'i64'], [sh, sh], n=2, emit=False, kernel_shape=[3, 3], strides=[2, 2], pads=[1, 1, 1, 1])
    b.vals.append(vs[0])
    return b.node('Cast', [vs[1]], 'f32', sh, to=TensorProto.FLOAT)


@op('conv3d', 'SA', 0.2)
def _conv3d(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and fixchan(v) and v.shapes[0][1] >= 2)
    p = L['p']
    c = x.shapes[0][1]
    u = axes_in(b, L, 'Unsqueeze', x, [1], 'f32', [(s[0], 1) + s[1:] for s in x.shapes], 13, emit=False)
    k = [2, 3, 3 if p % 2 else 1]
    pads = [0, 1, k[2] // 2, 1, 1, k[2] // 2] if p // 2 % 2 else [1, 1, k[2] // 2, 0, 1, k[2] // 2]
    w = b.init(b.weight((1, 1) + tuple(k)))
    sh = [(s[0], 1, c, s[2], s[3]) for s in x.shapes]
    y = b.node('Conv', [u, w], 'f32', sh, emit=False, kernel_shape=k, pads=pads)
    return axes_in(b, L, 'Squeeze', y, [1], 'f32', [s[:1] + s[2:] for s in sh], 13)


@op('convautox', 'SVA', 0.3)
def _convautox(b, L):
    """Automatic padding of either kind, uneven kernels."""
    p = L['p']
    x = b.pick(L, 0, lambda v: is4(v) and fixchan(v, 4) and all(min(s[2:]) >= 4 for s in v.shapes))
    c = x.shapes[0][1]
    kh, kw = (3, 2) if p % 2 else (2, 3)
    w = b.init(b.weight((2, c, kh, kw)))
    mode = ('SAME_UPPER', 'SAME_LOWER', 'VALID')[p // 2 % 3]
    at = dict(auto_pad=mode)
    if mode == 'VALID':
        sh = [(s[0], 2, s[2] - kh + 1, s[3] - kw + 1) for s in x.shapes]
    else:
        st = 1 + p // 6 % (3 if b.rec.get('odd') else 2)
        sh = [(s[0], 2, -(-s[2] // st), -(-s[3] // st)) for s in x.shapes]
        at['strides'] = [st, st]
    if p // 12 % 2:
        at['kernel_shape'] = [kh, kw]
    return b.node('Conv', [x, w], 'f32', sh, **at)


@op('convtx', 'SA', 0.4)
def _convtx(b, L):
    p = L['p']
    x = b.pick(L, 0, lambda v: is4(v) and fixchan(v) and all(max(s[2:]) <= 40 for s in v.shapes))
    c = x.shapes[0][1]
    kind = p % 5
    g = 2 if kind == 3 and c % 4 == 0 else 1  # the reference fails on one channel per group
    k = 3
    w = b.init(b.weight((c, 2, k, k)))
    at, st, op_, pads, di = {}, 2, 0, [0] * 4, 1
    if kind == 0:
        st = 1
    elif kind == 1:
        at['output_padding'] = [1, 1]
        op_ = 1
        pads = [1, 1, 1, 1]
    elif kind == 2:
        pads = [1, 0, 1, 2]
    elif kind == 3:
        di = 2
        at['dilations'] = [2, 2]
        if g == 2:
            at['group'] = g
    if any(pads):
        at['pads'] = pads
    if st != 1:
        at['strides'] = [st, st]
    f = lambda d, i: st * (d - 1) + op_ + (k - 1) * di + 1 - pads[i] - pads[i + 2]
    if kind == 4:
        at['auto_pad'] = 'SAME_UPPER'
        f = lambda d, i: d * st
    ins = [x, w]
    if p // 5 % 2 and g == 1:
        ins.append(b.init(b.weight((2 * g,))))
    return b.node('ConvTranspose', ins, 'f32', [(s[0], 2 * g, f(s[2], 0), f(s[3], 1)) for s in x.shapes], **at)


@op('resizex', 'SA', 0.4)
def _resizex(b, L):
    p = L['p']
    x = b.pick(L, 0, lambda v: is4(v) and all(max(s[2:]) <= 40 for s in v.shapes))
    mode = ('linear', 'nearest', 'cubic')[p % 3]
    at = dict(mode=mode)
    if mode == 'cubic' and p // 3 % 2:
        at['cubic_coeff_a'] = -0.5
    if p // 6 % 2:
        at['coordinate_transformation_mode'] = ('align_corners', 'asymmetric')[p // 12 % 2]
    if b.opset >= 18 and p // 24 % 2:
        at['axes'] = [2, 3]
        sc = b.const(np.array([2, 3], np.float32))
    else:
        sc = b.const(np.array([1, 1, 2, 3], np.float32))
    sh = [(s[0], s[1], s[2] * 2, s[3] * 3) for s in x.shapes]
    return b.node('Resize', [x, None, sc], 'f32', sh, **at)


@op('resizefix', 'SA', 0.2, minopset=18)
def _resizefix(b, L):
    """Resize to a stated size along stated axes."""
    x = b.pick(L, 0, lambda v: is4(v))
    sz = i64(b, [6, 10])
    return b.node('Resize', [x, None, None, sz], 'f32', [s[:2] + (6, 10) for s in x.shapes], mode='nearest', axes=[2, 3])


@op('gridsample', 'SA', 0.2, minopset=16)
def _gridsample(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and all(s[1] >= 2 for s in v.shapes))
    g = b.node('Slice', [x, i64(b, [0]), i64(b, [2]), i64(b, [1])], 'f32', [(s[0], 2, s[2], s[3]) for s in x.shapes], emit=False)
    g = b.node('Transpose', [g], 'f32', [(s[0], s[2], s[3], 2) for s in x.shapes], emit=False, perm=[0, 2, 3, 1])
    y = b.node('GridSample', [x, g], 'f32', same(x), align_corners=L['p'] % 2)
    return y


@op('roialign', 'SA', 0.2)
def _roialign(b, L):
    p = L['p']
    x = b.pick(L, 0, lambda v: is4(v) and v.shapes[0][1] <= 8)
    n = 1 + p % 3
    rois = b.const(np.array([[0, 0, 3, 3], [1, 0, 4, 2], [2, 2, 5, 5]], np.float32)[:n])
    bi = i64(b, [0] * n)
    at = dict(output_height=2, output_width=3) if p // 3 % 2 else {}
    oh, ow = (2, 3) if at else (1, 1)
    if p // 6 % 2:
        at['sampling_ratio'] = 2
    return b.node('RoiAlign', [x, rois, bi], 'f32', [(n, s[1], oh, ow) for s in x.shapes], spatial_scale=0.5, **at)


@op('d2scrd', 'SA', 0.2)
def _d2scrd(b, L):
    x = b.pick(L, 0, lambda v: is4(v) and fixchan(v, 4) and all(max(s[2:]) <= 40 for s in v.shapes))
    if x.shapes[0][1] % 4:
        x = b.node('Concat', [x] * 4, 'f32', [(s[0], s[1] * 4) + s[2:] for s in x.shapes], emit=False, axis=1)
    return b.node('DepthToSpace', [x], 'f32', [(s[0], s[1] // 4, s[2] * 2, s[3] * 2) for s in x.shapes], blocksize=2, mode='CRD')


@op('lnx', 'SA', 0.2, minopset=17)
def _lnx(b, L):
    """Normalisation over two axes, with its mean as a further output."""
    x = b.pick(L, 0, lambda v: rel(v, 3) and len({s[-2:] for s in v.shapes}) == 1 and v.shapes[0][-1] * v.shapes[0][-2] <= 256)
    t = x.shapes[0][-2:]
    ins = [x, b.init(b.weight(t))] + ([b.init(b.weight(t))] if L['p'] % 2 else [])
    n = 1 + L['p'] // 2 % 2 * 2
    red = [s[:-2] + (1, 1) for s in x.shapes]
    if n == 1:
        return b.node('LayerNormalization', ins, 'f32', same(x), axis=-2)
    vs = b.node('LayerNormalization', ins, ['f32'] * 3, [same(x), red, red], n=3, emit=False, axis=x.rank - 2)
    b.vals.append(vs[0])
    return b.node('Add', [vs[0], vs[1]], 'f32', same(x))


@op('dropmask', 'SVA', 0.2, minopset=10)
def _dropmask(b, L):
    """Dropout (not training) with its mask."""
    x = b.pick(L, 0, F)
    ins = [x]
    at = {}
    if b.opset >= 12:
        ins.append(b.const(np.float32(0.25)))
    else:
        at['ratio'] = 0.25
    vs = b.node('Dropout', ins, ['f32', 'bool'], [same(x), same(x)], n=2, emit=False, **at)
    b.vals.append(vs[0])
    return b.node('Where', [vs[1], x, b.const(np.float32(0.5))], 'f32', same(x))


@op('rndlike', 'S', 0.1)
def _rndlike(b, L):
    x = b.pick(L, 0, F)
    opn = ('RandomUniformLike', 'RandomNormalLike')[L['p'] % 2]
    y = b.node(opn, [x], 'f32', same(x), emit=False, **(dict(seed=1.0) if L['p'] // 2 % 2 else dict(dtype=1)))
    return b.node('Add', [x, y], 'f32', same(x))


NEW = [n for n, d in OPS.items() if d['f'].__module__ == __name__]


@op('lnparts', 'S', 0)
def _lnparts(b, L):
    """Layer normalisation in parts, as exporters write it."""
    p = L['p']
    x = b.pick(L, 0, lambda v: rel(v, 2))
    sh, r = same(x), [s[:-1] + (1,) for s in x.shapes]
    m = axes_in(b, L, 'ReduceMean', x, [-1], 'f32', r, 18, emit=False, keepdims=1)
    d = b.node('Sub', [x, m], 'f32', sh, emit=False)
    q = b.node('Pow', [d, b.const(np.float32(2), p % 2 == 0)], 'f32', sh, emit=False)
    v = axes_in(b, L, 'ReduceMean', q, [-1], 'f32', r, 18, emit=False, keepdims=1)
    e = b.node('Add', [v, b.const(np.float32(1e-5))] if p % 5 else [b.const(np.float32(1e-5)), v], 'f32', r, emit=False)
    s = b.node('Sqrt', [e], 'f32', r, emit=False)
    if p % 7 == 0:
        # another subtraction of its own, as some exporters leave it
        d = b.node('Sub', [x, m], 'f32', sh, emit=False)
    return b.node('Div', [d, s], 'f32', sh)


@op('mhaq', 'S', 0, minopset=19)
def _mhaq(b, L):
    """The quantised attention product: product, dequantise, scale, mask, softmax, quantise, product."""
    p = L['p']
    x = b.pick(L, 0, lambda v: rel(v, 2) and lastfix(v, 64))
    sc, z = b.init(np.float32(0.125), 's'), b.init(np.uint8(128), 'z')
    ws, wz = b.init(np.float32(0.25), 's'), b.init(np.int8(1), 'z')
    q = b.node('QuantizeLinear', [x, sc, z], 'u8', same(x), emit=False)
    w = b.init(b.weight((x.shapes[0][-1], 4), 'i8'))
    sh = [s[:-1] + (4,) for s in x.shapes]
    y = b.node('QLinearMatMul', [q, sc, z, w, ws, wz, sc, z], 'u8', sh, emit=False)
    y = b.node('DequantizeLinear', [y, sc, z], 'f32', sh, emit=False)
    y = b.node('Div', [y, b.const(np.float32(2))], 'f32', sh, emit=False)
    y = b.node('Add', [y, b.const(np.float32(.5))], 'f32', sh, emit=False)
    if p % 4:
        y = b.node('Softmax', [y], 'f32', sh, emit=False, axis=-1)
    y = b.node('QuantizeLinear', [y, sc, z], 'u8', sh, emit=False)
    y = b.node('QLinearMatMul', [y, sc, z, b.init(b.weight((4, 3), 'i8')), ws, wz, sc, z], 'u8', [s[:-1] + (3,) for s in x.shapes], emit=False)
    return b.node('DequantizeLinear', [y, sc, z], 'f32', [s[:-1] + (3,) for s in x.shapes])


@op('convres', 'S', 0)
def _convres(b, L):
    """A residual convolution: the sum takes it on either side."""
    p = L['p']
    x = b.pick(L, 0, lambda v: F(v) and is4(v) and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] <= 16)
    c = x.shapes[0][1]
    y = b.node('Conv', [x, b.init(b.weight((c, c, 3, 3)))], 'f32', same(x), emit=False, kernel_shape=[3, 3], pads=[1, 1, 1, 1])
    y = b.node('Add', [x, y] if p % 3 else [y, x], 'f32', same(x), emit=False)
    return b.node(('Relu', 'LeakyRelu', 'Sigmoid')[p // 3 % 3], [y], 'f32', same(x))


@op('splitnum', 'SV', 0.3, minopset=18)
def _splitnum(b, L):
    """Split into a number of parts, the last of which may be smaller."""
    p = L['p']
    n = 2 + p % 3
    x = b.pick(L, 0, lambda v: rel(v, 1) and any(all(s[a] > (n - 1) * -(-s[a] // n) for s in v.shapes) for a in range(v.rank)))
    ax = [a for a in range(x.rank) if all(s[a] > (n - 1) * -(-s[a] // n) for s in x.shapes)]
    a = ax[p // 3 % len(ax)]
    part = lambda s, i: -(-s[a] // n) if i < n - 1 else s[a] - (n - 1) * -(-s[a] // n)
    sh = [[s[:a] + (part(s, i),) + s[a + 1:] for s in x.shapes] for i in range(n)]
    return b.node('Split', [x], ['f32'] * n, sh, n=n, axis=a - x.rank if p // 12 % 2 else a, num_outputs=n)


@op('convint', 'S', 0.15, minopset=13)
def _convint(b, L):
    """Integer convolution of a quantised tensor."""
    p = L['p']
    x = b.pick(L, 0, lambda v: F(v) and v.rank in (3, 4) and len({s[1] for s in v.shapes}) == 1 and v.shapes[0][1] <= 8 and
               all(min(s[2:]) >= 3 for s in v.shapes))
    sc, z = b.init(np.float32(0.125), 's'), b.init(np.uint8(128), 'z')
    q = b.node('QuantizeLinear', [x, sc, z], 'u8', same(x), emit=False)
    k, n = 1 + p % 3, x.rank - 2
    st, pd = 1 + p // 3 % 2, p // 6 % 2
    w = b.init(b.weight((3, x.shapes[0][1]) + (k,) * n, 'i8'))
    sh = [(s[0], 3) + tuple(convdim(d, 2 * pd, k, st, 1) for d in s[2:]) for s in x.shapes]
    ins = [q, w] + ([z] if p // 12 % 2 else [])
    y = b.node('ConvInteger', ins, 'i32', sh, emit=False, kernel_shape=[k] * n, strides=[st] * n, pads=[pd] * 2 * n)
    return b.node('Cast', [y], 'f32', sh, to=TensorProto.FLOAT)


@op('deconvout', 'S', 0.15)
def _deconvout(b, L):
    """A transposed convolution that states its output size."""
    p = L['p']
    x = b.pick(L, 0, lambda v: F(v) and is4(v) and len({s[1:] for s in v.shapes}) == 1 and v.shapes[0][1] <= 8 and v.shapes[0][2] <= 24)
    c, h, w = x.shapes[0][1:]
    o = [2 * h + p % 2, 2 * w + p // 2 % 2]
    wt = b.init(b.weight((c, 2, 3, 3)))
    return b.node('ConvTranspose', [x, wt], 'f32', [(s[0], 2) + tuple(o) for s in x.shapes], kernel_shape=[3, 3], strides=[2, 2], output_shape=o)


@op('einsumy', 'S', 0.2)
def _einsumy(b, L):
    """Einsum with an ellipsis, without an arrow, or with blanks."""
    p = L['p']
    x = b.pick(L, 0, lambda v: rel(v, 2) and lastfix(v, 64))
    k = x.shapes[0][-1]
    w = b.init(b.weight((k, 4)))
    if p % 3 == 0:
        return b.node('Einsum', [x, w], 'f32', [s[:-1] + (4,) for s in x.shapes], equation='...k,kn->...n' if p % 2 else '... k , k n -> ... n')
    if p % 3 == 1 and x.rank == 2:
        return b.node('Einsum', [x, w], 'f32', [(s[0], 4) for s in x.shapes], equation='ab,bc')
    if x.rank == 3:
        return b.node('Einsum', [x], 'f32', [(s[0], s[2], s[1]) for s in x.shapes], equation='abc->acb')
    return b.node('Einsum', [x], 'f32', [s[:-1] for s in x.shapes], equation='...k->...')


@op('squeezeall', 'SVA', 0.15, minopset=13)
def _squeezeall(b, L):
    """Squeeze of everything of size one."""
    x = b.pick(L, 0, lambda v: rel(v, 2) and all((1 in s) and [d == 1 for d in s] == [d == 1 for d in v.shapes[0]] for s in v.shapes))
    return b.node('Squeeze', [x], 'f32', [tuple(d for d in s if d != 1) for s in x.shapes])


@op('gemmab', 'SVA', 0.3)
def _gemmab(b, L):
    p = L['p']
    x = b.pick(L, 0, lambda v: F(v) and v.rank == 2 and lastfix(v, 64))
    k = x.shapes[0][-1]
    tb = p % 2
    w = b.init(b.weight((5, k) if tb else (k, 5)))
    ins = [x, w] + [b.init(b.weight(((5,), (1, 5), (1,), ())[p // 2 % 4]))]
    return b.node('Gemm', ins, 'f32', [(s[0], 5) for s in x.shapes], alpha=(.5, 1., 2.)[p // 8 % 3], beta=(0.25, 1., 0.)[p // 24 % 3], transB=tb)


@op('sideshape', 'SVA', 0.6, minopset=13)
def _sideshape(b, L):
    """A branch whose size alone is used, beside an output of the same node whose values are."""
    p = L['p']
    fixed = lambda v, a: v.shapes[0][a] % 2 == 0 and all(s[a] == v.shapes[0][a] for s in v.shapes)
    x = b.pick(L, 0, lambda v: rel(v, 2) and any(fixed(v, a) for a in range(v.rank)))
    a = [a for a in range(x.rank) if fixed(x, a)]
    a = a[p % len(a)]
    sh = [s[:a] + (s[a] // 2,) + s[a + 1:] for s in x.shapes]
    one, two = b.node('Split', [x], ['f32', 'f32'], [sh, sh], n=2, emit=p // 3 % 3 == 0, axis=a, **({'num_outputs': 2} if b.opset >= 18 else {}))
    if p // 2 % 2:
        one, two = two, one
    for i in range(p // 4 % 3):
        one = b.node(('Relu', 'Neg', 'Abs')[(p + i) % 3], [one], 'f32', sh, emit=False)
    s = b.node('Shape', [one], 'i64', [(x.rank,)] * b.K, emit=False)
    if p // 8 % 2:
        z = b.node('ConstantOfShape', [s], 'f32', sh, emit=False, value=helper.make_tensor("value", 1, [1], [.5]))
        return b.node('Add', [two, z], 'f32', sh)
    return b.node('Reshape', [two, s], 'f32', sh)


@op('splitskip', 'SVA', 0, minopset=13)
def _splitskip(b, L):
    """A node with two outputs of which one or the other goes on beside a path around it."""
    p = L['p']
    fixed = lambda v, a: v.shapes[0][a] % 2 == 0 and all(s[a] == v.shapes[0][a] for s in v.shapes)
    x = b.pick(L, 0, lambda v: rel(v, 2) and any(fixed(v, a) for a in range(v.rank)))
    a = [a for a in range(x.rank) if fixed(x, a)]
    a = a[p % len(a)]
    y = b.node(('Relu', 'Neg')[p % 2], [x], 'f32', same(x), emit=False)
    sh = [s[:a] + (s[a] // 2,) + s[a + 1:] for s in x.shapes]
    parts = b.node('Split', [y], ['f32', 'f32'], [sh, sh], n=2, axis=a, **({'num_outputs': 2} if b.opset >= 18 else {}))
    return b.node('Concat', [parts[p // 2 % 2], x], 'f32', [s[:a] + (s[a] + s[a] // 2,) + s[a + 1:] for s in x.shapes], axis=a)
